package vf

import "sync"

// Stand-ins for sync.Map under the engine (the runtime's trie hashes addresses).
var syncMaps = map[*sync.Map]map[any]any{}

func redirMapLoad(m *sync.Map, k any) (any, bool) {
	v, ok := syncMaps[m][k]
	return v, ok
}

func redirMapStore(m *sync.Map, k, v any) {
	t := syncMaps[m]
	if t == nil {
		t = map[any]any{}
		syncMaps[m] = t
	}
	t[k] = v
}

func redirMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := syncMaps[m][k]; ok {
		return x, true
	}
	redirMapStore(m, k, v)
	return v, false
}
