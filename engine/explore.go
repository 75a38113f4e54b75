package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	prefix []Decision
	model  map[string]uint64
}

type trace struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Obs     []string          `json:"obs"`
}

// hstate is the exploration state of one harness.
type hstate struct {
	name     string
	fn       *ssa.Function
	weight   float64
	queue    []item
	running  int
	used     time.Duration
	paths    int64
	complete int64
	infeas   int64
	unsup    map[string]int
	steps    int64
	branches int64
	asserts  int64
	merges   int64
	maxDepth int
	covers   map[string]bool
	cands    []*Violation
	candKeys map[string]int
	traces   []trace
	seen     int64
	stopped  string
}

type Explorer struct {
	L        *Loaded
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*hstate
	deadline time.Time
	rng      *rand.Rand
	funcs    map[string]bool
	nTraces  int
	tier     int
	maxSteps int64
	timeout  int
	onCand   func(*Violation)
}

const maxCandPerKey = 3
const maxCandHarness = 12

func (m *Machine) evalObs() []string {
	var r []string
	for _, o := range m.obsE {
		switch o.kind {
		case 0:
			r = append(r, fmt.Sprintf("%s=%d", o.label, int64(m.c.Eval(o.e[0]))))
		case 1:
			r = append(r, fmt.Sprintf("%s=%v", o.label, m.c.Eval(o.e[0]) == 1))
		case 2:
			b := make([]byte, len(o.e))
			for i, e := range o.e {
				b[i] = byte(m.c.Eval(e))
			}
			r = append(r, o.label+"="+hex.EncodeToString(b))
		}
	}
	return r
}

func NewMachine(L *Loaded, timeoutMs int) *Machine {
	return &Machine{L: L, c: NewCtx(), s: NewSolver(timeoutMs), epoch: 1,
		globals: map[*ssa.Global]*Agg{}, inited: map[*ssa.Package]int{}, fns: map[*ssa.Function]*fnInfo{},
		methods: map[methodKey]*ssa.Function{}, ndCount: map[string]int{}, covers: map[string]bool{}, hashIDs: map[string]int{},
		regions: map[*ssa.BasicBlock]*region{}, implCache: map[implKey]bool{}, b64: map[string][]*Expr{}, funcs: map[string]bool{},
		memo: map[string]Value{}}
}

func (m *Machine) resetPath(it item) {
	m.undoTrail()
	m.c.Reset(it.model)
	m.pc = m.pc[:0]
	m.sent = 0
	m.prefix = it.prefix
	m.dec = nil
	m.epoch++
	m.steps = 0
	m.ndCount = map[string]int{}
	m.ndOrder = nil
	m.obsE = nil
	m.hashApps = nil
	m.sigReg = nil
	m.nsym = 0
	m.mapNondet = false
	m.depth = 0
	m.callStack = m.callStack[:0]
	m.inInit = 0
	m.branches = 0
	m.asserts = 0
	m.merges = 0
	m.nondetBytes = 0
	m.incomplete = nil
	m.covers = map[string]bool{}
	m.b64 = map[string][]*Expr{}
	m.memo = map[string]Value{}
	m.lastPos = 0
	m.s.BeginPath()
}

// runPath executes one path; it reports how it ended.
func (m *Machine) runPath(h *hstate, it item) (kind, msg string) {
	m.harness = h.name
	m.resetPath(it)
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				kind, msg = r.kind, r.msg
				if kind == "steps" {
					m.viol(&Violation{Harness: h.name, Msg: fmt.Sprintf("does not end (%d instructions)", m.steps>>20<<20), Kind: "hang", Model: m.fullModel(m.c.model), Stack: m.stackString()})
				}
				if kind == "depth" {
					kind = "steps"
					m.viol(&Violation{Harness: h.name, Msg: "calls nest without end", Kind: "hang", Model: m.fullModel(m.c.model), Stack: clip(m.stackString(), 600)})
				}
			case *goPanic:
				kind, msg = "panic", r.msg
				m.viol(&Violation{Harness: h.name, Msg: r.msg, Kind: "panic", Model: m.fullModel(m.c.model), Stack: r.stack})
			case *engineError:
				kind, msg = "engine", r.msg+" at "+m.stackString()
				m.s.restart()
			default:
				if os.Getenv("VF_DEBUG") != "" {
					panic(r)
				}
				kind, msg = "engine", fmt.Sprint(r)+" at "+m.stackString()
				m.s.restart()
			}
		}
	}()
	m.call(nil, h.fn, nil, nil)
	return "done", ""
}

func (x *Explorer) worker(id int) {
	m := NewMachine(x.L, x.timeout)
	defer m.s.Close()
	m.maxSteps = x.maxSteps
	m.tier = x.tier
	n := 0
	for {
		x.mu.Lock()
		var h *hstate
		for {
			if stopNow.Load() || time.Now().After(x.deadline) {
				x.mu.Unlock()
				x.cond.Broadcast()
				x.merge(m)
				return
			}
			running := false
			h = nil
			for _, c := range x.hs {
				if c.running > 0 {
					running = true
				}
				if len(c.queue) == 0 {
					continue
				}
				if h == nil || float64(c.used)/c.weight < float64(h.used)/h.weight {
					h = c
				}
			}
			if h != nil {
				break
			}
			if !running {
				x.mu.Unlock()
				x.cond.Broadcast()
				x.merge(m)
				return
			}
			x.cond.Wait()
		}
		// take an item: mostly depth first, sometimes at random
		k := len(h.queue) - 1
		if x.rng.Intn(3) == 0 {
			k = x.rng.Intn(len(h.queue))
		}
		it := h.queue[k]
		h.queue[k] = h.queue[len(h.queue)-1]
		h.queue = h.queue[:len(h.queue)-1]
		h.running++
		x.mu.Unlock()

		var emitted []item
		var viols []*Violation
		m.emit = func(p []Decision, model map[string]uint64) { emitted = append(emitted, item{p, model}) }
		m.viol = func(v *Violation) { viols = append(viols, v) }
		m.deadline = x.deadline.UnixNano()
		t0 := time.Now()
		kind, msg := m.runPath(h, it)
		dt := time.Since(t0)
		if tickDebug && dt > 3*time.Second {
			fmt.Fprintln(os.Stderr, "slow path", dt, kind, m.fullModel(m.c.model), "branches", m.branches, "depth", len(m.dec))
		}
		var tr *trace
		if kind == "done" {
			tr = &trace{h.name, nonzero(m.fullModel(m.c.model)), m.evalObs()}
		}
		n++
		if n%400 == 0 {
			m.s.restart()
		}

		x.mu.Lock()
		h.running--
		h.used += dt
		h.paths++
		h.steps += m.steps
		h.branches += m.branches
		h.asserts += m.asserts
		h.merges += m.merges
		if len(m.dec) > h.maxDepth {
			h.maxDepth = len(m.dec)
		}
		for c := range m.covers {
			h.covers[c] = true
		}
		switch kind {
		case "done", "panic":
			h.complete++
		case "infeasible":
			h.infeas++
		default:
			h.unsup[kind+": "+clip(msg, 400)]++
		}
		for _, s := range m.incomplete {
			h.unsup["incomplete: "+clip(s, 300)]++
		}
		if tr != nil {
			h.seen++
			if len(h.traces) < x.nTraces {
				h.traces = append(h.traces, *tr)
			} else if k := x.rng.Int63n(h.seen); k < int64(x.nTraces) {
				h.traces[k] = *tr
			}
		}
		for _, v := range viols {
			key := v.Kind + "|" + v.Msg
			if v.Kind == "hang" {
				key = v.Kind
			}
			if v.Kind == "panic" {
				key += "|" + firstFrame(v.Stack)
			}
			if h.candKeys[key] < maxCandPerKey {
				h.candKeys[key]++
				h.cands = append(h.cands, v)
				if x.onCand != nil {
					x.onCand(v)
				}
			}
		}
		if h.stopped == "" {
			h.queue = append(h.queue, emitted...)
		}
		if len(h.cands) >= maxCandHarness && h.stopped == "" {
			h.stopped = "enough counterexamples"
			h.queue = nil
		}
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

func (x *Explorer) merge(m *Machine) {
	x.mu.Lock()
	for f := range m.funcs {
		x.funcs[f] = true
	}
	x.mu.Unlock()
}

func firstFrame(s string) string {
	if i := strings.Index(s, " < "); i > 0 {
		return s[:i]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func nonzero(m map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for k, v := range m {
		if v != 0 {
			r[k] = v
		}
	}
	return r
}

func NewExplorer(L *Loaded, names []string, tier int, seed int64) *Explorer {
	x := &Explorer{L: L, rng: rand.New(rand.NewSource(seed)), funcs: map[string]bool{}, nTraces: 12, tier: tier, maxSteps: stepLimit, timeout: 20000}
	x.cond = sync.NewCond(&x.mu)
	sort.Strings(names)
	for _, n := range names {
		x.hs = append(x.hs, &hstate{name: n, fn: L.harness[n], weight: 1, unsup: map[string]int{}, covers: map[string]bool{},
			candKeys: map[string]int{}, queue: []item{{nil, map[string]uint64{}}}})
	}
	return x
}

func (x *Explorer) Run(workers int, budget time.Duration) {
	x.deadline = time.Now().Add(budget)
	stop := time.AfterFunc(budget+time.Second, func() { x.cond.Broadcast() })
	defer stop.Stop()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); x.worker(i) }()
	}
	wg.Wait()
	for _, h := range x.hs {
		if len(h.queue) > 0 && h.stopped == "" {
			h.stopped = fmt.Sprintf("time budget (%d prefixes unexplored)", len(h.queue))
			if stopNow.Load() {
				h.stopped = fmt.Sprintf("violation confirmed (%d prefixes unexplored)", len(h.queue))
			}
		}
	}
}
