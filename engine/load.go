package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod = "github.com/avast/apkverifier"
	vfPath  = repoMod + "/internal/vf"
)

// Loaded is the immutable program representation shared by all workers.
type Loaded struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	rtErrType types.Type
	redirects map[string]*ssa.Function
	harness   map[string]*ssa.Function // VF_xxx -> function
	harnPkg   map[string]string        // VF_xxx -> package path
	overlay   map[string]string        // repo path -> verif path
	dropped   []string
	mu        sync.Mutex
	mcache    map[mkey]*ssa.Function
	loc       map[string]*types.Named
	rtypePtr  types.Type
	ptrs      map[types.Type]*types.Pointer
}

type mkey struct {
	t    types.Type
	pkg  *types.Package
	name string
}

// harnessOverlay maps files of /verif/harness to their place in the repository.
func harnessOverlay(harnessDir, repo string) (map[string]string, error) {
	ov := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harnessDir, p)
		ov[filepath.Join(repo, rel)] = p
		return nil
	})
	return ov, err
}

func loadEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -modfile="+buildDir+"/repo.mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
}

func Load(repo, harnessDir string, exclude map[string]bool) (*Loaded, error) {
	ov, err := harnessOverlay(harnessDir, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	patterns := map[string]bool{}
	for dst, src := range ov {
		if exclude[dst] {
			delete(ov, dst)
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
		rel, _ := filepath.Rel(repo, filepath.Dir(dst))
		patterns["./"+rel] = true
	}
	if err := substituteKeys(repo, harnessDir, ov, overlay); err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        loadEnv(),
		Fset:       fset,
		Overlay:    overlay,
		BuildFlags: []string{"-tags=purego,math_big_pure_go,verif"},
	}
	var pats []string
	for p := range patterns {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	pats = append(pats, "runtime", "crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512")
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	L := &Loaded{fset: fset, pkgs: map[string]*ssa.Package{}, redirects: map[string]*ssa.Function{}, harness: map[string]*ssa.Function{},
		harnPkg: map[string]string{}, overlay: ov, mcache: map[mkey]*ssa.Function{}}
	// A harness file that no longer compiles against the tree is dropped, not reported.
	bad := map[string]bool{}
	var fatal []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if !strings.HasPrefix(p.PkgPath, repoMod) {
				continue
			}
			pos := e.Pos
			f := pos
			if i := strings.IndexByte(pos, ':'); i > 0 {
				f = pos[:i]
			}
			if src, ok := ov[f]; ok && !strings.Contains(f, "/internal/vf/") && strings.HasPrefix(filepath.Base(f), "zz_verif_") {
				bad[f] = true
				L.dropped = append(L.dropped, src+": "+e.Msg)
			} else {
				fatal = append(fatal, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		for k := range exclude {
			bad[k] = true
		}
		n, err := Load(repo, harnessDir, bad)
		if n != nil {
			n.dropped = append(L.dropped, n.dropped...)
		}
		return n, err
	}
	if len(fatal) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(fatal, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	L.prog = prog
	for _, p := range prog.AllPackages() {
		L.pkgs[p.Pkg.Path()] = p
	}
	if rt := L.pkgs["runtime"]; rt != nil {
		if t, ok := rt.Members["errorString"].(*ssa.Type); ok {
			L.rtErrType = t.Type()
		}
	}
	if rp := L.pkgs["reflect"]; rp != nil {
		if t, ok := rp.Members["Value"].(*ssa.Type); ok {
			reflectValueStruct = t.Type().Underlying()
		}
	}
	vf := L.pkgs[vfPath]
	if vf == nil {
		return nil, fmt.Errorf("vf package not loaded")
	}
	for std, name := range redirectTable {
		f := vf.Func(name)
		if f == nil {
			return nil, fmt.Errorf("vf.%s missing", name)
		}
		L.redirects[std] = f
	}
	for path, p := range L.pkgs {
		if !strings.HasPrefix(path, repoMod) {
			continue
		}
		for name, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "VF_") {
				L.harness[name] = f
				L.harnPkg[name] = path
			}
		}
	}
	return L, nil
}

// fn finds a package level function by "path.Name".
func (l *Loaded) fn(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '.')
	p := l.pkgs[name[:i]]
	if p == nil {
		panic(&engineError{"package not loaded: " + name})
	}
	f := p.Func(name[i+1:])
	if f == nil {
		panic(&engineError{"function not found: " + name})
	}
	return f
}

func (l *Loaded) typ(path, name string) types.Type {
	p := l.pkgs[path]
	if p == nil {
		panic(&engineError{"package not loaded: " + path})
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		panic(&engineError{"type not found: " + path + "." + name})
	}
	return t.Type()
}

func (l *Loaded) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := mkey{t, pkg, name}
	if f, ok := l.mcache[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := l.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil && pkg == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel != nil {
		f = l.prog.MethodValue(sel)
	}
	l.mcache[k] = f
	return f
}
