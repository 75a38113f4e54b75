package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native replay: counterexamples and sampled paths run on the real code in a test binary
// built from the repository with the harness files in an overlay.

type Replayer struct {
	L    *Loaded
	dir  string
	bins map[string]string
	errs map[string]error
	done map[string]chan struct{}
}

const replayTest = `package %s

import (
	"encoding/json"
	"os"
	"strconv"
	"testing"

	"%s"
)

var zzReg = map[string]func(){
%s}

func TestZZVerifReplay(t *testing.T) {
	type tcase struct {
		Harness string            ` + "`json:\"harness\"`" + `
		Model   map[string]uint64 ` + "`json:\"model\"`" + `
	}
	var cases []tcase
	b, err := os.ReadFile(os.Getenv("VF_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	if os.Getenv("VF_TIER") == "1" {
		vf.TierLevel = 1
	}
	rep, _ := strconv.Atoi(os.Getenv("VF_REPEAT"))
	var outs []*vf.Outcome
	for _, c := range cases {
		o := vf.Run(c.Harness, zzReg[c.Harness], c.Model)
		for i := 0; i < rep && len(o.Asserts) == 0 && o.Panic == ""; i++ {
			o = vf.Run(c.Harness, zzReg[c.Harness], c.Model)
		}
		outs = append(outs, o)
	}
	r, _ := json.Marshal(outs)
	if err := os.WriteFile(os.Getenv("VF_OUT"), r, 0o644); err != nil {
		t.Fatal(err)
	}
}
`

func NewReplayer(L *Loaded, repo, dir string, harnesses []string) *Replayer {
	r := &Replayer{L: L, dir: dir, bins: map[string]string{}, errs: map[string]error{}, done: map[string]chan struct{}{}}
	pk := map[string]bool{}
	for _, h := range harnesses {
		pk[L.harnPkg[h]] = true
	}
	os.MkdirAll(dir, 0o755)
	for p := range pk {
		r.done[p] = make(chan struct{})
	}
	go func() {
		for p := range pk {
			bin, err := r.build(repo, p)
			r.bins[p], r.errs[p] = bin, err
			close(r.done[p])
		}
	}()
	return r
}

func (r *Replayer) build(repo, pkg string) (string, error) {
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, repoMod), "/")
	if rel == "" {
		rel = "."
	}
	pdir := filepath.Join(repo, rel)
	tag := strings.ReplaceAll(rel, "/", "_")
	var reg strings.Builder
	var names []string
	for h, p := range r.L.harnPkg {
		if p == pkg {
			names = append(names, h)
		}
	}
	sort.Strings(names)
	for _, h := range names {
		fmt.Fprintf(&reg, "\t%q: %s,\n", h, h)
	}
	src := fmt.Sprintf(replayTest, r.L.pkgs[pkg].Pkg.Name(), vfPath, reg.String())
	tf := filepath.Join(r.dir, tag+"_replay.go")
	if err := os.WriteFile(tf, []byte(src), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(pdir, "zz_verif_replay_test.go"): tf}
	for dst, s := range r.L.overlay {
		rep[dst] = s
	}
	ents, _ := os.ReadDir(pdir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(pdir, e.Name())] = ""
		}
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(r.dir, tag+"_overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, tag+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+rel)
	cmd.Dir = repo
	cmd.Env = loadEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary of %s: %v\n%s", pkg, err, out)
	}
	return bin, nil
}

type Outcome struct {
	Harness string   `json:"harness"`
	Asserts []string `json:"asserts"`
	Panic   string   `json:"panic"`
	Assume  string   `json:"assume"`
	Obs     []string `json:"obs"`
	Crash   string   `json:"crash,omitempty"`
}

type replayCase struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
}

// Run executes the cases (all of one package) natively.
func (r *Replayer) Run(pkg string, cases []replayCase, tier, repeat int) ([]*Outcome, error) {
	return r.run(pkg, cases, tier, repeat, 100)
}

func (r *Replayer) run(pkg string, cases []replayCase, tier, repeat, seconds int) ([]*Outcome, error) {
	<-r.done[pkg]
	if err := r.errs[pkg]; err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	cf, of := filepath.Join(tmp, "cases.json"), filepath.Join(tmp, "out.json")
	b, _ := json.Marshal(cases)
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 24000000; exec \"$0\" \"$@\"", r.bins[pkg], "-test.run", "^TestZZVerifReplay$", "-test.timeout", fmt.Sprint(seconds, "s"))
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VF_CASES="+cf, "VF_OUT="+of, fmt.Sprintf("VF_TIER=%d", tier), fmt.Sprintf("VF_REPEAT=%d", repeat), "GOMEMLIMIT=4GiB")
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(seconds+10)*time.Second, func() { cmd.Process.Kill() })
	out, err := cmd.CombinedOutput()
	timer.Stop()
	close(done)
	if err != nil {
		if len(cases) == 1 {
			return []*Outcome{{Harness: cases[0].Harness, Crash: clip(string(out), 2000)}}, nil
		}
		return nil, fmt.Errorf("replay failed: %v: %s", err, clip(string(out), 1500))
	}
	b, err = os.ReadFile(of)
	if err != nil {
		return nil, err
	}
	var outs []*Outcome
	if err := json.Unmarshal(b, &outs); err != nil {
		return nil, err
	}
	return outs, nil
}
