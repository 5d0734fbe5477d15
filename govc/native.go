package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Native: the group's harnesses compiled against the real package.
type Native struct {
	once sync.Once
	g    *Group
	ld   *Loader
	dir  string
	bin  string
	err  error
	mu   sync.Mutex
	Runs int
	Ran  int
}

type NReq struct {
	Harness string       `json:"harness"`
	Inputs  [][]InputVal `json:"inputs"`
	Search  int          `json:"search"`
	Millis  int          `json:"millis"`
	Seed    int64        `json:"seed"`
}

type NFind struct {
	Label  string     `json:"label"`
	Aspect string     `json:"aspect"`
	Site   string     `json:"site"`
	Detail string     `json:"detail,omitempty"`
	Inputs []InputVal `json:"inputs"`
}

type NRes struct {
	Harness string         `json:"harness"`
	Ran     int            `json:"ran"`
	Skipped int            `json:"skipped"`
	Covers  map[string]int `json:"covers"`
	Finds   []NFind        `json:"finds"`
}

func (n *Native) build() {
	n.dir, n.err = os.MkdirTemp("", "govc-native")
	if n.err != nil {
		return
	}
	repl := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(n.g.Dir, "*_test.go"))
	for _, f := range old {
		repl[f] = ""
	}
	for _, f := range n.g.Native {
		repl[filepath.Join(n.g.Dir, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
	}
	tm, err := os.ReadFile(filepath.Join(verifDir(), "ghost", "native", "run_test.go.tmpl"))
	if err != nil {
		n.err = err
		return
	}
	var hs, ps strings.Builder
	names := make([]string, 0, len(n.ld.Harness))
	for h, info := range n.ld.Harness {
		if info.Contract == "" {
			names = append(names, h)
		}
	}
	sort.Strings(names)
	for _, h := range names {
		fn := n.ld.target.Func(h)
		fmt.Fprintf(&hs, "\t%q: %s,\n", h, h)
		fmt.Fprintf(&ps, "\t%q: {", h)
		for _, p := range fn.Params {
			fmt.Fprintf(&ps, "%q, ", p.Name())
		}
		ps.WriteString("},\n")
	}
	src := strings.Replace(strings.Replace(string(tm), "/*HARNESSES*/", hs.String(), 1), "/*PARAMS*/", ps.String(), 1)
	run := filepath.Join(n.dir, "run_test.go")
	os.WriteFile(run, []byte(src), 0o644)
	repl[filepath.Join(n.g.Dir, "zz_verif_run_test.go")] = run
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	n.bin = filepath.Join(n.dir, "native.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", n.bin, ".")
	cmd.Dir = n.g.Dir
	if out, err := cmd.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
}

func (n *Native) Close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// Run executes the requests; a crash of the whole process is reported as err.
func (n *Native) Run(reqs []NReq, limit time.Duration) ([]NRes, error) {
	n.once.Do(n.build)
	if n.err != nil {
		return nil, n.err
	}
	n.mu.Lock()
	n.Runs++
	id := n.Runs
	n.mu.Unlock()
	rq := filepath.Join(n.dir, fmt.Sprintf("req%d.json", id))
	ro := filepath.Join(n.dir, fmt.Sprintf("out%d.json", id))
	js, _ := json.Marshal(reqs)
	os.WriteFile(rq, js, 0o644)
	cmd := exec.Command(n.bin, "-test.run", "TestVerifRun", "-test.timeout", fmt.Sprint(limit))
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VERIF_REQ="+rq, "VERIF_OUT="+ro)
	out, err := cmd.CombinedOutput()
	var res []NRes
	b, rerr := os.ReadFile(ro)
	if rerr != nil {
		t := string(out)
		if len(t) > 4000 {
			t = t[:4000]
		}
		return nil, fmt.Errorf("native run: %v\n%s", err, t)
	}
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, err
	}
	n.mu.Lock()
	for _, r := range res {
		n.Ran += r.Ran
	}
	n.mu.Unlock()
	return res, nil
}

func tooBig(in []InputVal) bool {
	s := uint64(0)
	for _, i := range in {
		s += max(i.Cap, i.Len)
	}
	return s > 5<<30
}

func paramTypes(fn *ssa.Function) string { return types.TypeString(fn.Signature, nil) }
