// C26: the implementations agree. Every one is held to the same tags and the
// same wire format by its own contracts; together they agree with each other.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var kindNames = []string{"NONE", "ARRAY", "MAP", "ANY", "BYTES", "STRING", "ERROR", "BOOL", "U8", "U16", "U32", "U64", "I32", "I64", "F32", "F64"}

var headerModes = []struct {
	name string
	args []string
}{
	{"constants", []string{"-std=c17"}},
	{"enumerators", []string{"-std=c2x", "-DPOLYGLOT_USE_C_ENUMS"}},
	{"C++ constants", []string{"-xc++", "-std=c++17", "-D_Static_assert=static_assert"}},
}

// headerKinds: the C header's constants, in constant expressions that the C
// compiler decides.
func headerKinds(id string, files []string) (outs []*outcome, err error) {
	dir, err := os.MkdirTemp("", "govc-h")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	for _, file := range files {
		h, err := os.ReadFile(filepath.Join(repoDir(), file))
		if err != nil {
			return nil, err
		}
		text := regexp.MustCompile(`@\w+@`).ReplaceAllString(string(h), "0")
		if err := os.WriteFile(filepath.Join(dir, "polyglot.h"), []byte(text), 0o644); err != nil {
			return nil, err
		}
		for _, m := range headerModes {
			o := &outcome{group: "header", name: file + " (" + m.name + ")", rung: "constant expressions"}
			r := &Result{Harness: o.name, Obs: map[Oblig]bool{}, Covers: map[string]bool{"kinds": true}}
			o.res = r
			outs = append(outs, o)
			compile := func(src string) (string, error) {
				cf := filepath.Join(dir, "t.c")
				if err := os.WriteFile(cf, []byte("#include \"polyglot.h\"\n"+src), 0o644); err != nil {
					return "", err
				}
				c := exec.Command("clang", append(append([]string{}, m.args...), "-w", "-fsyntax-only", cf)...)
				out, err := c.CombinedOutput()
				return string(out), err
			}
			t0 := time.Now()
			if out, err := compile(""); err != nil {
				// not a header this compiler can read: nothing to decide on
				r.Unsup = append(r.Unsup, "clang "+strings.Join(m.args, " ")+": "+out)
				o.bounded = &NRes{}
				continue
			}
			for i := -1; i < len(kindNames); i++ {
				label, cond := "kind/size", "sizeof(polyglot_kind_t) == 1"
				if i >= 0 {
					label, cond = "kind/"+kindNames[i], fmt.Sprintf("POLYGLOT_KIND_%s == %d", kindNames[i], i)
				}
				out, err := compile(fmt.Sprintf("_Static_assert(%s, \"%s\");\n", cond, label))
				r.VCs++
				r.Obs[Oblig{label, file}] = err == nil
				if err != nil {
					r.Fails = append(r.Fails, Failure{Label: label, Site: file})
					o.violate = append(o.violate, violation{Property: id, Group: "header", Harness: o.name, Obligation: label, Site: file,
						Verifier: "clang: " + out, Replayed: true, Observed: &NFind{Label: label, Site: file, Detail: cond + " does not hold"}})
				}
			}
			r.Paths++
			r.SolverTime = time.Since(t0)
		}
	}
	return outs, nil
}

func acheck(id string) int {
	t0 := time.Now()
	re := regexp.MustCompile
	enc := re(`^h(Enc|Kinds)`)
	dec := re(`^hDec`)
	goProp := &Prop{id, []Part{{"v1", enc, selFunctional}, {"v2", enc, selFunctional}, {"v1", dec, selAccept}, {"v2", dec, selAccept}}}
	rs, ts := rprops(), tprops()
	either := func(a, b func(string, []string) bool) func(string, []string) bool {
		return func(l string, x []string) bool { return strings.HasPrefix(l, "post/kind/") || a(l, x) || b(l, x) }
	}
	encode := func(l string, a []string) bool { return strings.HasPrefix(l, "post/encode/") }
	parts := []func() *partial{
		func() *partial { return goPart(id, goProp) },
		func() *partial {
			return rustPart(id, &RProp{Harness: re(`^h_(enc_|dec_|kind)`), Select: either(encode, rs["C16"].Select)})
		},
		func() *partial {
			return rustPart(id, &RProp{C: true, Harness: re(`^h_(encode|decode|kind)`), Select: either(rs["C21"].Select, rs["C21"].Select)})
		},
		func() *partial {
			return tsPart(id, &TSProp{Harness: re(`^h_(enc_|dec_|kind)`), Native: re(`^$`), Select: either(encode, ts["C24"].Select)})
		},
		func() *partial {
			p := &partial{info: &reportInfo{trusted: []string{"clang 18 (constant expressions of polyglot.h)"}}, sides: map[string]*side{"header": {of: func(string) []string { return []string{"KIND_VALUES"} }}}}
			p.outs, p.broken = headerKinds(id, []string{"polyglot.h", "polyglot.h.in"})
			for _, o := range p.outs {
				p.vs = append(p.vs, o.violate...)
			}
			return p
		},
	}
	all := &partial{sides: map[string]*side{}, info: &reportInfo{cmd: "bash tools/allcheck.sh"}}
	seen := map[string]bool{}
	for _, f := range parts {
		p := f()
		if p.done != nil {
			defer p.done()
		}
		if p.broken != nil {
			fmt.Fprintln(os.Stderr, p.broken)
			return 2
		}
		all.outs = append(all.outs, p.outs...)
		all.vs = append(all.vs, p.vs...)
		all.notes = append(all.notes, p.notes...)
		for k, s := range p.sides {
			all.sides[k] = s
		}
		for _, t := range p.info.trusted {
			if !seen[t] {
				seen[t] = true
				all.info.trusted = append(all.info.trusted, t)
			}
		}
		for _, t := range p.info.assum {
			if !seen[t] {
				seen[t] = true
				all.info.assum = append(all.info.assum, t)
			}
		}
	}
	sort.Strings(all.info.assum)
	return all.finish(id, t0)
}
