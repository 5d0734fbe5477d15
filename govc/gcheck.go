// C27: generated code. The repository's generator runs on the schema corpus; what
// it produces is held to contracts, message by message, on top of the contracts
// of the library, which are part of the same check.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type genTarget struct {
	group, lib, modDir, poly string
	library                  []Part
	schema                   string // which of the schemas of gen/main.go
	types                    []string
	prefix                   string // what the package of the schema puts in front of the names
}

// variants of a target, one for each schema
func (t *genTarget) schemas() (r []*genTarget) {
	a, b := *t, *t
	a.prefix, b.prefix = "Corpus", "Corpus"
	a.types = []string{"Inner", "Scalars", "Mixed", "Mixed2", "Node", "Forest", "Grove", "Empty", "Tree", "OnlyMessages", "Outer", "OuterPart", "Part", "Many"}
	b.schema, b.types = "proto2", []string{"Required", "Optional", "Defaults", "Nested"}
	b.group += "-proto2"
	c, d := *t, *t
	c.schema, c.types, c.prefix = "plain", []string{"Part", "PartDeep", "Whole", "Nothing"}, ""
	c.group += "-plain"
	d.schema, d.types, d.prefix = "dotted", c.types, "AcmeShopV2Api"
	d.group += "-dotted"
	e := b
	e.schema, e.types = "enums", nil
	e.group = t.group + "-enums"
	return []*genTarget{&a, &b, &c, &d, &e}
}

func genTargets() map[string]*genTarget {
	re := regexp.MustCompile
	return map[string]*genTarget{
		"C27": {"generated-v2", "v2", filepath.Join(repoDir(), "v2"), "github.com/loopholelabs/polyglot/v2", []Part{
			{"v2", re(`^hEnc`), selFunctional}, {"v2", re(`^hDec`), selAccept}, {"v2", re(`^hDec`), selReject},
			{"v2", re(`^hDec`), selPanics}, {"v2", re(`^hDec`), selPosition}}, "", nil, ""},
		"C29": {"generated-v1", "v1", repoDir(), "github.com/loopholelabs/polyglot", []Part{
			{"v1", re(`^hEnc`), selFunctional}, {"v1", re(`^hDec`), selAccept}, {"v1", re(`^hDec`), selReject},
			{"v1", re(`^hDec`), selPanics}, {"v1", re(`^hDec`), selPosition}}, "", nil, ""},
	}
}

// ---- known findings ----

type finding struct {
	harness, label, when, text string
	seen                       bool
}

// findings: "finding: property=C27 harness=H obligation=L when=P text"
func findings(id string) (r []*finding) {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w, ok := strings.CutPrefix(sc.Text(), "finding: ")
		if !ok {
			continue
		}
		k := &finding{}
		own := false
		for {
			p, rest, _ := strings.Cut(w, " ")
			key, val, is := strings.Cut(p, "=")
			if !is {
				break
			}
			switch key {
			case "property":
				own = val == id
			case "harness":
				k.harness = val
			case "obligation":
				k.label = val
			case "when":
				k.when = val
			default:
				is = false
			}
			if !is {
				break
			}
			w = rest
		}
		k.text = w
		if own && k.harness != "" && k.label != "" {
			r = append(r, k)
		}
	}
	return
}

func (k *finding) matches(f *Failure, harness string) bool {
	if k.harness != harness || k.label != f.Label {
		return false
	}
	if k.when == "" {
		return true
	}
	at := map[string]bool{}
	for _, s := range strings.Fields(f.Path) {
		at[s] = true
	}
	for _, s := range strings.Split(k.when, ",") {
		if !at[s] {
			return false
		}
	}
	return true
}

// ---- the generated code, compiled and run ----

type GenNative struct {
	once   sync.Once
	t      *genTarget
	src    []byte
	names  []string
	dir    string
	bin    string
	err    error
	mu     sync.Mutex
	n, Ran int
}

func (g *GenNative) Close() {
	if g.dir != "" {
		os.RemoveAll(g.dir)
	}
}

func (g *GenNative) build() {
	g.dir, g.err = os.MkdirTemp("", "govc-gen-native")
	if g.err != nil {
		return
	}
	tm, err := os.ReadFile(filepath.Join(verifDir(), "gen", "native", "main.go.tmpl"))
	if err != nil {
		g.err = err
		return
	}
	var b, z strings.Builder
	for _, n := range g.names {
		fmt.Fprintf(&b, "\t%q: func() message { return corpus.New%s() },\n", n, n)
		fmt.Fprintf(&z, "\t%q: func() message { return &corpus.%s{} },\n", n, n)
	}
	s := strings.ReplaceAll(string(tm), "MODULE", g.t.poly)
	s = strings.Replace(s, "/*TYPES*/", b.String(), 1)
	s = strings.Replace(s, "/*ZEROS*/", z.String(), 1)
	s = strings.Replace(s, "/*V1*/false", fmt.Sprint(g.t.lib == "v1"), 1)
	repl := map[string]string{}
	for at, text := range map[string][]byte{"zz_verif_run/main.go": []byte(s), "zz_verif_corpus/corpus.polyglot.go": g.src} {
		f := filepath.Join(g.dir, strings.ReplaceAll(at, "/", "_"))
		if g.err = os.WriteFile(f, text, 0o644); g.err != nil {
			return
		}
		repl[filepath.Join(g.t.modDir, at)] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(g.dir, "overlay.json")
	if g.err = os.WriteFile(ov, js, 0o644); g.err != nil {
		return
	}
	g.bin = filepath.Join(g.dir, "run")
	c := exec.Command("go", "build", "-overlay", ov, "-o", g.bin, "./zz_verif_run")
	c.Dir = g.t.modDir
	if out, err := c.CombinedOutput(); err != nil {
		g.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
}

func (g *GenNative) Run(reqs []NReq, limit time.Duration) ([]NRes, error) {
	g.once.Do(g.build)
	if g.err != nil {
		return nil, g.err
	}
	g.mu.Lock()
	g.n++
	rq, ro := filepath.Join(g.dir, fmt.Sprint("req", g.n)), filepath.Join(g.dir, fmt.Sprint("out", g.n))
	g.mu.Unlock()
	js, _ := json.Marshal(reqs)
	os.WriteFile(rq, js, 0o644)
	c := exec.Command("timeout", fmt.Sprint(int(limit.Seconds())), g.bin, rq, ro)
	out, err := c.CombinedOutput()
	b, rerr := os.ReadFile(ro)
	if rerr != nil {
		t := string(out)
		if len(t) > 1500 {
			t = t[:1500]
		}
		if strings.Contains(t, "stack overflow") || strings.Contains(t, "fatal error") {
			// the run itself is the failing input
			var r []NRes
			for _, q := range reqs {
				r = append(r, NRes{Harness: q.Harness, Ran: 1, Finds: []NFind{{Label: "panic/fatal", Site: q.Harness, Detail: fmt.Sprintf("seed %d: %s", q.Seed, t)}}})
			}
			return r, nil
		}
		return nil, fmt.Errorf("native run: %v\n%s", err, t)
	}
	var res []NRes
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, err
	}
	g.mu.Lock()
	for _, r := range res {
		g.Ran += r.Ran
	}
	g.mu.Unlock()
	return res, nil
}

func genReport() *reportInfo {
	return &reportInfo{cmd: "bash tools/gencheck.sh",
		trusted: []string{"the meaning of an item stream (/verif/govc/gen.go): encoder and decoder calls by the contracts of the library, which this check proves as well", "schema corpus /verif/gen/main.go", "Go parser and type checker"},
		assum: []string{
			"generated code: schemas are those of the corpus (every scalar type as field, list element, map value and map key, enumerations, messages in messages, lists and maps, recursion, zero fields, declarations inside messages); another schema is covered as far as the generator treats its fields alike",
			"generated code: a nested message is one item under the contract of its own type (structural induction over finite messages); the contract is proved for every type of the corpus",
			"generated code: loops over lists and maps are decided by one arbitrary iteration after an automatic check that an iteration carries nothing but its counter to the next",
			"generated code: texts and byte strings are at most 2^32-1 bytes long, lists and maps have at most 2^32-1 elements; the exported kind variables are not reassigned; decoding is into a fresh message",
			"generated code: recursion depth is not limited by the stack",
		}}
}

// functions of a contract on generated code
func genFunctions(name string) []string {
	_, n, _ := strings.Cut(name, "/")
	if n == "" {
		return []string{"generator"}
	}
	return []string{"New" + n, n + ".Encode", n + ".Decode", n + ".decode", n + ".Error"}
}

func genPart(id string, t *genTarget) *partial {
	thorough := tier() == "thorough"
	deadline := time.Now().Add(400 * time.Second)
	if thorough {
		deadline = time.Now().Add(600 * time.Second)
	}
	if last := began.Add(600 * time.Second); deadline.After(last) {
		deadline = last
	}
	p := &partial{info: genReport(), sides: map[string]*side{t.group: {of: genFunctions}}}
	bad := func(label, site, detail string) {
		o := &outcome{group: t.group, name: "generator", rung: "generator run on the corpus, Go type checker"}
		o.res = &Result{Harness: o.name, Obs: map[Oblig]bool{{label, site}: false}, Covers: map[string]bool{"generator": true}, VCs: 1,
			Fails: []Failure{{Label: label, Site: site}}}
		o.violate = []violation{{Property: id, Group: t.group, Harness: "generator", Obligation: label, Site: site, Verifier: detail, Replayed: true,
			Observed: &NFind{Label: label, Site: site, Detail: detail}}}
		p.outs = append(p.outs, o)
		p.vs = append(p.vs, o.violate...)
	}
	src, decl, fails, err := generate(t.modDir, t.schema)
	if err != nil {
		p.broken = err
		return p
	}
	if fails != "" {
		bad("generate/corpus", "generator", fails)
		return p
	}
	ld, err := LoadGen(t.modDir, src)
	if err != nil {
		bad("generate/compiles", "generated code", err.Error())
		return p
	}
	ld.initPkg = t.poly
	ms := ld.genMessages(t.poly)
	reach := ld.genReach(ms)
	nat := &GenNative{t: t, src: src}
	p.done = nat.Close
	okGen := &outcome{group: t.group, name: "generator", rung: "generator run on the corpus, Go type checker"}
	okGen.res = &Result{Harness: okGen.name, Obs: map[Oblig]bool{{"generate/corpus", "generator"}: true, {"generate/compiles", "generated code"}: true}, Covers: map[string]bool{"generator": true}, VCs: 2, Trivial: 2}
	p.outs = append(p.outs, okGen)
	// the types hold what the schema declares
	at, lacks := ld.fieldFails(decl, t.prefix)
	for _, site := range at {
		okGen.res.VCs++
		okGen.res.Trivial++
		if lacks[site] == "" {
			okGen.res.Obs[Oblig{"generate/fields", site}] = true
		} else {
			bad("generate/fields", site, lacks[site])
		}
	}
	// the API the contracts are stated on
	var have []*types.Named
	for _, mt := range ms {
		n := mt.Obj().Name()
		if !strings.HasPrefix(n, t.prefix) {
			continue
		}
		ok := ld.target.Func("New"+n) != nil
		for _, m := range []string{"Encode", "Decode", "Error"} {
			ok = ok && ld.prog.LookupMethod(types.NewPointer(mt), mt.Obj().Pkg(), m) != nil
		}
		if !ok {
			bad("generate/api", n, n+" lacks its constructor, Encode, Decode or Error")
			continue
		}
		have = append(have, mt)
		nat.names = append(nat.names, n)
	}
	for _, n := range t.types {
		if ld.target.Pkg.Scope().Lookup(t.prefix+n) == nil {
			bad("generate/api", t.prefix+n, "no message type "+t.prefix+n+" is generated")
		}
	}
	ks := findings(id)
	kinds := map[string]bool{}
	for _, k := range ks {
		kinds[k.harness] = true
	}
	hs := genHarnesses(have)
	outs := make([]*outcome, len(hs))
	weak := map[string]bool{} // types without the contract others rely on
	nests := make([]map[string]bool, len(hs))
	jobs := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	part := &Part{Group: t.group, Select: selAll}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				h := hs[i]
				o := &outcome{part: part, group: t.group, name: h.name, rung: "library and nested messages by contract, one arbitrary iteration of each loop"}
				outs[i] = o
				end := func(d time.Duration) time.Time {
					if t := time.Now().Add(d); t.Before(deadline) {
						return t
					}
					return deadline
				}
				run := func(generic bool, solver string) *Result {
					r, nest := ld.runGen(h, t.poly, reach, Options{StopAfter: 4000, Deadline: end(200 * time.Second), Solver: solver}, generic)
					nests[i] = nest
					mu.Lock()
					defer mu.Unlock()
					var left []Failure
					for _, f := range r.Fails {
						known := false
						for _, k := range ks {
							if k.matches(&f, h.name) {
								known, k.seen = true, true
								delete(r.Obs, Oblig{f.Label, f.Site})
								break
							}
						}
						if !known {
							left = append(left, f)
						}
					}
					r.Fails = left
					for _, f := range left {
						if _, ok := r.Obs[Oblig{f.Label, f.Site}]; !ok {
							r.Obs[Oblig{f.Label, f.Site}] = false
						}
					}
					return r
				}
				o.res = run(true, "")
				if len(o.res.Unsup) > 0 {
					// lists and maps of at most two elements decide what a failure is
					first := o.res
					o.res = run(false, "")
					o.notes = append(o.notes, "outside the reach of the general contract ("+strings.Join(first.Unsup, "; ")+"); lists and maps of at most two elements instead")
					o.rung = "library and nested messages by contract, lists and maps of at most two elements (bounded)"
					if len(o.res.Fails) == 0 {
						o.res.Unsup = append(o.res.Unsup, first.Unsup...)
					}
				}
				if !good(o.res) && len(o.res.Fails) > 0 && kinds[h.name] {
					// a search would only come upon the recorded finding
					f := o.res.Fails[0]
					o.violate = append(o.violate, violation{Property: id, Group: o.group, Harness: o.name, Obligation: f.Label, Site: f.Site, Under: f.Aspects,
						Verifier: failText(o.res), Path: f.Path})
					continue
				}
				if kinds[h.name] {
					o.res.Covers["known finding"] = true
					if len(o.res.Unsup) > 0 {
						o.bounded = &NRes{}
					}
					continue
				}
				judge(id, o, nat, true, thorough, func() *Result { return run(true, "z3-new") })
			}
		}()
	}
	order := make([]int, len(hs))
	for i := range order {
		order[i] = i
	}
	heavy := func(i int) int {
		st := hs[i].mt.Underlying().(*types.Struct)
		n := st.NumFields()
		if hs[i].kind == "roundtrip" || hs[i].kind == "foreign" {
			n *= 2
		}
		return n
	}
	sort.SliceStable(order, func(a, b int) bool { return heavy(order[a]) > heavy(order[b]) })
	for _, i := range order {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	for i, o := range outs {
		for _, f := range o.res.Fails {
			if strings.HasSuffix(f.Label, "/told-from-nil") {
				weak[hs[i].mt.Obj().Name()] = true
			}
		}
	}
	for i, o := range outs {
		for n := range nests[i] {
			if weak[n] {
				o.notes = append(o.notes, "relies on the contract of "+n+", which does not hold")
			}
		}
		p.outs = append(p.outs, o)
		p.vs = append(p.vs, o.violate...)
		for _, n := range o.notes {
			p.notes = append(p.notes, o.group+"/"+o.name+": "+n)
		}
	}
	for _, k := range ks {
		if k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s when %s: %s\n", id, k.harness, k.label, k.when, k.text)
			p.notes = append(p.notes, "known finding, not counted among the obligations: "+k.harness+" "+k.label+" when "+k.when)
		}
	}
	p.sides[t.group].native = nat.Ran
	return p
}

func gcheck(id string) int {
	t0 := time.Now()
	t := genTargets()[id]
	if t == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	all := &partial{sides: map[string]*side{}, info: &reportInfo{cmd: "bash tools/gencheck.sh"}}
	seen := map[string]bool{}
	parts := []func() *partial{func() *partial { return goPart(id, &Prop{id, t.library}) }}
	for _, v := range t.schemas() {
		parts = append(parts, func() *partial { return genPart(id, v) })
	}
	for _, f := range parts {
		p := f()
		if p.done != nil {
			defer p.done()
		}
		if p.broken != nil {
			fmt.Fprintln(os.Stderr, p.broken)
			return 2
		}
		all.outs = append(all.outs, p.outs...)
		all.vs = append(all.vs, p.vs...)
		all.notes = append(all.notes, p.notes...)
		for k, s := range p.sides {
			all.sides[k] = s
		}
		for _, t := range p.info.trusted {
			if !seen[t] {
				seen[t] = true
				all.info.trusted = append(all.info.trusted, t)
			}
		}
		for _, t := range p.info.assum {
			if !seen[t] {
				seen[t] = true
				all.info.assum = append(all.info.assum, t)
			}
		}
	}
	all.info.level = "translation_validation"
	all.info.extra = func(cov map[string]any) {
		progs, cmp := map[string]bool{}, 0
		var samples []string
		for _, o := range all.outs {
			kind, n, is := strings.Cut(o.name, "/")
			if !strings.HasPrefix(o.group, t.group) || !is {
				continue
			}
			progs[n] = true
			cmp += o.res.VCs
			if kind == "roundtrip" && len(samples) < 5 {
				var l []string
				for ob := range o.res.Obs {
					l = append(l, ob.Label)
				}
				sort.Strings(l)
				samples = append(samples, fmt.Sprintf("%s: %d paths, obligations %s", n, o.res.Paths, strings.Join(l, ", ")))
			}
		}
		cov["programs"], cov["disagreements_checked"], cov["samples"] = len(progs), cmp, samples
		cov["programs_are"] = "generated message types; disagreements_checked counts the verification conditions on them"
	}
	return all.finish(id, t0)
}

// greplay runs a violation on generated code again.
func greplay(v *violation) int {
	var t *genTarget
	for _, y := range genTargets() {
		for _, x := range y.schemas() {
			if x.group == v.Group {
				t = x
			}
		}
	}
	src, decl, fails, err := generate(t.modDir, t.schema)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if fails != "" {
		fmt.Println("reproduced:", fails)
		return 1
	}
	ld, err := LoadGen(t.modDir, src)
	if err != nil {
		fmt.Println("reproduced:", err)
		return 1
	}
	at, lacks := ld.fieldFails(decl, t.prefix)
	for _, site := range at {
		if lacks[site] != "" {
			fmt.Println("reproduced:", lacks[site])
			return 1
		}
	}
	nat := &GenNative{t: t, src: src}
	defer nat.Close()
	for _, m := range ld.genMessages(t.poly) {
		if strings.HasPrefix(m.Obj().Name(), t.prefix) {
			nat.names = append(nat.names, m.Obj().Name())
		}
	}
	res, err := nat.Run([]NReq{{Harness: v.Harness, Search: 400000, Millis: 20000, Seed: seed()}}, 100*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, r := range res {
		for _, f := range r.Finds {
			fmt.Printf("reproduced: %s %s\n", f.Label, f.Detail)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}
