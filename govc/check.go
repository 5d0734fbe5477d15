package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// outcome of one harness for one property
type outcome struct {
	part    *Part
	group   string
	name    string
	res     *Result
	rung    string
	notes   []string
	violate []violation
	bounded *NRes // bounded stand-in, when the proof does not apply
}

type violation struct {
	Property   string     `json:"property"`
	Group      string     `json:"group"`
	Harness    string     `json:"harness"`
	Obligation string     `json:"obligation"`
	Site       string     `json:"site"`
	Under      []string   `json:"under_aspects,omitempty"`
	Verifier   string     `json:"verifier"`
	Model      []InputVal `json:"verifier_model,omitempty"`
	Replayed   bool       `json:"replayed_on_real_code"`
	Inputs     []InputVal `json:"failing_inputs,omitempty"`
	Observed   *NFind     `json:"observed,omitempty"`
	Path       string     `json:"path,omitempty"`
	How        string     `json:"how_to_replay,omitempty"`
}

type groupState struct {
	g      *Group
	ld     *Loader
	con    *contracts
	nat    *Native
	loadMs int64
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// partial is the outcome of the contracts of one front end
type partial struct {
	outs   []*outcome
	sides  map[string]*side
	info   *reportInfo
	vs     []violation
	notes  []string
	broken error // the check itself cannot run
	done   func()
}

func (p *partial) finish(id string, t0 time.Time) int {
	if p.done != nil {
		defer p.done()
	}
	if p.broken != nil {
		fmt.Fprintln(os.Stderr, p.broken)
		return 2
	}
	return finish(id, t0, p.outs, p.sides, p.info, p.vs, p.notes)
}

func check(id string) int {
	t0 := time.Now()
	pr := props()[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	return goPart(id, pr).finish(id, t0)
}

func goPart(id string, pr *Prop) *partial {
	t0 := time.Now()
	thorough := tier() == "thorough"
	budget := 600 * time.Second
	if thorough {
		budget = 840 * time.Second
	}
	deadline := t0.Add(budget)
	gs := groups()
	states := map[string]*groupState{}
	fatal := ""
	pt := &partial{info: goReport(), done: func() {
		for _, st := range states {
			st.nat.Close()
		}
	}}
	for i := range pr.Parts {
		n := pr.Parts[i].Group
		if states[n] != nil {
			continue
		}
		st := &groupState{g: gs[n]}
		t := time.Now()
		ld, err := Load(st.g.Dir, st.g.Ghost)
		if err != nil {
			fatal = err.Error()
			break
		}
		st.ld = ld
		st.nat = &Native{g: st.g, ld: ld}
		st.con = ld.proveContracts(Options{Deadline: deadline})
		st.loadMs = time.Since(t).Milliseconds()
		states[n] = st
	}
	if fatal != "" {
		// the exported API the contracts are stated on is gone or changed
		v := violation{Property: id, Obligation: "contract/api", Verifier: "the contracts no longer type-check against the package: " + fatal}
		pt.sides, pt.vs, pt.notes = goSides(states), []violation{v}, []string{fatal}
		return pt
	}

	var outs []*outcome
	for i := range pr.Parts {
		p := &pr.Parts[i]
		st := states[p.Group]
		var names []string
		for n, h := range st.ld.Harness {
			if h.Contract == "" && p.Harness.MatchString(n) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			outs = append(outs, &outcome{part: p, group: p.Group, name: n})
		}
	}
	jobs := make(chan *outcome)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range jobs {
				runLadder(id, o, states[o.group], deadline, thorough)
			}
		}()
	}
	// long ones first
	sort.SliceStable(outs, func(i, j int) bool { return weight(outs[i].name) > weight(outs[j].name) })
	for _, o := range outs {
		jobs <- o
	}
	close(jobs)
	wg.Wait()
	var vs []violation
	var notes []string
	for _, st := range states {
		notes = append(notes, st.con.notes...)
	}
	for _, o := range outs {
		vs = append(vs, o.violate...)
		for _, n := range o.notes {
			notes = append(notes, o.group+"/"+o.name+": "+n)
		}
	}
	pt.outs, pt.sides, pt.vs, pt.notes = outs, goSides(states), vs, notes
	return pt
}

// side is what the report needs to know about one group of contracts
type side struct {
	of      func(contract string) []string // functions it is stated on
	con     []*Result                      // proofs of contracts used at calls
	callee  func(contract string) string
	native  int
	dropped []string
}

// reportInfo is the part of the evidence that depends on the language
type reportInfo struct {
	cmd     string
	trusted []string
	assum   []string
	level   string
	extra   func(cov map[string]any)
}

func goSides(states map[string]*groupState) map[string]*side {
	m := map[string]*side{}
	for n, st := range states {
		st := st
		sd := &side{native: st.nat.Ran, dropped: st.ld.Dropped}
		sd.of = func(c string) []string {
			h := st.ld.Harness[c]
			if h == nil {
				return nil
			}
			if h.Contract != "" {
				return []string{h.Contract}
			}
			return h.Of
		}
		sd.callee = func(c string) string { return st.ld.Harness[c].Contract }
		if st.con != nil {
			sd.con = st.con.res
		}
		m[n] = sd
	}
	return m
}

func goReport() *reportInfo {
	return &reportInfo{cmd: "bash tools/gocheck.sh",
		trusted: []string{"govc VC generator (/verif/govc)", "golang.org/x/tools/go/ssa", "z3 4.8.12 (bit vectors, arrays-free UF; linear integer arithmetic)", "cvc5 1.1.2 and z3 5.x for what z3 4.8 leaves open", "wire-format specification /verif/ghost/common/spec.go", "contracts /verif/ghost"},
		assum: []string{
			"the verifier itself (govc): its reading of Go SSA (golang.org/x/tools/go/ssa), its memory model (byte objects and cells), its term simplifier, and the solvers z3 and cvc5",
			"machine integers are exact bit vectors; pointers are object plus offset; addresses are never compared across objects",
			"inputs of a contract (storage, payload, scratch) are distinct memory unless the contract says otherwise; object sizes are at most 2^47 bytes; int is 64 bits wide",
			"append may return any capacity with room; bytes beyond the written length are arbitrary; allocation succeeds",
			"one goroutine uses an encoder, decoder or buffer at a time (sync.Pool is modelled as a bag that may return any item put or a new one)",
			"float bits pass through math.Float32bits/frombits and assignments unchanged",
		}}
}

func weight(n string) int {
	w := 0
	for s, k := range map[string]int{"64": 5, "Bytes": 6, "String": 4, "Error": 4, "32": 2, "Map": 3, "Slice": 2, "Stream": 8} {
		if strings.Contains(n, s) {
			w += k
		}
	}
	return w
}

func good(r *Result) bool { return len(r.Fails) == 0 && len(r.Unsup) == 0 && len(r.Covers) > 0 }

func runLadder(id string, o *outcome, st *groupState, deadline time.Time, thorough bool) {
	opt := Options{Select: o.part.Select, StopAfter: 6, Deadline: deadline}
	capTime := func(d time.Duration) time.Time {
		t := time.Now().Add(d)
		if t.After(deadline) {
			return deadline
		}
		return t
	}
	opt.Deadline = capTime(200 * time.Second)
	o.rung = "modular"
	o.res = runOne(st.ld, o.name, opt, st.con.use)
	if len(o.res.Used) == 0 {
		o.rung = "inlined"
	}
	if !good(o.res) && len(o.res.Used) > 0 {
		first := o.res
		opt.Deadline = capTime(300 * time.Second)
		r := runOne(st.ld, o.name, opt, map[string]*ssa.Function{})
		if len(r.Unsup) > 0 && len(r.Fails) == 0 && len(first.Fails) > 0 {
			o.notes = append(o.notes, "modular proof failed and the inlined one is out of reach: "+strings.Join(r.Unsup, "; "))
		}
		o.notes = append(o.notes, "modular proof failed; the bodies of contracted callees were used instead")
		o.res, o.rung = r, "inlined"
	}
	judge(id, o, st.nat, len(st.ld.target.Func(o.name).Params) > 0, thorough, func() *Result {
		alt := opt
		alt.Solver = "z3-new"
		alt.Deadline = capTime(300 * time.Second)
		return runOne(st.ld, o.name, alt, st.con.use)
	})
}

// runner executes contracts on the compiled code
type runner interface {
	Run(reqs []NReq, limit time.Duration) ([]NRes, error)
}

var began = time.Now()

// searchTime: how long one random search may take, so that a check with many of
// them still ends in time.
func searchTime(full int) int {
	switch el := time.Since(began); {
	case el < 150*time.Second:
		return full
	case el < 300*time.Second:
		return full * 3 / 10
	case el < 500*time.Second:
		return full / 12
	}
	return full / 60
}

// judge turns the verifier's answer into a verdict: failed obligations are
// replayed on the compiled code, and searched for where that is not possible.
func judge(id string, o *outcome, nat runner, hasInputs bool, thorough bool, again func() *Result) {
	r := o.res
	if good(r) {
		if thorough && time.Since(began) < 750*time.Second {
			// the same obligations again, by another version of the solver
			r2 := again()
			if good(r2) {
				o.notes = append(o.notes, fmt.Sprintf("confirmed by z3-new: %d obligations", r2.VCs))
			} else if len(r2.Fails) > 0 {
				o.notes = append(o.notes, "z3-new disagrees or gives up on: "+r2.Fails[0].Label)
			}
			if res, err := nat.Run([]NReq{{Harness: o.name, Search: 1 << 30, Millis: searchTime(15000), Seed: seed()}}, 120*time.Second); err == nil {
				o.judgeSearch(id, &res[0], "random search over the compiled code, as a check of the verifier itself")
			}
		}
		return
	}
	// replay what the verifier says
	for i := range r.Fails {
		f := &r.Fails[i]
		if f.Status != Sat || f.Inputs == nil && hasInputs || tooBig(f.Inputs) {
			continue
		}
		res, err := nat.Run([]NReq{{Harness: o.name, Inputs: [][]InputVal{f.Inputs}}}, 120*time.Second)
		if err != nil || len(res) == 0 {
			if err != nil {
				o.notes = append(o.notes, "replay: "+err.Error())
			}
			continue
		}
		for j := range res[0].Finds {
			nf := &res[0].Finds[j]
			if !o.part.Select(nf.Label, strings.Fields(nf.Aspect)) {
				continue
			}
			o.violate = append(o.violate, violation{Property: id, Group: o.group, Harness: o.name, Obligation: f.Label, Site: f.Site, Under: f.Aspects,
				Verifier: "the verifier refutes the obligation (z3: sat)", Model: f.Inputs, Replayed: true, Inputs: nf.Inputs, Observed: nf, Path: f.Path})
			return
		}
		o.notes = append(o.notes, fmt.Sprintf("the counterexample of %s at %s does not fail on the compiled code", f.Label, f.Site))
	}
	ms := 20000
	if thorough {
		ms = 60000
	}
	ms = searchTime(ms)
	res, err := nat.Run([]NReq{{Harness: o.name, Search: 400000, Millis: ms, Seed: seed()}}, time.Duration(ms)*time.Millisecond+120*time.Second)
	if err == nil && len(res) > 0 {
		why := "the verifier cannot discharge " + failText(r)
		if len(r.Fails) == 0 {
			why = "outside the verifier's reach (" + strings.Join(r.Unsup, "; ") + "); bounded search"
		}
		if o.judgeSearch(id, &res[0], why) {
			return
		}
	} else if err != nil {
		o.notes = append(o.notes, err.Error())
	}
	if len(r.Fails) > 0 {
		f := r.Fails[0]
		o.violate = append(o.violate, violation{Property: id, Group: o.group, Harness: o.name, Obligation: f.Label, Site: f.Site, Under: f.Aspects,
			Verifier: failText(r), Model: f.Inputs, Path: f.Path})
		return
	}
	if err != nil {
		o.violate = append(o.violate, violation{Property: id, Group: o.group, Harness: o.name, Obligation: "bounded/native-run", Verifier: err.Error() + " (" + strings.Join(r.Unsup, "; ") + ")"})
		return
	}
	if len(res) > 0 {
		o.bounded = &res[0]
	}
}

func failText(r *Result) string {
	var s []string
	for _, f := range r.Fails {
		s = append(s, fmt.Sprintf("%s at %s: %s", f.Label, f.Site, f.Status))
	}
	return strings.Join(s, "; ")
}

func (o *outcome) judgeSearch(id string, res *NRes, why string) bool {
	for j := range res.Finds {
		nf := &res.Finds[j]
		if !o.part.Select(nf.Label, strings.Fields(nf.Aspect)) {
			continue
		}
		v := violation{Property: id, Group: o.group, Harness: o.name, Obligation: nf.Label, Site: nf.Site, Verifier: why, Replayed: true, Inputs: nf.Inputs, Observed: nf}
		if o.res != nil && len(o.res.Fails) > 0 {
			v.Obligation, v.Site, v.Under = o.res.Fails[0].Label, o.res.Fails[0].Site, o.res.Fails[0].Aspects
		}
		o.violate = append(o.violate, v)
		return true
	}
	return false
}

func finish(id string, t0 time.Time, outs []*outcome, sides map[string]*side, info *reportInfo, vs []violation, notes []string) int {
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	obl, dis, vcs, triv, queries, alt, unk, paths, assumed := 0, 0, 0, 0, 0, 0, 0, 0, 0
	lia := 0
	var solver time.Duration
	under := map[string]bool{}
	inl := map[string]bool{}
	used := map[string]bool{}
	intr := map[string]bool{}
	type hrow struct {
		Group       string   `json:"group"`
		Harness     string   `json:"contract"`
		Of          []string `json:"functions"`
		Rung        string   `json:"callees"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		VCs         int      `json:"vcs"`
		Paths       int      `json:"paths"`
		SolverMS    int64    `json:"solver_ms"`
		Bounded     int      `json:"bounded_cases,omitempty"`
		Unsup       []string `json:"outside_reach,omitempty"`
	}
	var rows []hrow
	var bounded []string
	add := func(group string, name string, r *Result, rung string) {
		row := hrow{Group: group, Harness: name, Rung: rung}
		row.Of = sides[group].of(name)
		for _, f := range row.Of {
			under[group+":"+f] = true
		}
		for _, ok := range r.Obs {
			obl++
			row.Obligations++
			if ok {
				dis++
				row.Discharged++
			}
		}
		row.VCs, row.Paths, row.SolverMS, row.Unsup = r.VCs, r.Paths, r.SolverTime.Milliseconds(), r.Unsup
		vcs += r.VCs
		triv += r.Trivial
		queries += r.Queries
		alt += r.Alt
		unk += r.Unknowns
		paths += r.Paths
		assumed += r.Assumed
		lia += r.LiaDone
		solver += r.SolverTime
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.Used {
			used[k] = true
		}
		for k := range r.Intrins {
			intr[k] = true
		}
		rows = append(rows, row)
	}
	proved := len(vs) == 0
	for g, st := range sides {
		for _, r := range st.con {
			inUse := false
			for _, o := range outs {
				if o.group == g && o.res != nil && o.res.Used[st.callee(r.Harness)] {
					inUse = true
				}
			}
			if !inUse {
				continue
			}
			add(g, r.Harness, r, "own proof of a contract used below")
		}
	}
	for _, o := range outs {
		if o.bounded != nil {
			bounded = append(bounded, fmt.Sprintf("%s/%s: %d random cases on the compiled code instead of a proof (%s)", o.group, o.name, o.bounded.Ran, strings.Join(o.res.Unsup, "; ")))
			rows = append(rows, hrow{Group: o.group, Harness: o.name, Of: sides[o.group].of(o.name), Rung: "bounded", Bounded: o.bounded.Ran, Unsup: o.res.Unsup})
			proved = false
			continue
		}
		if len(o.res.Unsup) > 0 || len(o.res.Covers) == 0 {
			proved = false
		}
		add(o.group, o.name, o.res, o.rung)
	}
	nat := 0
	var dropped []string
	for _, st := range sides {
		nat += st.native
		dropped = append(dropped, st.dropped...)
	}
	assum := append([]string{}, info.assum...)
	for k := range intr {
		assum = append(assum, "assumed contract of the standard library: "+k)
	}
	sort.Strings(assum[len(info.assum):])
	cov := map[string]any{
		"obligations":              obl,
		"discharged":               dis,
		"checker_cmd":              info.cmd + " " + id,
		"trusted_base":             info.trusted,
		"counting":                 "an obligation is a (label, source site) pair of one contract; each is discharged on every path through the bodies (verification conditions)",
		"verification_conditions":  map[string]int{"total": vcs, "by_term_rewriting": triv, "decided_by_linear_integer_arithmetic": lia, "solver_queries": queries, "by_cvc5_or_z3_new": alt, "undecided": unk},
		"paths":                    paths,
		"solver_seconds":           solver.Seconds(),
		"functions_under_contract": sortedKeys(under),
		"functions_whose_body_ran": sortedKeys(inl),
		"callees_used_by_contract": sortedKeys(used),
		"obligations_of_other_properties_assumed_on_the_way": assumed,
		"contracts":                  rows,
		"bounded":                    bounded,
		"all_proved":                 proved,
		"native_cases":               nat,
		"dropped_internal_contracts": dropped,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	level := "proof"
	if info.level != "" {
		level = info.level
	}
	if info.extra != nil {
		info.extra(cov)
	}
	ev := map[string]any{"property": id, "tier": tier(), "seed": seed(), "level": level, "coverage": cov, "assumptions": assum,
		"wall_s": time.Since(t0).Seconds(), "violations": len(vs)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, id+".json"), append(js, '\n'), 0o644)

	old, _ := filepath.Glob(filepath.Join(evDir, "replay-"+id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Replayed && !vs[j].Replayed })
	for i := range vs {
		if i >= 10 {
			break
		}
		v := &vs[i]
		f := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", id, i+1))
		v.How = info.cmd + " replay " + f
		js, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(js, '\n'), 0o644)
		fmt.Printf("%s: obligation %s of contract %s/%s (at %s) fails", id, v.Obligation, v.Group, v.Harness, v.Site)
		if v.Observed != nil {
			fmt.Printf("; on the compiled code: %s %s %s, inputs %s", v.Observed.Label, v.Observed.Site, v.Observed.Detail, inputText(v.Inputs))
		}
		fmt.Println()
		if v.Replayed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, f)
		}
	}
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d verification conditions on %d paths, %d violations, %d bounded stand-ins, %.1fs\n",
		id, len(rows), obl, dis, vcs, paths, len(vs), len(bounded), time.Since(t0).Seconds())
	for _, b := range bounded {
		fmt.Println("bounded:", b)
	}
	if len(vs) > 0 {
		return 1
	}
	return 0
}

func inputText(in []InputVal) string {
	var s []string
	for _, i := range in {
		switch {
		case i.Kind == "scalar":
			s = append(s, fmt.Sprintf("%s=%d", i.Name, i.U))
		case i.Nil:
			s = append(s, i.Name+"=nil")
		default:
			d := i.Data
			if uint64(len(d)) > i.Len {
				d = d[:i.Len]
			}
			if len(d) > 24 {
				d = d[:24]
			}
			s = append(s, fmt.Sprintf("%s=[%x](len %d cap %d)", i.Name, d, i.Len, i.Cap))
		}
	}
	return strings.Join(s, " ")
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// replay runs the failing inputs of a replay file against the code again.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	if !v.Replayed {
		fmt.Println("no failing input is recorded; the failed obligation is", v.Obligation, "at", v.Site, "-", v.Verifier)
		return 0
	}
	if v.Group == "rust" || v.Group == "c_bindings" {
		return rreplay(&v)
	}
	if strings.HasPrefix(v.Group, "generated-") {
		return greplay(&v)
	}
	if v.Group == "header" {
		what := ""
		for _, w := range []string{"status", "prototypes"} {
			if strings.Contains(v.Harness, " "+w) {
				what = w
			}
		}
		var outs []*outcome
		var err error
		if what == "" {
			outs, err = headerKinds(v.Property, []string{v.Site})
		} else {
			b, e1, e2 := buildRust(true)
			defer b.Close()
			if err = e1; err == nil {
				err = e2
			}
			if err == nil {
				outs = b.headerPart(v.Property, what)
			}
		}
		if err != nil {
			fmt.Println(err)
			return 2
		}
		for _, o := range outs {
			for _, w := range o.violate {
				if w.Obligation == v.Obligation {
					fmt.Println("reproduced:", w.Observed.Detail)
					return 1
				}
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	if v.Group == "typescript" {
		return treplay(&v)
	}
	g := groups()[v.Group]
	ld, err := Load(g.Dir, g.Ghost)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := &Native{g: g, ld: ld}
	defer n.Close()
	res, err := n.Run([]NReq{{Harness: v.Harness, Inputs: [][]InputVal{v.Inputs}}}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, r := range res {
		fmt.Printf("%s %s: ran %d, failures %d\n", v.Harness, inputText(v.Inputs), r.Ran, len(r.Finds))
		for _, f := range r.Finds {
			fmt.Printf("  %s %s %s %s\n", f.Label, f.Aspect, f.Site, f.Detail)
		}
		if len(r.Finds) > 0 {
			return 1
		}
	}
	return 0
}
