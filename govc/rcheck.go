package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Checks of the Rust crate and of its C bindings.

type RProp struct {
	Harness *regexp.Regexp
	Select  func(label string, asp []string) bool
	C       bool // contracts of the C bindings
	Header  string
}

func rpanics(l string) bool {
	return l == "panic" || strings.HasPrefix(l, "memory") || strings.HasPrefix(l, "hang")
}

func rprops() map[string]*RProp {
	re := regexp.MustCompile
	dec := re(`^h_dec_`)
	return map[string]*RProp{
		"C15": {Harness: re(`^h_enc_`), Select: selAll},
		"C16": {Harness: dec, Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/accept/") || rpanics(l) && has(a, "accept")
		}},
		"C17": {Harness: dec, Select: func(l string, a []string) bool { return rpanics(l) || strings.HasPrefix(l, "alloc/") }},
		"C18": {Harness: dec, Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/reject/") || rpanics(l) && has(a, "reject")
		}},
		"C20": {C: true, Header: "status", Harness: re(`^h_`), Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/status/") || l == "panic" || strings.HasPrefix(l, "hang") || rpanics(l) && has(a, "null")
		}},
		"C21": {C: true, Header: "prototypes", Harness: re(`^h_(en|de)code|_encoder|_decoder`), Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/value/") || rpanics(l) && has(a, "accept")
		}},
		"C22": {C: true, Harness: re(`^h_`), Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "memory") || strings.HasPrefix(l, "post/memory/")
		}},
		"C19": {Harness: dec, Select: func(l string, a []string) bool { return strings.HasPrefix(l, "post/position/") }},
	}
}

// RustBuild is one compilation of the crate together with its contracts.
type RustBuild struct {
	dir   string
	ghost string
	prog  *MProg
	once  sync.Once
	err   error
	Ran   int
	mu    sync.Mutex
	runs  int
	c     bool
}

func (b *RustBuild) Close() {
	if b.dir != "" && os.Getenv("KEEP") == "" {
		os.RemoveAll(b.dir)
	}
}

func (b *RustBuild) sh(env []string, name string, args ...string) error {
	cmd := exec.Command(name, args...)
	cmd.Dir = b.dir
	cmd.Env = append(append(os.Environ(), "RUSTUP_TOOLCHAIN=nightly"), env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		t := string(out)
		if len(t) > 3000 {
			t = t[:3000]
		}
		return fmt.Errorf("%s %s: %v\n%s", name, args[len(args)-1], err, t)
	}
	return nil
}

var rustFlags = []string{"--edition", "2021", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-Zalways-encode-mir", "-Awarnings", "-L", "."}

func (b *RustBuild) rlib(crate, src string, more ...string) error {
	args := append(append([]string{}, rustFlags...), "--crate-type", "rlib", "--crate-name", crate)
	return b.sh(nil, "rustc", append(append(args, more...), src)...)
}

func byteorderSrc() string {
	for _, h := range []string{os.Getenv("CARGO_HOME"), filepath.Join(os.Getenv("HOME"), ".cargo"), "/root/.cargo"} {
		m, _ := filepath.Glob(filepath.Join(h, "registry/src/*/byteorder-1.5.0/src/lib.rs"))
		if len(m) > 0 {
			return m[0]
		}
	}
	return ""
}

// functions that only ever run on the way to a panic, and the ghost operations
const mirStop = "core::panicking::\ncore::fmt::write\ncore::fmt::float\ncore::fmt::num\ncore::fmt::builders\nstd::panicking::\nverif::"

func buildRust(c bool) (*RustBuild, error, error) {
	b := &RustBuild{c: c, ghost: filepath.Join(verifDir(), "rs", "ghost", "rust.rs")}
	if c {
		b.ghost = filepath.Join(verifDir(), "rs", "ghost", "cabi.rs")
	}
	var err error
	if b.dir, err = os.MkdirTemp("", "govc-rust"); err != nil {
		return b, err, nil
	}
	rs := filepath.Join(verifDir(), "rs")
	var wg sync.WaitGroup
	errs := make([]error, 3)
	wg.Add(3)
	go func() {
		defer wg.Done()
		errs[0] = b.sh(nil, "rustc", "-O", "--edition", "2021", "-C", "prefer-dynamic", "-Awarnings", "-o", "mirdump", filepath.Join(rs, "mirdump", "main.rs"))
	}()
	go func() {
		defer wg.Done()
		errs[1] = b.rlib("byteorder", byteorderSrc(), "--cfg", `feature="std"`)
	}()
	go func() { defer wg.Done(); errs[2] = b.rlib("verif", filepath.Join(rs, "verif", "lib.rs")) }()
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return b, e, nil
		}
	}
	if err := b.rlib("polyglot_rs", filepath.Join(repoDir(), "lib.rs"), "--extern", "byteorder=libbyteorder.rlib"); err != nil {
		return b, nil, err
	}
	if c {
		if err := b.rlib("c_bindings", filepath.Join(repoDir(), "c_bindings", "lib.rs"), "--extern", "polyglot_rs=libpolyglot_rs.rlib", "--extern", "byteorder=libbyteorder.rlib"); err != nil {
			return b, nil, err
		}
	}
	sys, err := exec.Command("rustc", "+nightly", "--print", "sysroot").Output()
	if err != nil {
		return b, err, nil
	}
	sr := strings.TrimSpace(string(sys))
	out := filepath.Join(b.dir, "mir.json")
	args := []string{"--sysroot", sr, "--edition", "2021", "-C", "overflow-checks=on", "-C", "debug-assertions=off", "-Zalways-encode-mir", "-Awarnings", "-L", ".",
		"--extern", "verif=libverif.rlib", "--extern", "polyglot_rs=libpolyglot_rs.rlib"}
	if c {
		args = append(args, "--extern", "c_bindings=libc_bindings.rlib")
	}
	args = append(args, "--crate-type", "rlib", b.ghost)
	if err := b.sh([]string{"LD_LIBRARY_PATH=" + filepath.Join(sr, "lib"), "MIRDUMP_OUT=" + out, "MIRDUMP_STOP=" + mirStop}, filepath.Join(b.dir, "mirdump"), args...); err != nil {
		return b, nil, err
	}
	if b.prog, err = loadMIR(out); err != nil {
		return b, err, nil
	}
	return b, nil, nil
}

// native binary: the same contracts, compiled and run
func (b *RustBuild) native() error {
	b.once.Do(func() {
		var t strings.Builder
		var names []string
		for n := range b.prog.Entries {
			if strings.HasPrefix(n, "h_") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		fmt.Fprintf(&t, "#[path = %q]\nmod run;\n#[path = %q]\nmod g;\nfn main() { run::main_with(&[\n", filepath.Join(verifDir(), "rs/native/run.rs"), b.ghost)
		for _, n := range names {
			fmt.Fprintf(&t, "(%q, g::%s as fn()),\n", n, n)
		}
		t.WriteString("]) }\n")
		src := filepath.Join(b.dir, "native.rs")
		os.WriteFile(src, []byte(t.String()), 0o644)
		args := []string{"--edition", "2021", "-O", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-Awarnings", "-L", ".", "--extern", "verif=libverif.rlib", "--extern", "polyglot_rs=libpolyglot_rs.rlib", "-o", "native"}
		if b.c {
			args = append(args, "--extern", "c_bindings=libc_bindings.rlib")
		}
		b.err = b.sh(nil, "rustc", append(args, src)...)
	})
	return b.err
}

func (b *RustBuild) Run(reqs []NReq, limit time.Duration) ([]NRes, error) {
	if err := b.native(); err != nil {
		return nil, err
	}
	var res []NRes
	for _, q := range reqs {
		b.mu.Lock()
		b.runs++
		rq := filepath.Join(b.dir, fmt.Sprintf("req%d", b.runs))
		ro := filepath.Join(b.dir, fmt.Sprintf("out%d", b.runs))
		b.mu.Unlock()
		var t strings.Builder
		fmt.Fprintf(&t, "harness %s\n", q.Harness)
		for _, ins := range q.Inputs {
			for _, i := range ins {
				sc := i.U
				if i.Kind == "vec" {
					sc = i.Cap
				}
				d := i.Data
				if uint64(len(d)) > i.Len && i.Kind != "scalar" {
					d = d[:i.Len]
				}
				for i.Kind != "scalar" && uint64(len(d)) < i.Len {
					d = append(append([]byte{}, d...), make([]byte, i.Len-uint64(len(d)))...)
				}
				fmt.Fprintf(&t, "in %s %d -%s\n", i.Name, sc, hex.EncodeToString(d))
			}
			t.WriteString("case\n")
		}
		if q.Search > 0 {
			fmt.Fprintf(&t, "search %d %d %d\n", q.Search, q.Millis, q.Seed)
		}
		os.WriteFile(rq, []byte(t.String()), 0o644)
		cmd := exec.Command("timeout", fmt.Sprint(int(limit.Seconds())), filepath.Join(b.dir, "native"), rq, ro)
		cmd.Dir = b.dir
		o, err := cmd.CombinedOutput()
		bs, rerr := os.ReadFile(ro)
		if rerr != nil {
			s := string(o)
			if len(s) > 2000 {
				s = s[:2000]
			}
			return nil, fmt.Errorf("native run: %v\n%s", err, s)
		}
		r := NRes{Harness: q.Harness}
		for _, l := range strings.Split(string(bs), "\n") {
			w := strings.Split(l, " ")
			switch w[0] {
			case "ran":
				r.Ran, _ = strconv.Atoi(w[1])
				r.Skipped, _ = strconv.Atoi(w[2])
			case "find":
				p := strings.SplitN(l[5:], "|", 3)
				lab := p[0]
				switch {
				case rpanics(lab), strings.HasPrefix(lab, "alloc/"):
				default:
					lab = "post/" + lab
				}
				r.Finds = append(r.Finds, NFind{Label: lab, Aspect: p[1], Detail: p[2]})
			case "in":
				f := &r.Finds[len(r.Finds)-1]
				u, _ := strconv.ParseUint(w[2], 10, 64)
				d, _ := hex.DecodeString(w[3][1:])
				iv := InputVal{Name: w[1], Kind: "scalar", U: u}
				if len(d) > 0 || !b.scalar(q.Harness, w[1]) {
					iv = InputVal{Name: w[1], Kind: "vec", Len: uint64(len(d)), Cap: max(u, uint64(len(d))), Data: d}
				}
				f.Inputs = append(f.Inputs, iv)
			}
		}
		b.mu.Lock()
		b.Ran += r.Ran
		b.mu.Unlock()
		res = append(res, r)
	}
	return res, nil
}

func (b *RustBuild) scalar(h, name string) bool {
	return name != "b" && name != "p" && name != "buf" && name != "out" && name != "s"
}

func rustReport() *reportInfo {
	return &reportInfo{cmd: "bash tools/rscheck.sh",
		trusted: []string{"govc VC generator (/verif/govc) and its MIR reader (/verif/rs/mirdump on rustc_public)", "rustc nightly 1.101 (MIR construction, type layouts) and its distributed std MIR", "z3 4.8.12 (bit vectors, uninterpreted functions; linear integer arithmetic)", "cvc5 1.1.2 and z3 5.x for what z3 4.8 leaves open", "wire-format specification /verif/rs/ghost/spec.rs", "contracts /verif/rs/ghost"},
		assum: []string{
			"the verifier itself (govc): its reading of rustc's MIR, its memory model (objects of bytes and typed words; uninitialised memory is arbitrary), its term simplifier, and the solvers z3 and cvc5",
			"the MIR examined is built by the nightly compiler with debug assertions and overflow checks on, optimisation off; the shipped library is built by another rustc version, whose compilation and standard library are assumed to agree with it",
			"machine integers are exact bit vectors; pointers are object plus offset; behaviour does not depend on addresses",
			"allocation succeeds; byte strings are at most 2^40 bytes long",
			"a panic is a failure wherever it happens; code after a panic (unwinding) is not examined",
			"float bits pass through from_bits/to_bits and moves unchanged",
		}}
}

func (b *RustBuild) prove() (map[string]bool, []*Result, []string) {
	use := map[string]bool{}
	var res []*Result
	var notes []string
	for fn, c := range rustContracts {
		if _, ok := b.prog.Entries["k_"+c]; !ok {
			continue
		}
		r := runRust(b.prog, "k_"+c, Options{Deadline: time.Now().Add(100 * time.Second)}, nil)
		if good(r) {
			use[c] = true
			res = append(res, r)
		} else {
			notes = append(notes, fmt.Sprintf("contract of %s not established (%s %v); its body is used", fn, failText(r), r.Unsup))
		}
	}
	return use, res, notes
}

// functions a contract is stated on
func rustFunctions(h string, c bool) []string {
	n := strings.TrimPrefix(strings.TrimPrefix(h, "h_"), "k_")
	if strings.HasPrefix(h, "k_") {
		for fn, k := range rustContracts {
			if k == n {
				return []string{fn}
			}
		}
	}
	switch n {
	case "kinds":
		return []string{"Kind"}
	case "kind_from":
		return []string{"<Kind as From<u8>>::from"}
	case "kind_into":
		return []string{"Kind::into"}
	}
	if c {
		return []string{"polyglot_" + n}
	}
	switch {
	case n == "enc_string_error":
		n = "enc_error"
	}
	if strings.HasPrefix(n, "enc_") {
		return []string{"Encoder::encode_" + n[4:]}
	}
	return []string{"Decoder::decode_" + n[4:]}
}

func rcheck(id string) int {
	t0 := time.Now()
	pr := rprops()[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	return rustPart(id, pr).finish(id, t0)
}

func rustPart(id string, pr *RProp) *partial {
	t0 := time.Now()
	thorough := tier() == "thorough"
	budget := 600 * time.Second
	if thorough {
		budget = 840 * time.Second
	}
	deadline := t0.Add(budget)
	group := "rust"
	if pr.C {
		group = "c_bindings"
	}
	b, broken, api := buildRust(pr.C)
	part0 := &partial{info: rustReport(), done: b.Close}
	if broken != nil {
		part0.broken = broken
		return part0
	}
	sd := &side{of: func(h string) []string { return rustFunctions(h, pr.C) }}
	sides := map[string]*side{group: sd}
	if api != nil {
		v := violation{Property: id, Group: group, Obligation: "contract/api", Verifier: "the contracts no longer compile against the crate: " + api.Error()}
		part0.sides, part0.vs, part0.notes = sides, []violation{v}, []string{api.Error()}
		return part0
	}
	use, con, notes := b.prove()
	sd.con = con
	sd.callee = func(h string) string { return rustFunctions(h, false)[0] }
	var outs []*outcome
	part := &Part{Group: group, Harness: pr.Harness, Select: pr.Select}
	for n := range b.prog.Entries {
		if pr.Harness.MatchString(n) {
			outs = append(outs, &outcome{part: part, group: group, name: n})
		}
	}
	sort.Slice(outs, func(i, j int) bool {
		if w, v := rweight(outs[i].name), rweight(outs[j].name); w != v {
			return w > v
		}
		return outs[i].name < outs[j].name
	})
	jobs := make(chan *outcome)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range jobs {
				end := func(d time.Duration) time.Time {
					if t := time.Now().Add(d); t.Before(deadline) {
						return t
					}
					return deadline
				}
				o.rung = "bodies, std::io::Cursor::write_all by its contract"
				o.res = runRust(b.prog, o.name, Options{Select: part.Select, StopAfter: 6, Deadline: end(400 * time.Second)}, use)
				if len(o.res.Used) == 0 {
					o.rung = "bodies"
				}
				judge(id, o, b, true, thorough, func() *Result {
					return runRust(b.prog, o.name, Options{Select: part.Select, Solver: "z3-new", Deadline: end(300 * time.Second)}, use)
				})
			}
		}()
	}
	for _, o := range outs {
		jobs <- o
	}
	close(jobs)
	wg.Wait()
	var vs []violation
	for _, o := range outs {
		vs = append(vs, o.violate...)
		for _, n := range o.notes {
			notes = append(notes, o.name+": "+n)
		}
	}
	if pr.Header != "" {
		sides["header"] = &side{of: func(n string) []string { return []string{strings.Fields(n)[0]} }}
		part0.info.trusted = append(part0.info.trusted, "clang 18 (types and constants of polyglot.h)")
		for _, o := range b.headerPart(id, pr.Header) {
			outs = append(outs, o)
			vs = append(vs, o.violate...)
		}
	}
	sd.native = b.Ran
	part0.outs, part0.sides, part0.vs, part0.notes = outs, sides, vs, notes
	return part0
}

func rweight(n string) int {
	w := 0
	for s, k := range map[string]int{"64": 3, "bytes": 6, "string": 9, "str": 4, "error": 10, "32": 2, "map": 1} {
		if strings.Contains(n, s) {
			w += k
		}
	}
	return w
}

// rreplay runs the failing inputs of a replay file again.
func rreplay(v *violation) int {
	b, broken, api := buildRust(v.Group == "c_bindings")
	defer b.Close()
	if broken != nil || api != nil {
		fmt.Println(broken, api)
		return 2
	}
	res, err := b.Run([]NReq{{Harness: v.Harness, Inputs: [][]InputVal{v.Inputs}}}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rc := 0
	for _, r := range res {
		fmt.Printf("%s %s: ran %d, failures %d\n", v.Harness, inputText(v.Inputs), r.Ran, len(r.Finds))
		for _, f := range r.Finds {
			fmt.Printf("  %s %s %s\n", f.Label, f.Aspect, f.Detail)
			rc = 1
		}
	}
	return rc
}

func rrun(args []string) {
	b, e1, e2 := buildRust(os.Getenv("C") != "")
	defer b.Close()
	if e1 != nil || e2 != nil {
		fmt.Println(e1, e2)
		return
	}
	var names []string
	for n := range b.prog.Entries {
		names = append(names, n)
	}
	sort.Strings(names)
	use, con, notes := b.prove()
	fmt.Println("contracts:", use, len(con), notes)
	if os.Getenv("INLINE") != "" {
		use = nil
	}
	for _, n := range names {
		if args[0] != "all" && args[0] != n || args[0] == "all" && !strings.HasPrefix(n, "h_") {
			continue
		}
		t := time.Now()
		o := Options{Verbose: os.Getenv("V") != ""}
		if len(args) > 1 {
			o.Select = rprops()[args[1]].Select
		}
		r := runRust(b.prog, n, o, use)
		fmt.Printf("%-22s paths=%d vcs=%d trivial=%d fails=%d covers=%v unsup=%v queries=%d solver=%v wall=%v\n", n, r.Paths, r.VCs, r.Trivial, len(r.Fails), keys(r.Covers), r.Unsup, r.Queries, r.SolverTime.Round(time.Millisecond), time.Since(t).Round(time.Millisecond))
		for _, f := range r.Fails {
			fmt.Printf("   FAIL %s %s %v %s aspects=%v\n", f.Status, f.Label, f.Site, f.Path, f.Aspects)
			for _, i := range f.Inputs {
				fmt.Printf("      %+v\n", i)
			}
		}
	}
}
