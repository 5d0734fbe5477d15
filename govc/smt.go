package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver: one interactive SMT process with an assertion stack that follows
// the executed path.

type Solver struct {
	tb        *TB
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	defined   map[int]bool
	declared  map[string]bool
	stack     []*T // one push level per assertion
	name      string
	args      []string
	Queries   int
	Time      time.Duration
	Unknowns  int
	AltTime   time.Duration
	AltUsed   int
	memo      map[memoKey]Res
	decls     []string // log for one-shot re-runs
	timeoutMS int

	lp         *proc
	sp         *proc
	liaMemo    map[memoKey]bool
	LiaQueries int
	LiaUnsat   int
	LiaTime    time.Duration
}

type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func startProc(name string, args ...string) *proc {
	p := &proc{cmd: exec.Command(name, args...)}
	w, _ := p.cmd.StdinPipe()
	r, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		panic(Fatal("cannot start " + name + ": " + err.Error()))
	}
	p.in = bufio.NewWriter(w)
	p.out = bufio.NewReader(r)
	return p
}

func (p *proc) send(x string) {
	p.in.WriteString(x)
	p.in.WriteByte('\n')
}

func (p *proc) result() Res {
	p.in.Flush()
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return Unknown
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if strings.HasPrefix(l, "(error") {
			panic(Fatal("solver: " + l))
		}
	}
}

const slowMS = 100

type memoKey struct {
	path string
	c    int
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

func NewSolver(tb *TB, name string) *Solver {
	s := &Solver{tb: tb, name: "z3", args: []string{"-in", "-smt2"}, memo: map[memoKey]Res{}, liaMemo: map[memoKey]bool{}, timeoutMS: 20000}
	if v := os.Getenv("GOVC_Z3"); v != "" {
		s.name = v
	}
	if name != "" {
		s.name = name
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = io.Discard
	if err := s.cmd.Start(); err != nil {
		panic(Fatal("cannot start " + s.name + ": " + err.Error()))
	}
	s.in = bufio.NewWriter(w)
	s.out = bufio.NewReader(r)
	s.defined = map[int]bool{}
	s.declared = map[string]bool{}
	s.decls = nil
	s.stack = nil
	s.send("(set-option :global-declarations true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeoutMS))
	s.send("(set-option :produce-models true)")
	s.send("(set-logic QF_UFBV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.send("(exit)")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.sp != nil {
		s.sp.cmd.Process.Kill()
		s.sp.cmd.Wait()
		s.sp = nil
	}
	if s.lp != nil {
		s.lp.cmd.Process.Kill()
		s.lp.cmd.Wait()
		s.lp = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) define(t *T) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		t *T
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.defined[f.t.id] || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 {
			a := f.t.a[f.i]
			f.i++
			if a != nil && !s.defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		var d string
		switch x.op {
		case OVar:
			d = fmt.Sprintf("(declare-fun %s () %s)", smtName(x.name), sortOf(x.w))
		default:
			if x.op == OApp && !s.declared[x.name] {
				s.declared[x.name] = true
				dd := fmt.Sprintf("(declare-fun %s ((_ BitVec 64)) (_ BitVec 8))", smtName(x.name))
				s.send(dd)
				s.decls = append(s.decls, dd)
			}
			d = fmt.Sprintf("(define-fun t!%d () %s %s)", x.id, sortOf(x.w), x.body())
		}
		s.send(d)
		s.decls = append(s.decls, d)
		s.defined[x.id] = true
	}
}

// sync makes the solver's stack equal to path.
func (s *Solver) sync(path []*T) {
	k := 0
	for k < len(s.stack) && k < len(path) && s.stack[k] == path[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(path); k++ {
		s.define(path[k])
		s.send("(push 1)")
		s.send("(assert " + path[k].ref() + ")")
		s.stack = append(s.stack, path[k])
	}
}

func (s *Solver) readResult() Res {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return Unknown
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if strings.HasPrefix(l, "(error") {
			panic(Fatal("solver: " + l))
		}
	}
}

func pathKey(path []*T) string {
	var b strings.Builder
	for _, t := range path {
		fmt.Fprintf(&b, "%x.", t.id)
	}
	return b.String()
}

// Check decides satisfiability of path ∧ c.
func (s *Solver) Check(path []*T, c *T) Res {
	if c.isFalse() {
		return Unsat
	}
	key := memoKey{pathKey(path), c.id}
	if r, ok := s.memo[key]; ok {
		return r
	}
	if s.Lia(path, c) {
		s.memo[key] = Unsat
		return Unsat
	}
	t0 := time.Now()
	s.sync(path)
	s.define(c)
	s.send("(push 1)")
	s.send("(assert " + c.ref() + ")")
	s.send("(check-sat)")
	r := s.readResult()
	s.send("(pop 1)")
	s.Queries++
	dt := time.Since(t0)
	s.Time += dt
	if dt > slowMS*time.Millisecond && os.Getenv("GOVC_SLOW") != "" {
		fmt.Printf("slow %v %v\n  goal %s\n", dt, r, c.str(12))
		for _, p := range path {
			fmt.Printf("     %s\n", p.str(8))
		}
		if os.Getenv("GOVC_SLOW") == "dump" {
			s.dump(path, c)
		}
	}
	if r == Unknown {
		r = s.alternates(path, c)
	}
	s.memo[key] = r
	return r
}

// fresh decides a small side query without disturbing the incremental path.
func (s *Solver) fresh(path []*T, c *T) Res {
	if c.isFalse() {
		return Unsat
	}
	t0 := time.Now()
	if s.sp == nil {
		s.sp = startProc("z3", "-in", "-smt2")
		s.sp.send(fmt.Sprintf("(set-option :timeout %d)", s.timeoutMS))
		s.sp.send("(set-logic QF_BV)")
	}
	s.sp.send("(push 1)")
	seen := map[int]bool{}
	var def func(t *T)
	def = func(t *T) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.a {
			if a != nil {
				def(a)
			}
		}
		if t.op == OVar {
			s.sp.send(fmt.Sprintf("(declare-fun %s () %s)", smtName(t.name), sortOf(t.w)))
			return
		}
		s.sp.send(fmt.Sprintf("(define-fun t!%d () %s %s)", t.id, sortOf(t.w), t.body()))
	}
	for _, p := range append(append([]*T{}, path...), c) {
		def(p)
		s.sp.send("(assert " + p.ref() + ")")
	}
	s.sp.send("(check-sat)")
	r := s.sp.result()
	s.sp.send("(pop 1)")
	s.Queries++
	s.Time += time.Since(t0)
	return r
}

// alternates re-runs an undecided query one-shot on the other back ends.
func (s *Solver) alternates(path []*T, c *T) Res {
	var b strings.Builder
	b.WriteString("(set-logic QF_UFBV)\n")
	for _, d := range s.decls {
		b.WriteString(d + "\n")
	}
	for _, p := range path {
		b.WriteString("(assert " + p.ref() + ")\n")
	}
	b.WriteString("(assert " + c.ref() + ")\n(check-sat)\n")
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		s.Unknowns++
		return Unknown
	}
	f.WriteString(b.String())
	f.Close()
	defer os.Remove(f.Name())
	t0 := time.Now()
	defer func() { s.AltTime += time.Since(t0) }()
	for _, c := range [][]string{{"cvc5", "--tlimit=30000", f.Name()}, {"z3-new", "-T:30", f.Name()}} {
		out, _ := exec.Command(c[0], c[1:]...).Output()
		switch strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0]) {
		case "sat":
			s.AltUsed++
			return Sat
		case "unsat":
			s.AltUsed++
			return Unsat
		}
	}
	s.Unknowns++
	return Unknown
}

func (s *Solver) dump(path []*T, c *T) {
	var b strings.Builder
	b.WriteString("(set-logic QF_UFBV)\n")
	for _, d := range s.decls {
		b.WriteString(d + "\n")
	}
	for _, p := range path {
		b.WriteString("(assert " + p.ref() + ")\n")
	}
	b.WriteString("(assert " + c.ref() + ")\n(check-sat)\n")
	os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.Queries), []byte(b.String()), 0o644)
}

// Model evaluates terms in a model of path ∧ cs; ok=false if not sat.
func (s *Solver) Model(path []*T, cs []*T, eval []*T) ([]uint64, bool) {
	s.sync(path)
	for _, c := range cs {
		s.define(c)
	}
	for _, e := range eval {
		s.define(e)
	}
	s.send("(push 1)")
	defer func() { s.send("(pop 1)") }()
	for _, c := range cs {
		s.send("(assert " + c.ref() + ")")
	}
	s.send("(check-sat)")
	if s.readResult() != Sat {
		return nil, false
	}
	var res []uint64
	for _, e := range eval {
		if e.isConst() {
			res = append(res, e.c)
			continue
		}
		s.send("(get-value (" + e.ref() + "))")
		s.in.Flush()
		txt := ""
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return nil, false
			}
			txt += l
			if strings.Count(txt, "(") == strings.Count(txt, ")") && strings.TrimSpace(txt) != "" {
				break
			}
		}
		txt = strings.TrimSpace(txt)
		v := strings.TrimSuffix(txt, "))")
		i := strings.LastIndexAny(v, " ")
		v = v[i+1:]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			fmt.Sscanf(v[2:], "%x", &x)
		case strings.HasPrefix(v, "#b"):
			fmt.Sscanf(v[2:], "%b", &x)
		default:
			// (_ bvN w)
			j := strings.Index(txt, "(_ bv")
			if j >= 0 {
				fmt.Sscanf(txt[j+5:], "%d", &x)
			}
		}
		res = append(res, x)
	}
	return res, true
}
