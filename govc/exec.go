package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Fatal string

// Unsupported: the code leaves the subset the verifier understands.
type Unsupported struct{ msg string }

// pathEnd: the current path stops (infeasible, failed obligation, ...).
type pathEnd struct{ why string }

type Failure struct {
	Label   string // full obligation label
	Site    string
	Status  Res // Sat or Unknown
	Inputs  []InputVal
	Aspects []string
	Path    string
}

type Oblig struct {
	Label, Site string
}

type decision struct {
	alts []int
	pos  int
}

type Engine struct {
	ld  *Loader
	tb  *TB
	s   *Solver
	opt Options
	use map[string]*ssa.Function // contract use: callee full name -> spec function

	// path state
	path      []*T
	dec       []decision
	decPos    int
	nfresh    int
	nobj      int
	ncell     int
	globals   map[*ssa.Global]*Cell
	poisoned  map[*ssa.Package]bool
	inInit    bool
	aspects   []string
	depth     int
	steps     int
	inputs    []Input
	trace     []string
	callstk   []string
	strMem    map[*StrV]bool
	canonMemo map[string]*T

	// results
	Paths    int
	VCs      int
	Trivial  int
	Obs      map[Oblig]bool // true = all discharged so far
	Fails    []Failure
	Covers   map[string]bool
	ReqSeen  int
	Unsup    []string
	Inlined  map[string]bool
	Used     map[string]bool
	Intrins  map[string]bool
	assumedN int
	bounded  bool

	gen *genRun // generated code

	// other front ends
	body      func()
	extractFn func(neg *T) []InputVal
}

type Options struct {
	Select     func(label string, aspects []string) bool
	MaxPaths   int
	LoopBound  int
	ForkAppend bool
	MaxSteps   int
	Verbose    bool
	StopAfter  int // failures
	Deadline   time.Time
	Solver     string
}

type Input struct {
	Name string
	Typ  types.Type
	V    Value
	obj  *BObj
	Kind string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u"`
	Nil  bool   `json:"nil,omitempty"`
	Len  uint64 `json:"len,omitempty"`
	Cap  uint64 `json:"cap,omitempty"`
	Data []byte `json:"data,omitempty"` // first bytes; the rest is zero
}

func NewEngine(ld *Loader, opt Options) *Engine {
	tb := NewTB()
	e := &Engine{ld: ld, tb: tb, s: NewSolver(tb, opt.Solver), opt: opt, Obs: map[Oblig]bool{}, Covers: map[string]bool{},
		use: map[string]*ssa.Function{}, Inlined: map[string]bool{}, Used: map[string]bool{}, Intrins: map[string]bool{}}
	return e
}

const maxLen = int64(1) << 47

func (e *Engine) unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...) + " [in " + strings.Join(e.callstk, " > ") + "]"})
}

func (e *Engine) fresh(pfx string, w int) *T {
	e.nfresh++
	return e.tb.Var(fmt.Sprintf("%s#%d", pfx, e.nfresh), w)
}

func (e *Engine) newBObj(name string, size *T, c *Content) *BObj {
	e.nobj++
	return &BObj{id: e.nobj, name: name, size: size, c: c}
}

func (e *Engine) baseContent(pfx string) *Content {
	e.nfresh++
	return &Content{k: CBase, name: fmt.Sprintf("%s@%d", pfx, e.nfresh)}
}

func (e *Engine) newCell(name string, t types.Type, v Value) *Cell {
	e.ncell++
	return &Cell{id: e.ncell, name: name, typ: t, val: v}
}

// read content at idx (64-bit)
func (e *Engine) read(c *Content, idx *T) *T {
	if r, ok := c.memo[idx.id]; ok {
		return r
	}
	tb := e.tb
	var r *T
	switch c.k {
	case CBase:
		r = tb.App(c.name, idx)
	case CZero:
		r = tb.Const(8, 0)
	case CLit:
		if idx.isConst() {
			if idx.c < uint64(len(c.lit)) {
				r = tb.Const(8, uint64(c.lit[idx.c]))
			} else {
				r = tb.Const(8, 0)
			}
		} else {
			if len(c.lit) > 4096 {
				e.unsup("symbolic index into a large literal")
			}
			r = tb.Const(8, 0)
			for i := len(c.lit) - 1; i >= 0; i-- {
				r = tb.Ite(tb.Eq(idx, tb.I(int64(i))), tb.Const(8, uint64(c.lit[i])), r)
			}
		}
	case CStore:
		q := e.known(tb.Eq(idx, c.idx))
		if q.isTrue() {
			r = c.val
		} else {
			r = tb.Ite(q, c.val, e.read(c.prev, idx))
		}
	case CCopy:
		rel := tb.Sub(idx, c.dst)
		in := e.ultRange(rel, c.n)
		if in.isTrue() {
			r = e.read(c.src, tb.Add(c.srcOff, rel))
		} else if in.isFalse() {
			r = e.read(c.prev, idx)
		} else {
			r = tb.Ite(in, e.read(c.src, tb.Add(c.srcOff, rel)), e.read(c.prev, idx))
		}
	}
	if c.memo == nil {
		c.memo = map[int]*T{}
	}
	c.memo[idx.id] = r
	return r
}

// rel <u n
func (e *Engine) ultRange(rel, n *T) *T {
	return e.known(e.tb.Ult(rel, n))
}

// known simplifies an index condition that the path already decides.
func (e *Engine) known(c *T) *T {
	if c.isConst() {
		return c
	}
	if e.s.Lia(e.path, e.tb.BNot(c)) {
		return e.tb.tru
	}
	if e.s.Lia(e.path, c) {
		return e.tb.fls
	}
	return c
}

// support collects the variables of t; nil when it applies uninterpreted
// functions or has more than one variable.
func (e *Engine) support(t *T, seen map[int]bool, v **T) bool {
	if seen[t.id] {
		return true
	}
	seen[t.id] = true
	switch t.op {
	case OApp:
		return false
	case OVar:
		if *v != nil && *v != t {
			return false
		}
		*v = t
		return true
	}
	for _, x := range t.a {
		if x != nil && !e.support(x, seen, v) {
			return false
		}
	}
	return true
}

// canon replaces a 64-bit term put together from pieces of a single input
// variable by that variable when the path conditions on the variable alone
// already make them equal.
func (e *Engine) canon(t *T) *T {
	if t.w != 64 || t.op == OVar || t.op == OConst || e.inInit {
		return t
	}
	if t.op != OZext && t.op != OOr && t.op != OConcat {
		return t
	}
	var v *T
	if !e.support(t, map[int]bool{}, &v) || v == nil || v.w != 64 {
		return t
	}
	var sub []*T
	for _, p := range e.path {
		var w *T
		if e.support(p, map[int]bool{}, &w) && w == v {
			sub = append(sub, p)
		}
	}
	k := pathKey(sub) + fmt.Sprint(t.id)
	if r, ok := e.canonMemo[k]; ok {
		return r
	}
	r := t
	if e.s.fresh(sub, e.tb.BNot(e.tb.Eq(t, v))) == Unsat {
		r = v
	}
	if e.canonMemo == nil {
		e.canonMemo = map[string]*T{}
	}
	e.canonMemo[k] = r
	return r
}

func store(c *Content, idx, val *T) *Content { return &Content{k: CStore, prev: c, idx: idx, val: val} }
func copyC(prev *Content, dst *T, src *Content, srcOff, n *T) *Content {
	if n.isConst() && n.c == 0 {
		return prev
	}
	return &Content{k: CCopy, prev: prev, dst: dst, src: src, srcOff: srcOff, n: n}
}

// ---- path control ----

func (e *Engine) assume(c *T) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assumption false"})
	}
	for _, p := range e.path {
		if p == c {
			return
		}
	}
	e.path = append(e.path, c)
	e.tb.bound(c)
}

func (e *Engine) checkTime() {
	if !e.opt.Deadline.IsZero() && time.Now().After(e.opt.Deadline) {
		panic(Unsupported{"time limit"})
	}
}

func (e *Engine) sat(c *T) bool { // Unknown counts as feasible
	if c.isTrue() && len(e.path) == 0 {
		return true
	}
	return e.s.Check(e.path, c) != Unsat
}

func (e *Engine) valid(c *T) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	return e.s.Check(e.path, e.tb.BNot(c)) == Unsat
}

func (e *Engine) decide(mk func() []int) int {
	if e.decPos < len(e.dec) {
		d := e.dec[e.decPos]
		e.decPos++
		return d.alts[d.pos]
	}
	alts := mk()
	e.dec = append(e.dec, decision{alts: alts})
	e.decPos++
	return alts[0]
}

// branch forks on a boolean term.
func (e *Engine) branch(c *T) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	k := e.decide(func() []int {
		e.checkTime()
		st := e.sat(c)
		sf := e.sat(e.tb.BNot(c))
		switch {
		case st && sf:
			return []int{1, 0}
		case st:
			return []int{3}
		case sf:
			return []int{2}
		}
		return []int{9}
	})
	switch k {
	case 1:
		e.assume(c)
		return true
	case 0:
		e.assume(e.tb.BNot(c))
		return false
	case 3:
		return true
	case 2:
		return false
	}
	panic(pathEnd{"infeasible"})
}

func (e *Engine) choose(n int) int {
	return e.decide(func() []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	})
}

// ---- obligations ----

func (e *Engine) oblige(label, site string, c *T) {
	if e.inInit {
		if !c.isTrue() {
			if !e.valid(c) {
				e.unsup("package initialisation may fail: %s", label)
			}
		}
		return
	}
	sel := e.opt.Select == nil || e.opt.Select(label, e.aspects)
	if !sel {
		if c.isFalse() || !e.sat(c) {
			panic(pathEnd{"unselected obligation fails: " + label})
		}
		e.assumedN++
		e.assume(c)
		return
	}
	o := Oblig{label, site}
	if _, ok := e.Obs[o]; !ok {
		e.Obs[o] = true
	}
	e.checkTime()
	e.VCs++
	if c.isTrue() {
		e.Trivial++
		return
	}
	r := e.s.Check(e.path, e.tb.BNot(c))
	if r == Unsat {
		return
	}
	e.Obs[o] = false
	f := Failure{Label: label, Site: site, Status: r, Aspects: append([]string{}, e.aspects...), Path: strings.Join(e.trace, " ")}
	if r == Sat {
		f.Inputs = e.extract(e.tb.BNot(c))
	}
	e.Fails = append(e.Fails, f)
	if e.opt.StopAfter > 0 && len(e.Fails) >= e.opt.StopAfter {
		panic(stopAll{})
	}
	if c.isFalse() || !e.sat(c) {
		panic(pathEnd{"obligation failed: " + label})
	}
	e.assume(c)
}

type stopAll struct{}

// ---- running a harness over all paths ----

func (e *Engine) Run(h *ssa.Function) {
	if e.opt.MaxPaths == 0 {
		e.opt.MaxPaths = 20000
	}
	if e.opt.LoopBound == 0 {
		e.opt.LoopBound = 48
	}
	if e.opt.MaxSteps == 0 {
		e.opt.MaxSteps = 400000
	}
	for {
		e.Paths++
		if e.Paths > e.opt.MaxPaths {
			e.Unsup = append(e.Unsup, "path limit exceeded")
			return
		}
		if e.runPath(h) {
			return
		}
		// backtrack
		for len(e.dec) > 0 {
			d := &e.dec[len(e.dec)-1]
			d.pos++
			if d.pos < len(d.alts) {
				break
			}
			e.dec = e.dec[:len(e.dec)-1]
		}
		if len(e.dec) == 0 {
			return
		}
	}
}

func (e *Engine) runPath(h *ssa.Function) (stop bool) {
	e.path = nil
	e.tb.ub = nil
	e.decPos = 0
	e.nfresh, e.nobj, e.ncell = 0, 0, 0
	e.globals = map[*ssa.Global]*Cell{}
	e.poisoned = map[*ssa.Package]bool{}
	e.aspects = nil
	e.depth = 0
	e.steps = 0
	e.inputs = nil
	e.trace = nil
	e.callstk = nil
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				return
			case stopAll:
				stop = true
			case Unsupported:
				e.Unsup = append(e.Unsup, x.msg)
				stop = true
			default:
				panic(r)
			}
		}
	}()
	if e.body != nil {
		e.body()
		return false
	}
	e.inInit = true
	e.initPackage(h.Pkg)
	e.inInit = false
	for _, c := range e.globals {
		markGlobal(c.val)
		c.global = true
	}
	var args []Value
	for _, p := range h.Params {
		args = append(args, e.makeInput(p.Name(), p.Type()))
	}
	e.call(h, args, nil, h.Name())
	return false
}

func markGlobal(v Value) {
	switch x := v.(type) {
	case *SliceV:
		if x.o != nil {
			x.o.global = true
		}
		if x.cell != nil && !x.cell.global {
			x.cell.global = true
			markGlobal(x.cell.val)
		}
	case *PtrV:
		if x.o != nil {
			x.o.global = true
		}
		if x.cell != nil && !x.cell.global {
			x.cell.global = true
			markGlobal(x.cell.val)
		}
	case *StructV:
		for _, f := range x.f {
			markGlobal(f)
		}
	case *ArrV:
		for _, f := range x.e {
			markGlobal(f)
		}
	case *IfaceV:
		markGlobal(x.v)
	case *MapV:
		if x.m != nil && !x.m.global {
			x.m.global = true
			for _, en := range x.m.ents {
				markGlobal(en[1])
			}
		}
	}
}

func (e *Engine) initPackage(p *ssa.Package) {
	init := p.Func("init")
	if init == nil {
		return
	}
	e.call(init, nil, nil, "init")
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Byte)
}

func (e *Engine) basicWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32:
		return 32, false
	case types.Float64, types.UntypedFloat:
		return 64, false
	}
	return -1, false
}

func (e *Engine) makeInput(name string, t types.Type) Value {
	in := Input{Name: name, Typ: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			l := e.tb.Var("in."+name+".len", 64)
			e.assume(e.tb.Ule(l, e.tb.I(maxLen)))
			o := e.newBObj(name, l, &Content{k: CBase, name: "in." + name})
			o.isStr = true
			o.pre = true
			in.V = &StrV{o: o, off: e.tb.I(0), len: l}
			in.Kind = "string"
			break
		}
		w, _ := e.basicWidth(u)
		if w < 0 {
			e.unsup("input type %s", t)
		}
		in.V = &Scalar{e.tb.Var("in."+name, w)}
		in.Kind = "scalar"
	case *types.Slice:
		if !isByte(u.Elem()) {
			e.unsup("input type %s", t)
		}
		in.Kind = "bytes"
		l := e.tb.Var("in."+name+".len", 64)
		c := e.tb.Var("in."+name+".cap", 64)
		if e.choose(2) == 1 {
			in.V = &SliceV{nil_: true, off: e.tb.I(0), len: e.tb.I(0), cap: e.tb.I(0)}
			e.trace = append(e.trace, name+"=nil")
			break
		}
		e.assume(e.tb.Ule(l, c))
		e.assume(e.tb.Ule(c, e.tb.I(maxLen)))
		e.assume(e.tb.Ule(l, e.tb.I(maxLen)))
		o := e.newBObj(name, c, &Content{k: CBase, name: "in." + name})
		o.pre = true
		in.V = &SliceV{o: o, off: e.tb.I(0), len: l, cap: c}
	default:
		e.unsup("input type %s", t)
	}
	e.inputs = append(e.inputs, in)
	return in.V
}

// extract a concrete input assignment violating the goal, preferring short inputs.
func (e *Engine) extract(neg *T) []InputVal {
	if e.extractFn != nil {
		return e.extractFn(neg)
	}
	tb := e.tb
	var lens []*T
	for _, in := range e.inputs {
		switch v := in.V.(type) {
		case *SliceV:
			if !v.nil_ {
				lens = append(lens, v.cap)
			}
		case *StrV:
			lens = append(lens, v.len)
		}
	}
	for _, b := range []int64{4, 8, 16, 32, 64, 256, 1024, 4096, 70000, 1 << 22, 1 << 28, 1 << 29, 1 << 33, maxLen} {
		cs := []*T{neg}
		for _, l := range lens {
			cs = append(cs, tb.Ule(l, tb.I(b)))
		}
		var ev []*T
		for _, in := range e.inputs {
			switch v := in.V.(type) {
			case *Scalar:
				ev = append(ev, v.t)
			case *SliceV:
				ev = append(ev, v.len, v.cap)
			case *StrV:
				ev = append(ev, v.len)
			}
		}
		r, ok := e.s.Model(e.path, cs, ev)
		if !ok {
			continue
		}
		// pin the scalars and lengths, then read bytes
		for i, t := range ev {
			if !t.isConst() {
				cs = append(cs, tb.Eq(t, tb.Const(t.w, r[i])))
			}
		}
		var out []InputVal
		k := 0
		var bev []*T
		type ref struct{ i, n int }
		var refs []ref
		for _, in := range e.inputs {
			iv := InputVal{Name: in.Name, Kind: in.Kind}
			switch v := in.V.(type) {
			case *Scalar:
				iv.U = r[k]
				k++
			case *SliceV:
				iv.Len, iv.Cap, iv.Nil = r[k], r[k+1], v.nil_
				k += 2
				n := int(min(iv.Cap, 600))
				refs = append(refs, ref{len(out), n})
				for j := 0; j < n; j++ {
					bev = append(bev, e.tb.App("in."+in.Name, tb.I(int64(j))))
				}
			case *StrV:
				iv.Len = r[k]
				k++
				n := int(min(iv.Len, 600))
				refs = append(refs, ref{len(out), n})
				for j := 0; j < n; j++ {
					bev = append(bev, e.tb.App("in."+in.Name, tb.I(int64(j))))
				}
			}
			out = append(out, iv)
		}
		if br, ok := e.s.Model(e.path, cs, bev); ok {
			k := 0
			for _, rf := range refs {
				d := make([]byte, rf.n)
				for j := range d {
					d[j] = byte(br[k])
					k++
				}
				out[rf.i].Data = d
			}
		}
		return out
	}
	return nil
}

// ---- zero values ----

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return e.litStr("")
		case types.UnsafePointer:
			return &UnsafeP{p: &PtrV{nil_: true}}
		case types.UntypedNil:
			return &PtrV{nil_: true}
		}
		w, _ := e.basicWidth(u)
		if w < 0 {
			e.unsup("type %s", t)
		}
		if w == 0 {
			return &Scalar{e.tb.fls}
		}
		return &Scalar{e.tb.Const(w, 0)}
	case *types.Slice:
		return &SliceV{nil_: true, off: e.tb.I(0), len: e.tb.I(0), cap: e.tb.I(0)}
	case *types.Pointer:
		return &PtrV{nil_: true, arr: -1}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return &ArrV{bytes: &Content{k: CZero}, n: u.Len()}
		}
		if u.Len() > 4096 {
			e.unsup("large array")
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, e.zero(u.Elem()))
		}
		a.n = u.Len()
		return a
	case *types.Interface:
		return &IfaceV{nil_: true}
	case *types.Signature:
		return &FuncV{nil_: true}
	case *types.Map:
		return &MapV{nil_: true}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, e.zero(u.At(i).Type()))
		}
		return tv
	}
	e.unsup("zero value of %s", t)
	return nil
}

func (e *Engine) litStr(s string) *StrV {
	o := e.newBObj("lit", e.tb.I(int64(len(s))), &Content{k: CLit, lit: s})
	o.isStr = true
	o.pre = true
	return &StrV{o: o, off: e.tb.I(0), len: e.tb.I(int64(len(s)))}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.litStr(constant.StringVal(c.Value))
		case u.Info()&types.IsBoolean != 0:
			return &Scalar{e.tb.Bool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			w, _ := e.basicWidth(u)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return &Scalar{e.tb.Const(w, uint64(i))}
			}
			if i, ok := constant.Uint64Val(v); ok {
				return &Scalar{e.tb.Const(w, i)}
			}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				return &Scalar{e.tb.Const(32, uint64(f32bits(float32(f))))}
			}
			return &Scalar{e.tb.Const(64, f64bits(f))}
		}
	}
	e.unsup("constant %s of type %s", c, c.Type())
	return nil
}

// ---- memory access through pointers ----

func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, f := range x.f {
			n.f[i] = copyVal(f)
		}
		return n
	case *ArrV:
		if x.bytes != nil {
			return &ArrV{bytes: x.bytes, n: x.n}
		}
		n := &ArrV{e: make([]Value, len(x.e)), n: x.n}
		for i, f := range x.e {
			n.e[i] = copyVal(f)
		}
		return n
	}
	return v
}

func (e *Engine) site(pos token.Pos, fn *ssa.Function) string {
	p := e.ld.prog.Fset.Position(pos)
	name := ""
	if fn != nil {
		name = fn.RelString(nil)
		if i := strings.LastIndex(name, "/"); i >= 0 {
			name = name[i+1:]
		}
	}
	if !p.IsValid() {
		return name
	}
	f := p.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s (%s:%d)", name, f, p.Line)
}

func (e *Engine) load(p *PtrV, t types.Type, site string) Value {
	if p.nil_ {
		e.oblige("panic/nil-dereference", site, e.tb.fls)
		panic(pathEnd{"nil deref"})
	}
	if p.o != nil {
		if p.arr >= 0 {
			c := copyC(&Content{k: CZero}, e.tb.I(0), p.o.c, p.off, e.tb.I(p.arr))
			return &ArrV{bytes: c, n: p.arr}
		}
		if bt, ok := t.Underlying().(*types.Basic); ok {
			if w, _ := e.basicWidth(bt); w > 8 {
				e.unsup("wide load through byte pointer")
			}
		}
		return &Scalar{e.read(p.o.c, p.off)}
	}
	v := p.cell.val
	for _, i := range p.path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *ArrV:
			if x.bytes != nil {
				v = &Scalar{e.read(x.bytes, e.tb.I(int64(i)))}
			} else {
				v = x.e[i]
			}
		default:
			e.unsup("path into %T", v)
		}
	}
	if p.hdr != "" {
		switch x := v.(type) {
		case *SliceV:
			switch p.hdr {
			case "Data":
				return &UintptrV{o: x.o, off: x.off, nil_: x.nil_}
			case "Len":
				return &Scalar{x.len}
			case "Cap":
				return &Scalar{x.cap}
			}
		case *StrV:
			switch p.hdr {
			case "Data":
				return &UintptrV{o: x.o, off: x.off}
			case "Len":
				return &Scalar{x.len}
			}
		}
		e.unsup("header field %s", p.hdr)
	}
	if p.cast != nil {
		v = e.reinterpret(v, p.cast)
	}
	return copyVal(v)
}

func (e *Engine) reinterpret(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *SliceV:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if x.nil_ {
				return e.litStr("")
			}
			return &StrV{o: x.o, off: x.off, len: x.len}
		}
		if s, ok := t.Underlying().(*types.Slice); ok && isByte(s.Elem()) && x.cell == nil {
			return x
		}
	case *StrV:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return x
		}
	case *Scalar:
		if b, ok := t.Underlying().(*types.Basic); ok {
			if w, _ := e.basicWidth(b); w == x.t.w {
				return x
			}
		}
	case *StructV:
		if _, ok := t.Underlying().(*types.Struct); ok {
			return x
		}
	}
	e.unsup("unsafe reinterpretation of %T as %s", v, t)
	return nil
}

func (e *Engine) store(p *PtrV, v Value, site string) {
	if p.nil_ {
		e.oblige("panic/nil-dereference", site, e.tb.fls)
		panic(pathEnd{"nil deref"})
	}
	if p.o != nil {
		if e.gen != nil && len(e.gen.loops) > 0 {
			e.unsup("byte written in a loop of unknown length")
		}
		e.checkWrite(p.o, p.off, site)
		if p.arr >= 0 {
			a := v.(*ArrV)
			p.o.c = copyC(p.o.c, p.off, a.bytes, e.tb.I(0), e.tb.I(p.arr))
			return
		}
		p.o.c = store(p.o.c, p.off, v.(*Scalar).t)
		return
	}
	if p.cell.global && !e.inInit {
		e.unsup("write to package-level state at %s", site)
	}
	v = copyVal(v)
	if e.gen != nil && !e.inInit {
		e.gen.written(p)
	}
	if p.hdr != "" {
		cur := e.getPath(p)
		s, ok := cur.(*SliceV)
		if !ok {
			e.unsup("store to header of %T", cur)
		}
		n := *s
		switch p.hdr {
		case "Data":
			u, ok := v.(*UintptrV)
			if !ok {
				e.unsup("store of a number to Data")
			}
			n.o, n.off, n.nil_ = u.o, u.off, u.nil_ || u.o == nil
		case "Len":
			n.len = v.(*Scalar).t
		case "Cap":
			n.cap = v.(*Scalar).t
		}
		e.setPath(p, &n)
		return
	}
	if p.cast != nil {
		e.unsup("store through an unsafe cast")
	}
	e.setPath(p, v)
}

func (e *Engine) getPath(p *PtrV) Value {
	v := p.cell.val
	for _, i := range p.path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *ArrV:
			v = x.e[i]
		}
	}
	return v
}

func (e *Engine) setPath(p *PtrV, nv Value) {
	if len(p.path) == 0 {
		p.cell.val = nv
		return
	}
	v := p.cell.val
	for k, i := range p.path {
		last := k == len(p.path)-1
		switch x := v.(type) {
		case *StructV:
			if last {
				x.f[i] = nv
				return
			}
			v = x.f[i]
		case *ArrV:
			if x.bytes != nil {
				x.bytes = store(x.bytes, e.tb.I(int64(i)), nv.(*Scalar).t)
				return
			}
			if last {
				x.e[i] = nv
				return
			}
			v = x.e[i]
		default:
			e.unsup("path into %T", v)
		}
	}
}

// checkWrite guards a write of byte memory at off (a single byte, or the
// first byte of a range).
func (e *Engine) checkWrite(o *BObj, off *T, site string) {
	if o.isStr {
		e.oblige("frame/write-to-string-memory", site, e.tb.fls)
		panic(pathEnd{"write to string memory"})
	}
	if o.global && !e.inInit {
		e.unsup("write to package-level bytes at %s", site)
	}
	if o.shared {
		panic(needFork{})
	}
	if o.alias != nil {
		if !e.valid(e.tb.Sle(o.aliasLim, off)) {
			panic(needFork{})
		}
	}
}

type needFork struct{}
