package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f32bits(f float32) uint32 { return math.Float32bits(f) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }

type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	bind   []Value
	visits map[*ssa.BasicBlock]int
	defers []func()
}

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.RelString(nil)
}

func (e *Engine) call(fn *ssa.Function, args []Value, bind []Value, site string) (res Value) {
	name := fullName(fn)
	if e.gen != nil {
		if r, ok := e.gen.call(fn, name, args, site); ok {
			return r
		}
	}
	if r, ok := e.intrinsic(fn, name, args, site); ok {
		return r
	}
	if sp, ok := e.use[name]; ok {
		e.Used[name] = true
		fn = sp
	}
	if fn.Blocks == nil {
		e.ld.ensureBuilt(fn)
	}
	if fn.Blocks == nil {
		e.unsup("call of %s, which has no Go body", name)
	}
	if e.depth > 60 {
		e.unsup("call depth")
	}
	if e.poisoned[fn.Pkg] && fn.Pkg != nil && !e.inInit {
		e.unsup("call of %s, whose package was not initialised", name)
	}
	if e.inInit && e.depth == 1 && fn.Pkg != nil && fn.Pkg != e.ld.target {
		// what another package computes for a package-level variable may stay
		// unknown as long as nobody looks at it
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(Unsupported)
				if !ok {
					panic(r)
				}
				_ = u
				e.poisoned[fn.Pkg] = true
				res = poisonV{}
			}
		}()
	}
	if fn.Synthetic == "package initializer" && e.depth > 0 {
		return &TupleV{} // dependencies are initialised lazily (see global)
	}
	if !e.inInit && fn.Pkg != nil && !strings.HasPrefix(fn.Name(), "v") {
		e.Inlined[name] = true
	}
	e.depth++
	e.callstk = append(e.callstk, fn.Name())
	defer func() { e.depth--; e.callstk = e.callstk[:len(e.callstk)-1] }()
	f := &frame{fn: fn, regs: map[ssa.Value]Value{}, bind: bind, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = bind[i]
	}
	blk := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		f.visits[blk]++
		if f.visits[blk] > e.opt.LoopBound && !(e.inInit && f.visits[blk] < 5000) {
			e.unsup("loop in %s exceeds the unrolling bound %d", name, e.opt.LoopBound)
		}
		// phis
		var phiVals []Value
		var phis []*ssa.Phi
		for _, in := range blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range blk.Preds {
				if p == prev {
					phiVals = append(phiVals, e.get(f, ph.Edges[i]))
					break
				}
			}
			phis = append(phis, ph)
		}
		if e.gen != nil && len(e.gen.loops) > 0 {
			if l := e.gen.active(f, blk); l != nil {
				prev, blk = blk, e.gen.close(l, phis, phiVals)
				continue
			}
		}
		for i, ph := range phis {
			f.regs[ph] = phiVals[i]
		}
		var next *ssa.BasicBlock
		for _, in := range blk.Instrs[len(phis):] {
			e.steps++
			if e.steps&1023 == 0 {
				e.checkTime()
			}
			if e.steps > e.opt.MaxSteps {
				e.unsup("step limit")
			}
			switch x := in.(type) {
			case *ssa.Return:
				if e.gen != nil {
					e.gen.leave(f)
				}
				switch len(x.Results) {
				case 0:
					return &TupleV{}
				case 1:
					return e.get(f, x.Results[0])
				}
				tv := &TupleV{}
				for _, r := range x.Results {
					tv.v = append(tv.v, e.get(f, r))
				}
				return tv
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.If:
				c := e.get(f, x.Cond).(*Scalar).t
				if e.gen != nil {
					if next = e.gen.onIf(f, blk, c); next != nil {
						break
					}
				}
				if e.branch(c) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Panic:
				e.oblige("panic/explicit", e.site(x.Pos(), fn), e.tb.fls)
				panic(pathEnd{"panic"})
			default:
				e.instr(f, in)
			}
		}
		if next == nil {
			e.unsup("block without successor in %s", name)
		}
		prev, blk = blk, next
	}
}

func (e *Engine) get(f *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	r, ok := f.regs[v]
	if !ok {
		e.unsup("value %s (%T) undefined", v.Name(), v)
	}
	return r
}

func (e *Engine) globalPtr(g *ssa.Global) Value {
	c, ok := e.globals[g]
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if !ok {
		if g.Pkg != e.ld.target && !e.ld.initOK(g) {
			// a package-level variable of a dependency: only usable when its zero
			// value is its only value (empty struct), otherwise out of reach
			if st, ok := et.Underlying().(*types.Struct); !(ok && st.NumFields() == 0) {
				e.unsup("package-level variable %s of a dependency", g.RelString(nil))
			}
		}
		if a, ok := et.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			c = e.newCell(g.Name(), et, nil)
			o := e.newBObj(g.Name(), e.tb.I(a.Len()), &Content{k: CZero})
			c.val = &PtrV{o: o, off: e.tb.I(0), arr: a.Len()}
			o.global = !e.inInit
		} else {
			c = e.newCell(g.Name(), et, e.zero(et))
		}
		c.global = !e.inInit
		e.globals[g] = c
	}
	if a, ok := et.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		return c.val
	}
	return &PtrV{cell: c, arr: -1}
}

func (e *Engine) sc(f *frame, v ssa.Value) *T {
	x := e.get(f, v)
	s, ok := x.(*Scalar)
	if !ok {
		e.unsup("scalar expected, got %T for %s", x, v)
	}
	return s.t
}

// index value as 64-bit, by the signedness of its type
func (e *Engine) idx64(f *frame, v ssa.Value) *T {
	t := e.sc(f, v)
	b := v.Type().Underlying().(*types.Basic)
	_, sg := e.basicWidth(b)
	if t.w == 64 {
		return t
	}
	if sg {
		return e.tb.Sext(t, 64)
	}
	return e.canon(e.tb.Zext(t, 64))
}

func (e *Engine) instr(f *frame, in ssa.Instruction) {
	tb := e.tb
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := et.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			o := e.newBObj(x.Name(), tb.I(a.Len()), &Content{k: CZero})
			f.regs[x] = &PtrV{o: o, off: tb.I(0), arr: a.Len()}
			return
		}
		f.regs[x] = &PtrV{cell: e.newCell(x.Comment, et, e.zero(et)), arr: -1}
	case *ssa.UnOp:
		f.regs[x] = e.unop(f, x)
	case *ssa.BinOp:
		f.regs[x] = e.binop(f, x)
	case *ssa.Store:
		p, ok := e.get(f, x.Addr).(*PtrV)
		if !ok {
			e.unsup("store through %T", e.get(f, x.Addr))
		}
		e.store(p, e.get(f, x.Val), e.site(x.Pos(), f.fn))
	case *ssa.ChangeType:
		f.regs[x] = e.get(f, x.X)
	case *ssa.ChangeInterface:
		f.regs[x] = e.get(f, x.X)
	case *ssa.MakeInterface:
		f.regs[x] = &IfaceV{typ: x.X.Type(), v: copyVal(e.get(f, x.X))}
	case *ssa.Convert:
		f.regs[x] = e.convert(f, e.get(f, x.X), x.X.Type(), x.Type(), e.site(x.Pos(), f.fn))
	case *ssa.MultiConvert:
		f.regs[x] = e.convert(f, e.get(f, x.X), x.X.Type(), x.Type(), e.site(x.Pos(), f.fn))
	case *ssa.FieldAddr:
		p, ok := e.get(f, x.X).(*PtrV)
		if !ok {
			e.unsup("field of %T", e.get(f, x.X))
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		if p.nil_ {
			e.oblige("panic/nil-dereference", e.site(x.Pos(), f.fn), tb.fls)
			panic(pathEnd{"nil field"})
		}
		if n, ok := st.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && (n.Obj().Name() == "SliceHeader" || n.Obj().Name() == "StringHeader") {
			q := *p
			q.cast = nil
			q.hdr = st.Underlying().(*types.Struct).Field(x.Field).Name()
			f.regs[x] = &q
			return
		}
		if p.cell == nil {
			e.unsup("field of byte pointer")
		}
		q := &PtrV{cell: p.cell, path: append(append([]int{}, p.path...), x.Field), arr: -1}
		f.regs[x] = q
	case *ssa.Field:
		s, ok := e.get(f, x.X).(*StructV)
		if !ok {
			e.unsup("field of %T", e.get(f, x.X))
		}
		f.regs[x] = s.f[x.Field]
	case *ssa.IndexAddr:
		f.regs[x] = e.indexAddr(f, x)
	case *ssa.Index:
		f.regs[x] = e.index(f, x)
	case *ssa.MakeMap:
		f.regs[x] = &MapV{m: &MapObj{}}
	case *ssa.MapUpdate:
		if e.gen == nil {
			e.mapSet(e.get(f, x.Map), e.get(f, x.Key), e.get(f, x.Value), x.Key.Type(), e.site(x.Pos(), f.fn))
			return
		}
		e.gen.mapUpdate(e.get(f, x.Map), e.get(f, x.Key), e.get(f, x.Value), e.site(x.Pos(), f.fn))
	case *ssa.Range:
		m, ok := e.get(f, x.X).(*MapV)
		if !ok {
			e.unsup("range over %T", e.get(f, x.X))
		}
		if e.gen == nil && m.m != nil && len(m.m.ents) > 1 {
			e.unsup("order of a map's entries")
		}
		f.regs[x] = &iterV{m: m.m}
	case *ssa.Next:
		it, ok := e.get(f, x.Iter).(*iterV)
		if !ok {
			e.unsup("iteration")
		}
		f.regs[x] = e.mapNext(it, x)
	case *ssa.Lookup:
		if m, ok := e.get(f, x.X).(*MapV); ok && e.gen == nil {
			f.regs[x] = e.mapGet(m, e.get(f, x.Index), x)
			return
		}
		s, ok := e.get(f, x.X).(*StrV)
		if !ok {
			e.unsup("map lookup")
		}
		i := e.idx64(f, x.Index)
		e.oblige("panic/index", e.site(x.Pos(), f.fn), tb.Ult(i, s.len))
		f.regs[x] = &Scalar{e.read(s.o.c, tb.Add(s.off, i))}
	case *ssa.Slice:
		f.regs[x] = e.slice(f, x)
	case *ssa.MakeSlice:
		site := e.site(x.Pos(), f.fn)
		l := e.idx64(f, x.Len)
		c := e.idx64(f, x.Cap)
		e.oblige("panic/makeslice", site, tb.BAnd(tb.Ule(l, c), tb.Ult(c, tb.I(maxLen*16))))
		et := x.Type().Underlying().(*types.Slice).Elem()
		f.regs[x] = e.makeSlice(et, l, c)
	case *ssa.Extract:
		f.regs[x] = e.get(f, x.Tuple).(*TupleV).v[x.Index]
	case *ssa.Call:
		f.regs[x] = e.callCommon(f, &x.Call, e.site(x.Pos(), f.fn), x.Type())
	case *ssa.Defer:
		fr := f
		cc := x.Call
		// evaluate operands now
		var args []Value
		for _, a := range cc.Args {
			args = append(args, e.get(f, a))
		}
		var fv Value
		if cc.IsInvoke() {
			fv = e.get(f, cc.Value)
		} else {
			fv = e.get(f, cc.Value)
		}
		site := e.site(x.Pos(), f.fn)
		fr.defers = append(fr.defers, func() { e.dispatch(&cc, fv, args, site) })
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			f.defers[i]()
		}
		f.defers = nil
	case *ssa.TypeAssert:
		f.regs[x] = e.typeAssert(f, x)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, e.get(f, b))
		}
		f.regs[x] = fv
	case *ssa.SliceToArrayPointer:
		s := e.get(f, x.X).(*SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.oblige("panic/slice-to-array", e.site(x.Pos(), f.fn), tb.Ule(tb.I(n), s.len))
		if s.o == nil {
			e.unsup("slice to array pointer of non-bytes")
		}
		f.regs[x] = &PtrV{o: s.o, off: s.off, arr: n}
	default:
		e.unsup("instruction %T", in)
	}
}

func (e *Engine) makeSlice(et types.Type, l, c *T) Value {
	tb := e.tb
	if isByte(et) {
		return &SliceV{o: e.newBObj("make", c, &Content{k: CZero}), off: tb.I(0), len: l, cap: c}
	}
	if e.gen != nil && e.gen.generic && !l.isConst() && l == c {
		return e.gen.newArr(et, l, e.zero(et))
	}
	if !c.isConst() {
		l = e.concretize(l, 4)
		c = l
	}
	if !l.isConst() || !c.isConst() || c.c > 4096 {
		e.unsup("make of non-byte slice with symbolic size")
	}
	a := &ArrV{n: int64(c.c)}
	for i := uint64(0); i < c.c; i++ {
		a.e = append(a.e, e.zero(et))
	}
	return &SliceV{cell: e.newCell("make", types.NewArray(et, a.n), a), off: tb.I(0), len: l, cap: c}
}

// concretize forks over the values 0..bound of t; larger values are outside
// the verifier's reach (bounded).
func (e *Engine) concretize(t *T, bound int64) *T {
	if t.isConst() {
		return t
	}
	for i := int64(0); i <= bound; i++ {
		if e.branch(e.tb.Eq(t, e.tb.Const(t.w, uint64(i)))) {
			return e.tb.Const(t.w, uint64(i))
		}
	}
	e.bounded = true
	panic(pathEnd{"bound"})
}

func (e *Engine) unop(f *frame, x *ssa.UnOp) Value {
	tb := e.tb
	switch x.Op {
	case token.MUL:
		p, ok := e.get(f, x.X).(*PtrV)
		if !ok {
			e.unsup("load through %T", e.get(f, x.X))
		}
		return e.load(p, x.Type(), e.site(x.Pos(), f.fn))
	case token.NOT:
		return &Scalar{tb.BNot(e.sc(f, x.X))}
	case token.SUB:
		if b := x.Type().Underlying().(*types.Basic); b.Info()&types.IsFloat != 0 {
			e.unsup("float arithmetic")
		}
		return &Scalar{tb.Neg(e.sc(f, x.X))}
	case token.XOR:
		return &Scalar{tb.Not(e.sc(f, x.X))}
	}
	e.unsup("unary %s", x.Op)
	return nil
}

func (e *Engine) binop(f *frame, x *ssa.BinOp) Value {
	tb := e.tb
	a, b := e.get(f, x.X), e.get(f, x.Y)
	switch x.Op {
	case token.EQL:
		return &Scalar{e.equal(a, b, x.X.Type())}
	case token.NEQ:
		return &Scalar{tb.BNot(e.equal(a, b, x.X.Type()))}
	}
	if sa, ok := a.(*StrV); ok && x.Op == token.ADD {
		sb := b.(*StrV)
		n := tb.Add(sa.len, sb.len)
		c := copyC(&Content{k: CZero}, tb.I(0), sa.o.c, sa.off, sa.len)
		c = copyC(c, sa.len, sb.o.c, sb.off, sb.len)
		o := e.newBObj("concat", n, c)
		o.isStr = true
		return &StrV{o: o, off: tb.I(0), len: n}
	}
	bt, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok {
		e.unsup("binary %s on %s", x.Op, x.X.Type())
	}
	if bt.Info()&types.IsFloat != 0 {
		e.unsup("float arithmetic")
	}
	sa, ok1 := a.(*Scalar)
	sb, ok2 := b.(*Scalar)
	if !ok1 || !ok2 {
		e.unsup("binary %s on %T,%T", x.Op, a, b)
	}
	p, q := sa.t, sb.t
	w, signed := e.basicWidth(bt)
	if w < 0 {
		e.unsup("binary on %s", bt)
	}
	mk := func(t *T) Value { return &Scalar{t} }
	switch x.Op {
	case token.ADD:
		return mk(tb.Add(p, q))
	case token.SUB:
		return mk(tb.Sub(p, q))
	case token.MUL:
		return mk(tb.Mul(p, q))
	case token.QUO, token.REM:
		e.oblige("panic/divide", e.site(x.Pos(), f.fn), tb.BNot(tb.Eq(q, tb.Const(w, 0))))
		op := map[bool]map[token.Token]Op{true: {token.QUO: OSdiv, token.REM: OSrem}, false: {token.QUO: OUdiv, token.REM: OUrem}}[signed][x.Op]
		return mk(tb.Div(op, p, q))
	case token.AND:
		if w == 0 {
			return mk(tb.BAnd(p, q))
		}
		return mk(tb.And(p, q))
	case token.OR:
		if w == 0 {
			return mk(tb.BOr(p, q))
		}
		return mk(tb.Or(p, q))
	case token.XOR:
		return mk(tb.Xor(p, q))
	case token.AND_NOT:
		return mk(tb.And(p, tb.Not(q)))
	case token.SHL, token.SHR:
		yb := x.Y.Type().Underlying().(*types.Basic)
		_, ys := e.basicWidth(yb)
		if ys {
			e.oblige("panic/negative-shift", e.site(x.Pos(), f.fn), tb.Sle(tb.Const(q.w, 0), q))
		}
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if signed {
				op = OAshr
			}
		}
		var cnt *T
		if q.w <= w {
			cnt = tb.Zext(q, w)
		} else {
			big := tb.Ule(tb.Const(q.w, uint64(w)), q)
			cnt = tb.Ite(big, tb.Const(w, uint64(w)), tb.Extract(q, w-1, 0))
		}
		return mk(tb.Shift(op, p, cnt))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			p, q = q, p
		}
		strict := x.Op == token.LSS || x.Op == token.GTR
		switch {
		case signed && strict:
			return mk(tb.Slt(p, q))
		case signed:
			return mk(tb.Sle(p, q))
		case strict:
			return mk(tb.Ult(p, q))
		default:
			return mk(tb.Ule(p, q))
		}
	}
	e.unsup("binary %s", x.Op)
	return nil
}

func isNilV(v Value) bool {
	switch x := v.(type) {
	case *SliceV:
		return x.nil_
	case *PtrV:
		return x.nil_
	case *IfaceV:
		return x.nil_
	case *FuncV:
		return x.nil_
	case *MapV:
		return x.nil_
	}
	return false
}

func (e *Engine) equal(a, b Value, t types.Type) *T {
	tb := e.tb
	switch x := a.(type) {
	case *Scalar:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			e.unsup("float comparison")
		}
		return tb.Eq(x.t, b.(*Scalar).t)
	case *SliceV, *FuncV, *MapV:
		for _, z := range []Value{a, b} {
			if s, ok := z.(*SliceV); ok && s.lazy != nil {
				if s.lazy.state == 0 {
					s.lazy.state = 1 + e.choose(2)
					if s.lazy.state == 2 {
						e.assume(tb.Eq(s.len, tb.I(0)))
						if !e.sat(tb.tru) {
							panic(pathEnd{"nil"})
						}
					}
				}
				return tb.Bool(s.lazy.state == 2)
			}
		}
		return tb.Bool(isNilV(a) == isNilV(b))
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			e.unsup("pointer comparison with %T", b)
		}
		if x.nil_ || y.nil_ {
			return tb.Bool(x.nil_ == y.nil_)
		}
		if (x.o != nil && x.o.shared) || (y.o != nil && y.o.shared) {
			panic(needFork{})
		}
		if x.o != y.o || x.cell != y.cell || len(x.path) != len(y.path) {
			return tb.fls
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return tb.fls
			}
		}
		if x.o != nil {
			return tb.Eq(x.off, y.off)
		}
		return tb.tru
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			e.unsup("interface comparison with %T", b)
		}
		if x.nil_ || y.nil_ {
			return tb.Bool(x.nil_ == y.nil_)
		}
		if !types.Identical(x.typ, y.typ) {
			return tb.fls
		}
		return e.equal(x.v, y.v, x.typ)
	case *StrV:
		y := b.(*StrV)
		if x.o == y.o && x.off == y.off && x.len == y.len {
			return tb.tru
		}
		le := tb.Eq(x.len, y.len)
		if le.isFalse() {
			return le
		}
		for _, z := range []*StrV{x, y} {
			if z.len.isConst() && z.len.c <= 256 {
				r := le
				for i := uint64(0); i < z.len.c; i++ {
					r = tb.BAnd(r, tb.Eq(e.read(x.o.c, tb.Add(x.off, tb.I(int64(i)))), e.read(y.o.c, tb.Add(y.off, tb.I(int64(i))))))
				}
				return r
			}
		}
		e.unsup("comparison of strings of unknown length")
	case *StructV:
		y := b.(*StructV)
		r := tb.tru
		st := t.Underlying().(*types.Struct)
		for i := range x.f {
			r = tb.BAnd(r, e.equal(x.f[i], y.f[i], st.Field(i).Type()))
		}
		return r
	}
	e.unsup("comparison of %T", a)
	return nil
}

func (e *Engine) convert(f *frame, v Value, from, to types.Type, site string) Value {
	tb := e.tb
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := from.(*types.TypeParam); ok {
		_ = tp
		e.unsup("type parameter conversion")
	}
	switch tt := tu.(type) {
	case *types.Basic:
		if tt.Kind() == types.UnsafePointer {
			switch p := v.(type) {
			case *PtrV:
				var elt types.Type
				if pt, ok := fu.(*types.Pointer); ok {
					elt = pt.Elem()
				}
				return &UnsafeP{p: p, elt: elt}
			case *UnsafeP:
				return p
			case *UintptrV:
				return &UnsafeP{p: &PtrV{o: p.o, off: p.off, nil_: p.nil_, arr: -1}}
			}
			e.unsup("conversion of %T to unsafe.Pointer", v)
		}
		if tt.Kind() == types.String {
			switch s := v.(type) {
			case *SliceV:
				if s.nil_ {
					return e.litStr("")
				}
				if s.o == nil {
					e.unsup("string of non-byte slice")
				}
				o := e.newBObj("str", s.len, copyC(&Content{k: CZero}, tb.I(0), s.o.c, s.off, s.len))
				o.isStr = true
				return &StrV{o: o, off: tb.I(0), len: s.len}
			case *StrV:
				return s
			}
			e.unsup("conversion of %s to string", from)
		}
		fb, ok := fu.(*types.Basic)
		if !ok {
			e.unsup("conversion %s to %s", from, to)
		}
		if fb.Kind() == types.UnsafePointer {
			if tt.Kind() == types.Uintptr {
				if u, ok := v.(*UnsafeP); ok {
					if p, ok := u.p.(*PtrV); ok && p.o != nil {
						return &UintptrV{o: p.o, off: p.off}
					}
				}
			}
			e.unsup("pointer to integer")
		}
		if fb.Info()&types.IsFloat != 0 || tt.Info()&types.IsFloat != 0 {
			if fb.Kind() == tt.Kind() {
				return v
			}
			if fb.Info()&types.IsFloat != 0 && tt.Info()&types.IsFloat != 0 && fb.Kind() == types.UntypedFloat {
				return v
			}
			e.unsup("float conversion")
		}
		s, ok := v.(*Scalar)
		if !ok {
			if u, ok := v.(*UintptrV); ok && tt.Kind() == types.Uintptr {
				return u
			}
			e.unsup("conversion of %T", v)
		}
		w, _ := e.basicWidth(tt)
		_, fs := e.basicWidth(fb)
		if fs {
			return &Scalar{tb.Sext(s.t, w)}
		}
		return &Scalar{e.canon(tb.Zext(s.t, w))}
	case *types.Slice:
		if s, ok := v.(*StrV); ok && isByte(tt.Elem()) {
			o := e.newBObj("bytes", s.len, copyC(&Content{k: CZero}, tb.I(0), s.o.c, s.off, s.len))
			return &SliceV{o: o, off: tb.I(0), len: s.len, cap: s.len}
		}
		if _, ok := v.(*SliceV); ok {
			return v
		}
	case *types.Pointer:
		if u, ok := v.(*UnsafeP); ok {
			p := u.p.(*PtrV)
			if p.nil_ {
				return &PtrV{nil_: true, arr: -1}
			}
			if u.elt != nil && types.Identical(u.elt.Underlying(), tt.Elem().Underlying()) {
				return p
			}
			if p.o != nil {
				q := *p
				q.arr = -1
				if a, ok := tt.Elem().Underlying().(*types.Array); ok && isByte(a.Elem()) {
					q.arr = a.Len()
					return &q
				}
				if isByte(tt.Elem()) {
					return &q
				}
				e.unsup("unsafe cast of byte memory to %s", tt.Elem())
			}
			q := *p
			q.cast = tt.Elem()
			return &q
		}
		return v
	}
	e.unsup("conversion %s to %s", from, to)
	return nil
}

func (e *Engine) indexAddr(f *frame, x *ssa.IndexAddr) Value {
	tb := e.tb
	site := e.site(x.Pos(), f.fn)
	i := e.idx64(f, x.Index)
	switch b := e.get(f, x.X).(type) {
	case *SliceV:
		e.oblige("panic/index", site, tb.Ult(i, b.len))
		if b.nil_ {
			panic(pathEnd{"nil index"})
		}
		if b.o != nil {
			return &PtrV{o: b.o, off: tb.Add(b.off, i), arr: -1}
		}
		k := tb.Add(b.off, i)
		if ga, ok := b.cell.val.(*GenArr); ok {
			return e.gen.elem(ga, k)
		}
		if !k.isConst() {
			k = e.concretize(k, b.cell.val.(*ArrV).n-1)
		}
		return &PtrV{cell: b.cell, path: []int{int(k.c)}, arr: -1}
	case *PtrV:
		if b.nil_ {
			e.oblige("panic/nil-dereference", site, tb.fls)
			panic(pathEnd{"nil"})
		}
		if b.o != nil {
			e.oblige("panic/index", site, tb.Ult(i, tb.I(b.arr)))
			return &PtrV{o: b.o, off: tb.Add(b.off, i), arr: -1}
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.oblige("panic/index", site, tb.Ult(i, tb.I(n)))
		if !i.isConst() {
			i = e.concretize(i, min(n-1, 256))
		}
		return &PtrV{cell: b.cell, path: append(append([]int{}, b.path...), int(i.c)), arr: -1}
	}
	e.unsup("index of %T", e.get(f, x.X))
	return nil
}

func (e *Engine) index(f *frame, x *ssa.Index) Value {
	tb := e.tb
	site := e.site(x.Pos(), f.fn)
	i := e.idx64(f, x.Index)
	switch b := e.get(f, x.X).(type) {
	case *ArrV:
		e.oblige("panic/index", site, tb.Ult(i, tb.I(b.n)))
		if b.bytes != nil {
			return &Scalar{e.read(b.bytes, i)}
		}
		if !i.isConst() {
			if len(b.e) > 0 {
				if _, ok := b.e[0].(*Scalar); ok && len(b.e) <= 256 {
					r := b.e[len(b.e)-1].(*Scalar).t
					for k := len(b.e) - 2; k >= 0; k-- {
						r = tb.Ite(tb.Eq(i, tb.I(int64(k))), b.e[k].(*Scalar).t, r)
					}
					return &Scalar{r}
				}
			}
			i = e.concretize(i, int64(len(b.e))-1)
		}
		return b.e[i.c]
	case *StrV:
		e.oblige("panic/index", site, tb.Ult(i, b.len))
		return &Scalar{e.read(b.o.c, tb.Add(b.off, i))}
	}
	e.unsup("index of %T", e.get(f, x.X))
	return nil
}

func (e *Engine) slice(f *frame, x *ssa.Slice) Value {
	tb := e.tb
	site := e.site(x.Pos(), f.fn)
	lo := tb.I(0)
	if x.Low != nil {
		lo = e.idx64(f, x.Low)
	}
	var hi, mx *T
	if x.High != nil {
		hi = e.idx64(f, x.High)
	}
	if x.Max != nil {
		mx = e.idx64(f, x.Max)
	}
	switch b := e.get(f, x.X).(type) {
	case *StrV:
		if hi == nil {
			hi = b.len
		}
		e.oblige("panic/slice", site, tb.BAnd(tb.Ule(lo, hi), tb.Ule(hi, b.len)))
		return &StrV{o: b.o, off: tb.Add(b.off, lo), len: tb.Sub(hi, lo)}
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		if mx == nil {
			mx = b.cap
		}
		e.oblige("panic/slice", site, tb.BAnd(tb.Ule(lo, hi), tb.Ule(hi, mx), tb.Ule(mx, b.cap)))
		if b.nil_ {
			return b
		}
		return &SliceV{o: b.o, cell: b.cell, off: tb.Add(b.off, lo), len: tb.Sub(hi, lo), cap: tb.Sub(mx, lo)}
	case *PtrV:
		if b.nil_ {
			e.oblige("panic/nil-dereference", site, tb.fls)
			panic(pathEnd{"nil"})
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = tb.I(n)
		}
		if mx == nil {
			mx = tb.I(n)
		}
		e.oblige("panic/slice", site, tb.BAnd(tb.Ule(lo, hi), tb.Ule(hi, mx), tb.Ule(mx, tb.I(n))))
		if b.o != nil {
			return &SliceV{o: b.o, off: tb.Add(b.off, lo), len: tb.Sub(hi, lo), cap: tb.Sub(mx, lo)}
		}
		if len(b.path) > 0 {
			e.unsup("slice of an array inside another value")
		}
		return &SliceV{cell: b.cell, off: lo, len: tb.Sub(hi, lo), cap: tb.Sub(mx, lo)}
	}
	e.unsup("slice of %T", e.get(f, x.X))
	return nil
}

func (e *Engine) typeAssert(f *frame, x *ssa.TypeAssert) Value {
	i, ok := e.get(f, x.X).(*IfaceV)
	if !ok {
		e.unsup("type assertion on %T", e.get(f, x.X))
	}
	match := false
	if !i.nil_ {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(i.typ, it)
		} else {
			match = types.Identical(i.typ, x.AssertedType)
		}
	}
	var v Value
	if match {
		if types.IsInterface(x.AssertedType) {
			v = i
		} else {
			v = i.v
		}
	} else {
		v = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return &TupleV{[]Value{v, &Scalar{e.tb.Bool(match)}}}
	}
	e.oblige("panic/type-assertion", e.site(x.Pos(), f.fn), e.tb.Bool(match))
	return v
}

func (e *Engine) callCommon(f *frame, cc *ssa.CallCommon, site string, rt types.Type) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.get(f, a))
	}
	return e.dispatch(cc, e.get(f, cc.Value), args, site)
}

func (e *Engine) dispatch(cc *ssa.CallCommon, fv Value, args []Value, site string) Value {
	if cc.IsInvoke() {
		i, ok := fv.(*IfaceV)
		if !ok {
			e.unsup("invoke on %T", fv)
		}
		if i.nil_ {
			e.oblige("panic/nil-dereference", site, e.tb.fls)
			panic(pathEnd{"nil interface"})
		}
		m := e.ld.prog.LookupMethod(i.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			e.unsup("method %s of %s", cc.Method.Name(), i.typ)
		}
		return e.call(m, append([]Value{i.v}, args...), nil, site)
	}
	fn, ok := fv.(*FuncV)
	if !ok {
		e.unsup("call of %T", fv)
	}
	if fn.bi != nil {
		return e.builtin(fn.bi, cc, args, site)
	}
	if fn.nil_ {
		e.oblige("panic/nil-dereference", site, e.tb.fls)
		panic(pathEnd{"nil func"})
	}
	return e.call(fn.fn, args, fn.bind, site)
}

// Maps built entry by entry. A key is compared with the keys present, one case
// of the proof for each it may be equal to.

func (e *Engine) mapFind(m *MapObj, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	for i, x := range m.ents {
		if e.branch(e.equal(x[0], k, kt)) {
			return i
		}
	}
	return -1
}

func (e *Engine) mapSet(mv, k, v Value, kt types.Type, site string) {
	m, ok := mv.(*MapV)
	if !ok {
		e.unsup("update of %T", mv)
	}
	if m.nil_ {
		e.oblige("panic/nil-map", site, e.tb.fls)
		panic(pathEnd{"nil map"})
	}
	if m.m.global && !e.inInit {
		e.unsup("write to package-level state at %s", site)
	}
	if i := e.mapFind(m.m, k, kt); i >= 0 {
		m.m.ents[i][1] = copyVal(v)
		return
	}
	m.m.ents = append(m.m.ents, [2]Value{copyVal(k), copyVal(v)})
}

func (e *Engine) mapGet(m *MapV, k Value, x *ssa.Lookup) Value {
	mt := x.X.Type().Underlying().(*types.Map)
	v, i := Value(nil), e.mapFind(m.m, k, mt.Key())
	if i >= 0 {
		v = copyVal(m.m.ents[i][1])
	} else {
		v = e.zero(mt.Elem())
	}
	if x.CommaOk {
		return &TupleV{v: []Value{v, &Scalar{e.tb.Bool(i >= 0)}}}
	}
	return v
}

func (e *Engine) mapNext(it *iterV, x *ssa.Next) Value {
	if e.gen != nil {
		return e.gen.next(it, x)
	}
	if it.m != nil && it.i < len(it.m.ents) {
		it.i++
		return &TupleV{v: []Value{&Scalar{e.tb.tru}, it.m.ents[it.i-1][0], copyVal(it.m.ents[it.i-1][1])}}
	}
	tt := x.Type().(*types.Tuple)
	r := &TupleV{v: []Value{&Scalar{e.tb.fls}}}
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			r.v = append(r.v, poisonV{})
		} else {
			r.v = append(r.v, e.zero(tt.At(i).Type()))
		}
	}
	return r
}
