package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) minLen(a, b *T) *T {
	if a == b {
		return a
	}
	c := e.tb.Ule(a, b)
	if c.isTrue() || e.valid(c) {
		return a
	}
	d := e.tb.Ule(b, a)
	if d.isTrue() || e.valid(d) {
		return b
	}
	return e.tb.Ite(c, a, b)
}

type bytesRef struct {
	o   *BObj
	c   *Content
	off *T
	len *T
}

func (e *Engine) asBytes(v Value) bytesRef {
	switch x := v.(type) {
	case *SliceV:
		if x.nil_ {
			return bytesRef{nil, &Content{k: CZero}, e.tb.I(0), e.tb.I(0)}
		}
		if x.o == nil {
			e.unsup("bytes of a non-byte slice")
		}
		return bytesRef{x.o, x.o.c, x.off, x.len}
	case *StrV:
		return bytesRef{x.o, x.o.c, x.off, x.len}
	}
	e.unsup("bytes of %T", v)
	return bytesRef{}
}

func (e *Engine) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value, site string) Value {
	tb := e.tb
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return &Scalar{x.len}
		case *StrV:
			return &Scalar{x.len}
		case *ArrV:
			return &Scalar{tb.I(x.n)}
		case *MapV:
			if x.nil_ {
				return &Scalar{tb.I(0)}
			}
			if x.m != nil && !x.m.gen {
				return &Scalar{tb.I(int64(len(x.m.ents)))}
			}
			if x.m != nil && x.m.n != nil {
				return &Scalar{x.m.n}
			}
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return &Scalar{x.cap}
		}
	case "copy":
		d := args[0].(*SliceV)
		if d.cell != nil {
			return e.copyGeneric(d, args[1].(*SliceV))
		}
		src := e.asBytes(args[1])
		n := e.minLen(src.len, d.len)
		if d.nil_ || (n.isConst() && n.c == 0) {
			return &Scalar{n}
		}
		if d.o == nil {
			e.unsup("copy to %T", args[0])
		}
		if !e.valid(tb.Eq(n, tb.I(0))) {
			e.checkWrite(d.o, d.off, site)
			d.o.c = copyC(d.o.c, d.off, src.c, src.off, n)
		}
		return &Scalar{n}
	case "append":
		return e.append_(args, cc, site)
	case "min", "max":
		bt := cc.Args[0].Type().Underlying().(*types.Basic)
		_, sg := e.basicWidth(bt)
		r := args[0].(*Scalar).t
		for _, a := range args[1:] {
			t := a.(*Scalar).t
			var lt *T
			if sg {
				lt = tb.Slt(t, r)
			} else {
				lt = tb.Ult(t, r)
			}
			if b.Name() == "max" {
				if sg {
					lt = tb.Slt(r, t)
				} else {
					lt = tb.Ult(r, t)
				}
			}
			r = tb.Ite(lt, t, r)
		}
		return &Scalar{r}
	case "delete":
		if m, ok := args[0].(*MapV); ok && e.gen == nil {
			if m.m != nil && m.m.global && !e.inInit {
				e.unsup("write to package-level state at %s", site)
			}
			if i := e.mapFind(m.m, args[1], cc.Args[1].Type()); i >= 0 {
				m.m.ents = append(append([][2]Value{}, m.m.ents[:i]...), m.m.ents[i+1:]...)
			}
			return &TupleV{}
		}
	case "clear":
		if d, ok := args[0].(*SliceV); ok && d.cell == nil {
			if !d.nil_ && !e.valid(tb.Eq(d.len, tb.I(0))) {
				e.checkWrite(d.o, d.off, site)
				d.o.c = copyC(d.o.c, d.off, &Content{k: CZero}, tb.I(0), d.len)
			}
			return &TupleV{}
		}
	case "String": // unsafe.String
		n := e.idxArg(cc, args, 1)
		p := args[0].(*PtrV)
		if p.nil_ {
			return e.litStr("")
		}
		if p.o == nil {
			break
		}
		return &StrV{o: p.o, off: p.off, len: n}
	case "StringData":
		s := args[0].(*StrV)
		return &PtrV{o: s.o, off: s.off, arr: -1}
	case "SliceData":
		s := args[0].(*SliceV)
		if s.nil_ {
			return &PtrV{nil_: true, arr: -1}
		}
		if s.o == nil {
			break
		}
		return &PtrV{o: s.o, off: s.off, arr: -1}
	case "Slice": // unsafe.Slice
		n := e.idxArg(cc, args, 1)
		p := args[0].(*PtrV)
		if p.nil_ {
			return &SliceV{nil_: true, off: tb.I(0), len: tb.I(0), cap: tb.I(0)}
		}
		if p.o == nil {
			break
		}
		// the span must lie inside the object
		e.oblige("memory/unsafe-slice-bounds", site, tb.BAnd(tb.Ule(n, p.o.size), tb.Ule(tb.Add(p.off, n), p.o.size)))
		return &SliceV{o: p.o, off: p.off, len: n, cap: n}
	case "Add":
		if u, ok := args[0].(*UnsafeP); ok {
			if p, ok := u.p.(*PtrV); ok && p.o != nil {
				q := *p
				q.off = tb.Add(p.off, e.idxArg(cc, args, 1))
				return &UnsafeP{p: &q, elt: u.elt}
			}
		}
	case "panic":
		e.oblige("panic/explicit", site, tb.fls)
		panic(pathEnd{"panic"})
	case "print", "println":
		return &TupleV{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok && p.nil_ {
			e.oblige("panic/nil-dereference", site, tb.fls)
			panic(pathEnd{"nil"})
		}
		return args[0]
	}
	e.unsup("builtin %s", b.Name())
	return nil
}

func (e *Engine) idxArg(cc *ssa.CallCommon, args []Value, i int) *T {
	t := args[i].(*Scalar).t
	if t.w == 64 {
		return t
	}
	_, sg := e.basicWidth(cc.Args[i].Type().Underlying().(*types.Basic))
	if sg {
		return e.tb.Sext(t, 64)
	}
	return e.canon(e.tb.Zext(t, 64))
}

func (e *Engine) copyGeneric(d, s *SliceV) Value {
	tb := e.tb
	n := e.minLen(d.len, s.len)
	n = e.concretize(n, 8)
	if n.c > 0 {
		sa, da := s.cell.val.(*ArrV), d.cell.val.(*ArrV)
		tmp := make([]Value, n.c)
		for i := range tmp {
			tmp[i] = copyVal(sa.e[int(s.off.c)+i])
		}
		copy(da.e[d.off.c:], tmp)
	}
	_ = tb
	return &Scalar{n}
}

func (e *Engine) append_(args []Value, cc *ssa.CallCommon, site string) Value {
	tb := e.tb
	s := args[0].(*SliceV)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if !isByte(et) {
		t, ok := args[1].(*SliceV)
		if !ok {
			e.unsup("append")
		}
		return e.appendGeneric(s, t, et)
	}
	src := e.asBytes(args[1])
	n := src.len
	if s.nil_ {
		if n.isConst() && n.c == 0 {
			return s
		}
		if !n.isConst() && e.branch(tb.Eq(n, tb.I(0))) {
			return s
		}
		return e.grow(s, n, src, site, false)
	}
	if n.isConst() && n.c == 0 {
		return s
	}
	return e.grow(s, n, src, site, false)
}

// grow appends src (n bytes) to s, either in place or into new storage.
// asGrown: the result is extended to its capacity (contract use of Grow).
func (e *Engine) grow(s *SliceV, n *T, src bytesRef, site string, asGrown bool) Value {
	tb := e.tb
	nl := tb.Add(s.len, n)
	room := tb.BAnd(tb.Ule(nl, s.cap), tb.Ule(s.len, nl))
	mayStay := !s.nil_ && e.sat(room)
	mayMove := e.sat(tb.BNot(room)) || asGrown
	inPlace := func() Value {
		if !e.valid(tb.Eq(n, tb.I(0))) {
			e.checkWrite(s.o, tb.Add(s.off, s.len), site)
			if src.c != nil {
				s.o.c = copyC(s.o.c, tb.Add(s.off, s.len), src.c, src.off, n)
			}
		}
		return &SliceV{o: s.o, off: s.off, len: nl, cap: s.cap}
	}
	fresh := func(c *T) *BObj {
		// bytes beyond the new length are unspecified
		var prev *Content
		if s.nil_ {
			prev = e.baseContent("spare")
		} else {
			prev = copyC(e.baseContent("spare"), tb.I(0), s.o.c, s.off, s.len)
		}
		if src.c != nil {
			prev = copyC(prev, s.len, src.c, src.off, n)
		}
		return e.newBObj("grown", c, prev)
	}
	newCap := func() *T {
		c := e.fresh("cap", 64)
		return c
	}
	if mayStay && mayMove && (e.opt.ForkAppend || asGrown && false) {
		if e.opt.ForkAppend {
			stay := false
			if asGrown {
				if e.choose(2) == 0 {
					e.assume(room)
					stay = true
				}
			} else {
				stay = e.branch(room)
			}
			if stay {
				mayMove = false
			} else {
				mayStay = false
			}
		}
	}
	if mayStay && !mayMove {
		return inPlace()
	}
	c := newCap()
	lim := tb.I(maxLen * 8)
	if !mayStay {
		e.assume(tb.BAnd(tb.Ule(nl, c), tb.Ule(c, lim)))
		o := fresh(c)
		return &SliceV{o: o, off: tb.I(0), len: nl, cap: c}
	}
	// undetermined: one logical object standing for both outcomes
	if s.o.isStr || (s.o.global && !e.inInit) {
		panic(needFork{})
	}
	if s.o.shared {
		panic(needFork{})
	}
	if s.o.alias != nil && !e.valid(tb.Sle(s.o.aliasLim, tb.Add(s.off, s.len))) {
		panic(needFork{})
	}
	e.assume(tb.BAnd(tb.Ule(nl, c), tb.Ule(c, lim)))
	var rc *T
	if asGrown {
		// may also stay when there is room but the callee moved anyway: any
		// capacity with room is possible
		k := e.fresh("keep", 0)
		e.assume(tb.Implies(k, room))
		rc = tb.Ite(k, s.cap, c)
	} else {
		rc = tb.Ite(room, s.cap, c)
	}
	o := fresh(rc)
	o.alias = s.o
	o.aliasLim = s.len
	// the old storage beyond the old length may have been overwritten
	lim2 := tb.Add(s.off, s.len)
	s.o.c = copyC(s.o.c, lim2, e.baseContent("clobber"), tb.I(0), tb.Sub(tb.Add(s.off, s.cap), lim2))
	s.o.shared = true
	return &SliceV{o: o, off: tb.I(0), len: nl, cap: rc}
}

func (e *Engine) appendGeneric(s, t *SliceV, et types.Type) Value {
	tb := e.tb
	if !s.len.isConst() || !t.len.isConst() {
		e.unsup("append of non-byte slices of symbolic length")
	}
	n := int(s.len.c + t.len.c)
	if t.len.c == 0 {
		return s
	}
	a := &ArrV{}
	get := func(x *SliceV) []Value {
		if x.nil_ || x.len.c == 0 {
			return nil
		}
		return x.cell.val.(*ArrV).e[x.off.c : x.off.c+x.len.c]
	}
	if !s.nil_ && s.cap.isConst() && uint64(n) <= s.cap.c {
		dst := s.cell.val.(*ArrV)
		for i, v := range get(t) {
			dst.e[int(s.off.c)+int(s.len.c)+i] = copyVal(v)
		}
		return &SliceV{cell: s.cell, off: s.off, len: tb.I(int64(n)), cap: s.cap}
	}
	for _, v := range get(s) {
		a.e = append(a.e, copyVal(v))
	}
	for _, v := range get(t) {
		a.e = append(a.e, copyVal(v))
	}
	a.n = int64(len(a.e))
	return &SliceV{cell: e.newCell("append", types.NewArray(et, a.n), a), off: tb.I(0), len: tb.I(int64(n)), cap: tb.I(int64(n))}
}

func litOf(v Value) string {
	s := v.(*StrV)
	if s.o.c.k == CLit {
		return s.o.c.lit
	}
	return "?"
}

func (e *Engine) full(label string) string {
	if len(e.aspects) == 0 {
		return label
	}
	return label
}

// intrinsic handles ghost functions and the modelled standard library.
func (e *Engine) intrinsic(fn *ssa.Function, name string, args []Value, site string) (Value, bool) {
	tb := e.tb
	unit := &TupleV{}
	gfn := fn
	if fn.Origin() != nil {
		gfn = fn.Origin()
	}
	if gfn.Pkg == e.ld.target && len(gfn.Name()) > 1 && gfn.Name()[0] == 'v' && gfn.Name()[1] >= 'A' && gfn.Name()[1] <= 'Z' && e.ld.isGhost(gfn) {
		sc := func(i int) *T { return args[i].(*Scalar).t }
		switch gfn.Name() {
		case "vRequire":
			e.ReqSeen++
			e.assume(sc(0))
			if !e.sat(tb.tru) {
				panic(pathEnd{"precondition"})
			}
			return unit, true
		case "vAssume": // same as vRequire; used inside contract generators
			e.assume(sc(0))
			if !e.sat(tb.tru) {
				panic(pathEnd{"assume"})
			}
			return unit, true
		case "vAspect":
			e.aspects = strings.Fields(litOf(args[0]))
			return unit, true
		case "vCover":
			e.Covers[litOf(args[0])] = true
			return unit, true
		case "vEnsure":
			e.oblige("post/"+litOf(args[0]), site, sc(1))
			return unit, true
		case "vSnap":
			r := e.asBytes(args[0])
			o := e.newBObj("snap", r.len, copyC(&Content{k: CZero}, tb.I(0), r.c, r.off, r.len))
			return &SliceV{o: o, off: tb.I(0), len: r.len, cap: r.len}, true
		case "vEnsureSame":
			a, b := e.asBytes(args[1]), e.asBytes(args[2])
			e.oblige("post/"+litOf(args[0])+"/length", site, tb.Eq(a.len, b.len))
			e.oblige("post/"+litOf(args[0])+"/bytes", site, e.sameBytes(a, b))
			return unit, true
		case "vEnsureDisjoint":
			a, b := e.asBytes(args[1]), e.asBytes(args[2])
			ok := a.o == nil || b.o == nil || !mayOverlap(a.o, b.o)
			e.oblige("post/"+litOf(args[0]), site, tb.BOr(tb.Bool(ok), tb.Eq(a.len, tb.I(0)), tb.Eq(b.len, tb.I(0))))
			return unit, true
		case "vEnsureRest":
			// rest is exactly b[n:], the same memory
			r, b, n := args[1].(*SliceV), args[2].(*SliceV), sc(3)
			ln := tb.Eq(r.len, tb.Sub(b.len, n))
			e.oblige("post/"+litOf(args[0])+"/length", site, ln)
			same := tb.Bool(r.o == b.o)
			if r.o != nil && r.o == b.o {
				same = tb.Eq(r.off, tb.Add(b.off, n))
			}
			e.oblige("post/"+litOf(args[0])+"/position", site, tb.BOr(same, tb.Eq(r.len, tb.I(0))))
			return unit, true
		case "vEnsureSuffix":
			r, b := args[1].(*SliceV), args[2].(*SliceV)
			same := tb.Bool(r.o == b.o)
			if r.o != nil && r.o == b.o {
				same = tb.BAnd(tb.Eq(tb.Add(r.off, r.len), tb.Add(b.off, b.len)), tb.Ule(b.off, r.off))
			}
			e.oblige("post/"+litOf(args[0]), site, tb.BAnd(tb.Ule(r.len, b.len), tb.BOr(same, tb.Eq(r.len, tb.I(0)))))
			return unit, true
		case "vEnsureSameStore":
			// storage is that of old (same bytes memory) or new memory
			a, b := args[1].(*SliceV), args[2].(*SliceV)
			if a.o != nil && a.o == b.o {
				e.oblige("post/"+litOf(args[0]), site, tb.BAnd(tb.Eq(a.off, b.off), tb.Eq(a.cap, b.cap)))
			} else {
				e.oblige("post/"+litOf(args[0]), site, tb.Bool(a.o == nil || !a.o.pre && !a.o.isStr && !a.o.global && (a.o.alias == nil || a.o.alias == b.o)))
			}
			return unit, true
		case "vAnySuffix":
			b := args[0].(*SliceV)
			if b.nil_ {
				return b, true
			}
			k := e.fresh("suffix", 64)
			e.assume(tb.Ule(k, b.len))
			return &SliceV{o: b.o, off: tb.Add(b.off, k), len: tb.Sub(b.len, k), cap: tb.Sub(b.cap, k)}, true
		case "vGrown":
			// vGrown(s, keep, n): s's storage with room for n more bytes after the
			// first keep, extended to its capacity; moved or not.
			s, keep, n := args[0].(*SliceV), sc(1), sc(2)
			t := &SliceV{nil_: s.nil_, o: s.o, off: s.off, len: keep, cap: s.cap}
			g := e.grow(t, n, bytesRef{}, site, true).(*SliceV)
			return &SliceV{o: g.o, off: g.off, len: g.cap, cap: g.cap}, true
		case "vIte":
			return &Scalar{tb.Ite(sc(0), sc(1), sc(2))}, true
		case "vRest":
			return e.rest(args[0]), true
		case "vOpaqueStr":
			return args[0], true
		}
	}
	switch name {
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		e.Intrins[name] = true
		return args[0], true
	case "errors.New":
		e.Intrins[name] = true
		return nil, false
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		e.Intrins[name] = true
		return unit, true
	case "(*sync.Pool).Get":
		e.Intrins[name] = true
		p := args[0].(*PtrV)
		cell := p.cell
		n := len(cell.pool)
		k := e.choose(n + 1)
		if k < n {
			v := cell.pool[k]
			cell.pool = append(append([]Value{}, cell.pool[:k]...), cell.pool[k+1:]...)
			return v, true
		}
		pv := e.getPath(p)
		st := pv.(*StructV)
		fv := st.f[len(st.f)-1].(*FuncV)
		if fv.nil_ {
			return &IfaceV{nil_: true}, true
		}
		return e.call(fv.fn, nil, fv.bind, site), true
	case "(*sync.Pool).Put":
		e.Intrins[name] = true
		p := args[0].(*PtrV)
		v := args[1].(*IfaceV)
		if !v.nil_ {
			p.cell.pool = append(p.cell.pool, v)
		}
		return unit, true
	case "bytes.Equal":
		return nil, false
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		e.Intrins[name] = true
		x := args[0].(*Scalar).t
		r := tb.I(0)
		for i := 0; i < x.w; i++ {
			r = tb.Ite(tb.Eq(tb.Extract(x, i, i), tb.Const(1, 1)), tb.I(int64(i+1)), r)
		}
		return &Scalar{r}, true
	case "math/bits.TrailingZeros8", "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		e.Intrins[name] = true
		x := args[0].(*Scalar).t
		r := tb.I(int64(x.w))
		for i := x.w - 1; i >= 0; i-- {
			r = tb.Ite(tb.Eq(tb.Extract(x, i, i), tb.Const(1, 1)), tb.I(int64(i)), r)
		}
		return &Scalar{r}, true
	case "runtime.KeepAlive":
		return unit, true
	}
	return nil, false
}

func mayOverlap(a, b *BObj) bool {
	anc := map[*BObj]bool{}
	for x := a; x != nil; x = x.alias {
		anc[x] = true
	}
	for x := b; x != nil; x = x.alias {
		if anc[x] {
			return true
		}
	}
	return false
}

// rest finds the unread input of a decoder value: a []byte itself, or the
// struct's only []byte field (from an int field on, when there is one).
func (e *Engine) rest(v Value) Value {
	p, ok := v.(*IfaceV)
	if ok {
		v = p.v
	}
	if q, ok := v.(*PtrV); ok && q.cell != nil {
		v = e.getPath(q)
	}
	switch x := v.(type) {
	case *SliceV:
		return x
	case *StructV:
		var sl *SliceV
		var pos *T
		for _, f := range x.f {
			switch y := f.(type) {
			case *SliceV:
				if sl != nil {
					e.unsup("decoder with several slices")
				}
				sl = y
			case *Scalar:
				if y.t.w != 64 || pos != nil {
					e.unsup("decoder with unknown fields")
				}
				pos = y.t
			default:
				e.unsup("decoder with unknown fields")
			}
		}
		if sl != nil {
			if pos == nil {
				return sl
			}
			return &SliceV{nil_: sl.nil_, o: sl.o, off: e.tb.Add(sl.off, pos), len: e.tb.Sub(sl.len, pos), cap: e.tb.Sub(sl.cap, pos)}
		}
	}
	e.unsup("cannot observe the position of %T", v)
	return nil
}

var _ = fmt.Sprint

// sameBytes: a and b, of equal length, hold the same bytes.
func (e *Engine) sameBytes(a, b bytesRef) *T {
	tb := e.tb
	n := a.len
	if b.len.isConst() {
		n = b.len
	}
	if n.isConst() && n.c <= 64 {
		r := tb.tru
		for i := int64(0); i < int64(n.c); i++ {
			r = tb.BAnd(r, tb.Eq(e.read(a.c, tb.Add(a.off, tb.I(i))), e.read(b.c, tb.Add(b.off, tb.I(i)))))
		}
		return r
	}
	k := e.fresh("k", 64)
	in := tb.Ult(k, n)
	if in.isFalse() {
		return tb.tru
	}
	// the index conditions below are resolved under k < n; the terms contain k,
	// so they are not met again outside this obligation
	e.path = append(e.path, in)
	eq := tb.Eq(e.read(a.c, tb.Add(a.off, k)), e.read(b.c, tb.Add(b.off, k)))
	e.path = e.path[:len(e.path)-1]
	return tb.Implies(in, eq)
}
