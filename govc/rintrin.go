package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Ghost functions, compiler intrinsics, the allocator, and the few library
// functions used through an assumed contract.

func (r *RustExec) strArg(v MV) string {
	a, ok := v.(*MAgg)
	if !ok {
		r.e.unsup("string constant expected")
	}
	p := r.toPtr(r.aggRead(a, 0, 8))
	n := r.scalarOf(r.aggRead(a, 8, 8), 8)
	if !n.isConst() || p.o == nil || !p.off.isConst() {
		r.e.unsup("string constant expected")
	}
	b := make([]byte, n.c)
	for i := range b {
		t := r.scalarOf(r.readMem(p.o, r.tb.I(int64(p.off.c)+int64(i)), 1), 1)
		if !t.isConst() {
			r.e.unsup("string constant expected")
		}
		b[i] = byte(t.c)
	}
	return string(b)
}

// slice argument: object, offset, length
func (r *RustExec) sliceArg(v MV) (*MPtr, *T) {
	a, ok := v.(*MAgg)
	if !ok {
		r.e.unsup("slice expected")
	}
	return r.toPtr(r.aggRead(a, 0, 8)), r.scalarOf(r.aggRead(a, 8, 8), 8)
}

func (r *RustExec) input(name string, bits int) *rInput {
	for _, in := range r.inputs {
		if in.name == name {
			r.e.unsup("input %s requested twice", name)
		}
	}
	in := &rInput{name: name, bits: bits}
	r.inputs = append(r.inputs, in)
	return in
}

func (r *RustExec) bytesOf(v MV, what string, f *rframe) bytesRef {
	p, n := r.sliceArg(v)
	if p.o == nil {
		if !n.isConst() || n.c != 0 {
			r.e.oblige("memory", r.site(f)+" "+what, r.tb.Eq(n, r.tb.I(0)))
		}
		return bytesRef{nil, &Content{k: CZero}, r.tb.I(0), n}
	}
	r.checkAccess(p.o, p.off, n, false, f)
	r.flushRead(p.o)
	return bytesRef{nil, p.o.c, p.off, n}
}

// flushRead gives the byte contents without giving up the typed chunks.
func (r *RustExec) flushRead(o *MObj) { r.flush(o) }

func (r *RustExec) newHeap(name string, size *T, align int64, c *Content) *MObj {
	o := r.newObj(name, "heap", size, align, c)
	r.live++
	return o
}

// resolve follows a range of bytes to the object it was copied from.
func (r *RustExec) resolve(b bytesRef) bytesRef {
	tb := r.tb
	c, off, n := b.c, b.off, b.len
	for c != nil {
		var next *Content
		switch c.k {
		case CCopy:
			rel := tb.Sub(off, c.dst)
			if r.e.known(tb.BAnd(tb.Ule(rel, c.n), tb.Ule(n, tb.Sub(c.n, rel)))).isTrue() {
				off = tb.Add(c.srcOff, rel)
				next = c.src
			} else if r.e.known(tb.BOr(tb.Ule(tb.Add(off, n), c.dst), tb.Ule(tb.Add(c.dst, c.n), off))).isTrue() {
				next = c.prev
			}
		case CStore:
			if r.e.known(tb.BOr(tb.Ult(c.idx, off), tb.Ule(tb.Add(off, n), c.idx))).isTrue() {
				next = c.prev
			}
		}
		if next == nil {
			break
		}
		c = next
	}
	return bytesRef{nil, c, off, n}
}

// nulPred: one of the bytes is zero. True comes with an index of the first
// one, false is remembered for strlen.
func (r *RustExec) nulPred(b bytesRef) (bool, *T) {
	tb := r.tb
	b = r.resolve(b)
	if b.len.isConst() && b.len.c == 0 {
		return false, nil
	}
	for _, q := range r.nul {
		if q.at == nil && r.sameRange(q.bytesRef, b) {
			return false, nil
		}
		if q.at != nil && r.sameRange(q.bytesRef, b) {
			return true, q.at
		}
	}
	v := r.e.fresh("nul", 0)
	if r.e.branch(v) {
		at := r.e.fresh("nulat", 64)
		r.e.assume(tb.Ult(at, b.len))
		r.e.assume(tb.Eq(r.e.read(b.c, tb.Add(b.off, at)), tb.Const(8, 0)))
		r.nul = append(r.nul, nulQ{b, at})
		return true, at
	}
	r.nul = append(r.nul, nulQ{b, nil})
	return false, nil
}

type nulQ struct {
	bytesRef
	at *T // nil: no byte is zero
}

func (r *RustExec) sameRange(a, b bytesRef) bool {
	if a.c == b.c && a.off == b.off && a.len == b.len {
		return true
	}
	return r.e.valid(r.tb.Eq(a.len, b.len)) && r.e.valid(r.e.sameBytes(bytesRef{nil, a.c, a.off, a.len}, bytesRef{nil, b.c, b.off, a.len}))
}

// utfPred is the uninterpreted predicate "these bytes are well-formed UTF-8".
func (r *RustExec) utfPred(b bytesRef) *T {
	tb := r.tb
	if b.len.isConst() && b.len.c == 0 {
		return tb.tru
	}
	b = r.resolve(b)
	c, off, n := b.c, b.off, b.len
	if c != nil && c.k == CLit && off.isConst() && n.isConst() && off.c+n.c <= uint64(len(c.lit)) {
		return tb.Bool(utf8.ValidString(c.lit[off.c : off.c+n.c]))
	}
	for _, q := range r.utf {
		if q.c == c && q.off == off && q.n == n {
			return q.v
		}
	}
	for _, q := range r.utf {
		// the predicate depends on the bytes only
		if r.e.valid(tb.Eq(q.n, n)) && r.e.valid(r.e.sameBytes(bytesRef{nil, q.c, q.off, n}, bytesRef{nil, c, off, n})) {
			r.utf = append(r.utf, utfQ{c, off, n, q.v})
			return q.v
		}
	}
	v := r.e.fresh("utf8", 0)
	for _, q := range r.utf {
		if q.c == c {
			r.e.assume(tb.Implies(tb.BAnd(tb.Eq(q.off, off), tb.Eq(q.n, n)), tb.Eq(q.v, v)))
		}
	}
	r.e.assume(tb.Implies(tb.Eq(n, tb.I(0)), v))
	r.utf = append(r.utf, utfQ{c, off, n, v})
	if c.k == CBase && strings.HasPrefix(c.name, "in.") {
		r.utfIn = append(r.utfIn, utfQ{c, off, n, v})
	}
	return v
}

func (r *RustExec) sized(c *T) {
	r.e.assume(r.tb.Ule(c, r.tb.I(1<<40)))
}

// std functions used through a contract proved on their own MIR
var rustContracts = map[string]string{
	"<std::io::Cursor<std::vec::Vec<u8>> as std::io::Write>::write_all": "write_all",
	"c_bindings::types::Kind::into":                                     "kind_into",
}

// std functions without MIR in the distributed library: their meaning, written
// out in the ghost crate
var rustModels = map[string]string{
	"std::boxed::convert::<impl std::convert::From<std::string::String> for std::boxed::Box<dyn std::error::Error>>::from": "m_box_error_string",
	"std::boxed::convert::<impl std::convert::From<&str> for std::boxed::Box<dyn std::error::Error>>::from":                "m_box_error_str",
	"std::ffi::CString::from_vec_unchecked":  "m_cstring_vec",
	"std::ffi::CString::_from_vec_unchecked": "m_cstring_vec",
	"std::ffi::CStr::to_str":                 "m_cstr_to_str",
	"std::ffi::CString::from_raw":            "m_cstring_raw",
}

func (r *RustExec) ghostFn(n string) *MInst {
	if id, ok := r.p.Entries[n]; ok {
		return r.p.Insts[id]
	}
	return nil
}

// the writer inside a fmt::Formatter
func (r *RustExec) formatterWrite(in *MInst, args []MV, atys []*MTy, ret *MTy, f *rframe) MV {
	ft := r.ty(atys[0].Elem)
	if ft.K != "struct" && len(ft.Offs) != 2 {
		r.e.unsup("layout of Formatter")
	}
	self := r.toPtr(args[0])
	w, o := -1, -1
	for i, x := range ft.Fields {
		if t := r.ty(x); t.K == "ptr" && t.Size == 16 {
			w = i
		} else {
			o = i
		}
	}
	if w < 0 || o < 0 {
		r.e.unsup("fields of Formatter")
	}
	if shortName(in.N) != "write_str" {
		// width and precision unset: {flags: u32, width: u16, precision: u16}
		fl := r.scalarOf(r.readMem(self.o, r.tb.Add(self.off, r.tb.I(ft.Offs[o])), 4), 4)
		if !fl.isConst() || fl.c>>27&3 != 0 {
			r.e.unsup("padded formatting")
		}
		r.Models["fmt::Formatter::pad and Display of str write the string as it is when no width or precision is set"] = true
	} else {
		r.Models["fmt::Formatter::write_str calls write_str of the underlying writer"] = true
	}
	buf := r.readAgg(self.o, r.tb.Add(self.off, r.tb.I(ft.Offs[w])), 16)
	vt := r.toPtr(r.aggRead(buf, 8, 8))
	if vt.o == nil || vt.o.kind != "vtable" {
		r.e.unsup("formatter with an unknown writer")
	}
	fp := r.toPtr(r.readMem(vt.o, r.tb.I(24), 8))
	if fp.o == nil || fp.o.inst < 0 || !strings.HasSuffix(r.p.Insts[fp.o.inst].N, "::write_str") {
		r.e.unsup("formatter with an unknown writer")
	}
	callee := r.p.Insts[fp.o.inst]
	return r.call(callee, []MV{r.toPtr(r.aggRead(buf, 0, 8)), args[1]}, []*MTy{r.ty(callee.Locals[1]), atys[1]}, ret, f)
}

func (r *RustExec) ghostCall(name string, in *MInst, args []MV, ret *MTy, f *rframe) (MV, bool) {
	tb, e := r.tb, r.e
	switch name {
	case "any_u8", "any_u16", "any_u32", "any_u64":
		w := map[string]int{"any_u8": 8, "any_u16": 16, "any_u32": 32, "any_u64": 64}[name]
		i := r.input(r.strArg(args[0]), w)
		i.t = tb.Var("in."+i.name, w)
		return i.t, true
	case "any_len":
		i := r.input(r.strArg(args[0]), 65)
		i.t = tb.Var("in."+i.name, 64)
		r.sized(i.t)
		return i.t, true
	case "any_bytes":
		i := r.input(r.strArg(args[0]), 0)
		i.len = tb.Var("in."+i.name+".len", 64)
		r.sized(i.len)
		i.o = r.newObj(i.name, "input", i.len, 1, &Content{k: CBase, name: "in." + i.name})
		i.o.ro, i.o.bytes = true, true
		return wide(&MPtr{o: i.o, off: tb.I(0)}, i.len), true
	case "any_raw":
		// a heap block of the given name: pointer, length, capacity
		i := r.input(r.strArg(args[0]), 1)
		i.len = tb.Var("in."+i.name+".len", 64)
		i.cap = tb.Var("in."+i.name+".cap", 64)
		r.e.assume(tb.Ule(i.cap, tb.I(1<<44)))
		e.assume(tb.Ule(i.len, i.cap))
		var p *MPtr
		if e.branch(tb.Eq(i.cap, tb.I(0))) {
			i.o = r.newObj(i.name, "input", tb.I(0), 1, &Content{k: CBase, name: "in." + i.name})
			p = &MPtr{addr: tb.I(1)}
		} else {
			i.o = r.newHeap(i.name, i.cap, 1, &Content{k: CBase, name: "in." + i.name})
			i.o.bytes = true
			p = &MPtr{o: i.o, off: tb.I(0)}
		}
		return &MAgg{size: 24, ch: []MChunk{{off: ret.Offs[0], size: 8, v: p}, {off: ret.Offs[1], size: 8, v: i.len}, {off: ret.Offs[2], size: 8, v: i.cap}}}, true
	case "snapshot":
		b := r.bytesOf(args[0], "snapshot", f)
		o := r.newObj("snapshot", "input", b.len, 1, nil)
		o.c = copyC(&Content{k: CZero}, tb.I(0), b.c, b.off, b.len)
		o.ro, o.bytes = true, true
		return wide(&MPtr{o: o, off: tb.I(0)}, b.len), true
	case "assume":
		c := r.isTrue8(args[0].(*T))
		if c.isFalse() || !e.sat(c) {
			panic(pathEnd{"assumption"})
		}
		e.assume(c)
		return &MAgg{}, true
	case "require":
		l := r.strArg(args[1])
		e.oblige("post/"+l, r.site(f), r.isTrue8(args[0].(*T)))
		return &MAgg{}, true
	case "require_same":
		// (a, ai, b, bi, n, label)
		a, b := r.bytesOf(args[0], "bytes", f), r.bytesOf(args[2], "bytes", f)
		ai, bi, n := r.scalarOf(args[1], 8), r.scalarOf(args[3], 8), r.scalarOf(args[4], 8)
		l := "post/" + r.strArg(args[5])
		e.oblige(l+"/length", r.site(f), tb.BAnd(tb.Ule(ai, a.len), tb.Ule(n, tb.Sub(a.len, ai)), tb.Ule(bi, b.len), tb.Ule(n, tb.Sub(b.len, bi))))
		a.off, b.off = tb.Add(a.off, ai), tb.Add(b.off, bi)
		a.len, b.len = n, n
		e.oblige(l+"/bytes", r.site(f), e.sameBytes(a, b))
		return &MAgg{}, true
	case "cover":
		e.Covers[r.strArg(args[0])] = true
		return &MAgg{}, true
	case "utf8":
		return r.bool8(r.utfPred(r.bytesOf(args[0], "utf8", f))), true
	case "has_nul":
		v, _ := r.nulPred(r.bytesOf(args[0], "has_nul", f))
		return r.bool8(tb.Bool(v)), true
	case "alloc_limit":
		r.limit = r.scalarOf(args[0], 8)
		return &MAgg{}, true
	case "live":
		return tb.I(int64(r.live)), true
	case "valid":
		return r.bool8(tb.Bool(e.valid(r.isTrue8(args[0].(*T))))), true
	case "extended":
		// (p, len, cap, bytes): a block with room holding p[..len] and bytes
		p, n, cp := r.toPtr(args[0]), r.sc(args[1]), r.sc(args[2])
		b := r.bytesOf(args[3], "extended", f)
		ncap := e.fresh("cap", 64)
		total := tb.Add(n, b.len)
		e.assume(tb.Ule(total, ncap))
		e.assume(tb.Ule(cp, ncap))
		lim := tb.Add(tb.Mul(total, tb.I(2)), tb.I(8))
		e.assume(tb.BOr(tb.Ule(ncap, cp), tb.Ule(ncap, lim)))
		o := r.newObj("heap", "heap", ncap, 1, nil)
		c := e.baseContent("spare")
		if p.o != nil {
			r.flush(p.o)
			p.o.dead = true
			c = copyC(c, tb.I(0), p.o.c, p.off, n)
		} else {
			r.live++
		}
		o.c, o.bytes = copyC(c, n, b.c, b.off, b.len), true
		return &MAgg{size: 24, ch: []MChunk{{off: ret.Offs[0], size: 8, v: &MPtr{o: o, off: tb.I(0)}}, {off: ret.Offs[1], size: 8, v: total}, {off: ret.Offs[2], size: 8, v: ncap}}}, true
	case "any_cstr":
		i := r.input(r.strArg(args[0]), 0)
		i.len = tb.Var("in."+i.name+".len", 64)
		r.sized(i.len)
		i.o = r.newObj(i.name, "input", tb.Add(i.len, tb.I(1)), 1, store(&Content{k: CBase, name: "in." + i.name}, i.len, tb.Const(8, 0)))
		i.o.ro, i.o.bytes = true, true
		r.nul = append(r.nul, nulQ{r.resolve(bytesRef{nil, i.o.c, tb.I(0), i.len}), nil})
		return wide(&MPtr{o: i.o, off: tb.I(0)}, i.len), true
	case "aspect":
		e.aspects = []string{r.strArg(args[0])}
		return &MAgg{}, true
	case "null":
		return &MPtr{addr: tb.I(0)}, true
	}
	return nil, false
}

func (r *RustExec) alloc(size, align *T, zero bool, f *rframe) MV {
	tb := r.tb
	if !align.isConst() {
		r.e.unsup("symbolic alignment")
	}
	if r.limit != nil {
		r.e.oblige("alloc/size", r.site(f), tb.Ule(size, r.limit))
	}
	// an address space holds less than 2^47 bytes; a larger request fails and
	// the process aborts in handle_alloc_error
	r.e.oblige("alloc/address-space", r.site(f), tb.Ule(size, tb.I(1<<47)))
	c := &Content{k: CZero}
	if !zero {
		c = nil
	}
	o := r.newHeap("heap", size, int64(align.c), c)
	return &MPtr{o: o, off: tb.I(0)}
}

func (r *RustExec) dealloc(p *MPtr, size, align *T, f *rframe) {
	tb := r.tb
	if p.o == nil || p.o.kind != "heap" {
		r.e.oblige("memory/free", r.site(f)+" not a heap block", tb.fls)
		panic(pathEnd{"bad free"})
	}
	if p.o.dead {
		r.e.oblige("memory/free", r.site(f)+" freed twice", tb.fls)
		panic(pathEnd{"double free"})
	}
	r.e.oblige("memory/free", r.site(f)+" interior pointer", tb.Eq(p.off, tb.I(0)))
	r.e.oblige("memory/free", r.site(f)+" size of the block", tb.Eq(size, p.o.size))
	r.e.oblige("memory/free", r.site(f)+" alignment of the block", tb.Eq(align, tb.I(p.o.align)))
	p.o.dead = true
	r.live--
}

// the usize in a ptr::Alignment argument
func (r *RustExec) sc(v MV) *T { return r.scalarOf(v, 8) }

func (r *RustExec) targ(in *MInst, i int) *MTy {
	if i >= len(in.Targs) {
		r.e.unsup("type argument of %s", in.N)
	}
	return r.ty(in.Targs[i])
}

func (r *RustExec) intercept(in *MInst, args []MV, atys []*MTy, ret *MTy, f *rframe) (MV, bool) {
	tb := r.tb
	if strings.HasPrefix(in.N, "verif::") {
		if v, ok := r.ghostCall(in.N[7:], in, args, ret, f); ok {
			return v, true
		}
	}
	if in.Foreign || strings.HasPrefix(in.N, "alloc::alloc::__rust") {
		switch shortName(in.N) {
		case "__rust_no_alloc_shim_is_unstable_v2":
			return &MAgg{}, true
		case "__rust_alloc":
			return r.alloc(r.sc(args[0]), r.sc(args[1]), false, f), true
		case "__rust_alloc_zeroed":
			return r.alloc(r.sc(args[0]), r.sc(args[1]), true, f), true
		case "__rust_dealloc":
			r.dealloc(r.toPtr(args[0]), r.sc(args[1]), r.sc(args[2]), f)
			return &MAgg{}, true
		case "__rust_realloc":
			p := r.toPtr(args[0])
			old, al, n := r.sc(args[1]), r.sc(args[2]), r.sc(args[3])
			r.dealloc(p, old, al, f)
			np := r.alloc(n, al, false, f).(*MPtr)
			m := old
			if !r.e.valid(tb.Ule(old, n)) {
				m = tb.Ite(tb.Ule(old, n), old, n)
			}
			r.copyMem(np.o, tb.I(0), p.o, tb.I(0), m)
			return np, true
		case "strlen":
			return r.cstrlen(r.toPtr(args[0]), f), true
		case "memchr":
		}
	}
	if n, ok := rustModels[in.N]; ok && !in.hasBody {
		if g := r.ghostFn(n); g != nil {
			r.Models[in.N+" (model "+n+")"] = true
			return r.call(g, args, atys, ret, f), true
		}
	}
	if n, ok := rustContracts[in.N]; ok && r.contracts[n] {
		pre, con := r.ghostFn("pre_"+n), r.ghostFn("con_"+n)
		if pre != nil && con != nil && r.limit == nil && r.toConst8(r.call(pre, args, atys, &MTy{K: "bool", Size: 1}, f)) {
			r.Used[in.N] = true
			return r.call(con, args, atys, ret, f), true
		}
	}
	if strings.HasPrefix(in.N, "std::fmt::Formatter::<'_>::") && !in.hasBody && (shortName(in.N) == "write_str" || shortName(in.N) == "pad") {
		return r.formatterWrite(in, args, atys, ret, f), true
	}
	if in.N == "<str as std::fmt::Display>::fmt" && !in.hasBody {
		return r.formatterWrite(in, []MV{args[1], args[0]}, []*MTy{atys[1], atys[0]}, ret, f), true
	}
	if in.N == "core::str::from_utf8" || in.N == "std::str::from_utf8" || in.N == "core::str::converts::from_utf8" {
		b := r.bytesOf(args[0], "from_utf8", f)
		r.Models["core::str::from_utf8: Ok with the same slice exactly when the bytes are well-formed UTF-8 (uninterpreted predicate), never panics"] = true
		okT := r.ty(ret.VFields[0][0])
		if r.e.branch(r.utfPred(b)) {
			return r.aggregate(ret, 0, -1, []MV{args[0]}, []*MTy{okT}), true
		}
		et := r.ty(ret.VFields[1][0])
		ev := &MAgg{size: et.Size}
		for i := int64(0); i < et.Size; i += 8 {
			ev.ch = append(ev.ch, MChunk{off: i, size: 8, v: r.e.fresh("utf8err", 64)})
		}
		return r.aggregate(ret, 1, -1, []MV{ev}, []*MTy{et}), true
	}
	if in.N == "core::slice::memchr::memchr" && len(args) == 2 {
		if x := r.scalarOf(args[0], 1); x.isConst() && x.c == 0 {
			r.Models["core::slice::memchr::memchr(0, ..): the index of a zero byte, or None when there is none"] = true
			yes, at := r.nulPred(r.bytesOf(args[1], "memchr", f))
			if yes {
				return r.aggregate(ret, 1, -1, []MV{at}, []*MTy{r.ty(ret.VFields[1][0])}), true
			}
			return r.aggregate(ret, 0, -1, nil, nil), true
		}
	}
	if in.Kind == "Intrinsic" || strings.HasPrefix(in.N, "std::intrinsics::") || strings.HasPrefix(in.N, "core::intrinsics::") {
		n := in.Intr
		if n == "" {
			n = shortName(in.N)
			if i := strings.Index(in.N, "::<"); i > 0 {
				n = shortName(in.N[:i])
			}
		}
		if v, ok := r.intrinsic(n, in, args, ret, f); ok {
			return v, true
		}
	}
	return nil, false
}

func (r *RustExec) cstrlen(p *MPtr, f *rframe) MV {
	tb := r.tb
	if p.o == nil {
		r.e.oblige("memory", r.site(f)+" strlen of an invalid pointer", tb.fls)
		panic(pathEnd{"invalid pointer"})
	}
	r.checkAccess(p.o, p.off, tb.I(1), false, f)
	r.flushRead(p.o)
	zero := func(n *T) bool {
		at := tb.Add(p.off, n)
		return r.e.valid(tb.BAnd(tb.Ult(n, tb.Sub(p.o.size, p.off)), tb.Eq(r.e.read(p.o.c, at), tb.Const(8, 0))))
	}
	if zero(tb.I(0)) {
		return tb.I(0)
	}
	for _, q := range r.nul {
		if q.at == nil && zero(q.len) && r.sameRange(q.bytesRef, r.resolve(bytesRef{nil, p.o.c, p.off, q.len})) {
			return q.len
		}
	}
	r.e.unsup("strlen of bytes not known to end in a zero")
	return nil
}

func (r *RustExec) toConst8(v MV) bool {
	t := r.scalarOf(v, 1)
	return t.isConst() && t.c != 0
}

func (r *RustExec) intrinsic(n string, in *MInst, args []MV, ret *MTy, f *rframe) (MV, bool) {
	tb := r.tb
	dynSize := func(slot int64) MV {
		t := r.targ(in, 0)
		if t.K == "dyn" {
			a := args[0].(*MAgg)
			vt := r.toPtr(r.aggRead(a, 8, 8))
			return r.asType(r.readMem(vt.o, tb.I(slot), 8), &MTy{K: "int", Size: 8})
		}
		if t.Unsized || t.K == "slice" || t.K == "str" {
			if slot == 16 {
				return tb.I(max(t.Align, 1))
			}
			es := int64(1)
			if t.K == "slice" {
				es = r.ty(t.Elem).Size
			} else if t.K != "str" {
				r.e.unsup("size_of_val of %s", t.N)
			}
			return tb.Mul(r.scalarOf(r.aggRead(args[0].(*MAgg), 8, 8), 8), tb.I(es))
		}
		if slot == 16 {
			return tb.I(t.Align)
		}
		return tb.I(t.Size)
	}
	count := func(v *T, w int) *T {
		s := tb.Const(32, 0)
		for i := 0; i < w; i++ {
			s = tb.Add(s, tb.Zext(tb.Extract(v, i, i), 32))
		}
		return s
	}
	switch n {
	case "size_of_val":
		return dynSize(8), true
	case "align_of_val", "min_align_of_val":
		return dynSize(16), true
	case "size_of":
		return tb.I(r.targ(in, 0).Size), true
	case "align_of", "min_align_of", "pref_align_of":
		return tb.I(r.targ(in, 0).Align), true
	case "needs_drop":
		return nil, false
	case "black_box":
		return args[0], true
	case "likely", "unlikely", "assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path":
		if n == "likely" || n == "unlikely" {
			return args[0], true
		}
		if n == "assume" {
			r.e.oblige("memory", r.site(f)+" compiler assumption", r.isTrue8(args[0].(*T)))
		}
		return &MAgg{}, true
	case "ctpop":
		v := args[0].(*T)
		return count(v, v.w), true
	case "cttz", "cttz_nonzero", "ctlz", "ctlz_nonzero":
		v := args[0].(*T)
		res := tb.Const(32, uint64(v.w))
		for i := 0; i < v.w; i++ {
			k, val := v.w-1-i, v.w-1-i
			if strings.HasPrefix(n, "ctlz") {
				k, val = i, v.w-1-i
			}
			res = tb.Ite(tb.Eq(tb.Extract(v, k, k), tb.Const(1, 1)), tb.Const(32, uint64(val)), res)
		}
		return res, true
	case "bswap":
		v := args[0].(*T)
		var bs []*T
		for i := v.w/8 - 1; i >= 0; i-- {
			bs = append(bs, tb.Extract(v, 8*i+7, 8*i))
		}
		return r.concat(bs), true
	case "rotate_left", "rotate_right":
		v := args[0].(*T)
		s := tb.And(tb.Zext(r.scalarOf(args[1], 4), v.w), tb.Const(v.w, uint64(v.w-1)))
		k := tb.And(tb.Sub(tb.Const(v.w, uint64(v.w)), s), tb.Const(v.w, uint64(v.w-1)))
		if n == "rotate_right" {
			s, k = k, s
		}
		return tb.Or(tb.Shift(OShl, v, s), tb.Shift(OLshr, v, k)), true
	case "wrapping_add":
		return tb.Add(args[0].(*T), args[1].(*T)), true
	case "wrapping_sub":
		return tb.Sub(args[0].(*T), args[1].(*T)), true
	case "wrapping_mul":
		return tb.Mul(args[0].(*T), args[1].(*T)), true
	case "unchecked_add", "unchecked_sub", "unchecked_mul", "exact_div", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr":
		op := map[string]string{"unchecked_add": "Add", "unchecked_sub": "Sub", "unchecked_mul": "Mul", "exact_div": "Div", "unchecked_div": "Div", "unchecked_rem": "Rem", "unchecked_shl": "Shl", "unchecked_shr": "Shr"}[n]
		return r.binop(f, op, args[0], args[1], r.targ(in, 0), r.targ(in, 0)), true
	case "saturating_add", "saturating_sub":
		t := r.targ(in, 0)
		if t.S {
			r.e.unsup("signed %s", n)
		}
		x, y := args[0].(*T), args[1].(*T)
		if n == "saturating_add" {
			s := tb.Add(x, y)
			return tb.Ite(tb.Ult(s, x), tb.Const(x.w, mask(x.w)), s), true
		}
		return tb.Ite(tb.Ult(x, y), tb.Const(x.w, 0), tb.Sub(x, y)), true
	case "arith_offset", "offset":
		p := r.toPtr(args[0])
		t := r.targ(in, 0)
		if t.K == "ptr" {
			t = r.ty(t.Elem)
		}
		return r.ptrOffset(p, tb.Mul(r.sc(args[1]), tb.I(t.Size))), true
	case "ptr_offset_from_unsigned", "ptr_offset_from":
		a, b := r.toPtr(args[0]), r.toPtr(args[1])
		sz := r.targ(in, 0).Size
		var d *T
		if a.o != nil && a.o == b.o {
			d = tb.Sub(a.off, b.off)
		} else {
			d = tb.Sub(r.addr(a), r.addr(b))
		}
		if sz == 1 {
			return d, true
		}
		return tb.Div(OSdiv, d, tb.I(sz)), true
	case "copy", "copy_nonoverlapping":
		r.copyNonOverlapping(f, args[0], args[1], args[2], r.targ(in, 0))
		return &MAgg{}, true
	case "write_bytes":
		p := r.toPtr(args[0])
		v := args[1].(*T)
		n := tb.Mul(r.sc(args[2]), tb.I(r.targ(in, 0).Size))
		if n.isConst() && n.c == 0 {
			return &MAgg{}, true
		}
		if p.o == nil {
			r.e.oblige("memory", r.site(f)+" write through an invalid pointer", tb.Eq(n, tb.I(0)))
			return &MAgg{}, true
		}
		r.checkAccess(p.o, p.off, n, true, f)
		if v.isConst() && v.c == 0 {
			r.flush(p.o)
			p.o.c = copyC(p.o.c, p.off, &Content{k: CZero}, tb.I(0), n)
			return &MAgg{}, true
		}
		if n.isConst() && n.c <= 4096 {
			for i := int64(0); i < int64(n.c); i++ {
				r.writeMem(p.o, tb.Add(p.off, tb.I(i)), 1, v)
			}
			return &MAgg{}, true
		}
		r.e.unsup("write_bytes of a symbolic length")
	case "compare_bytes":
		n := r.sc(args[2])
		if !n.isConst() || n.c > 256 {
			r.e.unsup("compare_bytes of a symbolic length")
		}
		if n.c == 0 {
			return tb.Const(32, 0), true
		}
		p, q := r.toPtr(args[0]), r.toPtr(args[1])
		r.need(&rplace{o: p.o}, f)
		r.need(&rplace{o: q.o}, f)
		r.checkAccess(p.o, p.off, n, false, f)
		r.checkAccess(q.o, q.off, n, false, f)
		res := tb.Const(32, 0)
		for i := int64(n.c) - 1; i >= 0; i-- {
			a := r.scalarOf(r.readMem(p.o, tb.Add(p.off, tb.I(i)), 1), 1)
			b := r.scalarOf(r.readMem(q.o, tb.Add(q.off, tb.I(i)), 1), 1)
			res = tb.Ite(tb.Eq(a, b), res, tb.Ite(tb.Ult(a, b), tb.Const(32, 0xffffffff), tb.Const(32, 1)))
		}
		return res, true
	case "read_via_copy", "volatile_load", "unaligned_volatile_load":
		p := r.toPtr(args[0])
		return r.loadPlace(&rplace{o: p.o, off: p.off, addr: p.addr, ty: r.targ(in, 0), variant: -1}, f), true
	case "write_via_move", "volatile_store":
		p := r.toPtr(args[0])
		r.storePlace(&rplace{o: p.o, off: p.off, addr: p.addr, ty: r.targ(in, 0), variant: -1}, args[1], f)
		return &MAgg{}, true
	case "discriminant_value":
		p := r.toPtr(args[0])
		return r.readDiscr(&rplace{o: p.o, off: p.off, addr: p.addr, ty: r.targ(in, 0), variant: -1}, ret, f), true
	case "transmute", "transmute_unchecked":
		return r.transmute(args[0], r.targ(in, 0), r.targ(in, 1)), true
	case "is_val_statically_known":
		return tb.Const(8, 0), true
	case "ptr_mask":
		p := r.toPtr(args[0])
		if p.o == nil {
			return &MPtr{addr: tb.And(p.addr, r.sc(args[1]))}, true
		}
		r.e.unsup("ptr_mask")
	case "abort":
		r.panics(f, "abort")
	}
	return nil, false
}

// ---- one harness ----

func (r *RustExec) reset() {
	r.globals = map[int]*MObj{}
	r.fnObjs = map[int]*MObj{}
	r.inputs = nil
	r.limit = nil
	r.utf, r.utfIn, r.nul = nil, nil, nil
	r.live = 0
	r.depth = 0
	r.bump, r.big = 1<<16, 1
}

func newRustExec(p *MProg, o Options, use map[string]bool) *RustExec {
	e := NewEngine(nil, o)
	r := &RustExec{e: e, tb: e.tb, p: p, Ran: map[string]bool{}, Models: map[string]bool{}, Used: map[string]bool{}, contracts: use}
	e.extractFn = r.extract
	return r
}

func (r *RustExec) extract(neg *T) []InputVal {
	tb, e := r.tb, r.e
	var lens, ev []*T
	for _, in := range r.inputs {
		if in.cap != nil {
			lens = append(lens, in.cap)
			ev = append(ev, in.cap)
		}
		if in.len != nil {
			lens = append(lens, in.len)
			ev = append(ev, in.len)
		}
		if in.t != nil {
			ev = append(ev, in.t)
		}
	}
	for _, q := range r.utfIn {
		ev = append(ev, q.v)
	}
	for _, b := range []int64{4, 8, 16, 32, 64, 256, 1024, 4096, 70000, 1 << 22, 1 << 28, 1 << 33, 1 << 40} {
		cs := []*T{neg}
		for _, l := range lens {
			cs = append(cs, tb.Ule(l, tb.I(b)))
		}
		// prefer plain ASCII where the predicate says UTF-8 and a bad first
		// byte where it says otherwise
		for pass := 0; pass < 2; pass++ {
			c2 := cs
			if pass == 0 {
				if len(r.utfIn) == 0 || b > 256 {
					continue
				}
				for _, q := range r.utfIn {
					for i := int64(0); i < min(b, 64); i++ {
						x := e.read(q.c, tb.Add(q.off, tb.I(i)))
						c2 = append(c2, tb.Implies(tb.BAnd(q.v, tb.Ult(tb.I(i), q.n)), tb.Ult(x, tb.Const(8, 128))))
					}
					c2 = append(c2, tb.Implies(tb.BNot(q.v), tb.Eq(e.read(q.c, q.off), tb.Const(8, 0xff))))
				}
			}
			res, ok := e.s.Model(e.path, c2, ev)
			if !ok {
				continue
			}
			for i, t := range ev {
				if t.isConst() {
					continue
				}
				if t.w == 0 {
					c2 = append(c2, tb.Eq(t, tb.Bool(res[i] == 1)))
				} else {
					c2 = append(c2, tb.Eq(t, tb.Const(t.w, res[i])))
				}
			}
			val := map[*T]uint64{}
			for i, t := range ev {
				val[t] = res[i]
			}
			var out []InputVal
			var bev []*T
			var cnt []int
			for _, in := range r.inputs {
				iv := InputVal{Name: in.name, Kind: "scalar"}
				n := 0
				if in.t != nil {
					iv.U = val[in.t]
				} else {
					iv.Kind = "bytes"
					iv.Len = val[in.len]
					if in.cap != nil {
						iv.Cap = val[in.cap]
						iv.Kind = "vec"
					}
					n = int(min(iv.Len, 600))
					for j := 0; j < n; j++ {
						bev = append(bev, tb.App("in."+in.name, tb.I(int64(j))))
					}
				}
				cnt = append(cnt, n)
				out = append(out, iv)
			}
			if br, ok := e.s.Model(e.path, c2, bev); ok {
				k := 0
				for i, n := range cnt {
					d := make([]byte, n)
					for j := range d {
						d[j] = byte(br[k])
						k++
					}
					out[i].Data = d
				}
			}
			return out
		}
	}
	return nil
}

// runRust explores one harness completely.
func runRust(p *MProg, name string, o Options, use map[string]bool) (res *Result) {
	r := newRustExec(p, o, use)
	e := r.e
	defer e.s.Close()
	id, ok := p.Entries[name]
	if !ok {
		return &Result{Harness: name, Unsup: []string{"no such contract"}}
	}
	e.body = func() {
		r.reset()
		in := p.Insts[id]
		r.call(in, nil, nil, nil, nil)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				e.Unsup = append(e.Unsup, fmt.Sprintf("internal error: %v", x))
				if o.Verbose {
					panic(x)
				}
			}
		}()
		e.Run(nil)
	}()
	return &Result{Harness: name, Paths: e.Paths, VCs: e.VCs, Trivial: e.Trivial, Obs: e.Obs, Fails: e.Fails, Covers: e.Covers,
		Unsup: e.Unsup, Inlined: r.Ran, Used: r.Used, Intrins: r.Models, Queries: e.s.Queries + e.s.LiaQueries, Alt: e.s.AltUsed, LiaDone: e.s.LiaUnsat,
		Unknowns: e.s.Unknowns, SolverTime: e.s.Time + e.s.AltTime + e.s.LiaTime, Assumed: e.assumedN, Bounded: e.bounded}
}
