package main

import (
	"fmt"
	"strings"
)

// Symbolic execution of MIR, all paths, one function instance at a time.

type RustExec struct {
	e         *Engine
	tb        *TB
	p         *MProg
	globals   map[int]*MObj
	fnObjs    map[int]*MObj
	inputs    []*rInput
	limit     *T // allocation limit
	utf       []utfQ
	nul       []nulQ
	utfIn     []utfQ
	live      int
	bump      uint64          // addresses of fixed-size objects
	big       uint64          // and of the others
	Ran       map[string]bool // functions executed
	Models    map[string]bool
	Used      map[string]bool // contracts used at calls
	contracts map[string]bool
	ubChecks  bool
	depth     int
}

type rInput struct {
	name string
	bits int
	t    *T
	o    *MObj
	len  *T
	cap  *T
	utf  *T
}

type utfQ struct {
	c   *Content
	off *T
	n   *T
	v   *T
}

type rframe struct {
	in    *MInst
	loc   []*MObj
	visit []int
	line  int
}

type rplace struct {
	o       *MObj
	off     *T
	addr    *T // no object
	ty      *MTy
	meta    MV
	variant int
}

func (r *RustExec) ty(i int) *MTy {
	if i < 0 {
		return nil
	}
	return r.p.Types[i]
}

func (r *RustExec) isScalar(t *MTy) bool {
	switch t.K {
	case "bool", "char", "int", "float", "fnptr":
		return t.Size <= 8 && t.Size > 0
	case "ptr":
		return t.Size == 8
	case "pat":
		return r.isScalar(r.ty(t.Elem))
	}
	return false
}

func (r *RustExec) isPtr(t *MTy) bool {
	return t.K == "ptr" && t.Size == 8 || t.K == "fnptr" || t.K == "pat" && r.isPtr(r.ty(t.Elem))
}

func (r *RustExec) toPtr(v MV) *MPtr {
	switch x := v.(type) {
	case *MPtr:
		return x
	case *T:
		return &MPtr{addr: x}
	case *MAgg:
		return r.toPtr(r.aggRead(x, 0, 8))
	}
	r.e.unsup("pointer from %T", v)
	return nil
}

// typed view of a value just read
func (r *RustExec) asType(v MV, t *MTy) MV {
	if r.isPtr(t) {
		return r.toPtr(v)
	}
	if r.isScalar(t) {
		return r.scalarOf(v, t.Size)
	}
	return v
}

func (r *RustExec) inst() string {
	return ""
}

func (r *RustExec) site(f *rframe) string {
	if f == nil {
		return "harness"
	}
	n := f.in.N
	if len(n) > 90 {
		n = n[:90] + "..."
	}
	return fmt.Sprintf("%s:%d", n, f.line)
}

func (r *RustExec) checkAccess(o *MObj, off, n *T, write bool, f *rframe) {
	if o.dead {
		r.e.oblige("memory", r.site(f)+" access to freed "+o.name, r.tb.fls)
	}
	if write && o.ro {
		r.e.oblige("memory", r.site(f)+" write to read-only "+o.name, r.tb.fls)
	}
	if n.isConst() && n.c == 0 {
		return
	}
	if o.size.isConst() && off.isConst() && n.isConst() {
		if off.c+n.c <= o.size.c && off.c <= o.size.c {
			return
		}
	}
	tb := r.tb
	// off + n <= size without wrapping
	ok := tb.BAnd(tb.Ule(off, o.size), tb.Ule(n, tb.Sub(o.size, off)))
	if ok.isTrue() {
		return
	}
	r.e.oblige("memory", r.site(f)+" bounds of "+o.kind, ok)
}

func (r *RustExec) need(pl *rplace, f *rframe) {
	if pl.o == nil {
		r.e.oblige("memory", r.site(f)+" invalid pointer dereferenced", r.tb.fls)
		panic(pathEnd{"invalid pointer"})
	}
}

func (r *RustExec) loadPlace(pl *rplace, f *rframe) MV {
	t := pl.ty
	if t.Size == 0 && !t.Unsized {
		return &MAgg{}
	}
	r.need(pl, f)
	n := r.tb.I(t.Size)
	r.checkAccess(pl.o, pl.off, n, false, f)
	if r.isScalar(t) {
		return r.asType(r.readMem(pl.o, pl.off, t.Size), t)
	}
	return r.readAgg(pl.o, pl.off, t.Size)
}

func (r *RustExec) storePlace(pl *rplace, v MV, f *rframe) {
	t := pl.ty
	if t.Size == 0 {
		return
	}
	r.need(pl, f)
	r.checkAccess(pl.o, pl.off, r.tb.I(t.Size), true, f)
	r.writeMem(pl.o, pl.off, t.Size, v)
}

func (r *RustExec) fieldOff(t *MTy, variant int, i int64) int64 {
	if t.VOffs != nil {
		if variant < 0 {
			r.e.unsup("field of an enum without a variant")
		}
		return t.VOffs[variant][i]
	}
	if int(i) < len(t.Offs) {
		return t.Offs[i]
	}
	r.e.unsup("field %d of %s", i, t.N)
	return 0
}

func (r *RustExec) place(f *rframe, p MPlace) *rplace {
	pl := &rplace{o: f.loc[p.local], off: r.tb.I(0), ty: r.ty(f.in.Locals[p.local]), variant: -1}
	for _, j := range p.proj {
		switch j.k {
		case '*':
			t := pl.ty
			if t.K == "pat" {
				t = r.ty(t.Elem)
			}
			if t.K != "ptr" {
				r.e.unsup("dereference of %s", t.N)
			}
			v := r.loadPlace(pl, f)
			var ptr *MPtr
			var meta MV
			if a, ok := v.(*MAgg); ok && t.Size == 16 {
				ptr = r.toPtr(r.aggRead(a, 0, 8))
				meta = r.aggRead(a, 8, 8)
			} else {
				ptr = r.toPtr(v)
			}
			pl = &rplace{o: ptr.o, off: ptr.off, addr: ptr.addr, ty: r.ty(t.Elem), meta: meta, variant: -1}
			if ptr.o == nil {
				pl.off = nil
			}
		case 'f':
			o := r.fieldOff(pl.ty, pl.variant, j.a)
			nt := r.ty(j.ty)
			n := &rplace{o: pl.o, ty: nt, variant: -1}
			if nt.Unsized || nt.K == "dyn" {
				n.meta = pl.meta
				if nt.K == "dyn" && o != 0 {
					r.e.unsup("field of dynamic type at an offset")
				}
			}
			if pl.o == nil {
				n.addr = r.tb.Add(pl.addr, r.tb.I(o))
			} else {
				n.off = r.tb.Add(pl.off, r.tb.I(o))
			}
			pl = n
		case 'd':
			c := *pl
			c.variant = int(j.a)
			pl = &c
		case 'o':
			c := *pl
			c.ty = r.ty(j.ty)
			pl = &c
		case 'i', 'c':
			et := r.ty(pl.ty.Elem)
			var idx *T
			if j.k == 'i' {
				idx = r.readMem(f.loc[j.a], r.tb.I(0), 8).(*T)
			} else {
				idx = r.tb.I(j.a)
				if j.fromEnd {
					idx = r.tb.Sub(r.lenOf(pl), r.tb.I(j.a))
				}
			}
			pl = r.shift(pl, r.tb.Mul(idx, r.tb.I(et.Size)), et)
		case 's':
			et := r.ty(pl.ty.Elem)
			if pl.ty.K == "array" {
				n := r.shift(pl, r.tb.I(j.a*et.Size), pl.ty)
				to := j.b
				if j.fromEnd {
					to = pl.ty.Len - j.b
				}
				at := *pl.ty
				at.Len = to - j.a
				at.Size = at.Len * et.Size
				n.ty = &at
				pl = n
			} else {
				l := r.lenOf(pl)
				n := r.shift(pl, r.tb.I(j.a*et.Size), pl.ty)
				if j.fromEnd {
					n.meta = r.tb.Sub(l, r.tb.I(j.a+j.b))
				} else {
					n.meta = r.tb.I(j.b - j.a)
				}
				pl = n
			}
		}
	}
	return pl
}

func (r *RustExec) shift(pl *rplace, d *T, t *MTy) *rplace {
	n := &rplace{o: pl.o, ty: t, variant: -1}
	if pl.o == nil {
		n.addr = r.tb.Add(pl.addr, d)
	} else {
		n.off = r.tb.Add(pl.off, d)
	}
	return n
}

func (r *RustExec) lenOf(pl *rplace) *T {
	if pl.ty.K == "array" {
		return r.tb.I(pl.ty.Len)
	}
	if pl.meta == nil {
		r.e.unsup("length of %s", pl.ty.N)
	}
	return r.scalarOf(pl.meta, 8)
}

func (r *RustExec) ptrTo(pl *rplace) MV {
	var p *MPtr
	if pl.o == nil {
		p = &MPtr{addr: pl.addr}
	} else {
		p = &MPtr{o: pl.o, off: pl.off}
	}
	if pl.ty.Unsized || pl.ty.K == "dyn" || pl.ty.K == "slice" || pl.ty.K == "str" {
		if pl.meta == nil {
			r.e.unsup("wide pointer without metadata to %s", pl.ty.N)
		}
		return wide(p, pl.meta)
	}
	return p
}

func wide(p *MPtr, meta MV) *MAgg {
	return &MAgg{size: 16, ch: []MChunk{{off: 0, size: 8, v: p}, {off: 8, size: 8, v: meta}}}
}

// ---- constants ----

func (r *RustExec) global(id int) *MObj {
	if o, ok := r.globals[id]; ok {
		return o
	}
	a := r.p.Allocs[id]
	if a.Fn != nil {
		o := r.fnObj(*a.Fn)
		r.globals[id] = o
		return o
	}
	a.decode()
	n := int64(len(a.bytes))
	o := r.newObj(fmt.Sprintf("static%d", id), "static", r.tb.I(n), a.Align, &Content{k: CZero})
	if a.VTable != "" {
		o.kind, o.vt = "vtable", a.VTable
	}
	r.globals[id] = o
	if a.Opaque || a.Extern {
		o.kind = "opaque"
		o.size = r.tb.I(1 << 20)
		return o
	}
	r.fill(o, a)
	o.ro = !a.Mut
	return o
}

func (r *RustExec) fill(o *MObj, a *MAlloc) {
	n := int64(len(a.bytes))
	isPtr := map[int64]int64{}
	for _, p := range a.P {
		isPtr[p[0]] = p[1]
	}
	if len(a.P) == 0 && n > 16 {
		o.c = &Content{k: CLit, lit: string(a.bytes)}
		return
	}
	for i := int64(0); i < n; {
		if id, ok := isPtr[i]; ok {
			var off uint64
			for k := int64(7); k >= 0; k-- {
				off = off<<8 | uint64(a.bytes[i+k])
			}
			o.ch = append(o.ch, MChunk{off: i, size: 8, v: &MPtr{o: r.global(int(id)), off: r.tb.Const(64, off)}})
			i += 8
			continue
		}
		if a.init[i] {
			o.ch = append(o.ch, MChunk{off: i, size: 1, v: r.tb.Const(8, uint64(a.bytes[i]))})
		}
		i++
	}
}

func (r *RustExec) fnObj(i int) *MObj {
	if o, ok := r.fnObjs[i]; ok {
		return o
	}
	o := r.newObj("fn "+r.p.Insts[i].N, "fn", r.tb.I(1), 1, &Content{k: CZero})
	o.inst = i
	o.ro = true
	r.fnObjs[i] = o
	return o
}

func (r *RustExec) constant(op *MOp) MV {
	t := r.ty(op.ty)
	if op.al == nil {
		return &MAgg{}
	}
	op.al.decode()
	if r.isScalar(t) && len(op.al.P) == 0 {
		var v uint64
		for k := len(op.al.bytes) - 1; k >= 0; k-- {
			v = v<<8 | uint64(op.al.bytes[k])
		}
		c := r.tb.Const(int(t.Size)*8, v)
		return r.asType(c, t)
	}
	o := r.newObj("const", "const", r.tb.I(int64(len(op.al.bytes))), 1, &Content{k: CZero})
	r.fill(o, op.al)
	if t.Size == 0 {
		return &MAgg{}
	}
	if r.isScalar(t) {
		return r.asType(r.readMem(o, r.tb.I(0), t.Size), t)
	}
	return r.readAgg(o, r.tb.I(0), t.Size)
}

func (r *RustExec) operand(f *rframe, op *MOp) MV {
	switch op.k {
	case 'p':
		return r.loadPlace(r.place(f, op.p), f)
	case 'k':
		return r.constant(op)
	case 'r':
		if op.s == "UbChecks" && r.ubChecks {
			return r.tb.Const(8, 1)
		}
		return r.tb.Const(8, 0)
	}
	r.e.unsup("operand %s", op.s)
	return nil
}

func (r *RustExec) bool8(c *T) *T {
	return r.tb.Ite(c, r.tb.Const(8, 1), r.tb.Const(8, 0))
}

func (r *RustExec) isTrue8(t *T) *T { return r.tb.BNot(r.tb.Eq(t, r.tb.Const(t.w, 0))) }

// ---- discriminants ----

func (r *RustExec) readDiscr(pl *rplace, dt *MTy, f *rframe) *T {
	t := pl.ty
	w := int(dt.Size) * 8
	if t.K != "enum" {
		return r.tb.Const(w, 0)
	}
	if t.Tag == nil {
		if t.Single == nil {
			r.e.unsup("discriminant of an empty enum")
		}
		if len(t.discrs) == 0 {
			return r.tb.Const(w, 0)
		}
		return r.tb.Const(w, t.discrs[*t.Single])
	}
	r.need(pl, f)
	n := int64(t.Tag.W / 8)
	r.checkAccess(pl.o, r.tb.Add(pl.off, r.tb.I(t.Tag.Off)), r.tb.I(n), false, f)
	tag := r.scalarOf(r.readMem(pl.o, r.tb.Add(pl.off, r.tb.I(t.Tag.Off)), n), n)
	if !t.Tag.Niche {
		if t.discrs != nil && len(t.discrs) > 0 {
			// the discriminant type may be wider than the tag
			if w > tag.w {
				neg := false
				for _, d := range t.discrs {
					if d > mask(tag.w) {
						neg = true
					}
				}
				if neg {
					return r.tb.Sext(tag, w)
				}
			}
		}
		return r.tb.Zext(tag, w)
	}
	ns := uint64(jnum(t.Tag.NStart))
	cnt := t.Tag.End - t.Tag.Start
	rel := r.tb.Sub(tag, r.tb.Const(tag.w, ns))
	in := r.tb.Ule(rel, r.tb.Const(tag.w, uint64(cnt)))
	var dv *T
	if cnt == 0 {
		dv = r.tb.Const(w, t.discrs[t.Tag.Start])
	} else {
		// discriminants of niche enums are the variant indices
		for i := t.Tag.Start; i <= t.Tag.End; i++ {
			if t.discrs[i]-t.discrs[t.Tag.Start] != uint64(i-t.Tag.Start) {
				r.e.unsup("niche enum with explicit discriminants")
			}
		}
		dv = r.tb.Add(r.tb.Zext(rel, w), r.tb.Const(w, t.discrs[t.Tag.Start]))
	}
	return r.tb.Ite(in, dv, r.tb.Const(w, t.discrs[t.Tag.Untagged]))
}

func (r *RustExec) tagChunk(t *MTy, variant int) (MChunk, bool) {
	if t.Tag == nil {
		return MChunk{}, false
	}
	n := int64(t.Tag.W / 8)
	if !t.Tag.Niche {
		return MChunk{off: t.Tag.Off, size: n, v: r.tb.Const(t.Tag.W, t.discrs[variant])}, true
	}
	if variant == t.Tag.Untagged {
		return MChunk{}, false
	}
	ns := uint64(jnum(t.Tag.NStart))
	return MChunk{off: t.Tag.Off, size: n, v: r.tb.Const(t.Tag.W, ns+uint64(variant-t.Tag.Start))}, true
}

func (r *RustExec) aggregate(t *MTy, variant int, active int64, vals []MV, tys []*MTy) MV {
	a := &MAgg{size: t.Size}
	if t.Size == 0 {
		return a
	}
	put := func(off, size int64, v MV) {
		if size == 0 {
			return
		}
		if g, ok := v.(*MAgg); ok {
			for _, c := range g.ch {
				c.off += off
				a.ch = chunkInsert(a.ch, c)
			}
			return
		}
		a.ch = chunkInsert(a.ch, MChunk{off: off, size: size, v: v})
	}
	for i, v := range vals {
		k := int64(i)
		if active >= 0 {
			k = active
		}
		var off int64
		if t.VOffs != nil {
			off = t.VOffs[variant][k]
		} else if t.K == "union" {
			off = 0
		} else {
			off = t.Offs[k]
		}
		put(off, tys[i].Size, v)
	}
	if t.K == "enum" {
		if c, ok := r.tagChunk(t, variant); ok {
			a.ch = r.chunkClear(a.ch, c.off, c.size)
			a.ch = chunkInsert(a.ch, c)
		}
	}
	if r.isScalar(t) {
		return r.asType(a, t)
	}
	return a
}

func (r *RustExec) opTy(f *rframe, op *MOp) *MTy {
	switch op.k {
	case 'p':
		// type along the projections
		t := r.ty(f.in.Locals[op.p.local])
		v := -1
		_ = v
		for _, j := range op.p.proj {
			switch j.k {
			case '*':
				if t.K == "pat" {
					t = r.ty(t.Elem)
				}
				t = r.ty(t.Elem)
			case 'f', 'o':
				t = r.ty(j.ty)
			case 'i', 'c':
				t = r.ty(t.Elem)
			}
		}
		return t
	case 'k':
		return r.ty(op.ty)
	}
	return &MTy{K: "bool", Size: 1, N: "bool"}
}

// ---- rvalues ----

func (r *RustExec) rvalue(f *rframe, rv *MRv, dst *MTy) MV {
	tb := r.tb
	switch rv.k {
	case "use":
		return r.operand(f, rv.a)
	case "ref":
		return r.ptrTo(r.place(f, rv.p))
	case "len":
		return r.lenOf(r.place(f, rv.p))
	case "discr":
		return r.readDiscr(r.place(f, rv.p), dst, f)
	case "agg":
		var vals []MV
		var tys []*MTy
		for i := range rv.ops {
			vals = append(vals, r.operand(f, &rv.ops[i]))
			tys = append(tys, r.opTy(f, &rv.ops[i]))
		}
		return r.aggregate(dst, int(rv.i), rv.j, vals, tys)
	case "arr":
		a := &MAgg{size: dst.Size}
		es := r.ty(dst.Elem).Size
		for i := range rv.ops {
			v := r.operand(f, &rv.ops[i])
			if es == 0 {
				continue
			}
			if g, ok := v.(*MAgg); ok {
				for _, c := range g.ch {
					c.off += int64(i) * es
					a.ch = append(a.ch, c)
				}
			} else {
				a.ch = append(a.ch, MChunk{off: int64(i) * es, size: es, v: v})
			}
		}
		return a
	case "repeat":
		v := r.operand(f, rv.a)
		es := r.ty(dst.Elem).Size
		a := &MAgg{size: dst.Size}
		if dst.Size == 0 {
			return a
		}
		if t, ok := v.(*T); ok && dst.Size > 64 && t.isConst() && t.c == 0 {
			a.ch = []MChunk{{off: 0, size: dst.Size, c: &Content{k: CZero}, coff: tb.I(0)}}
			return a
		}
		if rv.i > 4096 {
			r.e.unsup("large array")
		}
		for i := int64(0); i < rv.i; i++ {
			if g, ok := v.(*MAgg); ok {
				for _, c := range g.ch {
					c.off += i * es
					a.ch = append(a.ch, c)
				}
			} else {
				a.ch = append(a.ch, MChunk{off: i * es, size: es, v: v})
			}
		}
		return a
	case "mkptr":
		p := r.toPtr(r.operand(f, &rv.ops[0]))
		m := r.operand(f, &rv.ops[1])
		if a, ok := m.(*MAgg); ok && len(a.ch) == 0 {
			return p
		}
		return wide(p, m)
	case "un":
		v := r.operand(f, rv.a)
		switch rv.op {
		case "Not":
			t := v.(*T)
			if r.ty(rv.t1).K == "bool" {
				return r.bool8(tb.Eq(t, tb.Const(t.w, 0)))
			}
			return tb.Not(t)
		case "Neg":
			if r.ty(rv.t1).K == "float" {
				t := v.(*T)
				return tb.Xor(t, tb.Const(t.w, 1<<uint(t.w-1)))
			}
			return tb.Neg(v.(*T))
		case "PtrMetadata":
			if a, ok := v.(*MAgg); ok && a.size == 16 {
				return r.aggRead(a, 8, 8)
			}
			return &MAgg{}
		}
	case "bin":
		return r.binop(f, rv.op, r.operand(f, rv.a), r.operand(f, rv.b), r.ty(rv.t1), r.ty(rv.t2))
	case "cbin":
		x, y := r.operand(f, rv.a).(*T), r.operand(f, rv.b).(*T)
		res, ov := r.overflowing(rv.op, x, y, r.ty(rv.t1).S)
		a := &MAgg{size: dst.Size}
		a.ch = chunkInsert(a.ch, MChunk{off: dst.Offs[0], size: int64(x.w / 8), v: res})
		a.ch = chunkInsert(a.ch, MChunk{off: dst.Offs[1], size: 1, v: r.bool8(ov)})
		return a
	case "cast":
		return r.cast(f, rv, dst)
	}
	r.e.unsup("rvalue %s %s", rv.k, rv.op)
	return nil
}

// overflowing computes op and whether it overflowed.
func (r *RustExec) overflowing(op string, x, y *T, signed bool) (*T, *T) {
	tb := r.tb
	w := x.w
	switch strings.TrimSuffix(op, "WithOverflow") {
	case "Add":
		s := tb.Add(x, y)
		if !signed {
			return s, tb.Ult(s, x)
		}
		z := tb.Const(w, 0)
		return s, tb.BOr(tb.BAnd(tb.Sle(z, x), tb.Sle(z, y), tb.Slt(s, z)), tb.BAnd(tb.Slt(x, z), tb.Slt(y, z), tb.Sle(z, s)))
	case "Sub":
		s := tb.Sub(x, y)
		if !signed {
			return s, tb.Ult(x, y)
		}
		z := tb.Const(w, 0)
		return s, tb.BOr(tb.BAnd(tb.Sle(z, x), tb.Slt(y, z), tb.Slt(s, z)), tb.BAnd(tb.Slt(x, z), tb.Sle(z, y), tb.Sle(z, s)))
	case "Mul":
		s := tb.Mul(x, y)
		if x.isConst() {
			x, y = y, x
		}
		if !signed && y.isConst() {
			if y.c == 0 {
				return s, tb.fls
			}
			return s, tb.Ult(tb.Const(w, mask(w)/y.c), x)
		}
		if w <= 32 {
			var a, b *T
			if signed {
				a, b = tb.Sext(x, 2*w), tb.Sext(y, 2*w)
				return s, tb.BNot(tb.Eq(tb.Mul(a, b), tb.Sext(s, 2*w)))
			}
			a, b = tb.Zext(x, 2*w), tb.Zext(y, 2*w)
			return s, tb.BNot(tb.Eq(tb.Mul(a, b), tb.Zext(s, 2*w)))
		}
	case "Shl", "Shr":
		o := OShl
		if op[:3] == "Shr" {
			o = OLshr
			if signed {
				o = OAshr
			}
		}
		ov := tb.BNot(tb.Ult(y, tb.Const(y.w, uint64(w))))
		return tb.Shift(o, x, tb.Zext(y, w)), ov
	}
	r.e.unsup("checked %s", op)
	return nil, nil
}

func (r *RustExec) binop(f *rframe, op string, a, b MV, ta, tbt *MTy) MV {
	tb := r.tb
	if op == "Offset" {
		return r.ptrOffset(r.toPtr(a), tb.Mul(r.scalarOf(b, 8), tb.I(r.ty(ta.Elem).Size)))
	}
	if ta.K == "ptr" || ta.K == "fnptr" {
		var x, y *T
		if ta.Size == 16 {
			pa, pb := a.(*MAgg), b.(*MAgg)
			x, y = r.scalarOf(r.aggRead(pa, 0, 8), 8), r.scalarOf(r.aggRead(pb, 0, 8), 8)
			if op == "Eq" || op == "Ne" {
				m, n := r.scalarOf(r.aggRead(pa, 8, 8), 8), r.scalarOf(r.aggRead(pb, 8, 8), 8)
				q := tb.BAnd(tb.Eq(x, y), tb.Eq(m, n))
				if op == "Ne" {
					q = tb.BNot(q)
				}
				return r.bool8(q)
			}
		} else {
			x, y = r.scalarOf(a, 8), r.scalarOf(b, 8)
		}
		return r.cmp(op, x, y, false)
	}
	x, ok1 := a.(*T)
	y, ok2 := b.(*T)
	if !ok1 || !ok2 {
		if ta.Size == 0 && (op == "Eq" || op == "Ne") {
			return r.bool8(tb.Bool(op == "Eq"))
		}
		x, y = r.scalarOf(a, ta.Size), r.scalarOf(b, tbt.Size)
	}
	if ta.K == "float" {
		return r.floatOp(op, x, y)
	}
	s := ta.S
	switch op {
	case "Add", "AddUnchecked":
		return tb.Add(x, y)
	case "Sub", "SubUnchecked":
		return tb.Sub(x, y)
	case "Mul", "MulUnchecked":
		return tb.Mul(x, y)
	case "Div":
		if s {
			return tb.Div(OSdiv, x, y)
		}
		return tb.Div(OUdiv, x, y)
	case "Rem":
		if s {
			return tb.Div(OSrem, x, y)
		}
		return tb.Div(OUrem, x, y)
	case "BitAnd":
		return r.boolNorm(ta, tb.And(x, y), func(p, q *T) *T { return tb.BAnd(p, q) }, x, y)
	case "BitOr":
		return r.boolNorm(ta, tb.Or(x, y), func(p, q *T) *T { return tb.BOr(p, q) }, x, y)
	case "BitXor":
		return r.boolNorm(ta, tb.Xor(x, y), func(p, q *T) *T { return tb.BNot(tb.Eq(p, q)) }, x, y)
	case "Shl", "ShlUnchecked":
		return tb.Shift(OShl, x, tb.And(tb.Zext(y, x.w), tb.Const(x.w, uint64(x.w-1))))
	case "Shr", "ShrUnchecked":
		o := OLshr
		if s {
			o = OAshr
		}
		return tb.Shift(o, x, tb.And(tb.Zext(y, x.w), tb.Const(x.w, uint64(x.w-1))))
	}
	return r.cmp(op, x, y, s)
}

func (r *RustExec) boolNorm(t *MTy, plain *T, f func(p, q *T) *T, x, y *T) *T {
	if t.K != "bool" {
		return plain
	}
	return r.bool8(f(r.isTrue8(x), r.isTrue8(y)))
}

func (r *RustExec) cmp(op string, x, y *T, s bool) MV {
	tb := r.tb
	lt, le := tb.Ult, tb.Ule
	if s {
		lt, le = tb.Slt, tb.Sle
	}
	switch op {
	case "Eq":
		return r.bool8(tb.Eq(x, y))
	case "Ne":
		return r.bool8(tb.BNot(tb.Eq(x, y)))
	case "Lt":
		return r.bool8(lt(x, y))
	case "Le":
		return r.bool8(le(x, y))
	case "Gt":
		return r.bool8(lt(y, x))
	case "Ge":
		return r.bool8(le(y, x))
	case "Cmp":
		return tb.Ite(lt(x, y), tb.Const(8, 0xff), tb.Ite(tb.Eq(x, y), tb.Const(8, 0), tb.Const(8, 1)))
	}
	r.e.unsup("operation %s", op)
	return nil
}

// floats are compared through their bit patterns; arithmetic is not supported
func (r *RustExec) floatOp(op string, x, y *T) MV {
	tb := r.tb
	w := x.w
	nan := func(t *T) *T {
		m := tb.Const(w, mask(w-1))
		exp := uint64(0x7f800000)
		if w == 64 {
			exp = 0x7ff0000000000000
		}
		return tb.Ult(tb.Const(w, exp), tb.And(t, m))
	}
	zero := func(t *T) *T { return tb.Eq(tb.And(t, tb.Const(w, mask(w-1))), tb.Const(w, 0)) }
	eq := tb.BAnd(tb.BNot(nan(x)), tb.BNot(nan(y)), tb.BOr(tb.Eq(x, y), tb.BAnd(zero(x), zero(y))))
	switch op {
	case "Eq":
		return r.bool8(eq)
	case "Ne":
		return r.bool8(tb.BNot(eq))
	}
	r.e.unsup("float operation %s", op)
	return nil
}

func (r *RustExec) ptrOffset(p *MPtr, d *T) *MPtr {
	if p.o == nil {
		return &MPtr{addr: r.tb.Add(p.addr, d)}
	}
	return &MPtr{o: p.o, off: r.tb.Add(p.off, d)}
}

func (r *RustExec) cast(f *rframe, rv *MRv, dst *MTy) MV {
	tb := r.tb
	v := r.operand(f, rv.a)
	from := r.ty(rv.t1)
	to := r.ty(rv.t2)
	switch rv.op {
	case "IntToInt":
		t := r.scalarOf(v, from.Size)
		w := int(to.Size) * 8
		if w > t.w && from.S {
			return tb.Sext(t, w)
		}
		return tb.Zext(t, w)
	case "PtrToPtr", "FnPtrToPtr":
		if a, ok := v.(*MAgg); ok && a.size == 16 && to.Size == 8 {
			return r.toPtr(r.aggRead(a, 0, 8))
		}
		return v
	case "PointerExposeAddress":
		if a, ok := v.(*MAgg); ok {
			return r.scalarOf(r.aggRead(a, 0, 8), 8)
		}
		return r.scalarOf(v, 8)
	case "PointerWithExposedProvenance":
		return &MPtr{addr: r.scalarOf(v, 8)}
	case "Transmute", "Subtype", "BoxDerefTransmute":
		return r.transmute(v, from, to)
	case "Reify":
		if from.Inst == nil {
			r.e.unsup("function pointer to %s", from.N)
		}
		return &MPtr{o: r.fnObj(*from.Inst), off: tb.I(0)}
	case "ClosureFn":
		if rv.exI < 0 {
			r.e.unsup("closure as a function pointer")
		}
		return &MPtr{o: r.fnObj(rv.exI), off: tb.I(0)}
	case "Unsize":
		if rv.ex == nil {
			r.e.unsup("unsizing %s to %s", from.N, to.N)
		}
		if _, ok := rv.ex["keep"]; ok {
			return v
		}
		p := r.toPtr(v)
		if l, ok := rv.ex["len"]; ok {
			return r.rewide(v, p, tb.I(jnum(l)), to)
		}
		vt := r.global(int(jnum(rv.ex["vt"])))
		vt.kind = "vtable"
		return r.rewide(v, p, &MPtr{o: vt, off: tb.I(0)}, to)
	case "FloatToFloat", "FloatToInt", "IntToFloat":
		r.e.unsup("float conversion")
	}
	r.e.unsup("cast %s", rv.op)
	return nil
}

func (r *RustExec) rewide(v MV, p *MPtr, meta MV, to *MTy) MV {
	if to.Size != 16 {
		r.e.unsup("unsizing to %s", to.N)
	}
	return wide(p, meta)
}

func (r *RustExec) transmute(v MV, from, to *MTy) MV {
	if to.Size == 0 {
		return &MAgg{}
	}
	if r.isScalar(to) {
		return r.asType(v, to)
	}
	if _, ok := v.(*MAgg); ok {
		return v
	}
	return &MAgg{size: to.Size, ch: []MChunk{{off: 0, size: to.Size, v: v}}}
}

// ---- calls ----

func (r *RustExec) frameOf(in *MInst) *rframe {
	f := &rframe{in: in, visit: make([]int, len(in.Blocks))}
	for i, t := range in.Locals {
		ty := r.ty(t)
		f.loc = append(f.loc, r.newObj(fmt.Sprintf("%s._%d", shortName(in.N), i), "stack", r.tb.I(ty.Size), ty.Align, nil))
	}
	return f
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "::"); i >= 0 {
		return n[i+2:]
	}
	return n
}

func (o *MObj) content(r *RustExec) *Content {
	if o.c == nil {
		o.c = r.e.baseContent("stk")
	}
	return o.c
}

func (r *RustExec) call(in *MInst, args []MV, atys []*MTy, ret *MTy, from *rframe) MV {
	if v, ok := r.intercept(in, args, atys, ret, from); ok {
		return v
	}
	if in.Vidx >= 0 {
		return r.callVirtual(in, args, atys, ret, from)
	}
	if !in.hasBody {
		r.e.unsup("no body for %s", in.N)
	}
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 120 {
		r.e.unsup("call depth")
	}
	r.Ran[in.N] = true
	r.e.callstk = append(r.e.callstk, shortName(in.N))
	defer func() { r.e.callstk = r.e.callstk[:len(r.e.callstk)-1] }()
	f := r.frameOf(in)
	if len(args) != in.Args {
		// rust-call: the last argument is a tuple of the rest
		if len(args) == 0 {
			r.e.unsup("arguments of %s", in.N)
		}
		last := len(args) - 1
		tt := atys[last]
		if tt.K != "tuple" || last+len(tt.Fields) != in.Args {
			r.e.unsup("arguments of %s", in.N)
		}
		tup := args[last]
		args = append([]MV{}, args[:last]...)
		for i, ft := range tt.Fields {
			t := r.ty(ft)
			if t.Size == 0 {
				args = append(args, &MAgg{})
				continue
			}
			args = append(args, r.part(tup, tt.Offs[i], t))
		}
	}
	for i, a := range args {
		t := r.ty(in.Locals[i+1])
		if t.Size > 0 {
			r.writeMem(f.loc[i+1], r.tb.I(0), t.Size, a)
		}
	}
	r.exec(f)
	rt := r.ty(in.Locals[0])
	if rt.Size == 0 {
		return &MAgg{}
	}
	return r.loadPlace(&rplace{o: f.loc[0], off: r.tb.I(0), ty: rt, variant: -1}, f)
}

// part reads a typed component out of a value.
func (r *RustExec) part(v MV, off int64, t *MTy) MV {
	a, ok := v.(*MAgg)
	if !ok {
		return r.asType(v, t)
	}
	if r.isScalar(t) {
		return r.asType(r.aggRead(a, off, t.Size), t)
	}
	n := &MAgg{size: t.Size}
	for _, c := range r.chunkRange(a.ch, off, t.Size) {
		c.off -= off
		n.ch = append(n.ch, c)
	}
	return n
}

func (r *RustExec) callVirtual(in *MInst, args []MV, atys []*MTy, ret *MTy, from *rframe) MV {
	if len(args) == 0 {
		r.e.unsup("virtual call without receiver")
	}
	a, ok := args[0].(*MAgg)
	if !ok || a.size < 16 {
		r.e.unsup("virtual receiver")
	}
	vt := r.toPtr(r.aggRead(a, 8, 8))
	if vt.o == nil || vt.o.kind != "vtable" || !vt.off.isConst() {
		r.e.unsup("virtual call through an unknown vtable (%s)", in.N)
	}
	fp := r.toPtr(r.readMem(vt.o, r.tb.I(int64(in.Vidx)*8), 8))
	if fp.o == nil || fp.o.inst < 0 {
		r.e.unsup("virtual call to an unknown function")
	}
	args = append([]MV{}, args...)
	args[0] = r.toPtr(r.aggRead(a, 0, 8))
	atys = append([]*MTy{}, atys...)
	callee := r.p.Insts[fp.o.inst]
	if callee.hasBody && len(callee.Locals) > 1 {
		atys[0] = r.ty(callee.Locals[1])
	}
	return r.call(callee, args, atys, ret, from)
}

func (r *RustExec) panics(f *rframe, what string) {
	r.e.oblige("panic", r.site(f)+" "+what, r.tb.fls)
	panic(pathEnd{"panic"})
}

func (r *RustExec) exec(f *rframe) {
	bb := 0
	for {
		f.visit[bb]++
		if f.visit[bb] > r.e.opt.LoopBound {
			r.e.unsup("loop bound in %s", f.in.N)
		}
		r.e.steps++
		if r.e.steps > r.e.opt.MaxSteps {
			r.e.unsup("step limit")
		}
		if r.e.steps%256 == 0 {
			r.e.checkTime()
		}
		b := &f.in.Blocks[bb]
		for i := range b.s {
			r.stmt(f, &b.s[i])
		}
		t := &b.t
		switch t.k {
		case "goto":
			bb = t.target
		case "ret":
			return
		case "unreach":
			r.e.oblige("memory", r.site(f)+" unreachable code reached", r.tb.fls)
			panic(pathEnd{"unreachable"})
		case "sw":
			v := r.operand(f, t.op)
			x := r.scalarOf(v, r.opTy(f, t.op).Size)
			next := -1
			for i, val := range t.vals {
				c := r.tb.Eq(x, r.tb.Const(x.w, val))
				if r.e.branch(c) {
					next = t.tgts[i]
					break
				}
			}
			if next < 0 {
				next = t.target
			}
			bb = next
		case "assert":
			c := r.isTrue8(r.operand(f, t.op).(*T))
			if !t.exp {
				c = r.tb.BNot(c)
			}
			f.line = t.line
			r.e.oblige("panic", r.site(f)+" "+t.msg, c)
			bb = t.target
		case "drop":
			f.line = t.line
			r.drop(f, t)
			bb = t.target
		case "call":
			f.line = t.line
			var args []MV
			var atys []*MTy
			for i := range t.args {
				args = append(args, r.operand(f, &t.args[i]))
				atys = append(atys, r.ty(t.atys[i]))
			}
			var in *MInst
			switch t.fn {
			case -2:
				bb = t.target
				continue
			case -3:
				r.e.unsup("unresolved call %s", t.msg)
			case -1:
				p := r.toPtr(r.operand(f, t.op))
				if p.o == nil || p.o.inst < 0 {
					r.e.unsup("call through an unknown function pointer")
				}
				in = r.p.Insts[p.o.inst]
			default:
				in = r.p.Insts[t.fn]
			}
			dst := r.place(f, t.p)
			if t.target < 0 {
				r.diverge(in, f)
			}
			v := r.call(in, args, atys, dst.ty, f)
			if dst.ty.Size > 0 {
				r.storePlace(dst, v, f)
			}
			bb = t.target
		default:
			r.e.unsup("terminator %s in %s", t.k, f.in.N)
		}
	}
}

func (r *RustExec) diverge(in *MInst, f *rframe) {
	if strings.Contains(in.N, "process::abort") || in.Intr == "abort" {
		r.panics(f, "abort")
	}
	r.panics(f, "panic via "+shortName(in.N))
}

func (r *RustExec) stmt(f *rframe, s *MStmt) {
	switch s.k {
	case "=":
		pl := r.place(f, s.p)
		v := r.rvalue(f, s.rv, pl.ty)
		r.storePlace(pl, v, f)
	case "sd":
		pl := r.place(f, s.p)
		if c, ok := r.tagChunk(pl.ty, int(s.i)); ok {
			r.need(pl, f)
			r.writeMem(pl.o, r.tb.Add(pl.off, r.tb.I(c.off)), c.size, c.v)
		}
	case "live":
		o := f.loc[s.i]
		o.ch, o.c, o.bytes = nil, nil, false
	case "assume":
		c := r.isTrue8(r.operand(f, s.a[0]).(*T))
		if !c.isTrue() {
			r.e.oblige("memory", r.site(f)+" compiler assumption", c)
		}
	case "cno":
		r.copyNonOverlapping(f, r.operand(f, s.a[0]), r.operand(f, s.a[1]), r.operand(f, s.a[2]), r.ty(s.ty))
	}
}

func (r *RustExec) copyNonOverlapping(f *rframe, src, dst, n MV, t *MTy) {
	cnt := r.tb.Mul(r.scalarOf(n, 8), r.tb.I(t.Size))
	if cnt.isConst() && cnt.c == 0 {
		return
	}
	s, d := r.toPtr(src), r.toPtr(dst)
	if s.o == nil || d.o == nil {
		z := r.tb.Eq(cnt, r.tb.I(0))
		r.e.oblige("memory", r.site(f)+" copy through an invalid pointer", z)
		return
	}
	r.checkAccess(s.o, s.off, cnt, false, f)
	r.checkAccess(d.o, d.off, cnt, true, f)
	r.copyMem(d.o, d.off, s.o, s.off, cnt)
}

func (r *RustExec) drop(f *rframe, t *MTerm) {
	ty := r.ty(t.ty)
	pl := r.place(f, t.p)
	if ty.K == "dyn" {
		vt := r.toPtr(pl.meta)
		if vt.o == nil || vt.o.kind != "vtable" {
			r.e.unsup("drop through an unknown vtable")
		}
		fv := r.readMem(vt.o, r.tb.I(0), 8)
		if p, ok := fv.(*MPtr); ok && p.o != nil && p.o.inst >= 0 {
			callee := r.p.Insts[p.o.inst]
			r.call(callee, []MV{&MPtr{o: pl.o, off: pl.off}}, []*MTy{nil}, nil, f)
		}
		return
	}
	if t.inst < 0 {
		return
	}
	in := r.p.Insts[t.inst]
	r.call(in, []MV{r.ptrTo(pl)}, []*MTy{nil}, nil, f)
}
