package main

import "fmt"

// Memory of the Rust front end: byte-addressed objects. Small objects hold
// typed chunks at constant offsets; objects written or copied at symbolic
// offsets are kept as functional byte contents.

type MPtr struct {
	o    *MObj
	off  *T
	addr *T // no object: a plain address
}

type MV interface{} // *T (scalar), *MPtr, *MAgg

type MChunk struct {
	off, size int64
	v         MV // *T, *MPtr, or nil for a byte range of c
	c         *Content
	coff      *T
}

type MAgg struct {
	size int64
	ch   []MChunk
}

type MObj struct {
	id      int
	name    string
	kind    string // stack heap static input fn vtable
	size    *T
	align   int64
	base    uint64
	ch      []MChunk
	c       *Content
	bytes   bool
	dead    bool
	ro      bool
	inst    int
	vt      string
	libHeap bool
}

func (r *RustExec) newObj(name, kind string, size *T, align int64, c *Content) *MObj {
	r.e.nobj++
	o := &MObj{id: r.e.nobj, name: name, kind: kind, size: size, align: align, c: c, inst: -1}
	if size.isConst() && size.c < 1<<20 {
		a := uint64(max(align, 1))
		r.bump = (r.bump + a - 1) / a * a
		o.base = r.bump
		r.bump += size.c + 1
	} else {
		o.base = r.big << 48
		r.big++
	}
	return o
}

func (r *RustExec) addr(p *MPtr) *T {
	if p.o == nil {
		return p.addr
	}
	return r.tb.Add(r.tb.Const(64, p.o.base), p.off)
}

func (r *RustExec) scalarOf(v MV, size int64) *T {
	switch x := v.(type) {
	case *T:
		return x
	case *MPtr:
		return r.addr(x)
	case *MAgg:
		return r.scalarOf(r.aggRead(x, 0, size), size)
	}
	r.e.unsup("scalar of %T", v)
	return nil
}

// find the chunk index at or after off
func findChunk(ch []MChunk, off int64) int {
	lo, hi := 0, len(ch)
	for lo < hi {
		m := (lo + hi) / 2
		if ch[m].off+ch[m].size <= off {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo
}

func (r *RustExec) chunkByte(c *MChunk, i int64) *T {
	if c.c != nil {
		return r.e.read(c.c, r.tb.Add(c.coff, r.tb.I(i)))
	}
	s := r.scalarOf(c.v, c.size)
	return r.tb.Extract(s, int(8*i+7), int(8*i))
}

// part of a chunk: bytes [lo,hi) relative to the chunk start
func (r *RustExec) chunkPart(c MChunk, lo, hi int64) MChunk {
	if lo == 0 && hi == c.size {
		return c
	}
	n := MChunk{off: c.off + lo, size: hi - lo}
	if c.c != nil {
		n.c, n.coff = c.c, r.tb.Add(c.coff, r.tb.I(lo))
		return n
	}
	n.v = r.tb.Extract(r.scalarOf(c.v, c.size), int(8*hi-1), int(8*lo))
	return n
}

// chunks of [off,off+n), clipped
func (r *RustExec) chunkRange(ch []MChunk, off, n int64) []MChunk {
	var out []MChunk
	for i := findChunk(ch, off); i < len(ch) && ch[i].off < off+n; i++ {
		c := ch[i]
		lo, hi := int64(0), c.size
		if c.off < off {
			lo = off - c.off
		}
		if c.off+c.size > off+n {
			hi = off + n - c.off
		}
		out = append(out, r.chunkPart(c, lo, hi))
	}
	return out
}

func (r *RustExec) chunkClear(ch []MChunk, off, n int64) []MChunk {
	if n == 0 {
		return ch
	}
	i := findChunk(ch, off)
	if i == len(ch) || ch[i].off >= off+n {
		return ch
	}
	out := append([]MChunk{}, ch[:i]...)
	for ; i < len(ch); i++ {
		c := ch[i]
		if c.off >= off+n {
			out = append(out, ch[i:]...)
			break
		}
		if c.off < off {
			out = append(out, r.chunkPart(c, 0, off-c.off))
		}
		if c.off+c.size > off+n {
			out = append(out, r.chunkPart(c, off+n-c.off, c.size))
		}
	}
	return out
}

func chunkInsert(ch []MChunk, c MChunk) []MChunk {
	i := findChunk(ch, c.off)
	out := make([]MChunk, 0, len(ch)+1)
	out = append(out, ch[:i]...)
	out = append(out, c)
	return append(out, ch[i:]...)
}

// concat little-endian bytes
func (r *RustExec) concat(bs []*T) *T {
	t := bs[0]
	for i := 1; i < len(bs); i++ {
		t = r.tb.Concat(bs[i], t)
	}
	return t
}

func (r *RustExec) readChunks(ch []MChunk, base *Content, off, size int64) MV {
	i := findChunk(ch, off)
	if i < len(ch) && ch[i].off == off && ch[i].size == size && ch[i].c == nil {
		return ch[i].v
	}
	if size > 8 {
		r.e.unsup("scalar of %d bytes", size)
	}
	bs := make([]*T, size)
	for k := int64(0); k < size; k++ {
		j := findChunk(ch, off+k)
		if j < len(ch) && ch[j].off <= off+k {
			bs[k] = r.chunkByte(&ch[j], off+k-ch[j].off)
		} else if base != nil {
			bs[k] = r.e.read(base, r.tb.I(off+k))
		} else {
			bs[k] = r.e.fresh("undef", 8)
		}
	}
	return r.concat(bs)
}

func (r *RustExec) readObj(o *MObj, off, size int64) MV {
	i := findChunk(o.ch, off)
	if i < len(o.ch) && o.ch[i].off == off && o.ch[i].size == size && o.ch[i].c == nil {
		return o.ch[i].v
	}
	return r.readChunks(o.ch, o.content(r), off, size)
}

func (r *RustExec) aggRead(a *MAgg, off, size int64) MV {
	return r.readChunks(a.ch, nil, off, size)
}

// flush turns an object into byte contents.
func (r *RustExec) flush(o *MObj) {
	if o.bytes {
		return
	}
	c := o.content(r)
	for _, k := range o.ch {
		if k.c != nil {
			c = copyC(c, r.tb.I(k.off), k.c, k.coff, r.tb.I(k.size))
			continue
		}
		if _, ok := k.v.(*MPtr); ok {
			r.e.unsup("pointer stored in an object used as bytes (%s)", o.name)
		}
		for i := int64(0); i < k.size; i++ {
			c = store(c, r.tb.I(k.off+i), r.chunkByte(&k, i))
		}
	}
	o.c = c
	o.ch = nil
	o.bytes = true
}

func (r *RustExec) readMem(o *MObj, off *T, size int64) MV {
	r.force(o)
	if !o.bytes && off.isConst() {
		return r.readObj(o, int64(off.c), size)
	}
	if !o.bytes {
		r.flush(o)
	}
	if size > 8 {
		r.e.unsup("scalar of %d bytes", size)
	}
	bs := make([]*T, size)
	for k := int64(0); k < size; k++ {
		bs[k] = r.e.read(o.c, r.tb.Add(off, r.tb.I(k)))
	}
	return r.concat(bs)
}

func (r *RustExec) writeMem(o *MObj, off *T, size int64, v MV) {
	r.force(o)
	if a, ok := v.(*MAgg); ok {
		if !o.bytes && off.isConst() {
			o.ch = r.chunkClear(o.ch, int64(off.c), size)
			for _, c := range a.ch {
				c.off += int64(off.c)
				o.ch = chunkInsert(o.ch, c)
			}
			return
		}
		for _, c := range a.ch {
			if c.c != nil {
				r.flush(o)
				o.c = copyC(o.c, r.tb.Add(off, r.tb.I(c.off)), c.c, c.coff, r.tb.I(c.size))
			} else {
				r.writeMem(o, r.tb.Add(off, r.tb.I(c.off)), c.size, c.v)
			}
		}
		return
	}
	if !o.bytes && off.isConst() {
		o.ch = r.chunkClear(o.ch, int64(off.c), size)
		o.ch = chunkInsert(o.ch, MChunk{off: int64(off.c), size: size, v: v})
		return
	}
	if _, ok := v.(*MPtr); ok {
		r.e.unsup("pointer stored at a symbolic offset (%s)", o.name)
	}
	r.flush(o)
	t := v.(*T)
	for k := int64(0); k < size; k++ {
		o.c = store(o.c, r.tb.Add(off, r.tb.I(k)), r.tb.Extract(t, int(8*k+7), int(8*k)))
	}
}

// readAgg copies a constant-size range out of memory.
func (r *RustExec) readAgg(o *MObj, off *T, n int64) *MAgg {
	r.force(o)
	a := &MAgg{size: n}
	if n == 0 {
		return a
	}
	if !o.bytes && off.isConst() {
		b := int64(off.c)
		pos := b
		for _, c := range r.chunkRange(o.ch, b, n) {
			if c.off > pos {
				a.ch = append(a.ch, MChunk{off: pos - b, size: c.off - pos, c: o.content(r), coff: r.tb.I(pos)})
			}
			pos = c.off + c.size
			c.off -= b
			a.ch = append(a.ch, c)
		}
		if pos < b+n {
			a.ch = append(a.ch, MChunk{off: pos - b, size: b + n - pos, c: o.content(r), coff: r.tb.I(pos)})
		}
		return a
	}
	r.flush(o)
	a.ch = []MChunk{{off: 0, size: n, c: o.c, coff: off}}
	return a
}

func (r *RustExec) copyMem(d *MObj, doff *T, s *MObj, soff, n *T) {
	if n.isConst() {
		if n.c == 0 {
			return
		}
		if n.c <= 16 && (s.bytes || !soff.isConst()) && !d.bytes && doff.isConst() {
			// single bytes out of a byte string: keep them as scalars
			r.flush(s)
			for k := int64(0); k < int64(n.c); k++ {
				r.writeMem(d, r.tb.Add(doff, r.tb.I(k)), 1, r.e.read(s.c, r.tb.Add(soff, r.tb.I(k))))
			}
			return
		}
		if n.c <= 1<<16 {
			a := r.readAgg(s, soff, int64(n.c))
			r.writeMem(d, doff, int64(n.c), a)
			return
		}
	}
	r.force(s)
	r.force(d)
	r.flush(s)
	r.flush(d)
	d.c = copyC(d.c, doff, s.c, soff, n)
}

// force builds the contents of a lazily created global.
func (r *RustExec) force(o *MObj) {
	if o == nil {
		panic("nil object")
	}
}

func (o *MObj) String() string { return fmt.Sprintf("%s#%d", o.name, o.id) }
