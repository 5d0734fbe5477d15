package main

import (
	"math"
	"math/big"
	"strconv"
	"strings"
)

// The built-in objects the TypeScript sources use.

var elemSize = map[string]int64{"Uint8Array": 1, "Int8Array": 1, "Uint16Array": 2, "Int16Array": 2, "Uint32Array": 4, "Int32Array": 4,
	"Float32Array": 4, "Float64Array": 8, "BigUint64Array": 8, "BigInt64Array": 8, "Uint8ClampedArray": 1}

func (j *TSExec) lenI(t *T) *JI {
	return j.mk(false, t, nil, bigZero, new(big.Int).Lsh(bi(1), 44))
}

func (j *TSExec) newBuf(name string, size *T, c *Content) *JBuf {
	o := j.e.newBObj(name, size, c)
	b := &JBuf{o: o, id: o.id, init: j.loading}
	if j.loading {
		b.id = len(j.bufs)
		j.bufs = append(j.bufs, b)
	}
	b.obj = j.newObj("ArrayBuffer")
	b.obj.buf = b
	return b
}

func (j *TSExec) view(kind string, b *JBuf, off, n *T) *JObj {
	o := j.newObj(kind)
	o.buf, o.off, o.len = b, off, n
	return o
}

func (j *TSExec) array(els []JV) *JObj {
	o := j.newObj("Array")
	o.elems = els
	return o
}

// iterate lists what iterating v yields; the number has to be known.
func (j *TSExec) iterate(v JV) []JV {
	var r []JV
	next := j.iterator(v)
	for it := 0; ; it++ {
		j.loopGuard(it / 8)
		x, ok := next()
		if !ok {
			return r
		}
		r = append(r, x)
	}
}

func (j *TSExec) iterator(v JV) func() (JV, bool) {
	i := int64(-1)
	switch x := v.(type) {
	case *JObj:
		switch {
		case x.kind == "Array":
			return func() (JV, bool) {
				i++
				if int(i) >= len(x.elems) {
					return nil, false
				}
				return x.elems[i], true
			}
		case x.kind == "Map" || x.kind == "Set":
			return func() (JV, bool) {
				i++
				if int(i) >= len(x.mkeys) {
					return nil, false
				}
				if x.kind == "Set" {
					return x.mkeys[i], true
				}
				return j.array([]JV{x.mkeys[i], x.elems[i]}), true
			}
		case elemSize[x.kind] > 0:
			return func() (JV, bool) {
				i++
				if !j.e.branch(j.tb.Ult(j.tb.I(i), x.len)) {
					return nil, false
				}
				return j.elem(x, j.tb.I(i)), true
			}
		}
	case *JS:
		if x.sym == nil {
			rs := []rune(x.s)
			return func() (JV, bool) {
				i++
				if int(i) >= len(rs) {
					return nil, false
				}
				return &JS{s: string(rs[i])}, true
			}
		}
	case jUndef, jNull:
		j.throwErr("TypeError", "not iterable")
	}
	if x, ok := v.(*JObj); ok {
		if x.kind == "Generator" {
			return func() (JV, bool) {
				v, more := x.gen.next(jUndef{})
				return v, more
			}
		}
		if f := j.getProp(x, "@@iterator"); !isUndef(f) {
			it := j.call(f, x, nil)
			if g, ok := it.(*JObj); ok && (g.kind == "Generator" || g.kind == "Array") {
				return j.iterator(g)
			}
			nx := j.getProp(it, "next")
			return func() (JV, bool) {
				r := j.call(nx, it, nil)
				if j.truth(j.getProp(r, "done")) {
					return nil, false
				}
				return j.getProp(r, "value"), true
			}
		}
		j.throwErr("TypeError", "not iterable")
	}
	j.unsup("iteration over %s", typeOf(v))
	return nil
}

// ---- raw memory ----

func (j *TSExec) rawRead(o *BObj, off *T, n int64, little bool) *T {
	var bs []*T // least significant first
	for i := int64(0); i < n; i++ {
		k := i
		if !little {
			k = n - 1 - i
		}
		bs = append(bs, j.e.read(o.c, j.tb.Add(off, j.tb.I(k))))
	}
	r := bs[0]
	for _, b := range bs[1:] {
		r = j.tb.Concat(b, r)
	}
	return r
}

func (j *TSExec) rawWrite(b *JBuf, off *T, v *T, n int64, little bool) {
	j.touch(b)
	for i := int64(0); i < n; i++ {
		k := i
		if !little {
			k = n - 1 - i
		}
		b.o.c = store(b.o.c, j.tb.Add(off, j.tb.I(k)), j.tb.Extract(v, int(8*i+7), int(8*i)))
	}
}

func (j *TSExec) touch(b *JBuf) {
	if b.init && !j.loading {
		j.touched[b.id] = true
	}
	if j.floor > 0 && b.id < j.bfloor {
		j.dirty = true
	}
}

func (j *TSExec) decodeNum(kind string, t *T) JV {
	switch kind {
	case "Uint8", "Uint16", "Uint32", "Uint8Clamped":
		return j.uword(false, t)
	case "Int8", "Int16", "Int32":
		return j.sword(false, t)
	case "BigUint64":
		return j.uword(true, t)
	case "BigInt64":
		return j.sword(true, t)
	case "Float32":
		return j.f64of32(t)
	case "Float64":
		if t.isConst() {
			return j.numF(math.Float64frombits(t.c))
		}
		return &JF{t}
	}
	j.unsup("element %s", kind)
	return nil
}

func (j *TSExec) encodeNum(kind string, v JV) *T {
	switch kind {
	case "Uint8", "Int8":
		return j.truncW(v, 8)
	case "Uint16", "Int16":
		return j.truncW(v, 16)
	case "Uint32", "Int32":
		return j.truncW(v, 32)
	case "BigUint64", "BigInt64":
		return j.toBig(v).lo
	case "Float32", "Float64":
		var bits *T
		switch x := j.toNumber(v).(type) {
		case *JF:
			bits = x.bits
		default:
			f, ok := constF(x)
			if !ok {
				j.unsup("an unknown integer as a float")
			}
			bits = j.tb.Const(64, math.Float64bits(f))
		}
		// which NaN is stored is up to the implementation
		if !bits.isConst() && j.e.branch(j.isNaN(bits)) {
			w := 64
			if kind == "Float32" {
				w = 32
			}
			r := j.e.fresh("nan", w)
			lim := uint64(0x7ff0000000000000)
			if w == 32 {
				lim = 0x7f800000
			}
			j.e.assume(j.tb.Ult(j.tb.Const(w, lim), j.tb.And(r, j.tb.Const(w, mask(w)>>1))))
			return r
		}
		if kind == "Float64" {
			return bits
		}
		return j.f32round(bits)
	}
	j.unsup("element %s", kind)
	return nil
}

// toBig is ToBigInt.
func (j *TSExec) toBig(v JV) *JI {
	switch x := v.(type) {
	case *JI:
		if x.big {
			return x
		}
	case *JB:
		return j.mk(true, j.tb.Ite(x.t, j.tb.I(1), j.tb.I(0)), nil, bigZero, bi(1))
	}
	j.throwErr("TypeError", "not a bigint")
	return nil
}

func elemKind(kind string) string { return strings.TrimSuffix(kind, "Array") }

func (j *TSExec) elem(o *JObj, i *T) JV {
	sz := elemSize[o.kind]
	return j.decodeNum(elemKind(o.kind), j.rawRead(o.buf.o, j.tb.Add(o.off, j.tb.Mul(i, j.tb.I(sz))), sz, true))
}

// ---- property access ----

func (j *TSExec) getProp(o JV, p string) JV {
	switch x := o.(type) {
	case shortCut:
		return x
	case jUndef, jNull:
		j.throwErr("TypeError", "property "+p+" of "+typeOf(o))
	case *JS:
		return j.strProp(x, p)
	case *JI, *JF, *JQ, *JB:
		switch p {
		case "toString":
			return j.nat(p, func(this JV, args []JV) JV {
				if len(args) > 0 {
					return j.opaqueStr()
				}
				return j.toStr(this)
			})
		case "valueOf":
			return j.nat(p, func(this JV, args []JV) JV { return this })
		}
		j.unsup("property %s of a %s", p, typeOf(o))
	case *JFn:
		return j.fnProp(x, p)
	case *JObj:
		if v, ok := x.props[p]; ok {
			return v
		}
		if x.cls != nil {
			if m := x.cls.find(p); m != nil {
				if m.get != nil {
					return j.call(m.get, x, nil)
				}
				if m.fn != nil {
					return m.fn
				}
				return jUndef{}
			}
		}
		if v := j.builtinProp(x, p); v != nil {
			return v
		}
		if strings.HasPrefix(p, "#") {
			j.throwErr("TypeError", "private "+p)
		}
		return jUndef{}
	}
	j.unsup("property %s of %s", p, typeOf(o))
	return nil
}

func (j *TSExec) nat(name string, f func(this JV, args []JV) JV) *JFn {
	return &JFn{name: name, nat: f}
}

func (j *TSExec) setProp(o JV, p string, v JV) {
	switch x := o.(type) {
	case jUndef, jNull:
		j.throwErr("TypeError", "property "+p+" of "+typeOf(o))
	case *JObj:
		if x.cls != nil {
			if _, own := x.props[p]; !own {
				if m := x.cls.find(p); m != nil {
					if m.set == nil {
						j.throwErr("TypeError", p+" is read-only")
					}
					j.call(m.set, x, []JV{v})
					return
				}
			}
		}
		if x.flags["frozen"] {
			j.throwErr("TypeError", "frozen object")
		}
		if x.kind == "Array" && p == "length" {
			i, ok := v.(*JI)
			if ok && i.isConst() && i.min.Cmp(bi(int64(len(x.elems)))) <= 0 {
				x.elems = x.elems[:i.min.Int64()]
				return
			}
			j.unsup("array length")
		}
		j.changed(x, "property "+p)
		if x.buf != nil && (p == "length" || p == "byteLength" || p == "byteOffset" || p == "buffer") {
			j.throwErr("TypeError", p+" is read-only")
		}
		x.set(p, v)
		return
	case *JFn:
		if x.cls != nil {
			if !j.loading {
				j.touchLet["static "+p] = true
			}
			if j.floor > 0 {
				j.dirty = true
			}
			x.cls.sprops[p] = v
			return
		}
	}
	j.unsup("assignment to property %s of %s", p, typeOf(o))
}

func (j *TSExec) getIndex(o, i JV) JV {
	if x, ok := o.(*JObj); ok && elemSize[x.kind] > 0 {
		switch k := i.(type) {
		case *JI:
			if j.e.branch(j.tb.BAnd(j.lt(j.num(-1), k), j.lt(k, j.lenI(x.len)))) {
				return j.elem(x, k.lo)
			}
			return jUndef{}
		case *JF, *JQ:
			if f, ok := constF(k); ok && math.IsNaN(f) {
				return jUndef{}
			}
			j.unsup("fractional index")
		}
	}
	if x, ok := o.(*JObj); ok && x.kind == "Array" {
		if k, ok := i.(*JI); ok {
			if !k.isConst() {
				for n := range x.elems {
					if j.e.branch(j.eq(k, j.num(int64(n)))) {
						return x.elems[n]
					}
				}
				return jUndef{}
			}
			if k.min.Sign() >= 0 && k.min.Cmp(bi(int64(len(x.elems)))) < 0 {
				return x.elems[k.min.Int64()]
			}
			return jUndef{}
		}
	}
	if x, ok := o.(*JS); ok {
		if k, ok := i.(*JI); ok && x.sym == nil && k.isConst() {
			rs := []rune(x.s)
			if k.min.Sign() >= 0 && k.min.Cmp(bi(int64(len(rs)))) < 0 {
				return &JS{s: string(rs[k.min.Int64()])}
			}
			return jUndef{}
		}
	}
	if x, ok := o.(*JObj); ok {
		if k, ok := i.(*JI); ok && !k.isConst() {
			// a table with number keys
			for _, n := range x.keys {
				if v, err := strconv.ParseInt(n, 10, 64); err == nil && j.e.branch(j.eq(k, j.num(v))) {
					return x.props[n]
				}
			}
			return jUndef{}
		}
	}
	return j.getProp(o, j.propKey(i))
}

func (j *TSExec) setIndex(o, i, v JV) {
	if x, ok := o.(*JObj); ok && elemSize[x.kind] > 0 {
		sz := elemSize[x.kind]
		t := j.encodeNum(elemKind(x.kind), v)
		switch k := i.(type) {
		case *JI:
			// a write outside the view does nothing
			if j.e.branch(j.tb.BAnd(j.lt(j.num(-1), k), j.lt(k, j.lenI(x.len)))) {
				j.rawWrite(x.buf, j.tb.Add(x.off, j.tb.Mul(k.lo, j.tb.I(sz))), t, sz, true)
			}
			return
		case *JF, *JQ:
			if f, ok := constF(k); ok && math.IsNaN(f) {
				return
			}
			j.unsup("fractional index")
		}
	}
	if x, ok := o.(*JObj); ok && x.kind == "Array" {
		if k, ok := i.(*JI); ok && k.isConst() && k.min.Sign() >= 0 && k.min.Cmp(bi(4096)) < 0 {
			n := int(k.min.Int64())
			j.changed(x, "array")
			for len(x.elems) <= n {
				x.elems = append(x.elems, jUndef{})
			}
			x.elems[n] = v
			return
		}
		j.unsup("array element")
	}
	j.setProp(o, j.propKey(i), v)
}

func (j *TSExec) strProp(s *JS, p string) JV {
	switch p {
	case "length":
		if s.sym == nil {
			n := 0
			for _, r := range s.s {
				n++
				if r > 0xffff {
					n++
				}
			}
			return j.num(int64(n))
		}
		if s.sym.ulen == nil {
			u := j.e.fresh("utf16len", 64)
			tb := j.tb
			// every UTF-16 unit takes one to three bytes
			j.e.assume(tb.Ule(u, s.sym.n))
			j.e.assume(tb.Ule(s.sym.n, tb.Mul(tb.I(3), u)))
			s.sym.ulen = u
		}
		return j.lenI(s.sym.ulen)
	case "toString", "valueOf":
		return j.nat(p, func(this JV, _ []JV) JV { return this })
	case "padStart", "padEnd", "toUpperCase", "toLowerCase", "trim", "slice", "substring", "repeat":
		return j.nat(p, func(this JV, _ []JV) JV { return j.opaqueStr() })
	}
	j.unsup("string property %s", p)
	return nil
}

func (j *TSExec) fnProp(f *JFn, p string) JV {
	if f.cls != nil {
		for c := f.cls; c != nil; c = c.ext {
			if v, ok := c.sprops[p]; ok {
				return v
			}
			if m := c.statics[p]; m != nil {
				if m.get != nil {
					return j.call(m.get, f, nil)
				}
				return m.fn
			}
		}
	}
	switch p {
	case "prototype":
		if f.cls != nil {
			if f.cls.proto == nil {
				f.cls.proto = j.newObj("proto")
				f.cls.proto.cls = f.cls
			}
			return f.cls.proto
		}
		j.unsup("prototype of %s", f.name)
	case "name":
		return &JS{s: f.name}
	case "call":
		return j.nat(p, func(_ JV, args []JV) JV {
			if len(args) == 0 {
				return j.call(f, jUndef{}, nil)
			}
			return j.call(f, args[0], args[1:])
		})
	case "apply":
		return j.nat(p, func(_ JV, args []JV) JV {
			if len(args) == 1 {
				return j.call(f, args[0], nil)
			}
			return j.call(f, args[0], j.iterate(args[1]))
		})
	case "bind":
		return j.nat(p, func(_ JV, args []JV) JV {
			g := &JFn{name: f.name}
			g.nat = func(_ JV, more []JV) JV {
				return j.call(f, args[0], append(append([]JV{}, args[1:]...), more...))
			}
			return g
		})
	}
	key := f.name
	if f.cls != nil {
		key = f.cls.name
	}
	if v := j.staticOf(key, p); v != nil {
		return v
	}
	if f.cls != nil {
		return jUndef{}
	}
	j.unsup("property %s of function %s", p, key)
	return nil
}

// ---- globals ----

var globalFns = map[string]bool{"Uint8Array": true, "Int8Array": true, "Uint16Array": true, "Int16Array": true, "Uint32Array": true, "Int32Array": true,
	"Float32Array": true, "Float64Array": true, "BigUint64Array": true, "BigInt64Array": true, "Uint8ClampedArray": true, "ArrayBuffer": true, "DataView": true, "TextEncoder": true, "TextDecoder": true,
	"Number": true, "BigInt": true, "Boolean": true, "String": true, "Array": true, "Object": true, "Math": true, "Symbol": true, "Map": true, "Set": true, "WeakMap": true, "WeakSet": true, "isNaN": true, "isFinite": true}

var errClasses = map[string]bool{"Error": true, "TypeError": true, "RangeError": true, "SyntaxError": true, "EvalError": true, "ReferenceError": true}

func knownGlobal(n string) bool {
	return globalFns[n] || errClasses[n] || n == "NaN" || n == "Infinity" || n == "globalThis" || n == "Reflect"
}

func (j *TSExec) global(n string) JV {
	switch n {
	case "NaN":
		return j.nan()
	case "Infinity":
		return &JF{j.tb.Const(64, math.Float64bits(math.Inf(1)))}
	}
	if errClasses[n] {
		return &JFn{name: n, cls: j.builtinClass(n)}
	}
	if globalFns[n] {
		return &JFn{name: n, ctor: true}
	}
	j.unsup("global %s", n)
	return nil
}

func arg(args []JV, i int) JV {
	if i < len(args) {
		return args[i]
	}
	return jUndef{}
}
func isUndef(v JV) bool { _, ok := v.(jUndef); return ok }

// toIndex is ToIndex: an integer from 0 on.
func (j *TSExec) toIndex(v JV) *T {
	switch x := v.(type) {
	case jUndef:
		return j.tb.I(0)
	default:
		switch n := j.toNumber(x).(type) {
		case *JI:
			if j.e.branch(j.lt(n, j.num(0))) {
				j.throwErr("RangeError", "index")
			}
			return n.lo
		case *JQ:
			q := j.truncQ(n)
			if j.e.branch(j.lt(q, j.num(0))) {
				j.throwErr("RangeError", "index")
			}
			return q.lo
		case *JF:
			if f, ok := constF(n); ok && math.IsNaN(f) {
				return j.tb.I(0)
			}
			if f, ok := constF(n); ok && math.IsInf(f, 0) {
				j.throwErr("RangeError", "index")
			}
		}
	}
	j.unsup("index %s", typeOf(v))
	return nil
}

func (j *TSExec) allocate(n *T) {
	j.sized(n)
}

func (j *TSExec) builtinNew(n string, args []JV) JV {
	tb := j.tb
	switch n {
	case "Object":
		return j.newObj("")
	case "Array":
		if len(args) == 1 {
			if i, ok := args[0].(*JI); ok {
				if !i.isConst() || i.min.Cmp(bi(4096)) > 0 {
					j.unsup("array of unknown length")
				}
				els := make([]JV, i.min.Int64())
				for k := range els {
					els[k] = jUndef{}
				}
				return j.array(els)
			}
		}
		return j.array(append([]JV{}, args...))
	case "ArrayBuffer":
		sz := j.toIndex(arg(args, 0))
		j.allocate(sz)
		return j.newBuf("buffer", sz, &Content{k: CZero}).obj
	case "DataView":
		b, ok := arg(args, 0).(*JObj)
		if !ok || b.kind != "ArrayBuffer" {
			j.throwErr("TypeError", "DataView needs a buffer")
		}
		off := j.toIndex(arg(args, 1))
		sz := b.buf.o.size
		if !j.e.branch(tb.Ule(off, sz)) {
			j.throwErr("RangeError", "DataView offset")
		}
		ln := tb.Sub(sz, off)
		if !isUndef(arg(args, 2)) {
			want := j.toIndex(args[2])
			if !j.e.branch(tb.Ule(want, ln)) {
				j.throwErr("RangeError", "DataView length")
			}
			ln = want
		}
		return j.view("DataView", b.buf, off, ln)
	case "TextEncoder":
		return j.newObj(n)
	case "TextDecoder":
		o := j.newObj(n)
		o.flags = map[string]bool{}
		switch x := arg(args, 0).(type) {
		case jUndef:
		case *JS:
			l := strings.ToLower(x.s)
			if x.sym != nil || l != "utf-8" && l != "utf8" && l != "unicode-1-1-utf-8" {
				j.unsup("TextDecoder of another encoding")
			}
		default:
			j.unsup("TextDecoder label")
		}
		if op, ok := arg(args, 1).(*JObj); ok {
			for k, v := range op.props {
				o.flags[k] = j.truth(v)
			}
		}
		return o
	case "Map", "WeakMap", "Set", "WeakSet":
		o := j.newObj(strings.TrimPrefix(n, "Weak"))
		switch arg(args, 0).(type) {
		case jUndef, jNull:
			return o
		}
		for _, x := range j.iterate(args[0]) {
			if o.kind == "Set" {
				j.mapSet(o, x, jUndef{})
			} else {
				j.mapSet(o, j.getIndex(x, j.num(0)), j.getIndex(x, j.num(1)))
			}
		}
		return o
	case "Number", "String", "Boolean", "BigInt", "Math", "Symbol":
		j.unsup("new %s", n)
	}
	if sz := elemSize[n]; sz > 0 {
		return j.newTyped(n, sz, args)
	}
	j.unsup("new %s", n)
	return nil
}

// mapFind gives the place of k, or -1.
func (j *TSExec) mapFind(o *JObj, k JV) int {
	for i, x := range o.mkeys {
		f, isF := constF(k)
		g, isG := constF(x)
		if isF && isG && math.IsNaN(f) && math.IsNaN(g) {
			return i
		}
		if j.e.branch(j.strictEq(x, k)) {
			return i
		}
	}
	return -1
}

func (j *TSExec) mapSet(o *JObj, k, v JV) {
	if f, ok := constF(k); ok && f == 0 {
		k = j.num(0)
	}
	if i := j.mapFind(o, k); i >= 0 {
		o.elems[i] = v
		return
	}
	o.mkeys, o.elems = append(o.mkeys, k), append(o.elems, v)
}

func (j *TSExec) mapProp(o *JObj, p string) JV {
	tb := j.tb
	m := func(f func(x *JObj, a []JV) JV) JV {
		return j.nat(p, func(t JV, a []JV) JV {
			x, ok := t.(*JObj)
			if !ok || x.kind != o.kind {
				j.throwErr("TypeError", p+" of something else")
			}
			return f(x, a)
		})
	}
	isMap := o.kind == "Map"
	switch p {
	case "size":
		return j.num(int64(len(o.mkeys)))
	case "has":
		return m(func(x *JObj, a []JV) JV { return &JB{tb.Bool(j.mapFind(x, arg(a, 0)) >= 0)} })
	case "get":
		if isMap {
			return m(func(x *JObj, a []JV) JV {
				if i := j.mapFind(x, arg(a, 0)); i >= 0 {
					return x.elems[i]
				}
				return jUndef{}
			})
		}
	case "set", "add":
		if isMap == (p == "set") {
			return m(func(x *JObj, a []JV) JV {
				j.changed(x, "map")
				j.mapSet(x, arg(a, 0), arg(a, 1))
				return x
			})
		}
	case "delete":
		return m(func(x *JObj, a []JV) JV {
			j.changed(x, "map")
			i := j.mapFind(x, arg(a, 0))
			if i < 0 {
				return &JB{tb.fls}
			}
			x.mkeys = append(append([]JV{}, x.mkeys[:i]...), x.mkeys[i+1:]...)
			x.elems = append(append([]JV{}, x.elems[:i]...), x.elems[i+1:]...)
			return &JB{tb.tru}
		})
	case "clear":
		return m(func(x *JObj, a []JV) JV {
			j.changed(x, "map")
			x.mkeys, x.elems = nil, nil
			return jUndef{}
		})
	case "keys", "values", "entries":
		return m(func(x *JObj, a []JV) JV {
			var r []JV
			for i, k := range x.mkeys {
				switch {
				case p == "keys" || !isMap && p == "values":
					r = append(r, k)
				case p == "values":
					r = append(r, x.elems[i])
				case isMap:
					r = append(r, j.array([]JV{k, x.elems[i]}))
				default:
					r = append(r, j.array([]JV{k, k}))
				}
			}
			return j.array(r)
		})
	case "forEach":
		return m(func(x *JObj, a []JV) JV {
			for i := 0; i < len(x.mkeys); i++ {
				v := x.mkeys[i]
				if isMap {
					v = x.elems[i]
				}
				j.call(arg(a, 0), jUndef{}, []JV{v, x.mkeys[i], x})
			}
			return jUndef{}
		})
	}
	return nil
}

func (j *TSExec) newTyped(n string, sz int64, args []JV) JV {
	tb := j.tb
	switch x := arg(args, 0).(type) {
	case *JObj:
		switch {
		case x.kind == "ArrayBuffer":
			off := j.toIndex(arg(args, 1))
			if sz > 1 && !j.e.branch(tb.Eq(tb.And(off, tb.I(sz-1)), tb.I(0))) {
				j.throwErr("RangeError", "unaligned view")
			}
			total := x.buf.o.size
			if !isUndef(arg(args, 2)) {
				ln := j.toIndex(args[2])
				if !j.e.branch(tb.BAnd(tb.Ule(off, total), tb.Ule(tb.Mul(ln, tb.I(sz)), tb.Sub(total, off)))) {
					j.throwErr("RangeError", "view outside its buffer")
				}
				return j.view(n, x.buf, off, ln)
			}
			if sz > 1 && !j.e.branch(tb.Eq(tb.And(total, tb.I(sz-1)), tb.I(0))) {
				j.throwErr("RangeError", "buffer length")
			}
			if !j.e.branch(tb.Ule(off, total)) {
				j.throwErr("RangeError", "view outside its buffer")
			}
			return j.view(n, x.buf, off, tb.Div(OUdiv, tb.Sub(total, off), tb.I(sz)))
		case x.kind == "Array":
			b := j.newBuf("array", tb.I(int64(len(x.elems))*sz), &Content{k: CZero})
			for i, v := range x.elems {
				j.rawWrite(b, tb.I(int64(i)*sz), j.encodeNum(elemKind(n), v), sz, true)
			}
			return j.view(n, b, tb.I(0), tb.I(int64(len(x.elems))))
		case x.kind == n || elemSize[x.kind] == 1 && sz == 1 && n != "Uint8ClampedArray":
			b := j.newBuf("array", tb.Mul(x.len, tb.I(sz)), copyC(&Content{k: CZero}, tb.I(0), x.buf.o.c, x.off, tb.Mul(x.len, tb.I(sz))))
			return j.view(n, b, tb.I(0), x.len)
		}
	case jUndef, *JI, *JQ, *JF, jNull, *JB:
		ln := j.toIndex(x)
		j.allocate(ln)
		return j.view(n, j.newBuf("array", tb.Mul(ln, tb.I(sz)), &Content{k: CZero}), tb.I(0), ln)
	}
	j.unsup("%s from %s", n, typeOf(arg(args, 0)))
	return nil
}

func (j *TSExec) builtinCall(n string, args []JV) JV {
	switch n {
	case "Number":
		if len(args) == 0 {
			return j.num(0)
		}
		v := j.toNumeric(args[0])
		if i, ok := v.(*JI); ok && i.big {
			return j.exact(&JI{lo: i.lo, hi: i.hi, min: i.min, max: i.max})
		}
		return v
	case "BigInt":
		switch x := arg(args, 0).(type) {
		case *JI:
			return &JI{big: true, lo: x.lo, hi: x.hi, min: x.min, max: x.max}
		case *JB:
			return j.toBig(x)
		case *JF:
			if _, ok := constF(x); ok {
				j.throwErr("RangeError", "not an integer")
			}
		case jUndef, jNull:
			j.throwErr("TypeError", "not a bigint")
		case *JS:
			if x.sym == nil {
				if v, ok := new(big.Int).SetString(strings.TrimSpace(x.s), 0); ok {
					return j.konst(true, v)
				}
			}
		}
		j.unsup("BigInt of %s", typeOf(arg(args, 0)))
	case "Boolean":
		return &JB{j.boolOf(arg(args, 0))}
	case "String":
		return j.toStr(arg(args, 0))
	case "Symbol":
		return j.newObj("symbol")
	case "isNaN":
		return &JB{j.isNaNV(j.toNumber(arg(args, 0)))}
	case "Error", "TypeError", "RangeError":
		return j.construct(j.global(n), args)
	case "Array":
		return j.builtinNew(n, args)
	}
	if elemSize[n] > 0 || n == "DataView" || n == "ArrayBuffer" || n == "TextEncoder" || n == "TextDecoder" {
		j.throwErr("TypeError", n+" without new")
	}
	j.unsup("call of %s", n)
	return nil
}

func (j *TSExec) isNaNV(v JV) *T {
	if f, ok := v.(*JF); ok {
		return j.isNaN(f.bits)
	}
	return j.tb.fls
}

func (j *TSExec) isIntV(v JV) *T {
	switch x := v.(type) {
	case *JI:
		return j.tb.Bool(!x.big)
	case *JQ:
		return j.tb.Eq(j.tb.And(x.n.lo, j.tb.I(1<<x.k-1)), j.tb.I(0))
	case *JF:
		if _, ok := constF(x); ok {
			return j.tb.fls
		}
		j.unsup("is an unknown float an integer")
	}
	return j.tb.fls
}

// staticOf gives the static members of built-in objects.
func (j *TSExec) staticOf(o, p string) JV {
	tb := j.tb
	fn := func(f func(args []JV) JV) JV { return j.nat(o+"."+p, func(_ JV, a []JV) JV { return f(a) }) }
	if elemSize[o] > 0 {
		switch p {
		case "from", "of":
			return fn(func(a []JV) JV {
				if p == "of" {
					return j.newTyped(o, elemSize[o], []JV{j.array(a)})
				}
				if len(a) > 1 {
					els := j.iterate(a[0])
					for i := range els {
						els[i] = j.call(a[1], jUndef{}, []JV{els[i], j.num(int64(i))})
					}
					return j.newTyped(o, elemSize[o], []JV{j.array(els)})
				}
				return j.newTyped(o, elemSize[o], a[:1])
			})
		case "BYTES_PER_ELEMENT":
			return j.num(elemSize[o])
		}
	}
	switch o + "." + p {
	case "Math.floor", "Math.trunc", "Math.ceil", "Math.round":
		return fn(func(a []JV) JV {
			switch x := j.toNumber(arg(a, 0)).(type) {
			case *JI:
				return x
			case *JQ:
				switch p {
				case "floor":
					return j.shr(x.n, x.k)
				case "trunc":
					return j.truncQ(x)
				case "ceil":
					return j.neg(j.shr(j.neg(x.n), x.k))
				case "round":
					return j.shr(j.add(x.n, j.num(1<<(x.k-1))), x.k)
				}
			case *JF:
				if f, ok := constF(x); ok {
					switch p {
					case "floor":
						return j.numF(math.Floor(f))
					case "trunc":
						return j.numF(math.Trunc(f))
					case "ceil":
						return j.numF(math.Ceil(f))
					}
				}
			}
			j.unsup("Math.%s of a float", p)
			return nil
		})
	case "Math.min", "Math.max":
		return fn(func(a []JV) JV {
			if len(a) == 0 {
				j.unsup("Math.%s of nothing", p)
			}
			r, ok := j.toNumber(a[0]).(*JI)
			for _, v := range a[1:] {
				y, ok2 := j.toNumber(v).(*JI)
				if !ok || !ok2 {
					j.unsup("Math.%s of floats", p)
				}
				c := j.lt(r, y)
				if p == "max" {
					c = j.lt(y, r)
				}
				if !j.e.branch(c) {
					r = y
				}
			}
			if !ok {
				j.unsup("Math.%s of floats", p)
			}
			return r
		})
	case "Math.abs":
		return fn(func(a []JV) JV {
			x, ok := j.toNumber(arg(a, 0)).(*JI)
			if !ok {
				j.unsup("Math.abs")
			}
			if j.e.branch(j.lt(x, j.num(0))) {
				return j.neg(j.narrow(x, x.min, bigMin(x.max, bi(-1))))
			}
			return j.narrow(x, bigMax(x.min, bigZero), x.max)
		})
	case "Math.pow":
		return fn(func(a []JV) JV { return j.binary("**", arg(a, 0), arg(a, 1)) })
	case "Math.clz32":
		return fn(func(a []JV) JV {
			v := j.trunc32(arg(a, 0))
			res := tb.Const(32, 32)
			for i := 0; i < 32; i++ {
				res = tb.Ite(tb.Eq(tb.Extract(v, i, i), tb.Const(1, 1)), tb.Const(32, uint64(31-i)), res)
			}
			return j.mk(false, tb.Zext(res, 64), nil, bigZero, bi(32))
		})
	case "Math.fround":
		return fn(func(a []JV) JV {
			switch x := j.toNumber(arg(a, 0)).(type) {
			case *JF:
				if j.e.branch(j.isNaN(x.bits)) {
					return j.nan()
				}
				return j.f64of32(j.f32round(x.bits))
			default:
				if f, ok := constF(x); ok {
					return j.numF(float64(float32(f)))
				}
			}
			j.unsup("Math.fround")
			return nil
		})
	case "Number.isNaN":
		return fn(func(a []JV) JV { return &JB{j.isNaNV(arg(a, 0))} })
	case "Number.isInteger":
		return fn(func(a []JV) JV { return &JB{j.isIntV(arg(a, 0))} })
	case "Number.isSafeInteger":
		return fn(func(a []JV) JV {
			t := j.isIntV(arg(a, 0))
			if x, ok := arg(a, 0).(*JI); ok {
				lim := j.konst(false, new(big.Int).Sub(two53, bi(1)))
				t = tb.BAnd(t, tb.BNot(j.lt(lim, x)), tb.BNot(j.lt(x, j.neg(lim))))
			}
			return &JB{t}
		})
	case "Number.isFinite":
		return fn(func(a []JV) JV {
			switch x := arg(a, 0).(type) {
			case *JI, *JQ:
				return &JB{tb.Bool(typeOf(x) == "number")}
			case *JF:
				return &JB{tb.Ult(tb.And(x.bits, tb.Const(64, 1<<63-1)), tb.Const(64, 0x7ff0000000000000))}
			}
			return &JB{tb.fls}
		})
	case "Number.MAX_SAFE_INTEGER":
		return j.konst(false, new(big.Int).Sub(two53, bi(1)))
	case "Number.MIN_SAFE_INTEGER":
		return j.konst(false, new(big.Int).Sub(bi(1), two53))
	case "Number.NaN":
		return j.nan()
	case "Number.POSITIVE_INFINITY":
		return j.global("Infinity")
	case "Symbol.iterator":
		return &JS{s: "@@iterator"}
	case "BigInt.asUintN", "BigInt.asIntN":
		return fn(func(a []JV) JV {
			w, ok := arg(a, 0).(*JI)
			x := j.toBig(arg(a, 1))
			if !ok || !w.isConst() || w.min.Sign() <= 0 || w.min.Cmp(bi(64)) > 0 {
				j.unsup("BigInt.%s of unknown width", p)
			}
			t := tb.Extract(x.lo, int(w.min.Int64())-1, 0)
			if p == "asIntN" {
				return j.sword(true, t)
			}
			return j.uword(true, t)
		})
	case "Array.isArray":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			return &JB{tb.Bool(ok && o.kind == "Array")}
		})
	case "Array.from":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			var els []JV
			if ok && o.kind == "" && o.props["length"] != nil {
				els = j.iterate(j.builtinNew("Array", []JV{o.props["length"]}))
			} else {
				els = j.iterate(arg(a, 0))
			}
			if len(a) > 1 {
				for i := range els {
					els[i] = j.call(a[1], jUndef{}, []JV{els[i], j.num(int64(i))})
				}
			}
			return j.array(els)
		})
	case "ArrayBuffer.isView":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			return &JB{tb.Bool(ok && (elemSize[o.kind] > 0 || o.kind == "DataView"))}
		})
	case "Object.setPrototypeOf":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			q, ok2 := arg(a, 1).(*JObj)
			if !ok || !ok2 || q.kind != "proto" {
				j.unsup("Object.setPrototypeOf")
			}
			o.cls = q.cls
			return o
		})
	case "Object.freeze", "Object.seal":
		return fn(func(a []JV) JV {
			if o, ok := arg(a, 0).(*JObj); ok && p == "freeze" {
				if o.flags == nil {
					o.flags = map[string]bool{}
				}
				o.flags["frozen"] = true
			}
			return arg(a, 0)
		})
	case "Object.is":
		return fn(func(a []JV) JV {
			x, y := arg(a, 0), arg(a, 1)
			f, ok1 := x.(*JF)
			g, ok2 := y.(*JF)
			if ok1 && ok2 {
				return &JB{tb.BOr(tb.Eq(f.bits, g.bits), tb.BAnd(j.isNaN(f.bits), j.isNaN(g.bits)))}
			}
			return &JB{j.strictEq(x, y)}
		})
	case "Object.keys", "Object.values", "Object.entries":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			if !ok || o.kind != "" {
				j.unsup("Object.%s", p)
			}
			var r []JV
			for _, k := range o.own() {
				if strings.HasPrefix(k, "@@") {
					continue
				}
				switch p {
				case "keys":
					r = append(r, &JS{s: k})
				case "values":
					r = append(r, o.props[k])
				default:
					r = append(r, j.array([]JV{&JS{s: k}, o.props[k]}))
				}
			}
			return j.array(r)
		})
	case "Object.assign":
		return fn(func(a []JV) JV {
			o, ok := arg(a, 0).(*JObj)
			for _, s := range a[1:] {
				if x, ok2 := s.(*JObj); ok && ok2 {
					for _, k := range x.keys {
						o.set(k, x.props[k])
					}
				}
			}
			return arg(a, 0)
		})
	case "Error.captureStackTrace":
		return fn(func(a []JV) JV { return jUndef{} })
	case "Error.prototype":
		return nil
	}
	return nil
}

// ---- members of built-in objects ----

func (j *TSExec) builtinProp(o *JObj, p string) JV {
	tb := j.tb
	if p == "constructor" && o.cls != nil {
		return &JFn{name: o.cls.name, cls: o.cls}
	}
	switch {
	case o.kind == "Array":
		return j.arrayProp(o, p)
	case o.kind == "symbol":
		if p == "toString" || p == "description" {
			j.unsup("text of a symbol")
		}
	case o.kind == "Generator":
		if p == "next" {
			return j.nat(p, func(t JV, a []JV) JV {
				g, ok := t.(*JObj)
				if !ok || g.gen == nil {
					j.throwErr("TypeError", "next of something else")
				}
				v, more := g.gen.next(arg(a, 0))
				r := j.newObj("")
				r.set("value", v)
				r.set("done", &JB{tb.Bool(!more)})
				return r
			})
		}
		if p == "@@iterator" {
			return j.nat(p, func(t JV, a []JV) JV { return t })
		}
		j.unsup("generator property %s", p)
	case o.kind == "Map" || o.kind == "Set":
		return j.mapProp(o, p)
	case elemSize[o.kind] > 0:
		sz := elemSize[o.kind]
		switch p {
		case "length":
			return j.lenI(o.len)
		case "byteLength":
			return j.lenI(tb.Mul(o.len, tb.I(sz)))
		case "byteOffset":
			return j.lenI(o.off)
		case "buffer":
			return o.buf.obj
		case "BYTES_PER_ELEMENT":
			return j.num(sz)
		}
		return j.typedMethod(o, p)
	case o.kind == "ArrayBuffer":
		switch p {
		case "byteLength", "maxByteLength":
			return j.lenI(o.buf.o.size)
		case "resizable", "detached":
			return &JB{tb.fls}
		case "slice":
			return j.nat(p, func(this JV, a []JV) JV {
				b := o.buf
				s, n := j.sliceRange(b.o.size, arg(a, 0), arg(a, 1))
				return j.newBuf("slice", n, copyC(&Content{k: CZero}, tb.I(0), b.o.c, s, n)).obj
			})
		}
	case o.kind == "DataView":
		switch p {
		case "byteLength":
			return j.lenI(o.len)
		case "byteOffset":
			return j.lenI(o.off)
		case "buffer":
			return o.buf.obj
		}
		if len(p) > 3 && (p[:3] == "get" || p[:3] == "set") {
			kind := p[3:]
			sz := elemSize[kind+"Array"]
			if sz == 0 {
				return nil
			}
			return j.nat(p, func(this JV, a []JV) JV {
				v, ok := this.(*JObj)
				if !ok || v.kind != "DataView" {
					j.throwErr("TypeError", "DataView method on something else")
				}
				at := j.toIndex(arg(a, 0))
				li := 1
				var t *T
				if p[0] == 's' {
					li = 2
					t = j.encodeNum(kind, arg(a, 1))
				}
				little := j.truth(arg(a, li))
				if !j.e.branch(tb.BAnd(tb.Ule(at, v.len), tb.Ule(tb.I(sz), tb.Sub(v.len, at)))) {
					j.throwErr("RangeError", "outside the DataView")
				}
				if p[0] == 's' {
					j.rawWrite(v.buf, tb.Add(v.off, at), t, sz, little)
					return jUndef{}
				}
				return j.decodeNum(kind, j.rawRead(v.buf.o, tb.Add(v.off, at), sz, little))
			})
		}
	case o.kind == "TextEncoder":
		switch p {
		case "encode":
			return j.nat(p, func(this JV, a []JV) JV {
				if isUndef(arg(a, 0)) {
					return j.newTyped("Uint8Array", 1, []JV{j.num(0)})
				}
				c, off, n := j.utf8Of(j.toStr(a[0]))
				return j.view("Uint8Array", j.newBuf("encoded", n, copyC(&Content{k: CZero}, tb.I(0), c, off, n)), tb.I(0), n)
			})
		case "encodeInto":
			return j.nat(p, func(this JV, a []JV) JV {
				s := j.toStr(arg(a, 0))
				c, off, n := j.utf8Of(s)
				d, ok := arg(a, 1).(*JObj)
				if !ok || d.kind != "Uint8Array" {
					j.throwErr("TypeError", "encodeInto")
				}
				if !j.e.branch(tb.Ule(n, d.len)) {
					j.unsup("encodeInto a short array")
				}
				j.touch(d.buf)
				d.buf.o.c = copyC(d.buf.o.c, d.off, c, off, n)
				r := j.newObj("")
				r.set("read", j.strProp(s, "length"))
				r.set("written", j.lenI(n))
				return r
			})
		case "encoding":
			return &JS{s: "utf-8"}
		}
	case o.kind == "TextDecoder":
		if p == "decode" {
			return j.nat(p, func(this JV, a []JV) JV { return j.decodeText(this.(*JObj), a) })
		}
	case o.kind == "Error":
		switch p {
		case "message":
			return &JS{s: ""}
		case "name":
			if o.cls != nil {
				return &JS{s: o.cls.root().name}
			}
			return &JS{s: "Error"}
		case "stack":
			return j.opaqueStr()
		case "toString":
			return j.nat(p, func(JV, []JV) JV { return j.opaqueStr() })
		}
	}
	switch p {
	case "toString", "toLocaleString":
		return j.nat(p, func(JV, []JV) JV { return j.opaqueStr() })
	case "hasOwnProperty":
		return j.nat(p, func(this JV, a []JV) JV {
			_, ok := this.(*JObj).props[j.propKey(arg(a, 0))]
			return &JB{tb.Bool(ok)}
		})
	case "valueOf":
		return j.nat(p, func(this JV, a []JV) JV { return this })
	}
	return nil
}

func (j *TSExec) utf8Of(s *JS) (*Content, *T, *T) {
	if s.sym != nil {
		if s.sym.valid != nil && !s.sym.valid.isTrue() && !j.e.valid(s.sym.valid) {
			j.unsup("the UTF-8 form of a string decoded with replacements")
		}
		return s.sym.c, s.sym.off, s.sym.n
	}
	return &Content{k: CLit, lit: s.s}, j.tb.I(0), j.tb.I(int64(len(s.s)))
}

func (j *TSExec) decodeText(d *JObj, a []JV) JV {
	tb := j.tb
	var c *Content
	var off, n *T
	switch x := arg(a, 0).(type) {
	case jUndef:
		return &JS{s: ""}
	case *JObj:
		switch {
		case x.kind == "ArrayBuffer":
			c, off, n = x.buf.o.c, tb.I(0), x.buf.o.size
		case x.kind == "DataView" || x.kind == "Uint8Array" || x.kind == "Int8Array":
			c, off, n = x.buf.o.c, x.off, x.len
		default:
			j.unsup("TextDecoder of %s", x.kind)
		}
	default:
		j.throwErr("TypeError", "TextDecoder.decode")
	}
	if o, ok := arg(a, 1).(*JObj); ok && len(o.props) > 0 {
		j.unsup("TextDecoder options")
	}
	valid := j.utfPred(bytesRef{nil, c, off, n})
	if d.flags["fatal"] && !j.e.branch(valid) {
		j.throwErr("TypeError", "invalid UTF-8")
	}
	if !d.flags["ignoreBOM"] {
		at := func(i int64) *T { return j.e.read(c, tb.Add(off, tb.I(i))) }
		if j.e.branch(tb.Ule(tb.I(3), n)) && j.e.branch(tb.BAnd(tb.Eq(at(0), tb.Const(8, 0xef)), tb.Eq(at(1), tb.Const(8, 0xbb)), tb.Eq(at(2), tb.Const(8, 0xbf)))) {
			off, n = tb.Add(off, tb.I(3)), tb.Sub(n, tb.I(3))
		}
	}
	return &JS{sym: &JText{c: c, off: off, n: n, valid: valid}}
}

// relIndex clamps a relative index into [0,n].
func (j *TSExec) relIndex(v JV, n *T, dflt *T) *T {
	tb := j.tb
	if isUndef(v) {
		return dflt
	}
	var x *JI
	switch y := j.toNumber(v).(type) {
	case *JI:
		x = y
	case *JQ:
		x = j.truncQ(y)
	case *JF:
		f, ok := constF(y)
		switch {
		case ok && math.IsNaN(f):
			return tb.I(0)
		case ok && math.IsInf(f, 1):
			return n
		case ok && math.IsInf(f, -1):
			return tb.I(0)
		}
		j.unsup("index")
	}
	if j.e.branch(j.lt(x, j.num(0))) {
		m := j.add(x, j.lenI(n))
		if j.e.branch(j.lt(m, j.num(0))) {
			return tb.I(0)
		}
		return m.lo
	}
	if j.e.branch(j.lt(j.lenI(n), x)) {
		return n
	}
	return x.lo
}

func (j *TSExec) sliceRange(n *T, a, b JV) (*T, *T) {
	tb := j.tb
	s := j.relIndex(a, n, tb.I(0))
	e := j.relIndex(b, n, n)
	if j.e.branch(tb.Ule(s, e)) {
		return s, tb.Sub(e, s)
	}
	return s, tb.I(0)
}

func (j *TSExec) typedMethod(self *JObj, p string) JV {
	tb := j.tb
	this := func(v JV) *JObj {
		o, ok := v.(*JObj)
		if !ok || elemSize[o.kind] == 0 {
			j.throwErr("TypeError", "typed array method on something else")
		}
		return o
	}
	switch p {
	case "set":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			at := j.toIndex(arg(a, 1))
			src, ok := arg(a, 0).(*JObj)
			if !ok {
				j.unsup("set from %s", typeOf(arg(a, 0)))
			}
			sz := elemSize[o.kind]
			fits := func(n *T) {
				if !j.e.branch(tb.BAnd(tb.Ule(at, o.len), tb.Ule(n, tb.Sub(o.len, at)))) {
					j.throwErr("RangeError", "set outside the array")
				}
			}
			if src.kind == "Array" {
				fits(tb.I(int64(len(src.elems))))
				for i, v := range src.elems {
					j.rawWrite(o.buf, tb.Add(o.off, tb.Mul(tb.Add(at, tb.I(int64(i))), tb.I(sz))), j.encodeNum(elemKind(o.kind), v), sz, true)
				}
				return jUndef{}
			}
			if elemSize[src.kind] != sz || src.kind != o.kind {
				j.unsup("set from %s", src.kind)
			}
			fits(src.len)
			j.touch(o.buf)
			o.buf.o.c = copyC(o.buf.o.c, tb.Add(o.off, tb.Mul(at, tb.I(sz))), src.buf.o.c, src.off, tb.Mul(src.len, tb.I(sz)))
			return jUndef{}
		})
	case "subarray", "slice":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			sz := elemSize[o.kind]
			s, n := j.sliceRange(o.len, arg(a, 0), arg(a, 1))
			at := tb.Add(o.off, tb.Mul(s, tb.I(sz)))
			if p == "subarray" {
				return j.view(o.kind, o.buf, at, n)
			}
			bytes := tb.Mul(n, tb.I(sz))
			return j.view(o.kind, j.newBuf("slice", bytes, copyC(&Content{k: CZero}, tb.I(0), o.buf.o.c, at, bytes)), tb.I(0), n)
		})
	case "fill":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			if elemSize[o.kind] != 1 {
				j.unsup("fill of %s", o.kind)
			}
			v := j.encodeNum(elemKind(o.kind), arg(a, 0))
			s, n := j.sliceRange(o.len, arg(a, 1), arg(a, 2))
			j.touch(o.buf)
			at := tb.Add(o.off, s)
			if v.isConst() && v.c == 0 {
				o.buf.o.c = copyC(o.buf.o.c, at, &Content{k: CZero}, tb.I(0), n)
				return o
			}
			if !n.isConst() || n.c > 4096 {
				j.unsup("fill of unknown length")
			}
			for i := int64(0); i < int64(n.c); i++ {
				o.buf.o.c = store(o.buf.o.c, tb.Add(at, tb.I(i)), v)
			}
			return o
		})
	case "copyWithin":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			if elemSize[o.kind] != 1 {
				j.unsup("copyWithin of %s", o.kind)
			}
			d := j.relIndex(arg(a, 0), o.len, tb.I(0))
			s, n := j.sliceRange(o.len, arg(a, 1), arg(a, 2))
			room := tb.Sub(o.len, d)
			if !j.e.branch(tb.Ule(n, room)) {
				n = room
			}
			j.touch(o.buf)
			o.buf.o.c = copyC(o.buf.o.c, tb.Add(o.off, d), o.buf.o.c, tb.Add(o.off, s), n)
			return o
		})
	case "at":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			x, ok := j.toNumber(arg(a, 0)).(*JI)
			if !ok {
				j.unsup("at")
			}
			if j.e.branch(j.lt(x, j.num(0))) {
				x = j.add(x, j.lenI(o.len))
			}
			return j.getIndex(o, x)
		})
	case "reverse":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			if !o.len.isConst() || o.len.c > 64 || elemSize[o.kind] != 1 {
				j.unsup("reverse")
			}
			n := int64(o.len.c)
			var vs []*T
			for i := int64(0); i < n; i++ {
				vs = append(vs, j.e.read(o.buf.o.c, tb.Add(o.off, tb.I(i))))
			}
			j.touch(o.buf)
			for i := int64(0); i < n; i++ {
				o.buf.o.c = store(o.buf.o.c, tb.Add(o.off, tb.I(i)), vs[n-1-i])
			}
			return o
		})
	}
	_ = self
	switch p {
	case "forEach", "map", "filter", "reduce", "reduceRight", "entries", "values", "keys", "findIndex", "every", "some", "indexOf", "includes", "find", "join":
		return j.nat(p, func(t JV, a []JV) JV {
			o := this(t)
			arr := j.array(j.iterate(o))
			r := j.call(j.arrayProp(arr, p), arr, a)
			if p == "map" || p == "filter" {
				return j.newTyped(o.kind, elemSize[o.kind], []JV{r})
			}
			return r
		})
	}
	return nil
}

func (j *TSExec) arrayProp(o *JObj, p string) JV {
	tb := j.tb
	cb := func(f JV, i int, x *JObj) JV { return j.call(f, jUndef{}, []JV{x.elems[i], j.num(int64(i)), x}) }
	m := func(f func(x *JObj, a []JV) JV) JV {
		return j.nat(p, func(t JV, a []JV) JV {
			x, ok := t.(*JObj)
			if !ok || x.kind != "Array" {
				j.unsup("array method on something else")
			}
			return f(x, a)
		})
	}
	switch p {
	case "push", "pop", "reverse", "fill", "shift", "unshift", "splice", "sort":
		j.changed(o, "array")
	}
	switch p {
	case "length":
		return j.num(int64(len(o.elems)))
	case "push":
		return m(func(x *JObj, a []JV) JV { x.elems = append(x.elems, a...); return j.num(int64(len(x.elems))) })
	case "pop":
		return m(func(x *JObj, a []JV) JV {
			if len(x.elems) == 0 {
				return jUndef{}
			}
			v := x.elems[len(x.elems)-1]
			x.elems = x.elems[:len(x.elems)-1]
			return v
		})
	case "forEach":
		return m(func(x *JObj, a []JV) JV {
			for i := range x.elems {
				cb(a[0], i, x)
			}
			return jUndef{}
		})
	case "map":
		return m(func(x *JObj, a []JV) JV {
			var r []JV
			for i := range x.elems {
				r = append(r, cb(a[0], i, x))
			}
			return j.array(r)
		})
	case "reduce":
		return m(func(x *JObj, a []JV) JV {
			i := 0
			acc := arg(a, 1)
			if len(a) < 2 {
				if len(x.elems) == 0 {
					j.throwErr("TypeError", "reduce of nothing")
				}
				acc, i = x.elems[0], 1
			}
			for ; i < len(x.elems); i++ {
				acc = j.call(a[0], jUndef{}, []JV{acc, x.elems[i], j.num(int64(i))})
			}
			return acc
		})
	case "reduceRight":
		return m(func(x *JObj, a []JV) JV {
			i := len(x.elems) - 1
			acc := arg(a, 1)
			if len(a) < 2 {
				if len(x.elems) == 0 {
					j.throwErr("TypeError", "reduce of nothing")
				}
				acc, i = x.elems[i], i-1
			}
			for ; i >= 0; i-- {
				acc = j.call(a[0], jUndef{}, []JV{acc, x.elems[i], j.num(int64(i))})
			}
			return acc
		})
	case "filter":
		return m(func(x *JObj, a []JV) JV {
			var r []JV
			for i := range x.elems {
				if j.truth(cb(a[0], i, x)) {
					r = append(r, x.elems[i])
				}
			}
			return j.array(r)
		})
	case "findIndex":
		return m(func(x *JObj, a []JV) JV {
			for i := range x.elems {
				if j.truth(cb(a[0], i, x)) {
					return j.num(int64(i))
				}
			}
			return j.num(-1)
		})
	case "entries", "keys", "values":
		// an array in the place of the iterator
		return m(func(x *JObj, a []JV) JV {
			var r []JV
			for i, v := range x.elems {
				switch p {
				case "keys":
					r = append(r, j.num(int64(i)))
				case "values":
					r = append(r, v)
				default:
					r = append(r, j.array([]JV{j.num(int64(i)), v}))
				}
			}
			return j.array(r)
		})
	case "at":
		return m(func(x *JObj, a []JV) JV {
			i, ok := j.toNumber(arg(a, 0)).(*JI)
			if !ok {
				j.unsup("at")
			}
			if j.e.branch(j.lt(i, j.num(0))) {
				i = j.add(i, j.num(int64(len(x.elems))))
			}
			return j.getIndex(x, i)
		})
	case "flat", "flatMap":
		return m(func(x *JObj, a []JV) JV {
			var r []JV
			if p == "flat" && len(a) > 0 {
				j.unsup("flat with a depth")
			}
			for i, v := range x.elems {
				if p == "flatMap" {
					v = cb(a[0], i, x)
				}
				if y, ok := v.(*JObj); ok && y.kind == "Array" {
					r = append(r, y.elems...)
				} else {
					r = append(r, v)
				}
			}
			return j.array(r)
		})
	case "shift":
		return m(func(x *JObj, a []JV) JV {
			if len(x.elems) == 0 {
				return jUndef{}
			}
			v := x.elems[0]
			x.elems = append([]JV{}, x.elems[1:]...)
			return v
		})
	case "unshift":
		return m(func(x *JObj, a []JV) JV {
			x.elems = append(append([]JV{}, a...), x.elems...)
			return j.num(int64(len(x.elems)))
		})
	case "every", "some":
		return m(func(x *JObj, a []JV) JV {
			for i := range x.elems {
				if j.truth(cb(a[0], i, x)) != (p == "every") {
					return &JB{tb.Bool(p == "some")}
				}
			}
			return &JB{tb.Bool(p == "every")}
		})
	case "find":
		return m(func(x *JObj, a []JV) JV {
			for i := range x.elems {
				if j.truth(cb(a[0], i, x)) {
					return x.elems[i]
				}
			}
			return jUndef{}
		})
	case "includes", "indexOf":
		return m(func(x *JObj, a []JV) JV {
			for i := range x.elems {
				if j.e.branch(j.strictEq(x.elems[i], arg(a, 0))) {
					if p == "includes" {
						return &JB{tb.tru}
					}
					return j.num(int64(i))
				}
			}
			if p == "includes" {
				return &JB{tb.fls}
			}
			return j.num(-1)
		})
	case "concat":
		return m(func(x *JObj, a []JV) JV {
			r := append([]JV{}, x.elems...)
			for _, v := range a {
				if y, ok := v.(*JObj); ok && y.kind == "Array" {
					r = append(r, y.elems...)
				} else {
					r = append(r, v)
				}
			}
			return j.array(r)
		})
	case "slice":
		return m(func(x *JObj, a []JV) JV {
			s, n := j.sliceRange(tb.I(int64(len(x.elems))), arg(a, 0), arg(a, 1))
			if !s.isConst() || !n.isConst() {
				j.unsup("array slice")
			}
			return j.array(append([]JV{}, x.elems[s.c:s.c+n.c]...))
		})
	case "reverse":
		return m(func(x *JObj, a []JV) JV {
			for i, k := 0, len(x.elems)-1; i < k; i, k = i+1, k-1 {
				x.elems[i], x.elems[k] = x.elems[k], x.elems[i]
			}
			return x
		})
	case "fill":
		return m(func(x *JObj, a []JV) JV {
			if len(a) > 1 {
				j.unsup("array fill")
			}
			for i := range x.elems {
				x.elems[i] = a[0]
			}
			return x
		})
	case "join":
		return m(func(x *JObj, a []JV) JV { return j.opaqueStr() })
	}
	return nil
}
