package main

import (
	"math"
	"math/big"
	"math/bits"
)

// JavaScript values. Numbers that are integers, and bigints, are kept as
// machine words together with an interval that makes the arithmetic exact.

type JV interface{}

type jUndef struct{}
type jNull struct{}
type JB struct{ t *T }

// JI is an integer: in one 64-bit word (unsigned when the interval is not
// negative, otherwise two's complement) or, with hi, in two.
type JI struct {
	big      bool
	lo, hi   *T
	min, max *big.Int
}

// JF is a number given by the bits of its float64.
type JF struct{ bits *T }

// JQ is the number n / 2^k.
type JQ struct {
	n *JI
	k uint
}

// JS is a string: a known one, or one known by its UTF-8 form.
type JS struct {
	s   string
	sym *JText
}

type JText struct {
	c      *Content
	off, n *T
	valid  *T // the bytes were well-formed UTF-8 (otherwise nothing is known)
	ulen   *T // UTF-16 length
}

type JObj struct {
	id    int
	kind  string // "", "Uint8Array", "ArrayBuffer", "DataView", "Error", "Array", "Map", "TextEncoder", ...
	cls   *JClass
	keys  []string
	props map[string]JV
	buf   *JBuf
	off   *T
	len   *T
	elems []JV
	gen   *JGen
	mkeys []JV // of a Map or Set; the values are in elems
	flags map[string]bool
	init  bool // made while the modules were loaded
}

type JBuf struct {
	o    *BObj
	init bool // made while the modules were loaded
	id   int
	obj  *JObj
}

type JClass struct {
	name    string
	ext     *JClass
	builtin string
	ctor    *TN
	sc      *scope
	members map[string]*JMember
	fields  []*TN
	statics map[string]*JMember
	sprops  map[string]JV
	proto   *JObj
}

type JMember struct {
	get, set, fn *JFn
}

type JFn struct {
	name string
	node *TN
	sc   *scope
	this JV // arrow functions
	home *JClass
	nat  func(this JV, args []JV) JV
	cls  *JClass
	ctor bool // a builtin used with new
	nt   JV   // bound
	sts  map[string]JV
}

var (
	bigZero = big.NewInt(0)
	two64   = new(big.Int).Lsh(big.NewInt(1), 64)
	two63   = new(big.Int).Lsh(big.NewInt(1), 63)
	neg63   = new(big.Int).Neg(two63)
	two53   = new(big.Int).Lsh(big.NewInt(1), 53)
	neg53   = new(big.Int).Neg(two53)
	two126  = new(big.Int).Lsh(big.NewInt(1), 126)
)

func bi(x int64) *big.Int          { return big.NewInt(x) }
func fitsU(min, max *big.Int) bool { return min.Sign() >= 0 && max.Cmp(two64) < 0 }
func fitsS(min, max *big.Int) bool { return min.Cmp(neg63) >= 0 && max.Cmp(two63) < 0 }
func (x *JI) isU() bool            { return x.hi == nil && x.min.Sign() >= 0 }
func (x *JI) word() bool           { return x.hi == nil }
func (x *JI) isConst() bool        { return x.min.Cmp(x.max) == 0 }
func bigMin(a ...*big.Int) (r *big.Int) {
	for _, x := range a {
		if r == nil || x.Cmp(r) < 0 {
			r = x
		}
	}
	return
}
func bigMax(a ...*big.Int) (r *big.Int) {
	for _, x := range a {
		if r == nil || x.Cmp(r) > 0 {
			r = x
		}
	}
	return
}

func (j *TSExec) konst(big_ bool, v *big.Int) *JI {
	m := new(big.Int).And(v, new(big.Int).Sub(two64, bi(1)))
	r := &JI{big: big_, min: v, max: v, lo: j.tb.Const(64, m.Uint64())}
	if !fitsU(v, v) && !fitsS(v, v) {
		h := new(big.Int).Rsh(v, 64)
		h.And(h, new(big.Int).Sub(two64, bi(1)))
		r.hi = j.tb.Const(64, h.Uint64())
	}
	return r
}
func (j *TSExec) num(v int64) *JI { return j.konst(false, bi(v)) }

// mk builds an integer whose words are lo and, where one word does not do, hi.
func (j *TSExec) mk(big_ bool, lo *T, hi func() *T, min, max *big.Int) *JI {
	if lo.isConst() && (fitsU(min, max) || fitsS(min, max)) {
		v := new(big.Int).SetUint64(lo.c)
		if min.Sign() < 0 && lo.c>>63 == 1 {
			v.Sub(v, two64)
		}
		return &JI{big: big_, lo: lo, min: v, max: v}
	}
	if fitsU(min, max) {
		if m := new(big.Int).SetUint64(j.tb.maxU(lo)); m.Cmp(max) < 0 {
			max = m
		}
		return &JI{big: big_, lo: lo, min: min, max: max}
	}
	if fitsS(min, max) {
		return &JI{big: big_, lo: lo, min: min, max: max}
	}
	if min.CmpAbs(two126) >= 0 || max.CmpAbs(two126) >= 0 {
		j.e.unsup("integer beyond 126 bits")
	}
	return &JI{big: big_, lo: lo, hi: hi(), min: min, max: max}
}

func (j *TSExec) hiOf(x *JI) *T {
	if x.hi != nil {
		return x.hi
	}
	if x.min.Sign() >= 0 {
		return j.tb.I(0)
	}
	return j.tb.Shift(OAshr, x.lo, j.tb.I(63))
}

// exact makes sure a Number stays where every integer is a float64.
func (j *TSExec) exact(x *JI) *JI {
	if x.big || x.min.Cmp(neg53) >= 0 && x.max.Cmp(two53) <= 0 {
		return x
	}
	if x.min.Cmp(neg53) < 0 {
		if !j.e.valid(j.tb.BNot(j.lt(x, j.konst(false, neg53)))) {
			j.e.unsup("a number below -2^53")
		}
		x = j.narrow(x, neg53, x.max)
	}
	if x.max.Cmp(two53) > 0 {
		if !j.e.valid(j.tb.BNot(j.lt(j.konst(false, two53), x))) {
			j.e.unsup("a number above 2^53")
		}
		x = j.narrow(x, x.min, two53)
	}
	return x
}

// narrow restates x with a smaller interval it is known to be in.
func (j *TSExec) narrow(x *JI, min, max *big.Int) *JI {
	if fitsU(min, max) || fitsS(min, max) {
		return &JI{big: x.big, lo: x.lo, min: min, max: max}
	}
	return &JI{big: x.big, lo: x.lo, hi: j.hiOf(x), min: min, max: max}
}

func (j *TSExec) add(x, y *JI) *JI {
	lo := j.tb.Add(x.lo, y.lo)
	return j.mk(x.big, lo, func() *T {
		c := j.tb.Ite(j.tb.Ult(lo, x.lo), j.tb.I(1), j.tb.I(0))
		return j.tb.Add(j.tb.Add(j.hiOf(x), j.hiOf(y)), c)
	}, new(big.Int).Add(x.min, y.min), new(big.Int).Add(x.max, y.max))
}
func (j *TSExec) sub(x, y *JI) *JI {
	lo := j.tb.Sub(x.lo, y.lo)
	return j.mk(x.big, lo, func() *T {
		c := j.tb.Ite(j.tb.Ult(x.lo, y.lo), j.tb.I(1), j.tb.I(0))
		return j.tb.Sub(j.tb.Sub(j.hiOf(x), j.hiOf(y)), c)
	}, new(big.Int).Sub(x.min, y.max), new(big.Int).Sub(x.max, y.min))
}
func (j *TSExec) neg(x *JI) *JI { return j.sub(j.konst(x.big, bigZero), x) }

func (j *TSExec) shl(x *JI, k uint) *JI {
	if k == 0 {
		return x
	}
	min, max := new(big.Int).Lsh(x.min, k), new(big.Int).Lsh(x.max, k)
	tb := j.tb
	if k >= 64 {
		if !fitsU(min, max) && !fitsS(min, max) {
			return j.mk(x.big, tb.I(0), func() *T { return tb.Shift(OShl, x.lo, tb.I(int64(k-64))) }, min, max)
		}
		return j.mk(x.big, tb.I(0), nil, min, max)
	}
	return j.mk(x.big, tb.Shift(OShl, x.lo, tb.I(int64(k))), func() *T {
		return tb.Or(tb.Shift(OShl, j.hiOf(x), tb.I(int64(k))), tb.Shift(OLshr, x.lo, tb.I(int64(64-k))))
	}, min, max)
}

// floor(x / 2^k)
func (j *TSExec) shr(x *JI, k uint) *JI {
	if k == 0 {
		return x
	}
	tb := j.tb
	min, max := new(big.Int).Rsh(x.min, k), new(big.Int).Rsh(x.max, k)
	if x.word() {
		op := OLshr
		if x.min.Sign() < 0 {
			op = OAshr
		}
		if k > 63 {
			if op == OLshr {
				return j.konst(x.big, bigZero)
			}
			k = 63
		}
		return j.mk(x.big, tb.Shift(op, x.lo, tb.I(int64(k))), nil, min, max)
	}
	if k >= 64 {
		hi := tb.Shift(OAshr, x.hi, tb.I(int64(min64(k-64, 63))))
		return j.mk(x.big, hi, func() *T { return tb.Shift(OAshr, x.hi, tb.I(63)) }, min, max)
	}
	lo := tb.Or(tb.Shift(OLshr, x.lo, tb.I(int64(k))), tb.Shift(OShl, x.hi, tb.I(int64(64-k))))
	return j.mk(x.big, lo, func() *T { return tb.Shift(OAshr, x.hi, tb.I(int64(k))) }, min, max)
}
func min64(a, b uint) uint {
	if a < b {
		return a
	}
	return b
}

func (j *TSExec) mul(x, y *JI) *JI {
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	p := []*big.Int{new(big.Int).Mul(x.min, y.min), new(big.Int).Mul(x.min, y.max), new(big.Int).Mul(x.max, y.min), new(big.Int).Mul(x.max, y.max)}
	min, max := bigMin(p...), bigMax(p...)
	if min.Cmp(max) == 0 {
		return j.konst(x.big, min)
	}
	if fitsU(min, max) || fitsS(min, max) {
		return j.mk(x.big, j.tb.Mul(x.lo, y.lo), nil, min, max)
	}
	if y.isConst() {
		c := y.min
		neg := c.Sign() < 0
		a := new(big.Int).Abs(c)
		r := j.konst(x.big, bigZero)
		for i := a.BitLen() - 1; i >= 0; i-- {
			if a.Bit(i) == 1 {
				r = j.add(r, j.shl(x, uint(i)))
			}
		}
		if neg {
			r = j.neg(r)
		}
		return r
	}
	j.e.unsup("product of two unknown numbers")
	return nil
}

// truncating division by a constant
func (j *TSExec) quo(x, y *JI) *JI {
	if !y.isConst() {
		j.e.unsup("division by an unknown number")
	}
	d := y.min
	if d.Sign() < 0 {
		return j.neg(j.quo(x, j.konst(y.big, new(big.Int).Neg(d))))
	}
	if x.isConst() {
		return j.konst(x.big, new(big.Int).Quo(x.min, d))
	}
	if x.min.Sign() < 0 {
		if x.max.Sign() > 0 {
			if j.e.branch(j.lt(x, j.konst(x.big, bigZero))) {
				x = j.narrow(x, x.min, bi(-1))
			} else {
				x = j.narrow(x, bigZero, x.max)
			}
		}
		if x.min.Sign() < 0 {
			return j.neg(j.quo(j.neg(x), y))
		}
	}
	if k := pow2(d); k >= 0 {
		return j.shr(x, uint(k))
	}
	if !x.word() || d.BitLen() > 64 {
		j.e.unsup("division of a wide number")
	}
	return j.mk(x.big, j.tb.Div(OUdiv, x.lo, j.tb.Const(64, d.Uint64())), nil, new(big.Int).Quo(x.min, d), new(big.Int).Quo(x.max, d))
}
func (j *TSExec) rem(x, y *JI) *JI {
	if !y.isConst() {
		j.e.unsup("remainder by an unknown number")
	}
	d := new(big.Int).Abs(y.min)
	if x.isConst() {
		return j.konst(x.big, new(big.Int).Rem(x.min, d))
	}
	if k := pow2(d); k >= 0 && k < 64 && x.min.Sign() >= 0 {
		return j.mk(x.big, j.tb.And(x.lo, j.tb.Const(64, d.Uint64()-1)), nil, bigZero, bigMin(x.max, new(big.Int).Sub(d, bi(1))))
	}
	q := j.quo(x, j.konst(x.big, d))
	r := j.sub(x, j.mul(q, j.konst(x.big, d)))
	lim := new(big.Int).Sub(d, bi(1))
	min := new(big.Int).Neg(lim)
	if x.min.Sign() >= 0 {
		min = bigZero
	}
	return j.narrow(r, min, lim)
}
func pow2(d *big.Int) int {
	if d.Sign() <= 0 {
		return -1
	}
	k := d.BitLen() - 1
	if new(big.Int).Lsh(bi(1), uint(k)).Cmp(d) == 0 {
		return k
	}
	return -1
}

func (j *TSExec) bitop(op string, x, y *JI) *JI {
	tb := j.tb
	f := map[string]func(a, b *T) *T{"&": tb.And, "|": tb.Or, "^": tb.Xor}[op]
	min, max := bigZero, bigZero
	if x.min.Sign() >= 0 && y.min.Sign() >= 0 {
		if op == "&" {
			max = bigMin(x.max, y.max)
		} else {
			b := x.max.BitLen()
			if c := y.max.BitLen(); c > b {
				b = c
			}
			max = new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(b)), bi(1))
			if op == "|" {
				min = bigMax(x.min, y.min)
			}
		}
	} else if op == "&" && y.min.Sign() >= 0 {
		max = y.max
	} else if op == "&" && x.min.Sign() >= 0 {
		max = x.max
	} else {
		b := 0
		for _, v := range []*big.Int{x.min, x.max, y.min, y.max} {
			if v.BitLen() > b {
				b = v.BitLen()
			}
		}
		max = new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(b)), bi(1))
		min = new(big.Int).Neg(new(big.Int).Lsh(bi(1), uint(b)))
	}
	return j.mk(x.big, f(x.lo, y.lo), func() *T { return f(j.hiOf(x), j.hiOf(y)) }, min, max)
}

func (j *TSExec) lt(x, y *JI) *T {
	tb := j.tb
	if x.max.Cmp(y.min) < 0 {
		return tb.tru
	}
	if x.min.Cmp(y.max) >= 0 {
		return tb.fls
	}
	if x.isU() && y.isU() {
		return tb.Ult(x.lo, y.lo)
	}
	if x.word() && y.word() && x.max.Cmp(two63) < 0 && y.max.Cmp(two63) < 0 {
		return tb.Slt(x.lo, y.lo)
	}
	hx, hy := j.hiOf(x), j.hiOf(y)
	return tb.BOr(tb.Slt(hx, hy), tb.BAnd(tb.Eq(hx, hy), tb.Ult(x.lo, y.lo)))
}
func (j *TSExec) eq(x, y *JI) *T {
	tb := j.tb
	if x.max.Cmp(y.min) < 0 || y.max.Cmp(x.min) < 0 {
		return tb.fls
	}
	if x.isU() && y.isU() || x.word() && y.word() && x.max.Cmp(two63) < 0 && y.max.Cmp(two63) < 0 {
		return tb.Eq(x.lo, y.lo)
	}
	return tb.BAnd(tb.Eq(x.lo, y.lo), tb.Eq(j.hiOf(x), j.hiOf(y)))
}
func (j *TSExec) iteI(c *T, x, y *JI) *JI {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	return j.mk(x.big, j.tb.Ite(c, x.lo, y.lo), func() *T { return j.tb.Ite(c, j.hiOf(x), j.hiOf(y)) }, bigMin(x.min, y.min), bigMax(x.max, y.max))
}

// unsigned word as a number
func (j *TSExec) uword(big_ bool, t *T) *JI {
	w := t.w
	if w < 64 {
		t = j.tb.Zext(t, 64)
	}
	return j.mk(big_, t, nil, bigZero, new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(w)), bi(1)))
}
func (j *TSExec) sword(big_ bool, t *T) *JI {
	w := t.w
	h := new(big.Int).Lsh(bi(1), uint(w-1))
	if w < 64 {
		if j.tb.maxU(t) < 1<<uint(w-1) {
			return j.uword(big_, t)
		}
		t = j.tb.Sext(t, 64)
	}
	return j.mk(big_, t, nil, new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1)))
}
func (j *TSExec) i32(t *T, signed bool) *JI {
	if m := j.tb.maxU(t); m < 1<<31 {
		return j.mk(false, j.tb.Zext(t, 64), nil, bigZero, new(big.Int).SetUint64(m))
	}
	if signed {
		return j.sword(false, t)
	}
	return j.uword(false, t)
}

func (j *TSExec) numF(f float64) JV {
	if f == math.Trunc(f) && math.Abs(f) <= 1<<53 && !(f == 0 && math.Signbit(f)) {
		return j.num(int64(f))
	}
	return &JF{j.tb.Const(64, math.Float64bits(f))}
}
func constF(x JV) (float64, bool) {
	switch v := x.(type) {
	case *JF:
		if v.bits.isConst() {
			return math.Float64frombits(v.bits.c), true
		}
	case *JI:
		if v.isConst() {
			f, _ := new(big.Float).SetInt(v.min).Float64()
			return f, true
		}
	case *JQ:
		if v.n.isConst() {
			f, _ := new(big.Float).SetInt(v.n.min).Float64()
			return math.Ldexp(f, -int(v.k)), true
		}
	}
	return 0, false
}
func (j *TSExec) isNaN(b *T) *T {
	tb := j.tb
	if b.isConst() {
		return tb.Bool(math.IsNaN(math.Float64frombits(b.c)))
	}
	return tb.Ult(tb.Const(64, 0x7ff0000000000000), tb.And(b, tb.Const(64, 1<<63-1)))
}

// rounding between the float formats is an uninterpreted pair of functions,
// inverse to one another where the standard says so
func (j *TSExec) f32round(b *T) *T {
	if b.isConst() {
		return j.tb.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(b.c)))))
	}
	if s, ok := j.f64src[b]; ok {
		return s
	}
	for _, q := range j.rounds {
		if q[0] == b {
			return q[1]
		}
	}
	v := j.e.fresh("f32", 32)
	for _, q := range j.rounds {
		j.e.assume(j.tb.Implies(j.tb.Eq(q[0], b), j.tb.Eq(q[1], v)))
	}
	j.rounds = append(j.rounds, [2]*T{b, v})
	nan := j.tb.Ult(j.tb.Const(32, 0x7f800000), j.tb.And(v, j.tb.Const(32, 1<<31-1)))
	j.e.assume(j.tb.Eq(nan, j.isNaN(b)))
	return v
}

// f64of32 is the number a 32-bit float stands for.
func (j *TSExec) f64of32(b *T) JV {
	if b.isConst() {
		return j.numF(float64(math.Float32frombits(uint32(b.c))))
	}
	for v, s := range j.f64src {
		if s == b {
			return &JF{v}
		}
	}
	v := j.e.fresh("wide", 64)
	nan := j.tb.Ult(j.tb.Const(32, 0x7f800000), j.tb.And(b, j.tb.Const(32, 1<<31-1)))
	for w, s := range j.f64src {
		j.e.assume(j.tb.Implies(j.tb.Eq(s, b), j.tb.Eq(w, v)))
		j.e.assume(j.tb.Implies(j.tb.BAnd(j.tb.Eq(w, v), j.tb.BNot(nan)), j.tb.Eq(s, b)))
	}
	j.e.assume(j.tb.Eq(nan, j.isNaN(v)))
	j.f64src[v] = b
	return &JF{v}
}

func bitlen(x uint64) int { return bits.Len64(x) }
