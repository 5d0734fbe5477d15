package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector (w in 1..64) and boolean (w==0) expressions.

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted byte function applied to a 64-bit index
	OAdd
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	ONot // bit-not
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // c = hi<<8|lo
	OZext    // to width w
	OSext
	OConcat
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

type T struct {
	id   int
	op   Op
	w    int
	c    uint64
	name string
	a    [3]*T
	lin  *linForm
}

type tkey struct {
	op      Op
	w       int
	c       uint64
	name    string
	x, y, z int
}

type TB struct {
	tab map[tkey]*T
	all []*T
	tru *T
	fls *T
	ub  map[*T]uint64 // upper bounds of variables on the current path
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*T{}}
	tb.tru = tb.mk(OConst, 0, 1, "")
	tb.fls = tb.mk(OConst, 0, 0, "")
	return tb
}

func (tb *TB) mk(op Op, w int, c uint64, name string, args ...*T) *T {
	k := tkey{op: op, w: w, c: c, name: name, x: -1, y: -1, z: -1}
	if len(args) > 0 {
		k.x = args[0].id
	}
	if len(args) > 1 {
		k.y = args[1].id
	}
	if len(args) > 2 {
		k.z = args[2].id
	}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &T{id: len(tb.all), op: op, w: w, c: c, name: name}
	copy(t.a[:], args)
	tb.tab[k] = t
	tb.all = append(tb.all, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := uint(64 - w)
	return int64(c<<sh) >> sh
}

func (tb *TB) Const(w int, c uint64) *T { return tb.mk(OConst, w, c&mask(w), "") }
func (tb *TB) Bool(b bool) *T {
	if b {
		return tb.tru
	}
	return tb.fls
}
func (tb *TB) I(c int64) *T               { return tb.Const(64, uint64(c)) }
func (tb *TB) Var(name string, w int) *T  { return tb.mk(OVar, w, 0, name) }
func (tb *TB) App(name string, idx *T) *T { return tb.mk(OApp, 8, 0, name, idx) }
func (t *T) isConst() bool                { return t.op == OConst }
func (t *T) isTrue() bool                 { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *T) isFalse() bool                { return t.op == OConst && t.w == 0 && t.c == 0 }

type linForm struct {
	c    uint64
	coef map[int]uint64 // term id -> coefficient
}

func (tb *TB) lin(t *T) *linForm {
	if t.lin != nil {
		return t.lin
	}
	l := &linForm{coef: map[int]uint64{}}
	switch {
	case t.op == OConst:
		l.c = t.c
	case t.op == OAdd:
		x, y := tb.lin(t.a[0]), tb.lin(t.a[1])
		l = linAdd(x, y, 1, t.w)
	case t.op == ONeg:
		l = linAdd(l, tb.lin(t.a[0]), ^uint64(0), t.w)
	case t.op == OMul && t.a[1].isConst():
		l = linAdd(l, tb.lin(t.a[0]), t.a[1].c, t.w)
	default:
		l.coef[t.id] = 1
	}
	t.lin = l
	return l
}

func linAdd(x, y *linForm, k uint64, w int) *linForm {
	m := mask(w)
	r := &linForm{c: (x.c + k*y.c) & m, coef: map[int]uint64{}}
	for i, c := range x.coef {
		r.coef[i] = c
	}
	for i, c := range y.coef {
		n := (r.coef[i] + k*c) & m
		if n == 0 {
			delete(r.coef, i)
		} else {
			r.coef[i] = n
		}
	}
	return r
}

func (tb *TB) fromLin(l *linForm, w int) *T {
	ids := make([]int, 0, len(l.coef))
	for i := range l.coef {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var r *T
	for _, i := range ids {
		x := tb.all[i]
		c := l.coef[i]
		var y *T
		if c == 1 {
			y = x
		} else if c == mask(w) {
			y = tb.mk(ONeg, w, 0, "", x)
		} else {
			y = tb.mk(OMul, w, 0, "", x, tb.Const(w, c))
		}
		if r == nil {
			r = y
		} else {
			r = tb.mk(OAdd, w, 0, "", r, y)
		}
	}
	if r == nil {
		return tb.Const(w, l.c)
	}
	if l.c != 0 {
		r = tb.mk(OAdd, w, 0, "", r, tb.Const(w, l.c))
	}
	if r.lin == nil {
		r.lin = l
	}
	return r
}

func (tb *TB) Add(x, y *T) *T {
	if x.isConst() && y.isConst() {
		return tb.Const(x.w, x.c+y.c)
	}
	if t := tb.join(x, y, true); t != nil {
		return t
	}
	return tb.fromLin(linAdd(tb.lin(x), tb.lin(y), 1, x.w), x.w)
}
func (tb *TB) Sub(x, y *T) *T {
	return tb.fromLin(linAdd(tb.lin(x), tb.lin(y), ^uint64(0), x.w), x.w)
}
func (tb *TB) Neg(x *T) *T {
	return tb.Sub(tb.Const(x.w, 0), x)
}
func (tb *TB) Mul(x, y *T) *T {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.c == 0 {
			return y
		}
		return tb.fromLin(linAdd(&linForm{coef: map[int]uint64{}}, tb.lin(x), y.c, x.w), x.w)
	}
	return tb.mk(OMul, x.w, 0, "", x, y)
}

func (tb *TB) bin(op Op, x, y *T) *T { return tb.mk(op, x.w, 0, "", x, y) }

func (tb *TB) Div(op Op, x, y *T) *T {
	if x.isConst() && y.isConst() && y.c != 0 {
		a, b := x.c, y.c
		sa, sb := sx(a, x.w), sx(b, x.w)
		switch op {
		case OUdiv:
			return tb.Const(x.w, a/b)
		case OUrem:
			return tb.Const(x.w, a%b)
		case OSdiv:
			if sb == -1 {
				return tb.Const(x.w, uint64(-sa))
			}
			return tb.Const(x.w, uint64(sa/sb))
		case OSrem:
			if sb == -1 {
				return tb.Const(x.w, 0)
			}
			return tb.Const(x.w, uint64(sa%sb))
		}
	}
	if y.isConst() && y.c != 0 && y.c&(y.c-1) == 0 {
		switch op {
		case OUdiv:
			return tb.Shift(OLshr, x, tb.Const(x.w, uint64(bits.TrailingZeros64(y.c))))
		case OUrem:
			return tb.And(x, tb.Const(x.w, y.c-1))
		}
	}
	return tb.bin(op, x, y)
}

func (tb *TB) And(x, y *T) *T {
	if x.isConst() && y.isConst() {
		return tb.Const(x.w, x.c&y.c)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.c == 0 {
			return y
		}
		if y.c == mask(x.w) || y.c&(y.c+1) == 0 && tb.maxU(x) <= y.c {
			return x
		}
	}
	if x == y {
		return x
	}
	return tb.bin(OAnd, x, y)
}
func (tb *TB) Or(x, y *T) *T {
	if x.isConst() && y.isConst() {
		return tb.Const(x.w, x.c|y.c)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.c == 0 {
			return x
		}
		if y.c == mask(x.w) {
			return y
		}
	}
	if x == y {
		return x
	}
	if t := tb.join(x, y, false); t != nil {
		return t
	}
	return tb.bin(OOr, x, y)
}
func (tb *TB) Xor(x, y *T) *T {
	if x.isConst() && y.isConst() {
		return tb.Const(x.w, x.c^y.c)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && y.c == 0 {
		return x
	}
	if x == y {
		return tb.Const(x.w, 0)
	}
	return tb.bin(OXor, x, y)
}
func (tb *TB) Not(x *T) *T {
	if x.isConst() {
		return tb.Const(x.w, ^x.c)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return tb.mk(ONot, x.w, 0, "", x)
}

// Shift with x.w == y.w (SMT semantics: count >= w gives 0 / sign fill).
func (tb *TB) Shift(op Op, x, y *T) *T {
	if y.isConst() && y.c == 0 {
		return x
	}
	if x.isConst() && y.isConst() {
		switch op {
		case OShl:
			if y.c >= uint64(x.w) {
				return tb.Const(x.w, 0)
			}
			return tb.Const(x.w, x.c<<y.c)
		case OLshr:
			if y.c >= uint64(x.w) {
				return tb.Const(x.w, 0)
			}
			return tb.Const(x.w, x.c>>y.c)
		case OAshr:
			s := y.c
			if s >= uint64(x.w) {
				s = uint64(x.w) - 1
			}
			return tb.Const(x.w, uint64(sx(x.c, x.w)>>s))
		}
	}
	if op == OLshr && y.isConst() && x.op == OLshr && x.a[1].isConst() && y.c < 64 && x.a[1].c < 64 {
		return tb.Shift(OLshr, x.a[0], tb.Const(x.w, y.c+x.a[1].c))
	}
	if op != OAshr && y.isConst() && y.c >= uint64(x.w) {
		return tb.Const(x.w, 0)
	}
	return tb.bin(op, x, y)
}

// shifted is v and k when t is v shifted right by the constant k < width.
func (t *T) shifted() (*T, uint64, bool) {
	if t.op == OLshr && t.a[1].isConst() && t.a[1].c < uint64(t.w) {
		return t.a[0], t.a[1].c, true
	}
	return nil, 0, false
}

// A piece is a run of bits taken from one term, or a constant when src is nil.
type piece struct {
	src   *T
	lo, w int
	c     uint64
}

// pieces splits a term into runs of bits, lowest first.
func (tb *TB) pieces(t *T, depth int) []piece {
	zero := func(w int) []piece {
		if w <= 0 {
			return nil
		}
		return []piece{{w: w}}
	}
	if depth > 0 {
		switch t.op {
		case OConst:
			var r []piece // runs of equal bits
			for i := 0; i < t.w; {
				j := i + 1
				for j < t.w && t.c>>uint(j)&1 == t.c>>uint(i)&1 {
					j++
				}
				r = append(r, piece{w: j - i, c: t.c >> uint(i) & mask(j-i)})
				i = j
			}
			return r
		case OZext:
			return append(tb.pieces(t.a[0], depth-1), zero(t.w-t.a[0].w)...)
		case OExtract:
			return cut(tb.pieces(t.a[0], depth-1), int(t.c&0xff), t.w)
		case OConcat:
			return append(tb.pieces(t.a[1], depth-1), tb.pieces(t.a[0], depth-1)...)
		case OShl:
			if k := t.a[1]; k.isConst() && k.c < uint64(t.w) {
				return append(zero(int(k.c)), cut(tb.pieces(t.a[0], depth-1), 0, t.w-int(k.c))...)
			}
		case OLshr:
			if k := t.a[1]; k.isConst() && k.c < uint64(t.w) {
				return append(cut(tb.pieces(t.a[0], depth-1), int(k.c), t.w-int(k.c)), zero(int(k.c))...)
			}
		case OAnd:
			if k := t.a[1]; k.isConst() && k.c&(k.c+1) == 0 {
				n := bits.Len64(k.c)
				return append(cut(tb.pieces(t.a[0], depth-1), 0, n), zero(t.w-n)...)
			}
		case OOr:
			if r := overlay(tb.pieces(t.a[0], depth-1), tb.pieces(t.a[1], depth-1), false); r != nil {
				return r
			}
		case OAdd:
			if r := overlay(tb.pieces(t.a[0], depth-1), tb.pieces(t.a[1], depth-1), true); r != nil {
				return r
			}
		case OMul:
			if k := t.a[1]; k.isConst() && k.c != 0 && k.c&(k.c-1) == 0 {
				n := bits.TrailingZeros64(k.c)
				return append(zero(n), cut(tb.pieces(t.a[0], depth-1), 0, t.w-n)...)
			}
		}
	}
	return []piece{{src: t, w: t.w}}
}

// cut takes the w bits from bit lo on.
func cut(ps []piece, lo, w int) []piece {
	var r []piece
	at := 0
	for _, p := range ps {
		a, b := max(at, lo), min(at+p.w, lo+w)
		if a < b {
			q := piece{src: p.src, lo: p.lo + a - at, w: b - a}
			if p.src == nil {
				q.lo, q.c = 0, p.c>>uint(a-at)&mask(b-a)
			}
			r = append(r, q)
		}
		at += p.w
	}
	return r
}

// overlay is the bitwise or of two splits, or their sum when no two bits meet;
// nil if some bits come from both.
func overlay(x, y []piece, sum bool) []piece {
	var r []piece
	i, j, at := 0, 0, 0
	xe, ye := 0, 0
	for i < len(x) && j < len(y) {
		xn, yn := xe+x[i].w, ye+y[j].w
		end := min(xn, yn)
		p, q := cut(x[i:i+1], at-xe, end-at)[0], cut(y[j:j+1], at-ye, end-at)[0]
		switch {
		case p.src == nil && p.c == 0:
			p = q
		case q.src == nil && q.c == 0:
		case sum:
			return nil
		case p == q:
		case p.src == nil && q.src == nil:
			p.c |= q.c
		case p.src == nil && p.c == mask(p.w):
		case q.src == nil && q.c == mask(q.w):
			p = q
		default:
			return nil
		}
		r = append(r, p)
		at = end
		if at == xn {
			i, xe = i+1, xn
		}
		if at == yn {
			j, ye = j+1, yn
		}
	}
	return r
}

// join is x|y, or x+y, where that puts together neighbouring bits of one term, as the
// groups of a varint are put together; nil otherwise.
func (tb *TB) join(x, y *T, sum bool) *T {
	const depth = 24
	r := overlay(tb.pieces(x, depth), tb.pieces(y, depth), sum)
	if r == nil {
		return nil
	}
	var m []piece
	for _, p := range r {
		if n := len(m); n > 0 {
			l := &m[n-1]
			if p.src == nil && l.src == nil {
				l.c |= p.c << uint(l.w)
				l.w += p.w
				continue
			}
			if p.src != nil && p.src == l.src && l.lo+l.w == p.lo {
				l.w += p.w
				continue
			}
		}
		m = append(m, p)
	}
	if len(m) == 0 || len(m) > 2 || m[0].src == nil || len(m) == 2 && (m[1].src != nil || m[1].c != 0) {
		return nil
	}
	return tb.Zext(tb.Extract(m[0].src, m[0].lo+m[0].w-1, m[0].lo), x.w)
}

func (tb *TB) Extract(x *T, hi, lo int) *T {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return tb.Const(w, x.c>>uint(lo))
	}
	if (x.op == OZext || x.op == OSext) && hi < x.a[0].w {
		return tb.Extract(x.a[0], hi, lo)
	}
	switch x.op {
	case OZext:
		w0 := x.a[0].w
		if lo >= w0 {
			return tb.Const(w, 0)
		}
		return tb.Zext(tb.Extract(x.a[0], w0-1, lo), w)
	case OExtract:
		l := int(x.c & 0xff)
		return tb.Extract(x.a[0], hi+l, lo+l)
	case OConcat:
		lw := x.a[1].w
		if hi < lw {
			return tb.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return tb.Extract(x.a[0], hi-lw, lo-lw)
		}
		return tb.Concat(tb.Extract(x.a[0], hi-lw, 0), tb.Extract(x.a[1], lw-1, lo))
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return tb.Ite(x.a[0], tb.Extract(x.a[1], hi, lo), tb.Extract(x.a[2], hi, lo))
		}
	}
	return tb.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", x)
}

// merge joins two adjacent pieces of the same term; nil if they are not.
func (tb *TB) merge(hi, lo *T) *T {
	if hi.isConst() && lo.isConst() {
		return tb.Const(hi.w+lo.w, hi.c<<uint(lo.w)|lo.c)
	}
	if hi.isConst() && hi.c == 0 {
		return tb.Zext(lo, hi.w+lo.w)
	}
	if hi.op == OExtract {
		x, hl := hi.a[0], int(hi.c&0xff)
		if lo.op == OExtract && lo.a[0] == x && int(lo.c>>8)+1 == hl {
			return tb.Extract(x, int(hi.c>>8), int(lo.c&0xff))
		}
		if x == lo && hl == lo.w {
			return nil
		}
	}
	if hi.op == OIte && lo.op == OIte && hi.a[0] == lo.a[0] && (hi.a[1].isConst() && lo.a[1].isConst() || hi.a[2].isConst() && lo.a[2].isConst()) {
		return tb.Ite(hi.a[0], tb.Concat(hi.a[1], lo.a[1]), tb.Concat(hi.a[2], lo.a[2]))
	}
	return nil
}

func (tb *TB) Concat(hi, lo *T) *T {
	if m := tb.merge(hi, lo); m != nil {
		return m
	}
	if lo.op == OConcat {
		if m := tb.merge(hi, lo.a[0]); m != nil {
			return tb.Concat(m, lo.a[1])
		}
	}
	// a piece of a zero-extended term looks like a shorter zero-extended piece
	if hi.op == OZext && hi.a[0].op == OExtract && lo.op == OExtract && lo.a[0] == hi.a[0].a[0] {
		if m := tb.merge(hi.a[0], lo); m != nil {
			return tb.Zext(m, hi.w+lo.w)
		}
	}
	return tb.mk(OConcat, hi.w+lo.w, 0, "", hi, lo)
}

func (tb *TB) Zext(x *T, w int) *T {
	if w == x.w {
		return x
	}
	if w < x.w {
		return tb.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return tb.Const(w, x.c)
	}
	if x.op == OZext {
		return tb.Zext(x.a[0], w)
	}
	if x.op == OExtract && x.c&0xff == 0 && w >= x.a[0].w && tb.maxU(x.a[0]) <= mask(x.w) {
		return tb.Zext(x.a[0], w)
	}
	switch x.op {
	case OOr:
		return tb.Or(tb.Zext(x.a[0], w), tb.Zext(x.a[1], w))
	case OAnd:
		return tb.And(tb.Zext(x.a[0], w), tb.Zext(x.a[1], w))
	case OShl:
		if k := x.a[1]; k.isConst() && k.c < uint64(x.w) && tb.maxU(x.a[0]) <= mask(x.w)>>k.c {
			return tb.Shift(OShl, tb.Zext(x.a[0], w), tb.Const(w, k.c))
		}
	}
	return tb.mk(OZext, w, 0, "", x)
}
func (tb *TB) Sext(x *T, w int) *T {
	if w == x.w {
		return x
	}
	if w < x.w {
		return tb.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return tb.Const(w, uint64(sx(x.c, x.w)))
	}
	return tb.mk(OSext, w, 0, "", x)
}

func (tb *TB) Ite(c, x, y *T) *T {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return tb.BNot(c)
		}
	}
	return tb.mk(OIte, x.w, 0, "", c, x, y)
}

func (tb *TB) Eq(x, y *T) *T {
	if x == y {
		return tb.tru
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return tb.BNot(x)
		}
	} else {
		d := linAdd(tb.lin(x), tb.lin(y), ^uint64(0), x.w)
		if len(d.coef) == 0 {
			return tb.Bool(d.c == 0)
		}
		// zero-extended value against a constant out of range
		if y.isConst() && x.op == OZext {
			if y.c > mask(x.a[0].w) {
				return tb.fls
			}
			return tb.Eq(x.a[0], tb.Const(x.a[0].w, y.c))
		}
		if x.isConst() && y.op == OZext {
			return tb.Eq(y, x)
		}
		if x.isConst() {
			x, y = y, x
		}
		if v, k, ok := x.shifted(); ok && y.isConst() && y.c == 0 {
			return tb.Ult(v, tb.Const(v.w, 1<<k))
		}
		if y.isConst() && x.op == OIte && (x.a[1].isConst() || x.a[2].isConst()) {
			c := x.a[0]
			p, q := tb.Eq(x.a[1], y), tb.Eq(x.a[2], y)
			if p == q {
				return p
			}
			return tb.BOr(tb.BAnd(c, p), tb.BAnd(tb.BNot(c), q))
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return tb.mk(OEq, 0, 0, "", x, y)
}

func (tb *TB) maxU(t *T) uint64 {
	if u, ok := tb.ub[t]; ok && t.op != OConst {
		return min(u, tb.maxU1(t))
	}
	return tb.maxU1(t)
}

func (tb *TB) maxU1(t *T) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OExtract:
		if t.c&0xff == 0 {
			if m := tb.maxU(t.a[0]); m <= mask(t.w) {
				return m
			}
		}
	case OZext:
		return tb.maxU(t.a[0])
	case OAnd:
		m := tb.maxU(t.a[0])
		n := tb.maxU(t.a[1])
		if n < m {
			m = n
		}
		if m == mask(64) {
			return m
		}
		return m
	case OOr:
		m := tb.maxU(t.a[0]) | tb.maxU(t.a[1])
		return (uint64(1)<<uint(bits.Len64(m)) - 1) & mask(t.w)
	case OShl:
		if k := t.a[1]; k.isConst() && k.c < uint64(t.w) {
			if m := tb.maxU(t.a[0]); m <= mask(t.w)>>k.c {
				return m << k.c
			}
		}
	case OLshr:
		if t.a[1].isConst() && t.a[1].c < 64 {
			return tb.maxU(t.a[0]) >> t.a[1].c
		}
	case OConcat:
		return tb.maxU(t.a[0])<<uint(t.a[1].w) | mask(t.a[1].w)
	case OIte:
		if t.w > 0 && (t.a[1].isConst() || t.a[2].isConst()) {
			return max(tb.maxU(t.a[1]), tb.maxU(t.a[2]))
		}
	}
	return mask(t.w)
}

func (tb *TB) Ult(x, y *T) *T {
	if x == y {
		return tb.fls
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.c < y.c)
	}
	if y.isConst() {
		if y.c == 0 {
			return tb.fls
		}
		if tb.maxU(x) < y.c {
			return tb.tru
		}
		if v, k, ok := x.shifted(); ok && y.c<<k>>k == y.c && y.c<<k <= mask(v.w) {
			return tb.Ult(v, tb.Const(v.w, y.c<<k))
		}
	}
	if x.isConst() {
		if v, k, ok := y.shifted(); ok {
			if n := x.c + 1; n != 0 && n<<k>>k == n && n<<k <= mask(v.w) {
				return tb.BNot(tb.Ult(v, tb.Const(v.w, n<<k)))
			}
		}
	}
	if x.isConst() && x.c == 0 {
		return tb.BNot(tb.Eq(y, x))
	}
	return tb.mk(OUlt, 0, 0, "", x, y)
}
func (tb *TB) Ule(x, y *T) *T { return tb.BNot(tb.Ult(y, x)) }
func (tb *TB) Slt(x, y *T) *T {
	if x == y {
		return tb.fls
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(sx(x.c, x.w) < sx(y.c, y.w))
	}
	if x.w == 64 || x.w > 1 {
		half := mask(x.w - 1)
		if tb.maxU(x) <= half && tb.maxU(y) <= half {
			return tb.Ult(x, y)
		}
	}
	return tb.mk(OSlt, 0, 0, "", x, y)
}
func (tb *TB) Sle(x, y *T) *T { return tb.BNot(tb.Slt(y, x)) }

func (tb *TB) BAnd(xs ...*T) *T {
	r := tb.tru
	for _, x := range xs {
		if x.isFalse() || r.isFalse() {
			return tb.fls
		}
		if x.isTrue() || x == r {
			continue
		}
		if r.isTrue() {
			r = x
			continue
		}
		r = tb.mk(OBAnd, 0, 0, "", r, x)
	}
	return r
}
func (tb *TB) BOr(xs ...*T) *T {
	r := tb.fls
	for _, x := range xs {
		if x.isTrue() || r.isTrue() {
			return tb.tru
		}
		if x.isFalse() || x == r {
			continue
		}
		if r.isFalse() {
			r = x
			continue
		}
		r = tb.mk(OBOr, 0, 0, "", r, x)
	}
	return r
}
func (tb *TB) BNot(x *T) *T {
	if x.isConst() {
		return tb.Bool(x.c == 0)
	}
	if x.op == OBNot {
		return x.a[0]
	}
	return tb.mk(OBNot, 0, 0, "", x)
}
func (tb *TB) Implies(x, y *T) *T { return tb.BOr(tb.BNot(x), y) }

var opNames = map[Op]string{OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "!") + "|" }

// ref returns the SMT-LIB text naming t, once defined.
func (t *T) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.c)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return smtName(t.name)
	}
	return fmt.Sprintf("t!%d", t.id)
}

func (t *T) body() string {
	switch t.op {
	case OApp:
		return fmt.Sprintf("(%s %s)", smtName(t.name), t.a[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c>>8, t.c&0xff, t.a[0].ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	}
	s := "(" + opNames[t.op]
	for _, a := range t.a {
		if a != nil {
			s += " " + a.ref()
		}
	}
	return s + ")"
}

func (t *T) String() string { return t.str(6) }
func (t *T) str(d int) string {
	if t.op == OConst {
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprintf("%d", sx(t.c, t.w))
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	switch t.op {
	case OApp:
		s = "(" + t.name
	case OExtract:
		s = fmt.Sprintf("(extract[%d:%d]", t.c>>8, t.c&0xff)
	case OZext:
		s = fmt.Sprintf("(zext%d", t.w)
	case OSext:
		s = fmt.Sprintf("(sext%d", t.w)
	}
	for _, a := range t.a {
		if a != nil {
			s += " " + a.str(d-1)
		}
	}
	return s + ")"
}

// bound notes an assumption that limits a variable.
func (tb *TB) bound(c *T) {
	if c.op == OBAnd {
		for _, x := range c.a {
			if x != nil {
				tb.bound(x)
			}
		}
		return
	}
	neg := c.op == OBNot
	if neg {
		c = c.a[0]
	}
	if c.op != OUlt {
		return
	}
	x, y := c.a[0], c.a[1]
	var v *T
	var u uint64
	switch {
	case !neg && !x.isConst() && y.isConst() && y.c > 0:
		v, u = x, y.c-1
	case neg && !y.isConst() && x.isConst():
		v, u = y, x.c
	default:
		return
	}
	for {
		if o, ok := tb.ub[v]; !ok || u < o {
			if tb.ub == nil {
				tb.ub = map[*T]uint64{}
			}
			tb.ub[v] = u
		}
		switch {
		case v.op == OZext:
			v = v.a[0]
		case v.op == OLshr && v.a[1].isConst() && v.a[1].c < 64 && u <= ^uint64(0)>>v.a[1].c:
			k := v.a[1].c
			v, u = v.a[0], u<<k|mask(int(k))
			if u >= mask(v.w) {
				return
			}
		default:
			return
		}
	}
}
