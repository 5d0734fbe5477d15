package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// A second back end for index arithmetic. Lengths, offsets and capacities are
// bounded far below 2^63, so a comparison of linear 64-bit terms whose integer
// value provably stays in range means the same over the integers. Only such
// atoms are passed on; an unsat answer therefore carries over to bit vectors,
// any other answer is ignored.

type ival struct{ lo, hi *big.Int }

var (
	bigZ   = big.NewInt(0)
	big63  = new(big.Int).Lsh(big.NewInt(1), 63)
	big64  = new(big.Int).Lsh(big.NewInt(1), 64)
	bigN63 = new(big.Int).Neg(big63)
)

type lia struct {
	s      *Solver
	tb     *TB
	bnd    map[int]ival
	used   map[int]bool
	memo   map[int]string
	side   []string
	ok     bool
	depth  int
	active map[int]bool
}

func (l *lia) atomBound(t *T) ival {
	if b, ok := l.bnd[t.id]; ok {
		return b
	}
	b := ival{big.NewInt(0), new(big.Int).SetUint64(l.tb.maxU(t))}
	if t.op == OIte {
		x, y := l.rangeOf(t.a[1]), l.rangeOf(t.a[2])
		if x.lo.Sign() >= 0 && y.lo.Sign() >= 0 && x.hi.Cmp(big64) < 0 && y.hi.Cmp(big64) < 0 {
			b.lo, b.hi = x.lo, x.hi
			if y.lo.Cmp(b.lo) < 0 {
				b.lo = y.lo
			}
			if y.hi.Cmp(b.hi) > 0 {
				b.hi = y.hi
			}
		}
	}
	l.bnd[t.id] = b
	return b
}

// rangeOf the integer value of the linear form of t.
func (l *lia) rangeOf(t *T) ival {
	f := l.tb.lin(t)
	c := new(big.Int).SetInt64(sx(f.c, t.w))
	lo, hi := new(big.Int).Set(c), new(big.Int).Set(c)
	for id, k := range f.coef {
		b := l.atomBound(l.tb.all[id])
		kk := big.NewInt(sx(k, t.w))
		x, y := new(big.Int).Mul(kk, b.lo), new(big.Int).Mul(kk, b.hi)
		if kk.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return ival{lo, hi}
}

func (l *lia) linText(t *T) string {
	f := l.tb.lin(t)
	parts := []string{}
	if c := sx(f.c, t.w); c != 0 || len(f.coef) == 0 {
		parts = append(parts, num(big.NewInt(c)))
	}
	for id, k := range f.coef {
		a := l.atomText(l.tb.all[id])
		kk := sx(k, t.w)
		if kk == 1 {
			parts = append(parts, a)
		} else {
			parts = append(parts, "(* "+num(big.NewInt(kk))+" "+a+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (l *lia) atomText(t *T) string {
	n := fmt.Sprintf("a%d", t.id)
	if l.used[t.id] {
		return n
	}
	l.used[t.id] = true
	l.side = append(l.side, fmt.Sprintf("(declare-fun %s () Int)", n))
	b := l.atomBound(t)
	l.side = append(l.side, fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))", num(b.lo), n, n, num(b.hi)))
	if t.op == OIte && l.depth < 6 {
		l.depth++
		x, y := l.rangeOf(t.a[1]), l.rangeOf(t.a[2])
		if inU(x, t.w) && inU(y, t.w) {
			if c, ok := l.boolText(t.a[0]); ok {
				a, b := l.linText(t.a[1]), l.linText(t.a[2])
				l.side = append(l.side, fmt.Sprintf("(assert (= %s (ite %s %s %s)))", n, c, a, b))
			}
		}
		l.depth--
	}
	return n
}

func inU(r ival, w int) bool { return r.lo.Sign() >= 0 && r.hi.BitLen() <= w }
func inS(r ival, w int) bool {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	return r.hi.Cmp(m) < 0 && r.lo.Cmp(new(big.Int).Neg(m)) >= 0
}

// boolText translates a condition exactly, or reports that it cannot.
func (l *lia) boolText(c *T) (string, bool) {
	if s, ok := l.memo[c.id]; ok {
		return s, s != ""
	}
	s := l.boolText1(c)
	l.memo[c.id] = s
	return s, s != ""
}

func (l *lia) boolText1(c *T) string {
	switch c.op {
	case OConst:
		return c.ref()
	case OVar:
		n := fmt.Sprintf("p%d", c.id)
		if !l.used[c.id] {
			l.used[c.id] = true
			l.side = append(l.side, fmt.Sprintf("(declare-fun %s () Bool)", n))
		}
		return n
	case OBNot:
		if x, ok := l.boolText(c.a[0]); ok {
			return "(not " + x + ")"
		}
	case OBAnd, OBOr:
		x, ok1 := l.boolText(c.a[0])
		y, ok2 := l.boolText(c.a[1])
		if ok1 && ok2 {
			return "(" + opNames[c.op] + " " + x + " " + y + ")"
		}
	case OIte:
		x, ok1 := l.boolText(c.a[0])
		y, ok2 := l.boolText(c.a[1])
		z, ok3 := l.boolText(c.a[2])
		if ok1 && ok2 && ok3 {
			return "(ite " + x + " " + y + " " + z + ")"
		}
	case OEq:
		a, b := c.a[0], c.a[1]
		if a.w == 0 {
			x, ok1 := l.boolText(a)
			y, ok2 := l.boolText(b)
			if ok1 && ok2 {
				return "(= " + x + " " + y + ")"
			}
			return ""
		}
		ra, rb := l.rangeOf(a), l.rangeOf(b)
		if inU(ra, a.w) && inU(rb, a.w) || inS(ra, a.w) && inS(rb, a.w) {
			return "(= " + l.linText(a) + " " + l.linText(b) + ")"
		}
		// the difference fits: equal iff the difference is zero
		d := l.tb.Sub(a, b)
		rd := l.rangeOf(d)
		if inS(rd, a.w) {
			return "(= 0 " + l.linText(d) + ")"
		}
	case OUlt, OSlt:
		a, b := c.a[0], c.a[1]
		ra, rb := l.rangeOf(a), l.rangeOf(b)
		in := inU
		if c.op == OSlt {
			in = inS
		}
		if in(ra, a.w) && in(rb, a.w) {
			return "(< " + l.linText(a) + " " + l.linText(b) + ")"
		}
		// unsigned a < b with a possibly negative: as a huge number
		if c.op == OUlt && inS(ra, a.w) && inU(rb, a.w) && inS(rb, a.w) {
			x, y := l.linText(a), l.linText(b)
			return "(and (<= 0 " + x + ") (< " + x + " " + y + "))"
		}
		if c.op == OUlt && inU(ra, a.w) && inS(ra, a.w) && inS(rb, a.w) {
			x, y := l.linText(a), l.linText(b)
			return "(or (< " + y + " 0) (< " + x + " " + y + "))"
		}
		if c.op == OUlt && inS(ra, a.w) && inS(rb, a.w) {
			x, y := l.linText(a), l.linText(b)
			return "(ite (= (< " + x + " 0) (< " + y + " 0)) (< " + x + " " + y + ") (< " + y + " 0))"
		}
	}
	return ""
}

// tighten derives bounds of atoms from a conjunct known to hold.
func (l *lia) tighten(c *T) bool {
	neg := false
	for c.op == OBNot {
		neg = !neg
		c = c.a[0]
	}
	if c.op == OBAnd && !neg || c.op == OBOr && neg {
		f := func(x *T) *T {
			if neg {
				return l.tb.BNot(x)
			}
			return x
		}
		a := l.tighten(f(c.a[0]))
		b := l.tighten(f(c.a[1]))
		return a || b
	}
	if c.op != OUlt && c.op != OSlt && !(c.op == OEq && !neg && c.a[0].w > 0) {
		return false
	}
	ch := false
	le := func(a, b *T, strict int64, signed bool) {
		// a + strict <= b over the integers, if both are in range
		ra, rb := l.rangeOf(a), l.rangeOf(b)
		if signed {
			// 0 <= x bounds a single unknown below 2^63
			if b.op != OConst && len(l.tb.lin(b).coef) == 1 && l.tb.lin(b).coef[b.id] == 1 && inS(ra, a.w) && ra.lo.Sign() >= 0 {
				m := new(big.Int).Lsh(big.NewInt(1), uint(b.w-1))
				m.Sub(m, big.NewInt(1))
				if rb.hi.Cmp(m) > 0 {
					l.setHi(b, m)
					ch = true
					rb = l.rangeOf(b)
				}
			}
			if !inS(ra, a.w) || !inS(rb, b.w) {
				return
			}
		} else if !inU(rb, b.w) || !inU(ra, a.w) {
			return
		}
		// for each atom of b-a: coefficient*atom >= strict - (rest max)
		d := linAdd(l.tb.lin(b), l.tb.lin(a), ^uint64(0), a.w)
		tot := new(big.Int).SetInt64(sx(d.c, a.w))
		for id, k := range d.coef {
			at := l.atomBound(l.tb.all[id])
			kk := big.NewInt(sx(k, a.w))
			if kk.Sign() > 0 {
				tot.Add(tot, new(big.Int).Mul(kk, at.hi))
			} else {
				tot.Add(tot, new(big.Int).Mul(kk, at.lo))
			}
		}
		for id, k := range d.coef {
			t := l.tb.all[id]
			at := l.atomBound(t)
			kk := big.NewInt(sx(k, a.w))
			if kk.Sign() > 0 {
				rest := new(big.Int).Sub(tot, new(big.Int).Mul(kk, at.hi))
				// kk*t >= strict - rest
				q := new(big.Int).Sub(big.NewInt(strict), rest)
				q = ceilDiv(q, kk)
				if q.Cmp(at.lo) > 0 && q.Cmp(at.hi) <= 0 {
					l.bnd[id] = ival{q, at.hi}
					ch = true
				}
			} else {
				rest := new(big.Int).Sub(tot, new(big.Int).Mul(kk, at.lo))
				// |kk|*t <= rest - strict
				q := new(big.Int).Sub(rest, big.NewInt(strict))
				q = floorDiv(q, new(big.Int).Neg(kk))
				if q.Cmp(at.hi) < 0 && q.Cmp(at.lo) >= 0 {
					l.bnd[id] = ival{at.lo, q}
					ch = true
				}
			}
		}
	}
	switch c.op {
	case OEq:
		if c.a[0].w != 64 {
			return false
		}
		le(c.a[0], c.a[1], 0, false)
		le(c.a[1], c.a[0], 0, false)
	default:
		s := c.op == OSlt
		if neg {
			le(c.a[1], c.a[0], 0, s)
		} else {
			le(c.a[0], c.a[1], 1, s)
		}
	}
	return ch
}

func (l *lia) setHi(t *T, m *big.Int) {
	b := l.atomBound(t)
	l.bnd[t.id] = ival{b.lo, m}
}

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	q := floorDiv(new(big.Int).Neg(a), b)
	return q.Neg(q)
}

// Lia reports whether path ∧ c is certainly unsatisfiable by index arithmetic.
func (s *Solver) Lia(path []*T, c *T) bool {
	key := memoKey{pathKey(path), c.id}
	if r, ok := s.liaMemo[key]; ok {
		return r
	}
	r := s.lia1(path, c)
	s.liaMemo[key] = r
	return r
}

func (s *Solver) liaPrep(path []*T, c *T) *lia {
	l := &lia{s: s, tb: s.tb, bnd: map[int]ival{}, used: map[int]bool{}, memo: map[int]string{}}
	all := append(append([]*T{}, path...), c)
	for round := 0; round < 4; round++ {
		ch := false
		for _, p := range all {
			if l.tighten(p) {
				ch = true
			}
		}
		// compound atoms were bounded from stale parts: recompute
		if !ch {
			break
		}
	}
	return l
}

func conjuncts(t *T, out []*T) []*T {
	if t.op == OBAnd {
		return conjuncts(t.a[1], conjuncts(t.a[0], out))
	}
	if t.op == OBNot && t.a[0].op == OBOr {
		// De Morgan is left to the caller's normal form
		return append(out, t)
	}
	return append(out, t)
}

func (s *Solver) lia1(path []*T, c *T) bool {
	l := s.liaPrep(path, c)
	var asserts []string
	n := 0
	for i, p := range append(append([]*T{}, path...), c) {
		for _, q := range conjuncts(p, nil) {
			if x, ok := l.boolText(q); ok {
				asserts = append(asserts, "(assert "+x+")")
				if i == len(path) {
					n++
				}
			}
		}
	}
	if n == 0 && c.op != OConst {
		return false // nothing of the goal is index arithmetic
	}
	t0 := time.Now()
	if s.lp == nil {
		s.lp = startProc("z3", "-in", "-smt2")
		s.lp.send("(set-option :timeout 5000)")
		s.lp.send("(set-logic QF_LIA)")
	}
	s.lp.send("(push 1)")
	for _, x := range l.side {
		s.lp.send(x)
	}
	for _, x := range asserts {
		s.lp.send(x)
	}
	s.lp.send("(check-sat)")
	r := s.lp.result()
	s.lp.send("(pop 1)")
	s.LiaQueries++
	s.LiaTime += time.Since(t0)
	if r == Unsat {
		s.LiaUnsat++
		return true
	}
	return false
}
