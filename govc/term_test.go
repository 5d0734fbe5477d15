package main

import (
	"math/bits"
	"math/rand"
	"testing"
)

// evalT is the meaning of a term, written without the simplifier.
func evalT(t *T, env map[string]uint64) uint64 {
	m := mask(t.w)
	a := func(i int) uint64 { return evalT(t.a[i], env) }
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	w := 0
	if t.a[0] != nil {
		w = t.a[0].w
	}
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return env[t.name]
	case OAdd, OMul, OUdiv, OUrem, OSdiv, OSrem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		return evalOp(t.op, t.w, a(0), a(1))
	case ONot:
		return ^a(0) & m
	case ONeg:
		return -a(0) & m
	case OExtract:
		return a(0) >> (t.c & 0xff) & m
	case OZext:
		return a(0)
	case OSext:
		return uint64(sx(a(0), w)) & m
	case OConcat:
		return a(0)<<uint(t.a[1].w) | a(1)
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OEq:
		return b(a(0) == a(1))
	case OUlt:
		return b(a(0) < a(1))
	case OUle:
		return b(a(0) <= a(1))
	case OSlt:
		return b(sx(a(0), w) < sx(a(1), w))
	case OSle:
		return b(sx(a(0), w) <= sx(a(1), w))
	case OBAnd:
		return a(0) & a(1)
	case OBOr:
		return a(0) | a(1)
	case OBNot:
		return 1 - a(0)
	}
	panic("op")
}

func evalOp(op Op, w int, x, y uint64) uint64 {
	m := mask(w)
	sh := func(f func(uint) uint64, out uint64) uint64 {
		if y >= uint64(w) {
			return out
		}
		return f(uint(y)) & m
	}
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return x * y & m
	case OUdiv:
		return x / y
	case OUrem:
		return x % y
	case OSdiv:
		if sx(y, w) == -1 {
			return -x & m
		}
		return uint64(sx(x, w)/sx(y, w)) & m
	case OSrem:
		if sx(y, w) == -1 {
			return 0
		}
		return uint64(sx(x, w)%sx(y, w)) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		return sh(func(k uint) uint64 { return x << k }, 0)
	case OLshr:
		return sh(func(k uint) uint64 { return x >> k }, 0)
	case OAshr:
		return sh(func(k uint) uint64 { return uint64(sx(x, w) >> k) }, uint64(sx(x, w)>>63)&m)
	}
	panic("op")
}

// TestSimplifier builds random terms through the simplifying constructors and
// compares what they mean with what the same operations give on numbers.
func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for round := 0; round < 60000; round++ {
		tb := NewTB()
		env := map[string]uint64{}
		type node struct {
			t *T
			v uint64
		}
		by := map[int][]node{}
		add := func(x *T, v uint64) { by[x.w] = append(by[x.w], node{x, v}) }
		num := func(w int) uint64 {
			switch r.Intn(5) {
			case 0:
				return 1<<uint(r.Intn(w)) & mask(w)
			case 1:
				return mask(r.Intn(w)+1) & mask(w)
			case 2:
				return uint64(r.Intn(200)) & mask(w)
			}
			return r.Uint64() & mask(w) >> uint(r.Intn(w))
		}
		ws := []int{8, 32, 64, 16}
		for i, n := range []string{"a", "b", "c", "d", "e"} {
			w := ws[i%len(ws)]
			env[n] = num(w)
			x := tb.Var(n, w)
			add(x, env[n])
			if r.Intn(2) == 0 { // a bound that holds
				hi := env[n] + uint64(r.Intn(3))
				if hi >= env[n] && hi < mask(w) {
					c := tb.Ule(x, tb.Const(w, hi))
					tb.bound(c)
				}
			}
			if k := uint64(r.Intn(w)); r.Intn(3) == 0 && k > 0 {
				hi := env[n]>>k + 1
				c := tb.Ult(tb.Shift(OLshr, x, tb.Const(w, k)), tb.Const(w, hi))
				if !c.isConst() {
					tb.bound(c)
				}
			}
		}
		pick := func(w int) node {
			l := by[w]
			if len(l) == 0 || r.Intn(4) == 0 && w > 0 {
				v := uint64(0)
				if w > 0 {
					v = num(w)
					return node{tb.Const(w, v), v}
				}
				return node{tb.tru, 1}
			}
			return l[r.Intn(len(l))]
		}
		for step := 0; step < 25; step++ {
			w := ws[r.Intn(len(ws))]
			x, y := pick(w), pick(w)
			var n *T
			var v uint64
			bb := func(b bool) uint64 { return uint64(bits.OnesCount(uint(map[bool]int{true: 1}[b]))) }
			switch k := r.Intn(22); k {
			case 0, 1:
				n, v = tb.Add(x.t, y.t), evalOp(OAdd, w, x.v, y.v)
			case 2:
				n, v = tb.Sub(x.t, y.t), (x.v-y.v)&mask(w)
			case 3:
				n, v = tb.Mul(x.t, y.t), evalOp(OMul, w, x.v, y.v)
			case 4:
				if y.v == 0 {
					continue
				}
				op := []Op{OUdiv, OUrem, OSdiv, OSrem}[r.Intn(4)]
				n, v = tb.Div(op, x.t, y.t), evalOp(op, w, x.v, y.v)
			case 5, 6:
				n, v = tb.And(x.t, y.t), x.v&y.v
			case 7, 8:
				n, v = tb.Or(x.t, y.t), x.v|y.v
			case 9:
				n, v = tb.Xor(x.t, y.t), x.v^y.v
			case 10:
				n, v = tb.Not(x.t), ^x.v&mask(w)
			case 11, 12, 13:
				op := []Op{OShl, OLshr, OAshr}[r.Intn(3)]
				if r.Intn(6) > 0 {
					c := uint64(r.Intn(w + 2))
					if r.Intn(2) == 0 {
						c = uint64(7 * r.Intn(w/7+1))
					}
					y = node{tb.Const(w, c), c}
				}
				n, v = tb.Shift(op, x.t, y.t), evalOp(op, w, x.v, y.v)
			case 14:
				lo := r.Intn(w)
				hi := lo + r.Intn(w-lo)
				n, v = tb.Extract(x.t, hi, lo), x.v>>uint(lo)&mask(hi-lo+1)
				if n.w != 8 && n.w != 16 && n.w != 32 && n.w != 64 {
					n = tb.Zext(n, 64)
				}
			case 15, 16:
				to := ws[r.Intn(len(ws))]
				n, v = tb.Zext(x.t, to), x.v&mask(to)
			case 17:
				to := ws[r.Intn(len(ws))]
				n, v = tb.Sext(x.t, to), uint64(sx(x.v, w))&mask(to)
			case 18:
				if w > 32 {
					continue
				}
				n, v = tb.Concat(x.t, y.t), x.v<<uint(w)|y.v
			case 19:
				c := pick(0)
				n, v = tb.Ite(c.t, x.t, y.t), y.v
				if c.v == 1 {
					v = x.v
				}
			case 20:
				switch r.Intn(5) {
				case 0:
					n, v = tb.Eq(x.t, y.t), bb(x.v == y.v)
				case 1:
					n, v = tb.Ult(x.t, y.t), bb(x.v < y.v)
				case 2:
					n, v = tb.Ule(x.t, y.t), bb(x.v <= y.v)
				case 3:
					n, v = tb.Slt(x.t, y.t), bb(sx(x.v, w) < sx(y.v, w))
				case 4:
					n, v = tb.Sle(x.t, y.t), bb(sx(x.v, w) <= sx(y.v, w))
				}
			case 21:
				p, q := pick(0), pick(0)
				switch r.Intn(3) {
				case 0:
					n, v = tb.BAnd(p.t, q.t), p.v&q.v
				case 1:
					n, v = tb.BOr(p.t, q.t), p.v|q.v
				case 2:
					n, v = tb.BNot(p.t), 1-p.v
				}
			}
			if g := evalT(n, env); g != v {
				t.Fatalf("round %d step %d: got %#x want %#x: %s  env %v", round, step, g, v, n.str(9), env)
			}
			if n.w > 0 {
				if u := tb.maxU(n); u < v {
					t.Fatalf("round %d: maxU %#x < %#x: %s env %v", round, u, v, n.str(9), env)
				}
			}
			add(n, v)
		}
	}
}
