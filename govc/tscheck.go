package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Checks of the TypeScript package.

// ---- the vocabulary of the contracts ----

func (j *TSExec) strc(v JV) string {
	s, ok := v.(*JS)
	if !ok || s.sym != nil {
		j.unsup("string constant expected")
	}
	return s.s
}

// word is the value of a non-negative integer of one word.
func (j *TSExec) word(v JV) *T {
	i, ok := v.(*JI)
	if !ok || !i.word() || !i.isU() && !j.e.valid(j.tb.BNot(j.lt(i, j.num(0)))) {
		j.unsup("a length expected")
	}
	return i.lo
}

func (j *TSExec) bytesArg(v JV) *JObj {
	o, ok := v.(*JObj)
	if !ok || elemSize[o.kind] != 1 {
		// a contract that asked for bytes got something else
		j.e.oblige("post/kind", j.tsite(), j.tb.fls)
	}
	return o
}

func (j *TSExec) anyWord(name string, min, max *big.Int, big_ bool) JV {
	tb, e := j.tb, j.e
	in := j.input(name, 64)
	in.t = tb.Var("in."+name, 64)
	if min.Sign() < 0 {
		if min.Cmp(neg63) > 0 || max.Cmp(new(big.Int).Sub(two63, bi(1))) < 0 {
			e.assume(tb.BAnd(tb.BNot(tb.Slt(in.t, tb.I(min.Int64()))), tb.BNot(tb.Slt(tb.I(max.Int64()), in.t))))
		}
	} else {
		e.assume(tb.Ule(in.t, tb.Const(64, max.Uint64())))
		if min.Sign() > 0 {
			e.assume(tb.Ule(tb.Const(64, min.Uint64()), in.t))
		}
	}
	return &JI{big: big_, lo: in.t, min: min, max: max}
}

func (j *TSExec) ghostOp(f string, a []JV) JV {
	tb, e := j.tb, j.e
	iv := func(k int) *JI {
		i, ok := a[k].(*JI)
		if !ok {
			j.unsup("integer expected")
		}
		return i
	}
	require := func(c *T, label string) { e.oblige("post/"+label, j.tsite(), c) }
	switch f {
	case "anyInt":
		return j.anyWord(j.strc(a[0]), iv(1).min, iv(2).min, false)
	case "anyBig":
		return j.anyWord(j.strc(a[0]), iv(1).min, iv(2).min, true)
	case "anyBool":
		in := j.input(j.strc(a[0]), 1)
		in.t = tb.Var("in."+in.name, 64)
		e.assume(tb.Ule(in.t, tb.I(1)))
		return &JB{tb.Eq(in.t, tb.I(1))}
	case "anyF64":
		in := j.input(j.strc(a[0]), 64)
		in.t = tb.Var("in."+in.name, 64)
		return &JF{in.t}
	case "anyBytes":
		n := j.strc(a[0])
		in := j.input(n, 0)
		in.len = tb.Var("in."+n+".len", 64)
		j.sized(in.len)
		off := j.word(j.anyWord(n+".off", bigZero, bi(1<<20), false))
		tail := j.word(j.anyWord(n+".tail", bigZero, bi(1<<20), false))
		junk := e.baseContent("junk." + n)
		b := j.newBuf(n, tb.Add(tb.Add(off, in.len), tail), copyC(junk, off, &Content{k: CBase, name: "in." + n}, tb.I(0), in.len))
		return j.view("Uint8Array", b, off, in.len)
	case "anyText":
		n := j.strc(a[0])
		in := j.input(n, 0)
		in.len = tb.Var("in."+n+".len", 64)
		j.sized(in.len)
		c := &Content{k: CBase, name: "in." + n}
		e.assume(j.utfPred(bytesRef{nil, c, tb.I(0), in.len}))
		return &JS{sym: &JText{c: c, off: tb.I(0), n: in.len, valid: tb.tru}}
	case "assume":
		c := j.boolOf(a[0])
		if c.isFalse() || !e.sat(c) {
			panic(pathEnd{"assumption"})
		}
		e.assume(c)
		return jUndef{}
	case "require":
		require(j.boolOf(a[0]), j.strc(a[1]))
		return jUndef{}
	case "cover":
		e.Covers[j.strc(a[0])] = true
		j.stateClosed()
		return jUndef{}
	case "closed":
		if !e.valid(j.boolOf(a[0])) {
			j.unsup("%s", j.strc(a[1]))
		}
		return jUndef{}
	case "aspect":
		e.aspects = []string{j.strc(a[0])}
		return jUndef{}
	case "utf8":
		b := j.bytesArg(a[0])
		return &JB{j.utfPred(bytesRef{nil, b.buf.o.c, tb.Add(b.off, j.word(a[1])), j.word(a[2])})}
	case "utf8Length":
		_, _, n := j.utf8Of(a[0].(*JS))
		return j.lenI(n)
	case "requireSame":
		x := j.bytesArg(a[0])
		n, l := j.word(a[4]), j.strc(a[5])
		ai, bi_ := j.word(a[1]), j.word(a[3])
		require(tb.BAnd(tb.Ule(n, x.len), tb.Ule(ai, tb.Sub(x.len, n))), l)
		y, ok := a[2].(*JObj)
		if ok && y.kind == "Array" {
			if !n.isConst() || !bi_.isConst() {
				j.unsup("comparison with an array")
			}
			eq := tb.tru
			for i := uint64(0); i < n.c; i++ {
				w, ok := y.elems[bi_.c+i].(*JI)
				if !ok {
					j.unsup("comparison with an array")
				}
				eq = tb.BAnd(eq, j.eq(j.uword(false, e.read(x.buf.o.c, tb.Add(tb.Add(x.off, ai), tb.I(int64(i))))), w))
			}
			require(eq, l)
			return jUndef{}
		}
		y = j.bytesArg(a[2])
		require(tb.BAnd(tb.Ule(n, y.len), tb.Ule(bi_, tb.Sub(y.len, n))), l)
		require(e.sameBytes(bytesRef{nil, x.buf.o.c, tb.Add(x.off, ai), n}, bytesRef{nil, y.buf.o.c, tb.Add(y.off, bi_), n}), l)
		return jUndef{}
	case "requireText", "requireTextAt":
		var s JV
		var b *JObj
		var at, n *T
		var l string
		if f == "requireText" {
			s, b, at, n, l = a[0], j.bytesArg(a[1]), j.word(a[2]), j.word(a[3]), j.strc(a[4])
		} else {
			b, at, s, l = j.bytesArg(a[0]), j.word(a[1]), a[2], j.strc(a[3])
		}
		t, ok := s.(*JS)
		if !ok {
			require(tb.fls, l)
		}
		if t.sym != nil && t.sym.c == nil {
			j.unsup("a string that is not followed")
		}
		c, off, m := j.utf8Of(t)
		if n != nil {
			require(tb.Eq(m, n), l)
		}
		require(tb.BAnd(tb.Ule(m, b.len), tb.Ule(at, tb.Sub(b.len, m))), l)
		require(e.sameBytes(bytesRef{nil, c, off, m}, bytesRef{nil, b.buf.o.c, tb.Add(b.off, at), m}), l)
		return jUndef{}
	case "f64bits":
		return j.uword(true, j.encodeNum("Float64", a[0]))
	case "f32bits":
		return j.uword(false, j.encodeNum("Float32", a[0]))
	case "isF64", "isF32":
		bits := j.word(a[1])
		if f == "isF32" {
			w, ok := j.f64of32(tb.Extract(bits, 31, 0)).(*JF)
			if !ok { // a constant
				return &JB{j.strictEq(a[0], j.f64of32(tb.Extract(bits, 31, 0)))}
			}
			bits = w.bits
		}
		switch a[0].(type) {
		case *JF, *JI, *JQ:
		default:
			return &JB{tb.fls}
		}
		g := j.encodeNum("Float64", a[0])
		return &JB{tb.BOr(tb.Eq(g, bits), tb.BAnd(j.isNaN(g), j.isNaN(bits)))}
	case "place":
		j.placeAt(a[0].(*JObj), a[1].(*JObj), iv(2), a[3])
		return jUndef{}
	}
	j.unsup("contract operation %s", f)
	return nil
}

// ---- the state of an Encoder or Decoder ----

// A slot is a place in the objects, closures and tables that make up the state
// where something simple is kept.
type slot struct {
	path string
	get  func() JV
	set  func(JV)
}

func (j *TSExec) slots(root *JObj) []slot {
	var r []slot
	objs := map[*JObj]bool{}
	var value func(path string, get func() JV, set func(JV))
	var object func(path string, o *JObj)
	var env func(path string, sc *scope, used map[string]bool)
	seen := map[*binding]bool{}
	env = func(path string, sc *scope, used map[string]bool) {
		for ; sc != nil && sc.up != nil; sc = sc.up {
			path += "^"
			var ns []string
			for n := range sc.vars {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				b := sc.vars[n]
				if !used[n] || seen[b] {
					continue
				}
				seen[b] = true
				if b.dead {
					continue
				}
				if b.bad != "" {
					panic(Unsupported{b.bad})
				}
				value(path+n, func() JV { return b.v }, func(v JV) { b.v = v })
			}
			if sc.fn != nil && used["this"] {
				if t, ok := sc.fn.this.(*JObj); ok {
					object(path+"this", t)
				}
			}
		}
	}
	value = func(path string, get func() JV, set func(JV)) {
		switch x := get().(type) {
		case *JFn:
			if x.cls != nil {
				u := map[string]bool{}
				for _, t := range []map[string]*JMember{x.cls.members, x.cls.statics} {
					for _, m := range t {
						for _, f := range []*JFn{m.get, m.set, m.fn} {
							if f != nil {
								usedNames(f.node, u)
							}
						}
					}
				}
				usedNames(x.cls.ctor, u)
				for _, f := range x.cls.fields {
					usedNames(f, u)
				}
				delete(u, "this")
				env(path, x.cls.sc, u)
			}
			if x.node != nil {
				u := map[string]bool{}
				usedNames(x.node, u)
				if !x.node.b["arrow"] {
					delete(u, "this")
				}
				env(path, x.sc, u)
			}
			if t, ok := x.this.(*JObj); ok {
				object(path+".this", t)
			}
			if t, ok := x.nt.(*JObj); ok {
				object(path+".this", t)
			}
			return
		case *JObj:
			if x.buf == nil && x.kind != "TextEncoder" && x.kind != "TextDecoder" && x.kind != "symbol" {
				if x.kind == "Generator" {
					j.unsup("a generator in the state")
				}
				object(path, x)
				return
			}
		}
		r = append(r, slot{path, get, set})
	}
	object = func(path string, o *JObj) {
		if objs[o] || o.init {
			// what the modules made is looked after elsewhere
			return
		}
		objs[o] = true
		for _, k := range o.keys {
			value(path+"."+k, func() JV { return o.props[k] }, func(v JV) { o.props[k] = v })
		}
		for i := range o.elems {
			value(fmt.Sprintf("%s[%d]", path, i), func() JV { return o.elems[i] }, func(v JV) { o.elems[i] = v })
		}
		for i := range o.mkeys {
			value(fmt.Sprintf("%s<%d>", path, i), func() JV { return o.mkeys[i] }, func(v JV) { o.mkeys[i] = v })
		}
	}
	object("", root)
	return r
}

func usedNames(n *TN, u map[string]bool) {
	if n == nil {
		return
	}
	switch n.K {
	case "id":
		u[n.s["n"]] = true
	case "this", "super", "superprop", "superindex", "supercall":
		u["this"] = true
	}
	for _, x := range n.n {
		usedNames(x, u)
	}
	for _, l := range n.a {
		for _, x := range l {
			usedNames(x, u)
		}
	}
}

func slotBuf(v JV) *JObj {
	if o, ok := v.(*JObj); ok && o.buf != nil {
		return o
	}
	return nil
}

// placeAt brings an object just constructed over view to any later state: its
// position is pos, its scratch memory holds anything.
func (j *TSExec) placeAt(o, view *JObj, pos *JI, there JV) {
	tb, e := j.tb, j.e
	ss := j.slots(o)
	for _, s := range ss {
		if b := slotBuf(s.get()); b != nil && b.buf.o.size.isConst() && b.buf != view.buf {
			b.buf.o.c = e.baseContent("scratch")
		}
	}
	is := func() bool {
		ok := false
		if j.protect(func() { ok = e.valid(j.boolOf(j.call(there, jUndef{}, nil))) }) != nil {
			return false
		}
		return ok
	}
	j.placed, j.place0, j.posSlots = o, nil, map[string]bool{}
	// what may be the position, and what it is then
	type cand struct {
		s       slot
		was, to JV
	}
	var cs []cand
	length := j.lenI(view.len)
	rest := j.mk(false, tb.Sub(view.len, pos.lo), nil, bigZero, length.max)
	for _, s := range ss {
		switch x := s.get().(type) {
		case *JI:
			if x.big {
				break
			}
			if x.isConst() && x.min.Sign() == 0 {
				cs = append(cs, cand{s, x, pos})
			} else if !x.isConst() && x.lo == view.len {
				cs = append(cs, cand{s, x, rest})
			}
		case *JObj:
			if x != view && x.kind == view.kind && x.buf == view.buf && x.len == view.len && x.off == view.off {
				cs = append(cs, cand{s, x, j.view(view.kind, view.buf, tb.Add(view.off, pos.lo), tb.Sub(view.len, pos.lo))})
			}
		}
	}
	try := func(c ...cand) bool {
		for _, x := range c {
			x.s.set(x.to)
		}
		if is() {
			for _, x := range c {
				j.posSlots[x.s.path] = true
			}
			j.markState()
			return true
		}
		for _, x := range c {
			x.s.set(x.was)
		}
		return false
	}
	for _, c := range cs {
		if try(c) {
			return
		}
	}
	// No slot is a position. If the object is nothing but its view then an
	// arbitrary view at its start is an arbitrary state.
	if e.sat(tb.Eq(pos.lo, tb.I(0))) {
		e.assume(tb.Eq(pos.lo, tb.I(0)))
		pos.min, pos.max, pos.lo = bigZero, bigZero, tb.I(0)
		if !is() {
			j.unsup("the state of a new object")
		}
		j.markState()
		return
	}
	panic(pathEnd{"position"})
}

func (j *TSExec) markState() {
	j.place0 = map[string]JV{}
	for _, s := range j.slots(j.placed) {
		j.place0[s.path] = s.get()
	}
}

// stateClosed makes sure the state consists of the position and byte buffers:
// anything else that an operation changes was not considered in its contract.
func (j *TSExec) stateClosed() {
	if j.placed == nil {
		return
	}
	more := func(k string) { j.unsup("an operation changes %s, which is more state than position and buffer", k) }
	type pair struct {
		path     string
		was, now *JObj
	}
	var bufs []pair
	now := j.slots(j.placed)
	if len(now) != len(j.place0) {
		more("the fields")
	}
	type num struct {
		path     string
		was, now *JI
	}
	var moved []num
	for _, s := range now {
		was, ok := j.place0[s.path]
		v := s.get()
		if !ok {
			more(s.path)
		}
		if b, c := slotBuf(v), slotBuf(was); b != nil && c != nil && b.kind == c.kind {
			bufs = append(bufs, pair{s.path, c, b})
			continue
		}
		if was == v || j.posSlots[s.path] {
			continue
		}
		if x, ok := was.(*JI); ok {
			if y, ok := v.(*JI); ok && x.big == y.big {
				if !j.e.valid(j.eq(x, y)) {
					moved = append(moved, num{s.path, x, y})
				}
				continue
			}
		}
		if x, ok := was.(*JB); ok {
			if y, ok := v.(*JB); ok && x.t == y.t {
				continue
			}
		}
		if x, ok := was.(*JS); ok {
			if y, ok := v.(*JS); ok && x.sym == nil && y.sym == nil && x.s == y.s {
				continue
			}
		}
		if _, ok := was.(*JFn); ok {
			if _, ok := v.(*JFn); ok {
				continue
			}
		}
		more(s.path)
	}
	// views of one memory stay so, and stay alike
	ext := func(o *JObj) (off, n *T) {
		if o.kind == "ArrayBuffer" {
			return j.tb.I(0), o.buf.o.size
		}
		if z := elemSize[o.kind]; z > 1 {
			return o.off, j.tb.Mul(o.len, j.tb.I(z))
		}
		return o.off, o.len
	}
	for i, x := range bufs {
		for _, y := range bufs[:i] {
			if (x.was.buf == y.was.buf) != (x.now.buf == y.now.buf) {
				j.unsup("an operation changes how %s and %s share memory", y.path, x.path)
			}
			if x.was.buf != y.was.buf || j.posSlots[x.path] || j.posSlots[y.path] || x.was == x.now && y.was == y.now {
				continue
			}
			o1, n1 := ext(x.was)
			o2, n2 := ext(y.was)
			p1, m1 := ext(x.now)
			p2, m2 := ext(y.now)
			if o1 == o2 && n1 == n2 && !j.e.valid(j.tb.BAnd(j.tb.Eq(p1, p2), j.tb.Eq(m1, m2))) {
				j.unsup("an operation changes how %s and %s share memory", y.path, x.path)
			}
		}
	}
	// a number may follow the length of a buffer
	for _, m := range moved {
		follows := false
		for _, b := range bufs {
			_, n := ext(b.was)
			_, k := ext(b.now)
			if !m.was.big && m.was.isU() && m.now.isU() && m.was.lo == n && j.e.valid(j.tb.Eq(m.now.lo, k)) {
				follows = true
			}
		}
		if !follows {
			more(m.path)
		}
	}
}

// ---- one harness ----

func newTSExec(p *TProg, o Options) *TSExec {
	e := NewEngine(nil, o)
	r := &RustExec{e: e, tb: e.tb, Ran: map[string]bool{}, Models: map[string]bool{}, Used: map[string]bool{}}
	j := &TSExec{RustExec: r, prog: p, touched: map[int]bool{}, havoc: map[int]bool{}, touchLet: map[string]bool{}, RanTS: map[string]bool{}}
	e.extractFn = r.extract
	return j
}

func (j *TSExec) fresh() {
	j.endGens()
	j.RustExec.reset()
	j.mods = map[string]*tmod{}
	j.classes = map[string]*JClass{}
	j.protos = map[string]*JObj{}
	j.ghost = map[string]bool{}
	j.f64src = map[*T]*T{}
	j.rounds = nil
	j.nobj, j.depth, j.line = 0, 0, nil
	j.bufs, j.placed, j.place0 = nil, nil, nil
}

func (j *TSExec) path(entry, name string) {
	j.fresh()
	t := j.protect(func() {
		j.loading = true
		m := j.load(entry)
		j.loading = false
		for _, b := range j.bufs {
			if j.havoc[b.id] {
				b.o.c = j.e.baseContent("module")
			}
		}
		h := m.exp[name]
		if h == nil {
			j.unsup("no contract %s", name)
		}
		j.call(h.v, jUndef{}, nil)
	})
	if t != nil {
		what := "a value"
		if o, ok := t.v.(*JObj); ok {
			what = o.kind
			if o.cls != nil {
				what = o.cls.name
			}
			if m, ok := o.props["message"].(*JS); ok && m.sym == nil {
				what += " " + m.s
			}
		}
		j.e.oblige("throw", j.tsite()+" "+what, j.tb.fls)
	}
}

func runTS(p *TProg, entry, name string, o Options) (res *Result) {
	havoc := map[int]bool{}
	for round := 0; ; round++ {
		j := newTSExec(p, o)
		j.havoc = havoc
		e := j.e
		e.body = func() { j.path(entry, name) }
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.Unsup = append(e.Unsup, fmt.Sprintf("internal error: %v", x))
					if o.Verbose {
						panic(x)
					}
				}
			}()
			e.Run(nil)
		}()
		e.s.Close()
		again := false
		for id := range j.touched {
			if !havoc[id] {
				havoc[id], again = true, true
			}
		}
		if again && round < 4 && len(e.Unsup) == 0 {
			continue
		}
		if len(j.touchLet) > 0 {
			e.Unsup = append(e.Unsup, "state kept between calls: "+keys(j.touchLet))
		}
		return &Result{Harness: name, Paths: e.Paths, VCs: e.VCs, Trivial: e.Trivial, Obs: e.Obs, Fails: e.Fails, Covers: e.Covers,
			Unsup: e.Unsup, Inlined: j.RanTS, Used: j.Used, Intrins: j.Models, Queries: e.s.Queries + e.s.LiaQueries, Alt: e.s.AltUsed, LiaDone: e.s.LiaUnsat,
			Unknowns: e.s.Unknowns, SolverTime: e.s.Time + e.s.AltTime + e.s.LiaTime, Assumed: e.assumedN, Bounded: e.bounded}
	}
}

// ---- properties ----

type TSProp struct {
	Harness *regexp.Regexp
	Native  *regexp.Regexp // histories run on the compiled code only
	Select  func(label string, asp []string) bool
}

func tprops() map[string]*TSProp {
	re := regexp.MustCompile
	return map[string]*TSProp{
		"C23": {Harness: re(`^h_enc_`), Native: re(`^n_enc_`), Select: selAll},
		"C24": {Harness: re(`^h_dec_`), Native: re(`^n_dec_`), Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/accept/") || l == "post/kind" && has(a, "accept") || l == "throw" && !has(a, "reject")
		}},
		"C25": {Harness: re(`^h_dec_`), Native: re(`^n_dec_`), Select: func(l string, a []string) bool {
			return strings.HasPrefix(l, "post/reject/") || l == "throw" && has(a, "reject")
		}},
	}
}

// TSBuild is one reading of the package together with its contracts.
type TSBuild struct {
	dir   string
	ghost string
	prog  *TProg
	mu    sync.Mutex
	runs  int
	Ran   int
	names []string
}

func (b *TSBuild) Close() {
	if b.dir != "" && os.Getenv("KEEP") == "" {
		os.RemoveAll(b.dir)
	}
}

func buildTS() (*TSBuild, error, error) {
	b := &TSBuild{ghost: filepath.Join(verifDir(), "ts", "ghost", "ts.ts")}
	var err error
	if b.dir, err = os.MkdirTemp("", "govc-ts"); err != nil {
		return b, err, nil
	}
	out := filepath.Join(b.dir, "ast.json")
	o, err := exec.Command("node", filepath.Join(verifDir(), "ts", "astdump.js"), out, repoDir(), b.ghost).CombinedOutput()
	if err != nil {
		return b, nil, fmt.Errorf("%v %.2000s", err, o)
	}
	if b.prog, err = loadTS(out); err != nil {
		return b, err, nil
	}
	for _, st := range b.prog.mods[b.ghost].body {
		if st.K == "func" && st.b["exp"] {
			b.names = append(b.names, st.s["n"])
		}
	}
	sort.Strings(b.names)
	return b, nil, nil
}

func (b *TSBuild) Run(reqs []NReq, limit time.Duration) ([]NRes, error) {
	var res []NRes
	for _, q := range reqs {
		b.mu.Lock()
		b.runs++
		rq := filepath.Join(b.dir, fmt.Sprintf("req%d", b.runs))
		ro := filepath.Join(b.dir, fmt.Sprintf("out%d", b.runs))
		b.mu.Unlock()
		var t strings.Builder
		fmt.Fprintf(&t, "harness %s\n", q.Harness)
		for _, ins := range q.Inputs {
			for _, i := range ins {
				d := i.Data
				if uint64(len(d)) > i.Len && i.Kind != "scalar" {
					d = d[:i.Len]
				}
				for i.Kind != "scalar" && uint64(len(d)) < i.Len {
					d = append(append([]byte{}, d...), make([]byte, i.Len-uint64(len(d)))...)
				}
				fmt.Fprintf(&t, "in %s %d -%s\n", i.Name, i.U, hex.EncodeToString(d))
			}
			t.WriteString("case\n")
		}
		if q.Search > 0 {
			fmt.Fprintf(&t, "search %d %d %d\n", q.Search, q.Millis, q.Seed)
		}
		os.WriteFile(rq, []byte(t.String()), 0o644)
		cmd := exec.Command("timeout", fmt.Sprint(int(limit.Seconds())), "node", "--stack-size=4000", filepath.Join(verifDir(), "ts", "native", "run.js"), repoDir(), b.ghost, rq, ro)
		cmd.Dir = b.dir
		o, err := cmd.CombinedOutput()
		bs, rerr := os.ReadFile(ro)
		if rerr != nil {
			return nil, fmt.Errorf("native run: %v\n%.2000s", err, o)
		}
		r := NRes{Harness: q.Harness}
		for _, l := range strings.Split(string(bs), "\n") {
			w := strings.Split(l, " ")
			switch w[0] {
			case "ran":
				r.Ran, _ = strconv.Atoi(w[1])
				r.Skipped, _ = strconv.Atoi(w[2])
			case "find":
				p := strings.SplitN(l[5:], "|", 3)
				lab := p[0]
				if lab != "throw" {
					lab = "post/" + lab
				}
				r.Finds = append(r.Finds, NFind{Label: lab, Aspect: p[1], Detail: p[2]})
			case "in":
				f := &r.Finds[len(r.Finds)-1]
				u, _ := strconv.ParseUint(w[2], 10, 64)
				iv := InputVal{Name: w[1], Kind: "scalar", U: u}
				if w[3] != "scalar" {
					d, _ := hex.DecodeString(w[3][1:])
					iv = InputVal{Name: w[1], Kind: "bytes", Len: uint64(len(d)), Data: d}
				}
				f.Inputs = append(f.Inputs, iv)
			}
		}
		b.mu.Lock()
		b.Ran += r.Ran
		b.mu.Unlock()
		res = append(res, r)
	}
	return res, nil
}

func tsReport() *reportInfo {
	return &reportInfo{cmd: "bash tools/tscheck.sh",
		trusted: []string{"govc VC generator (/verif/govc) and its reader of TypeScript (/verif/ts/astdump.js on the parser of TypeScript 5.9.3, which also drops the types)", "z3 4.8.12 (bit vectors, uninterpreted functions; linear integer arithmetic)", "cvc5 1.1.2 and z3 5.x for what z3 4.8 leaves open", "wire-format specification /verif/ts/ghost/spec.ts", "contracts /verif/ts/ghost"},
		assum: []string{
			"the verifier itself (govc): the meaning it gives to the ECMAScript constructs and built-in objects the sources use (typed arrays, DataView, TextEncoder, TextDecoder, Number, BigInt, Math, Object, Error), its term simplifier, and the solvers z3 and cvc5",
			"TypeScript is examined as written, types erased; the JavaScript that the TypeScript compiler emits for it is assumed to mean the same",
			"numbers are exact: integers where they are provably within 2^53, floats by their bits; rounding between 32 and 64 bits is an uninterpreted pair of functions; the number -0 is only followed as the bits of a float",
			"text is a sequence of well-formed UTF-8; strings with unpaired surrogates are not considered; text that is not UTF-8 is not specified",
			"allocation succeeds; byte strings are at most 2^40 bytes long; buffers are not detached or resized",
			"the state of an Encoder or Decoder is its position and its buffers (checked: an operation that changes anything else is reported as out of reach)",
		}}
}

func tsFunctions(h string) []string {
	n := strings.SplitN(h, "_", 3)
	if len(n) < 3 {
		return []string{"Kind"}
	}
	c := map[string]string{"enc": "Encoder", "dec": "Decoder"}[n[1]]
	if n[2] == "new" {
		return []string{c + ".constructor"}
	}
	return []string{c + "." + n[2]}
}

func tcheck(id string) int {
	t0 := time.Now()
	pr := tprops()[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	return tsPart(id, pr).finish(id, t0)
}

func tsPart(id string, pr *TSProp) *partial {
	t0 := time.Now()
	thorough := tier() == "thorough"
	budget := 500 * time.Second
	if thorough {
		budget = 800 * time.Second
	}
	deadline := t0.Add(budget)
	b, broken, api := buildTS()
	part0 := &partial{info: tsReport(), done: b.Close}
	if broken != nil {
		part0.broken = broken
		return part0
	}
	sd := &side{of: tsFunctions}
	sides := map[string]*side{"typescript": sd}
	if api != nil {
		v := violation{Property: id, Group: "typescript", Obligation: "contract/api", Verifier: "the package cannot be read: " + api.Error()}
		part0.sides, part0.vs, part0.notes = sides, []violation{v}, []string{api.Error()}
		return part0
	}
	var outs []*outcome
	part := &Part{Group: "typescript", Harness: pr.Harness, Select: pr.Select}
	for _, n := range b.names {
		if pr.Harness.MatchString(n) {
			outs = append(outs, &outcome{part: part, group: "typescript", name: n})
		}
	}
	sort.Slice(outs, func(i, k int) bool {
		if w, v := rweight(outs[i].name), rweight(outs[k].name); w != v {
			return w > v
		}
		return outs[i].name < outs[k].name
	})
	jobs := make(chan *outcome)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range jobs {
				end := func(d time.Duration) time.Time {
					if t := time.Now().Add(d); t.Before(deadline) {
						return t
					}
					return deadline
				}
				o.rung = "bodies"
				o.res = runTS(b.prog, b.ghost, o.name, Options{Select: part.Select, StopAfter: 6, Deadline: end(300 * time.Second)})
				judge(id, o, b, true, thorough, func() *Result {
					return runTS(b.prog, b.ghost, o.name, Options{Select: part.Select, Solver: "z3-new", Deadline: end(300 * time.Second)})
				})
			}
		}()
	}
	for _, o := range outs {
		jobs <- o
	}
	close(jobs)
	wg.Wait()
	var vs []violation
	var notes []string
	for _, o := range outs {
		vs = append(vs, o.violate...)
		for _, n := range o.notes {
			notes = append(notes, o.name+": "+n)
		}
	}
	// histories on the real code: not counted as proof
	for _, n := range b.names {
		if !pr.Native.MatchString(n) {
			continue
		}
		ms := 4000
		if thorough {
			ms = 20000
		}
		res, err := b.Run([]NReq{{Harness: n, Search: 400000, Millis: ms, Seed: seed()}}, time.Duration(ms)*time.Millisecond+60*time.Second)
		if err != nil {
			notes = append(notes, n+": "+err.Error())
			continue
		}
		o := &outcome{part: part, group: "typescript", name: n}
		o.judgeSearch(id, &res[0], "histories on the real code")
		vs = append(vs, o.violate...)
	}
	sd.native = b.Ran
	part0.outs, part0.sides, part0.vs, part0.notes = outs, sides, vs, notes
	return part0
}

func treplay(v *violation) int {
	b, broken, api := buildTS()
	defer b.Close()
	if broken != nil || api != nil {
		fmt.Println(broken, api)
		return 2
	}
	res, err := b.Run([]NReq{{Harness: v.Harness, Inputs: [][]InputVal{v.Inputs}}}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rc := 0
	for _, r := range res {
		fmt.Printf("%s %s: ran %d, failures %d\n", v.Harness, inputText(v.Inputs), r.Ran, len(r.Finds))
		for _, f := range r.Finds {
			fmt.Printf("  %s %s %s\n", f.Label, f.Aspect, f.Detail)
			rc = 1
		}
	}
	return rc
}

func trun(args []string) {
	b, e1, e2 := buildTS()
	defer b.Close()
	if e1 != nil || e2 != nil {
		fmt.Println(e1, e2)
		return
	}
	for _, n := range b.names {
		if args[0] != n && (args[0] != "all" || !strings.HasPrefix(n, "h_")) {
			continue
		}
		t := time.Now()
		o := Options{Verbose: os.Getenv("V") != ""}
		if len(args) > 1 {
			o.Select = tprops()[args[1]].Select
		}
		r := runTS(b.prog, b.ghost, n, o)
		fmt.Printf("%-18s paths=%d vcs=%d trivial=%d fails=%d covers=%v unsup=%v queries=%d solver=%v wall=%v\n", n, r.Paths, r.VCs, r.Trivial, len(r.Fails), keys(r.Covers), r.Unsup, r.Queries, r.SolverTime.Round(time.Millisecond), time.Since(t).Round(time.Millisecond))
		seen := map[string]int{}
		for _, f := range r.Fails {
			if seen[f.Label]++; seen[f.Label] > 2 {
				continue
			}
			fmt.Printf("   FAIL %s %s %v %s aspects=%v\n", f.Status, f.Label, f.Site, f.Path, f.Aspects)
			for _, i := range f.Inputs {
				fmt.Printf("      %+v\n", i)
			}
		}
	}
}

var _ = math.Pi
