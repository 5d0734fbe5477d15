// Contracts of generated code (C27, C29). The generated Encode and Decode
// methods are executed against the contracts of the library's encoder and
// decoder: encoding appends one item per call, decoding returns and consumes
// the item it stands on. A nested message is one item under the contract of its
// own type. Loops of unknown length are decided by one arbitrary iteration.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa/ssautil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type tok struct {
	op   string // encoder method, "msg", "rep", "rest", "cut"
	vals []Value
	// msg
	mt *types.Named
	id int
	// rep
	n, k *T
	toks []tok
	// rep cut inside one of its iterations, after cutAt items
	cut   bool
	cutAt int
}

type tape struct {
	toks  []tok
	given []*BObj // what Bytes returned
}

type decState struct {
	t        *tape
	pos      int
	foreign  bool
	lost     bool // position unknown
	ended    bool // ran into the end inside a cut repetition
	consumed bool
}

type opaqueMsg struct {
	mt *types.Named
	id int
}

type repPos struct {
	rep   *tok
	j     int
	limit int
	last  bool // the iteration in which the input ends
}

type genLoop struct {
	f      *frame
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	mark   int
	k      *T // 32 bits: number of the arbitrary iteration
	entry  map[*ssa.Phi]Value
	count  map[*ssa.Phi]int64
	tapes  map[*tape]int
	reps   map[*decState]*repPos
	stage  int // 1 arbitrary iteration, 2 evaluating its exit
	exitK  *T
	saved  map[string]savedVal
	arrs   []*GenArr
	maps   []*MapObj
}

type savedVal struct {
	p   *PtrV
	old Value
}

// GenArr: the elements of a list of unknown length, through its arbitrary one.
type GenArr struct {
	et    types.Type
	n     *T
	cell  *Cell
	idx   *T
	cover *T // number of elements the loop over them has visited
	seq   *T // iteration in which idx was visited
}

type MapObj struct {
	gen      bool // arbitrary entry
	n        *T
	key, val Value
	cover    *T
	ents     [][2]Value
	inLoop   bool
	global   bool
}

type iterV struct {
	m *MapObj
	i int
}

type poisonV struct{}

type genRun struct {
	e            *Engine
	poly         string
	mt           *types.Named
	top          map[*Cell]bool
	topNil       bool
	tapes        map[*Cell]*tape
	decs         map[*Cell]*decState
	bytesOf      map[*BObj]*tape
	anyBytes     map[*BObj]bool // foreign input
	lastDec      *decState
	loops        []*genLoop
	generic      bool
	poison       map[*ssa.Phi]bool
	nopaque      int
	ctl          map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	broken       bool // left a loop in its middle
	constructing map[*ssa.Function]bool
	through      bool
	bound        int
	recur        map[string]map[string]bool // type -> types reachable from it
	nest         map[string]bool            // types used through their contract
	nested       map[string]bool            // types some message holds
}

type genRestart struct{}

func isMsg(n *types.Named, pkg *types.Package) bool {
	if n == nil || n.Obj().Pkg() != pkg {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

func msgOfPtr(t types.Type) *types.Named {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

func (g *genRun) decType() string {
	if strings.HasSuffix(g.poly, "/v2") {
		return "BufferDecoder"
	}
	return "Decoder"
}

func (g *genRun) errVal() Value {
	e := g.e
	c := e.newCell("error", types.Typ[types.Int], &Scalar{e.tb.I(0)})
	return &IfaceV{typ: types.NewPointer(types.Typ[types.Int]), v: &PtrV{cell: c, arr: -1}}
}

func (g *genRun) noErr() Value { return &IfaceV{nil_: true} }

// call intercepts the library and the methods of other messages.
func (g *genRun) call(fn *ssa.Function, name string, args []Value, site string) (Value, bool) {
	e := g.e
	p := g.poly
	if e.inInit {
		return nil, false
	}
	if rest, ok := strings.CutPrefix(name, "(*"+p+".BufferEncoder)."); ok {
		return g.encodeOp(rest, args, site), true
	}
	if rest, ok := strings.CutPrefix(name, "(*"+p+"."+g.decType()+")."); ok {
		return g.decodeOp(rest, fn, args, site), true
	}
	if rest, ok := strings.CutPrefix(name, "(*"+p+".Buffer)."); ok {
		t := g.tapeOf(args[0], site)
		switch rest {
		case "Reset":
			for _, l := range g.loops {
				if _, old := l.tapes[t]; old {
					e.unsup("a loop that resets a buffer")
				}
			}
			t.toks = nil
			for _, o := range t.given {
				delete(g.bytesOf, o) // the bytes may be overwritten
			}
			e.Used["library contract "+name] = true
			return &TupleV{}, true
		case "Bytes":
			e.Used["library contract "+name] = true
			s := g.bytes(&tape{toks: append([]tok{}, t.toks...)})
			t.given = append(t.given, s.o)
			return s, true
		case "Write":
			// what another buffer holds
			s, ok := args[1].(*SliceV)
			if ok && s.o != nil && g.bytesOf[s.o] != nil && e.valid(e.tb.BAnd(e.tb.Eq(s.off, e.tb.I(0)), e.tb.Eq(s.len, s.o.size))) {
				e.Used["library contract "+name] = true
				t.toks = append(t.toks, g.bytesOf[s.o].toks...)
				return &Scalar{s.len}, true
			}
		}
		e.unsup("generated code calls Buffer.%s", rest)
	}
	switch name {
	case p + ".Encoder":
		return args[0], true
	case p + ".Decoder", p + ".GetDecoder":
		e.Used["library contract "+name] = true
		s := args[0].(*SliceV)
		d := &decState{}
		if s.o != nil && g.anyBytes[s.o] {
			d.foreign = true
		} else if t := g.bytesOf[s.o]; s.o != nil && t != nil {
			d.t = t
		} else {
			e.unsup("decoder over bytes of another origin")
		}
		c := e.newCell("decoder", types.Typ[types.Int], &Scalar{e.tb.I(0)})
		g.decs[c] = d
		g.lastDec = d
		return &PtrV{cell: c, arr: -1}, true
	case p + ".NewBuffer":
		if len(args) == 0 {
			e.Used["library contract "+name] = true
			b, _ := g.buffer()
			return b, true
		}
	case p + ".ReturnDecoder":
		return &TupleV{}, true
	}
	if fn.Pkg == e.ld.target && fn.Signature.Recv() == nil && len(args) == 0 && strings.HasPrefix(fn.Name(), "New") {
		if g.through {
			g.through = false
			return nil, false
		}
		if g.constructing[fn] {
			// a constructor without arguments that needs itself
			e.oblige("termination/construct", site, e.tb.fls)
			panic(pathEnd{"endless construction"})
		}
		g.constructing[fn] = true
		defer delete(g.constructing, fn)
		g.through = true
		return e.call(fn, nil, nil, site), true
	}
	// methods of generated messages other than the one under contract
	if fn.Signature.Recv() != nil && len(args) == 2 && fn.Signature.Params().Len() == 1 {
		mt := msgOfPtr(fn.Signature.Recv().Type())
		if mt != nil && isMsg(mt, e.ld.target.Pkg) {
			pv, _ := args[0].(*PtrV)
			own := pv != nil && (pv.nil_ && g.topNil || !pv.nil_ && g.top[pv.cell])
			at := ""
			if pt, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok {
				at = types.TypeString(pt.Elem(), nil)
			}
			res := fn.Signature.Results()
			if pv != nil && !own && at == p+".Buffer" && res.Len() == 0 {
				return g.encodeMsg(mt, pv, args[1], site), true
			}
			if pv != nil && !own && at == p+"."+g.decType() && res.Len() == 1 {
				return g.decodeMsg(mt, pv, args[1], site), true
			}
		}
	}
	return nil, false
}

func (g *genRun) tapeOf(v Value, site string) *tape {
	pv, ok := v.(*PtrV)
	if !ok || pv.nil_ || g.tapes[pv.cell] == nil {
		g.e.unsup("encoding into another buffer")
	}
	if g.broken {
		g.e.unsup("encoding after leaving a loop")
	}
	return g.tapes[pv.cell]
}

func (g *genRun) snap(v Value) Value {
	e := g.e
	switch x := v.(type) {
	case *SliceV:
		r := e.asBytes(x)
		o := e.newBObj("snap", r.len, copyC(&Content{k: CZero}, e.tb.I(0), r.c, r.off, r.len))
		return &SliceV{o: o, off: e.tb.I(0), len: r.len, cap: r.len}
	case poisonV:
		e.unsup("value carried over from an earlier iteration")
	}
	return v
}

func (g *genRun) encodeOp(op string, args []Value, site string) Value {
	t := g.tapeOf(args[0], site)
	k := tok{op: op}
	for _, a := range args[1:] {
		k.vals = append(k.vals, g.snap(a))
	}
	g.e.Used["library contract encoder."+op] = true
	t.toks = append(t.toks, k)
	return args[0]
}

func (g *genRun) encodeMsg(mt *types.Named, pv *PtrV, buf Value, site string) Value {
	e := g.e
	t := g.tapeOf(buf, site)
	g.nest[mt.Obj().Name()] = true
	if pv.nil_ {
		t.toks = append(t.toks, tok{op: "Nil"})
		return &TupleV{}
	}
	om, ok := pv.cell.val.(*opaqueMsg)
	if !ok || len(pv.path) > 0 {
		e.unsup("encoding of a message built here")
	}
	t.toks = append(t.toks, tok{op: "msg", mt: om.mt, id: om.id})
	return &TupleV{}
}

func (g *genRun) dec(v Value) *decState {
	pv, ok := v.(*PtrV)
	if !ok || pv.nil_ || g.decs[pv.cell] == nil {
		g.e.unsup("unknown decoder")
	}
	return g.decs[pv.cell]
}

// cur is the item the decoder stands on; end of input when nil.
func (g *genRun) cur(d *decState) (*tok, func()) {
	e := g.e
	if d.ended {
		return nil, nil
	}
	var lp *genLoop
	if len(g.loops) > 0 {
		lp = g.loops[len(g.loops)-1]
		if lp.stage != 1 {
			e.unsup("decoding in a loop condition")
		}
	}
	if d.pos >= len(d.t.toks) {
		return nil, nil
	}
	t := &d.t.toks[d.pos]
	if t.op != "rep" {
		return t, func() {
			if lp != nil && t.op != "rest" {
				e.unsup("a loop of unknown length consumes a single item")
			}
			d.pos++
			d.consumed = true
		}
	}
	if lp == nil {
		e.unsup("items of a repetition decoded outside a loop")
	}
	rp := lp.reps[d]
	if rp == nil {
		rp = &repPos{rep: t, limit: len(t.toks)}
		if t.cut && e.choose(2) == 1 {
			rp.last = true
			rp.limit = t.cutAt
		}
		lp.reps[d] = rp
		e.assume(e.tb.Eq(lp.k, t.k))
		if !e.sat(e.tb.tru) {
			e.unsup("iterations of encoder and decoder do not correspond")
		}
	}
	if rp.j >= rp.limit {
		if rp.last {
			d.ended = true
			return nil, nil
		}
		e.unsup("an iteration decodes more than one was encoded as")
	}
	if rp.rep.toks[rp.j].op == "rep" {
		g.e.unsup("a repetition of repetitions")
	}
	return &rp.rep.toks[rp.j], func() { rp.j++; d.consumed = true }
}

func (g *genRun) havoc(t types.Type) Value {
	e := g.e
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			l := e.fresh("len", 64)
			e.assume(e.tb.Ule(l, e.tb.I(1<<32)))
			o := e.newBObj("any", l, e.baseContent("any"))
			o.isStr = true
			return &StrV{o: o, off: e.tb.I(0), len: l}
		}
		w, _ := e.basicWidth(u)
		if w >= 0 {
			return &Scalar{e.fresh("any", w)}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			l := e.fresh("len", 64)
			e.assume(e.tb.Ule(l, e.tb.I(1<<32)))
			return &SliceV{o: e.newBObj("any", l, e.baseContent("any")), off: e.tb.I(0), len: l, cap: l}
		}
	case *types.Interface:
		return g.errVal()
	}
	e.unsup("value of %s", t)
	return nil
}

func (g *genRun) sameKind(a, b Value) bool {
	e := g.e
	var c *T
	switch x := a.(type) {
	case *Scalar:
		c = e.tb.Eq(x.t, b.(*Scalar).t)
	case *SliceV:
		r, s := e.asBytes(a), e.asBytes(b)
		c = e.tb.Eq(r.len, s.len)
		if e.valid(c) {
			c = e.sameBytes(r, s)
		}
	default:
		e.unsup("kind %T", a)
	}
	return e.branch(c)
}

func (g *genRun) decodeOp(op string, fn *ssa.Function, args []Value, site string) Value {
	e := g.e
	if op == "Return" {
		return &TupleV{}
	}
	d := g.dec(args[0])
	e.Used["library contract decoder."+op] = true
	res := fn.Signature.Results()
	fail := func() Value {
		if op == "Nil" {
			return &Scalar{e.tb.fls}
		}
		return &TupleV{v: []Value{e.zero(res.At(0).Type()), g.errVal()}}
	}
	if op == "Bytes" {
		// the result may be kept in the storage handed in
		switch x := args[1].(type) {
		case poisonV:
			e.unsup("value carried over from an earlier iteration")
		case *SliceV:
			if !x.nil_ {
				e.checkWrite(x.o, x.off, site)
				x.o.c = e.baseContent("reused")
			}
		}
	}
	any := func(lost bool) Value {
		if op == "Nil" {
			if e.choose(2) == 1 {
				d.lost = d.lost || lost
				d.consumed = true
				return &Scalar{e.tb.tru}
			}
			return &Scalar{e.tb.fls}
		}
		if e.choose(2) == 1 {
			d.lost = d.lost || lost
			d.consumed = true
			return &TupleV{v: []Value{g.havoc(res.At(0).Type()), g.noErr()}}
		}
		return fail()
	}
	if d.foreign || d.lost {
		return any(false)
	}
	t, next := g.cur(d)
	if t == nil {
		return fail()
	}
	if t.op == "rest" {
		return any(true)
	}
	if t.op == "msg" && op != "Nil" {
		return any(true) // some item of the nested message
	}
	if t.op != op {
		return fail()
	}
	switch op {
	case "Nil":
		next()
		return &Scalar{e.tb.tru}
	case "Map":
		if !g.sameKind(t.vals[1], args[1]) || !g.sameKind(t.vals[2], args[2]) {
			return fail()
		}
	case "Slice":
		if !g.sameKind(t.vals[1], args[1]) {
			return fail()
		}
	}
	next()
	v := t.vals[0]
	switch x := v.(type) {
	case *SliceV:
		r := e.asBytes(x)
		o := e.newBObj("decoded", r.len, copyC(&Content{k: CZero}, e.tb.I(0), r.c, r.off, r.len))
		v = &SliceV{o: o, off: e.tb.I(0), len: r.len, cap: r.len}
	case *IfaceV:
		v = g.errVal()
	}
	return &TupleV{v: []Value{v, g.noErr()}}
}

func (g *genRun) decodeMsg(mt *types.Named, pv *PtrV, dv Value, site string) Value {
	e := g.e
	d := g.dec(dv)
	g.nest[mt.Obj().Name()] = true
	if g.recur[mt.Obj().Name()][g.mt.Obj().Name()] {
		// a recursive decode stands on a strictly shorter input
		e.oblige("termination/decode", site, e.tb.Bool(d.consumed))
	}
	if pv.nil_ {
		e.unsup("decoding into a nil message")
	}
	if len(pv.path) > 0 {
		e.unsup("decoding into a part of a message")
	}
	fresh := g.isZeroMsg(pv.cell.val)
	set := func(v Value) {
		if !fresh {
			e.unsup("decoding into a message in use")
		}
		pv.cell.val = v
	}
	any := func() Value {
		if e.choose(2) == 1 {
			d.lost = true
			d.consumed = true
			g.nopaque++
			set(&opaqueMsg{mt, g.nopaque})
			return g.noErr()
		}
		return g.errVal()
	}
	if d.foreign || d.lost {
		return any()
	}
	t, next := g.cur(d)
	if t == nil {
		return g.errVal()
	}
	switch t.op {
	case "msg":
		if t.mt != mt {
			return any()
		}
		next()
		set(&opaqueMsg{mt, t.id})
		return g.noErr()
	case "Nil":
		next()
		return g.noErr()
	}
	return any()
}

func (g *genRun) isZeroMsg(v Value) bool {
	s, ok := v.(*StructV)
	if !ok {
		return false
	}
	for _, f := range s.f {
		switch x := f.(type) {
		case *Scalar:
			if !x.t.isConst() || x.t.c != 0 {
				return false
			}
		case *StrV:
			if !x.len.isConst() || x.len.c != 0 {
				return false
			}
		case *PtrV:
			// version 1 constructs nested messages along with a message
			if !x.nil_ && !(g.v1() && g.isZeroMsg(x.cell.val)) {
				return false
			}
		default:
			if !isNilV(f) {
				return false
			}
		}
	}
	return true
}

func (g *genRun) v1() bool { return !strings.HasSuffix(g.poly, "/v2") }

// ---- loops ----

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	if len(body) == 1 {
		for _, p := range h.Preds {
			if p == h {
				return body
			}
		}
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

func (g *genRun) loopOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if l, ok := g.ctl[b]; ok {
		return l
	}
	l := naturalLoop(b)
	g.ctl[b] = l
	return l
}

func (g *genRun) active(f *frame, b *ssa.BasicBlock) *genLoop {
	for _, l := range g.loops {
		if l.f == f && l.header == b {
			return l
		}
	}
	return nil
}

func phisOf(b *ssa.BasicBlock) (r []*ssa.Phi) {
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return
}

// header executes the instructions of a loop header and returns its condition.
func (g *genRun) header(f *frame, b *ssa.BasicBlock) *T {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return g.e.get(f, x.Cond).(*Scalar).t
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Next, *ssa.Extract:
			g.e.instr(f, in)
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				g.e.unsup("call in a loop condition")
			}
			g.e.instr(f, in)
		default:
			g.e.unsup("%T in a loop condition", in)
		}
	}
	g.e.unsup("loop without a condition")
	return nil
}

// counter: the phi changes by the same constant on every way around; 0 if not.
func counter(p *ssa.Phi, body map[*ssa.BasicBlock]bool) (step int64) {
	bt, ok := p.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return 0
	}
	for i, pr := range p.Block().Preds {
		if !body[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(p) || c.Value == nil {
			return 0
		}
		n := c.Int64()
		if b.Op == token.SUB {
			n = -n
		}
		if n < -1<<16 || n > 1<<16 || step != 0 && n != step {
			return 0
		}
		step = n
	}
	return step
}

func (g *genRun) setPhis(l *genLoop, k *T) {
	e := g.e
	for p, v0 := range l.entry {
		switch {
		case l.count[p] != 0:
			t := v0.(*Scalar).t
			kk := k
			if t.w > 32 {
				kk = e.tb.Zext(k, t.w)
			} else if t.w < 32 {
				e.unsup("narrow loop counter")
			}
			if c := l.count[p]; c != 1 {
				kk = e.tb.Mul(kk, e.tb.Const(t.w, uint64(c)))
			}
			l.f.regs[p] = &Scalar{e.tb.Add(t, kk)}
		case g.poison[p]:
			l.f.regs[p] = poisonV{}
		default:
			l.f.regs[p] = v0
		}
	}
}

// onIf decides the condition of a loop header whose value is not known. It
// returns the block to go on with.
func (g *genRun) onIf(f *frame, b *ssa.BasicBlock, c *T) *ssa.BasicBlock {
	e := g.e
	body := g.loopOf(b)
	if body == nil || c.isConst() {
		return nil
	}
	in, out := b.Succs[0], b.Succs[1]
	neg := false
	if body[in] == body[out] {
		return nil
	}
	if body[out] {
		in, out = out, in
		neg = true
	}
	cond := func(c *T) *T {
		if neg {
			return e.tb.BNot(c)
		}
		return c
	}
	if !e.branch(cond(c)) {
		return out
	}
	if !g.generic {
		return in
	}
	if len(g.loops) > 0 {
		e.unsup("nested loops of unknown length")
	}
	l := &genLoop{f: f, header: b, body: body, mark: e.ncell, entry: map[*ssa.Phi]Value{}, count: map[*ssa.Phi]int64{},
		tapes: map[*tape]int{}, reps: map[*decState]*repPos{}, saved: map[string]savedVal{}}
	for _, p := range phisOf(b) {
		l.entry[p] = f.regs[p]
		l.count[p] = counter(p, body)
	}
	for _, t := range g.tapes {
		l.tapes[t] = len(t.toks)
	}
	l.k = e.fresh("iteration", 32)
	l.stage = 1
	g.loops = append(g.loops, l)
	g.setPhis(l, l.k)
	e.assume(cond(g.header(f, b)))
	if !e.sat(e.tb.tru) {
		panic(pathEnd{"no iteration"})
	}
	return in
}

// close is called when the arbitrary iteration comes back to the header.
func (g *genRun) close(l *genLoop, phis []*ssa.Phi, vals []Value) *ssa.BasicBlock {
	e := g.e
	tb := e.tb
	if g.loops[len(g.loops)-1] != l {
		e.unsup("loops left out of order")
	}
	for i, p := range phis {
		if l.count[p] != 0 || g.poison[p] {
			continue
		}
		if !g.same(l.entry[p], vals[i]) {
			g.poison[p] = true
			panic(genRestart{})
		}
	}
	var ks []string
	for k := range l.saved {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := l.saved[k]
		if !g.same(s.old, e.getPath(s.p)) {
			e.unsup("a loop carries %s on to its next iteration", s.p.cell.name)
		}
	}
	in, out := l.header.Succs[0], l.header.Succs[1]
	neg := !l.body[in]
	if neg {
		out = in
	}
	cond := func(c *T) *T {
		if neg {
			return tb.BNot(c)
		}
		return c
	}
	// the number of iterations
	K := e.fresh("iterations", 32)
	l.stage = 2
	e.assume(tb.BNot(tb.Eq(K, tb.Const(32, 0))))
	e.assume(tb.Ult(l.k, K))
	l.exitK = tb.Sub(K, tb.Const(32, 1))
	g.setPhis(l, l.exitK)
	e.assume(cond(g.header(l.f, l.header)))
	l.exitK = K
	g.setPhis(l, K)
	e.assume(tb.BNot(cond(g.header(l.f, l.header))))
	if !e.sat(tb.tru) {
		// an arbitrary iteration exists but the loop never ends
		e.unsup("loop that does not end")
	}
	for t, n := range l.tapes {
		if len(t.toks) > n {
			r := tok{op: "rep", n: K, k: l.k, toks: append([]tok{}, t.toks[n:]...)}
			t.toks = append(t.toks[:n:n], r)
		}
	}
	for d, rp := range l.reps {
		if rp.last {
			if !d.ended {
				e.unsup("a cut item was not noticed")
			}
			continue
		}
		e.oblige("post/position/iteration", "", tb.Bool(rp.j == len(rp.rep.toks)))
		if rp.rep.cut {
			panic(pathEnd{"the input ends in a later iteration"})
		}
		e.oblige("post/position/iterations", "", tb.Eq(K, rp.rep.n))
		d.pos++
	}
	for _, a := range l.arrs {
		a.cover, a.seq = K, l.k
	}
	for _, m := range l.maps {
		m.cover = K
		m.inLoop = false
	}
	g.loops = g.loops[:len(g.loops)-1]
	return out
}

// leave is called when a function returns.
func (g *genRun) leave(f *frame) {
	for i, l := range g.loops {
		if l.f == f {
			g.loops = g.loops[:i]
			g.broken = true
			return
		}
	}
}

// same: certainly the same value.
func (g *genRun) same(a, b Value) bool {
	e := g.e
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Scalar:
		y, ok := b.(*Scalar)
		return ok && (x.t == y.t || e.valid(e.tb.Eq(x.t, y.t)))
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.nil_ != y.nil_ {
			return false
		}
		return x.nil_ || x.cell == y.cell && x.o == y.o && fmt.Sprint(x.path) == fmt.Sprint(y.path) && x.o == nil
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x.nil_ && y.nil_ || !x.nil_ && !y.nil_ && g.same(x.v, y.v))
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && (x.nil_ && y.nil_ || !x.nil_ && !y.nil_ && x.o == y.o && x.cell == y.cell && x.off == y.off && x.len == y.len && x.cap == y.cap)
	case *StrV:
		y, ok := b.(*StrV)
		return ok && x.o == y.o && x.off == y.off && x.len == y.len
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.nil_ == y.nil_ && x.m == y.m
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !g.same(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// written notes a store into memory that was there before the loop.
func (g *genRun) written(p *PtrV) {
	if len(g.loops) == 0 || p.cell == nil {
		return
	}
	l := g.loops[len(g.loops)-1]
	if p.cell.id > l.mark || p.cell.gen {
		return
	}
	k := fmt.Sprint(p.cell.id, p.path)
	if _, ok := l.saved[k]; !ok {
		l.saved[k] = savedVal{p, e0(g.e.getPath(p))}
	}
}

func e0(v Value) Value { return copyVal(v) }

// ---- lists and maps ----

func (g *genRun) newArr(et types.Type, n *T, v Value) *SliceV {
	e := g.e
	a := &GenArr{et: et, n: n, cell: e.newCell("element", et, v)}
	a.cell.gen = true
	c := e.newCell("list", types.NewSlice(et), a)
	return &SliceV{cell: c, off: e.tb.I(0), len: n, cap: n}
}

func (g *genRun) elem(a *GenArr, i *T) *PtrV {
	e := g.e
	if len(g.loops) == 0 {
		e.unsup("element of a list of unknown length outside a loop")
	}
	l := g.loops[len(g.loops)-1]
	if a.idx == nil {
		a.idx = i
		if !e.valid(e.tb.Eq(i, e.tb.Zext(l.k, i.w))) {
			e.unsup("list element that is not the one of the iteration")
		}
		l.arrs = append(l.arrs, a)
	} else {
		own := false
		for _, x := range l.arrs {
			own = own || x == a
		}
		if !own || !e.valid(e.tb.Eq(a.idx, i)) {
			e.unsup("another element of the list")
		}
	}
	return &PtrV{cell: a.cell, arr: -1}
}

func (g *genRun) mapUpdate(mv Value, k, v Value, site string) {
	e := g.e
	m, ok := mv.(*MapV)
	if !ok {
		e.unsup("update of %T", mv)
	}
	if m.nil_ {
		e.oblige("panic/nil-map", site, e.tb.fls)
		panic(pathEnd{"nil map"})
	}
	for _, x := range []Value{k, v} {
		if _, bad := x.(poisonV); bad {
			e.unsup("value carried over from an earlier iteration")
		}
	}
	if len(g.loops) == 0 {
		if m.m.gen {
			e.unsup("update of a map of unknown size")
		}
		m.m.ents = append(m.m.ents, [2]Value{copyVal(k), copyVal(v)})
		return
	}
	l := g.loops[len(g.loops)-1]
	if m.m.gen || len(m.m.ents) > 0 {
		e.unsup("second update of a map in an iteration")
	}
	m.m.gen = true
	m.m.inLoop = true
	m.m.key, m.m.val = copyVal(k), copyVal(v)
	l.maps = append(l.maps, m.m)
}

func (g *genRun) next(it *iterV, x *ssa.Next) Value {
	e := g.e
	tt := x.Type().(*types.Tuple)
	done := func(c *T) Value {
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return poisonV{}
			}
			return e.zero(tt.At(i).Type())
		}
		return &TupleV{v: []Value{&Scalar{c}, z(1), z(2)}}
	}
	m := it.m
	if m == nil {
		return done(e.tb.fls)
	}
	if !m.gen {
		if it.i >= len(m.ents) {
			return done(e.tb.fls)
		}
		it.i++
		return &TupleV{v: []Value{&Scalar{e.tb.tru}, m.ents[it.i-1][0], m.ents[it.i-1][1]}}
	}
	if m.inLoop || m.cover != nil {
		e.unsup("iteration over a map that was just filled")
	}
	n := e.tb.Const(32, 0)
	if len(g.loops) > 0 {
		l := g.loops[len(g.loops)-1]
		n = l.k
		if l.stage == 2 {
			n = l.exitK
		}
	}
	return &TupleV{v: []Value{&Scalar{e.tb.Ult(n, e.tb.Extract(m.n, 31, 0))}, m.key, m.val}}
}

// ---- inputs ----

const maxPayload = int64(1)<<32 - 1

func (g *genRun) input(name string, t types.Type, depth int) Value {
	e := g.e
	tb := e.tb
	count := func() *T {
		n := e.tb.Var("in."+name+".n", 32)
		return tb.Zext(n, 64)
	}
	small := func() int {
		return e.choose(g.bound + 1)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			l := tb.Var("in."+name+".len", 64)
			e.assume(tb.Ule(l, tb.I(maxPayload)))
			o := e.newBObj(name, l, &Content{k: CBase, name: "in." + name})
			o.isStr, o.pre = true, true
			return &StrV{o: o, off: tb.I(0), len: l}
		}
		w, _ := e.basicWidth(u)
		if w < 0 {
			e.unsup("field type %s", t)
		}
		return &Scalar{tb.Var("in."+name, w)}
	case *types.Slice:
		if isByte(u.Elem()) {
			l := tb.Var("in."+name+".len", 64)
			e.assume(tb.Ule(l, tb.I(maxPayload)))
			o := e.newBObj(name, l, &Content{k: CBase, name: "in." + name})
			o.pre = true
			return &SliceV{o: o, off: tb.I(0), len: l, cap: l, lazy: &lazyNil{}}
		}
		if g.generic {
			s := g.newArr(u.Elem(), count(), g.input(name+"[k]", u.Elem(), depth+1))
			s.lazy = &lazyNil{}
			return s
		}
		n := small()
		a := &ArrV{n: int64(n)}
		for i := 0; i < n; i++ {
			a.e = append(a.e, g.input(fmt.Sprintf("%s[%d]", name, i), u.Elem(), depth+1))
		}
		return &SliceV{cell: e.newCell("list", types.NewArray(u.Elem(), a.n), a), off: tb.I(0), len: tb.I(int64(n)), cap: tb.I(int64(n)), lazy: &lazyNil{}}
	case *types.Map:
		if e.choose(2) == 1 {
			e.trace = append(e.trace, name+"=nil")
			return e.zero(t)
		}
		m := &MapObj{}
		if g.generic {
			m.gen = true
			m.n = count()
			m.key = g.input(name+".key", u.Key(), depth+1)
			m.val = g.input(name+".value", u.Elem(), depth+1)
			return &MapV{m: m}
		}
		n := small()
		for i := 0; i < n; i++ {
			m.ents = append(m.ents, [2]Value{g.input(fmt.Sprintf("%s.key%d", name, i), u.Key(), depth+1), g.input(fmt.Sprintf("%s.value%d", name, i), u.Elem(), depth+1)})
		}
		return &MapV{m: m}
	case *types.Pointer:
		if mt := msgOfPtr(t); mt != nil && isMsg(mt, e.ld.target.Pkg) {
			if e.choose(2) == 1 {
				e.trace = append(e.trace, name+"=nil")
				return e.zero(t)
			}
			g.nopaque++
			return &PtrV{cell: e.newCell(name, mt, &opaqueMsg{mt, g.nopaque}), arr: -1}
		}
	}
	e.unsup("field type %s", t)
	return nil
}

// ---- equality of messages ----

func (g *genRun) obligeSame(label string, a, b Value, t types.Type, elem bool) {
	e := g.e
	tb := e.tb
	no := func(sub string) { e.oblige(label+sub, "", tb.fls) }
	if _, bad := b.(poisonV); bad {
		e.unsup("value carried over from an earlier iteration")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if x, ok := a.(*StrV); ok {
			r, s := e.asBytes(x), e.asBytes(b)
			e.oblige(label+"/length", "", tb.Eq(r.len, s.len))
			e.oblige(label+"/bytes", "", e.sameBytes(r, s))
			return
		}
		e.oblige(label, "", tb.Eq(a.(*Scalar).t, b.(*Scalar).t))
	case *types.Slice:
		x, y := a.(*SliceV), b.(*SliceV)
		e.oblige(label+"/length", "", tb.Eq(x.len, y.len))
		if isByte(u.Elem()) {
			r, s := e.asBytes(x), e.asBytes(y)
			e.oblige(label+"/bytes", "", e.sameBytes(r, s))
			return
		}
		if x.nil_ || x.len.isConst() && x.len.c == 0 || e.valid(tb.Eq(x.len, tb.I(0))) {
			return
		}
		if y.nil_ {
			no("/elements")
			return
		}
		switch p := x.cell.val.(type) {
		case *ArrV:
			q, ok := y.cell.val.(*ArrV)
			if !ok || !y.off.isConst() {
				e.unsup("list %T", y.cell.val)
			}
			for i := range p.e {
				g.obligeSame(label+"/element", p.e[i], q.e[int(y.off.c)+i], u.Elem(), true)
			}
		case *GenArr:
			q, ok := y.cell.val.(*GenArr)
			if !ok {
				e.unsup("list %T", y.cell.val)
			}
			if p.idx == nil || q.idx == nil {
				no("/elements")
				return
			}
			if q.cover == nil || p.cover == nil {
				e.unsup("loop over a list not finished")
			}
			e.oblige(label+"/index", "", tb.Eq(p.idx, q.idx))
			e.oblige(label+"/elements", "", tb.BAnd(tb.Eq(tb.Zext(q.cover, 64), q.n), tb.Eq(tb.Zext(p.cover, 64), p.n)))
			g.obligeSame(label+"/element", p.cell.val, q.cell.val, u.Elem(), true)
		}
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		empty := x.nil_ || !x.m.gen && len(x.m.ents) == 0 || x.m.gen && e.valid(tb.Eq(x.m.n, tb.I(0)))
		if empty {
			e.oblige(label+"/size", "", tb.Bool(y.nil_ || !y.m.gen && len(y.m.ents) == 0))
			return
		}
		if y.nil_ || x.m.gen != y.m.gen {
			no("/size")
			return
		}
		if !x.m.gen {
			e.oblige(label+"/size", "", tb.Bool(len(x.m.ents) == len(y.m.ents)))
			for i := range x.m.ents {
				g.obligeSame(label+"/key", x.m.ents[i][0], y.m.ents[i][0], u.Key(), true)
				g.obligeSame(label+"/value", x.m.ents[i][1], y.m.ents[i][1], u.Elem(), true)
			}
			return
		}
		if y.m.cover == nil {
			e.unsup("loop over a map not finished")
		}
		e.oblige(label+"/size", "", tb.Eq(tb.Zext(y.m.cover, 64), x.m.n))
		g.obligeSame(label+"/key", x.m.key, y.m.key, u.Key(), true)
		g.obligeSame(label+"/value", x.m.val, y.m.val, u.Elem(), true)
	case *types.Pointer:
		x, y := a.(*PtrV), b.(*PtrV)
		if x.nil_ {
			// absent; in a list or map the place is taken by an empty message
			ok := y.nil_ || (elem || g.v1()) && g.isZeroMsg(y.cell.val)
			e.oblige(label+"/absent", "", tb.Bool(ok))
			return
		}
		om := x.cell.val.(*opaqueMsg)
		if y.nil_ {
			no("/present")
			return
		}
		on, ok := y.cell.val.(*opaqueMsg)
		e.oblige(label+"/message", "", tb.Bool(ok && on.id == om.id))
	default:
		e.unsup("comparison of %s", t)
	}
}

// flat copy of a message for the frame condition
func (g *genRun) frozen(v Value) Value {
	s := copyVal(v).(*StructV)
	for i, f := range s.f {
		if x, ok := f.(*SliceV); ok && x.o != nil {
			s.f[i] = g.snap(x)
		}
	}
	return s
}

// ---- harnesses ----

type genHarness struct {
	name string
	mt   *types.Named
	kind string
}

func (ld *Loader) genMessages(poly string) (r []*types.Named) {
	sc := ld.target.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		mt, ok := tn.Type().(*types.Named)
		if !ok || !isMsg(mt, ld.target.Pkg) {
			continue
		}
		r = append(r, mt)
	}
	return
}

func (g *genRun) method(mt *types.Named, name string) *ssa.Function {
	f := g.e.ld.prog.LookupMethod(types.NewPointer(mt), mt.Obj().Pkg(), name)
	if f == nil {
		g.e.unsup("%s has no method %s", mt.Obj().Name(), name)
	}
	return f
}

func (g *genRun) newMsg(mt *types.Named) *PtrV {
	f := g.e.ld.target.Func("New" + mt.Obj().Name())
	if f == nil {
		g.e.unsup("no constructor of %s", mt.Obj().Name())
	}
	return g.e.call(f, nil, nil, "New"+mt.Obj().Name()).(*PtrV)
}

func (g *genRun) buffer() (*PtrV, *tape) {
	c := g.e.newCell("buffer", types.Typ[types.Int], &Scalar{g.e.tb.I(0)})
	t := &tape{}
	g.tapes[c] = t
	return &PtrV{cell: c, arr: -1}, t
}

func (g *genRun) bytes(t *tape) *SliceV {
	e := g.e
	l := e.fresh("encoded", 64)
	e.assume(e.tb.Ule(l, e.tb.I(maxLen)))
	o := e.newBObj("encoded", l, e.baseContent("encoded"))
	g.bytesOf[o] = t
	return &SliceV{o: o, off: e.tb.I(0), len: l, cap: l}
}

func (g *genRun) isErr(v Value) bool {
	i, ok := v.(*IfaceV)
	if !ok {
		g.e.unsup("result %T", v)
	}
	return !i.nil_
}

func (g *genRun) path(h *genHarness) {
	e := g.e
	tb := e.tb
	mt := h.mt
	name := mt.Obj().Name()
	g.mt = mt
	g.top = map[*Cell]bool{}
	g.topNil = false
	g.tapes = map[*Cell]*tape{}
	g.decs = map[*Cell]*decState{}
	g.bytesOf = map[*BObj]*tape{}
	g.anyBytes = map[*BObj]bool{}
	g.lastDec = nil
	g.loops = nil
	g.nopaque = 0
	g.broken = false
	g.constructing = map[*ssa.Function]bool{}
	g.through = false
	e.inInit = true
	if p := e.ld.prog.ImportedPackage(g.poly); p != nil {
		p.Build()
		e.initPackage(p)
	}
	e.initPackage(e.ld.target)
	e.inInit = false
	for _, c := range e.globals {
		markGlobal(c.val)
		c.global = true
	}
	st := mt.Underlying().(*types.Struct)
	encode, decode := g.method(mt, "Encode"), g.method(mt, "Decode")
	buf, tp := g.buffer()
	fields := func(p *PtrV) *StructV { return p.cell.val.(*StructV) }
	pre := "post/" + h.kind + "/" + name
	// what the buffer holds already stays as it is
	tp.toks = append(tp.toks, tok{op: "prior"})
	kept := func() {
		ok := len(tp.toks) > 0 && tp.toks[0].op == "prior"
		e.oblige(pre+"/appends", "", tb.Bool(ok))
		if !ok {
			panic(pathEnd{"the buffer is not appended to"})
		}
		tp.toks = tp.toks[1:]
	}

	if h.kind == "error" {
		// a message reports an error in its stead
		x := &PtrV{nil_: true, arr: -1}
		if e.choose(2) == 1 {
			x = &PtrV{cell: e.newCell("x", mt, e.zero(mt)), arr: -1}
			g.top[x.cell] = true
		} else {
			g.topNil = true
		}
		ev := g.errVal().(*IfaceV)
		e.call(g.method(mt, "Error"), []Value{x, buf, ev}, nil, "Error")
		kept()
		ok := len(tp.toks) == 1 && tp.toks[0].op == "Error"
		if ok {
			v, is := tp.toks[0].vals[0].(*IfaceV)
			ok = is && !v.nil_
			if ok {
				a, is := v.v.(*PtrV)
				b := ev.v.(*PtrV)
				ok = is && !a.nil_ && a.cell == b.cell
			}
		}
		e.oblige(pre+"/encode", "", tb.Bool(ok))
		e.Covers["end"] = true
		return
	}

	if h.kind == "nil" {
		g.topNil = true
		e.call(encode, []Value{&PtrV{nil_: true, arr: -1}, buf}, nil, "Encode")
		kept()
		e.oblige(pre+"/encode", "", tb.Bool(len(tp.toks) == 1 && tp.toks[0].op == "Nil"))
		y := g.newMsg(mt)
		g.top[y.cell] = true
		tp.toks = append(tp.toks, tok{op: "rest"})
		err := e.call(decode, []Value{y, g.bytes(tp)}, nil, "Decode")
		e.oblige(pre+"/accept", "", tb.Bool(!g.isErr(err)))
		e.oblige(pre+"/absent", "", tb.Bool(g.isZeroMsg(y.cell.val)))
		d := g.lastDec
		e.oblige(pre+"/position", "", tb.Bool(d != nil && !d.lost && d.pos == 1))
		// decoding into nothing is an error
		buf2, tp2 := g.buffer()
		_ = buf2
		tp2.toks = append(tp2.toks, tok{op: "rest"})
		err = e.call(decode, []Value{&PtrV{nil_: true, arr: -1}, g.bytes(tp2)}, nil, "Decode")
		e.oblige(pre+"/into-nil", "", tb.Bool(g.isErr(err)))
		e.Covers["end"] = true
		return
	}

	if h.kind == "foreign" {
		y := g.newMsg(mt)
		g.top[y.cell] = true
		tp.toks = nil
		s := g.bytes(tp)
		g.anyBytes[s.o] = true
		e.call(decode, []Value{y, s}, nil, "Decode")
		e.Covers["end"] = true
		return
	}

	// an arbitrary message
	only := -1
	x := &PtrV{cell: e.newCell("x", mt, e.zero(mt)), arr: -1}
	g.top[x.cell] = true
	for i := 0; i < st.NumFields(); i++ {
		if only >= 0 && i != only {
			continue
		}
		fields(x).f[i] = g.input(st.Field(i).Name(), st.Field(i).Type(), 0)
	}
	before := g.frozen(x.cell.val).(*StructV)
	e.call(encode, []Value{x, buf}, nil, "Encode")
	kept()

	if h.kind == "truncated" {
		n := len(tp.toks)
		if n == 0 {
			e.Covers["end"] = true
			return
		}
		cut := e.choose(n)
		ts := append([]tok{}, tp.toks[:cut]...)
		if t := tp.toks[cut]; t.op == "rep" {
			j := e.choose(len(t.toks) + 1)
			if j < len(t.toks) {
				t.cut, t.cutAt = true, j
				ts = append(ts, t)
			}
		}
		e.trace = append(e.trace, fmt.Sprintf("cut=%d", cut))
		y := g.newMsg(mt)
		g.top[y.cell] = true
		err := e.call(decode, []Value{y, g.bytes(&tape{toks: ts})}, nil, "Decode")
		e.oblige(pre+"/reject", "", tb.Bool(g.isErr(err)))
		e.Covers["end"] = true
		return
	}

	// round trip
	// what the contract of a nested message needs: its bytes are told from nil
	first := len(tp.toks) > 0 && tp.toks[0].op != "Nil" && tp.toks[0].op != "rep" && tp.toks[0].op != "msg"
	n := len(tp.toks)
	if g.nested[name] {
		tp.toks = append(tp.toks, tok{op: "rest"})
	}
	y := g.newMsg(mt)
	g.top[y.cell] = true
	err := e.call(decode, []Value{y, g.bytes(tp)}, nil, "Decode")
	e.oblige(pre+"/accept", "", tb.Bool(!g.isErr(err)))
	d := g.lastDec
	e.oblige(pre+"/position", "", tb.Bool(d != nil && !d.lost && d.pos == n))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		g.obligeSame(pre+"/"+f.Name(), before.f[i], fields(y).f[i], f.Type(), false)
	}
	// encoding leaves the message as it was
	for i := 0; i < st.NumFields(); i++ {
		ok := g.same(before.f[i], fields(x).f[i])
		if s, is := before.f[i].(*SliceV); is && s.o != nil && !ok {
			r, q := e.asBytes(s), e.asBytes(fields(x).f[i])
			e.oblige("frame/encode/"+name+"."+st.Field(i).Name(), "", tb.BAnd(tb.Eq(r.len, q.len), e.sameBytes(r, q)))
			continue
		}
		e.oblige("frame/encode/"+name+"."+st.Field(i).Name(), "", tb.Bool(ok))
	}
	if g.nested[name] {
		e.oblige(pre+"/told-from-nil", "", tb.Bool(first))
	}
	e.Covers["end"] = true
}

// reach: which messages can hold which.
func (ld *Loader) genReach(ms []*types.Named) map[string]map[string]bool {
	r := map[string]map[string]bool{}
	var visit func(from string, t types.Type, depth int)
	visit = func(from string, t types.Type, depth int) {
		switch u := t.(type) {
		case *types.Pointer:
			visit(from, u.Elem(), depth)
		case *types.Slice:
			visit(from, u.Elem(), depth)
		case *types.Map:
			visit(from, u.Key(), depth)
			visit(from, u.Elem(), depth)
		case *types.Named:
			if m, ok := u.Underlying().(*types.Map); ok {
				visit(from, m, depth)
				return
			}
			st, ok := u.Underlying().(*types.Struct)
			if !ok || u.Obj().Pkg() != ld.target.Pkg {
				return
			}
			n := u.Obj().Name()
			if depth > 0 {
				if r[from][n] {
					return
				}
				r[from][n] = true
			}
			for i := 0; i < st.NumFields(); i++ {
				visit(from, st.Field(i).Type(), depth+1)
			}
		}
	}
	for _, m := range ms {
		n := m.Obj().Name()
		r[n] = map[string]bool{}
		visit(n, m, 0)
	}
	return r
}

// runGen explores one harness: first with loops of unknown length, then, where
// the code leaves what that can decide, with lists of bounded length.
func (ld *Loader) runGen(h *genHarness, poly string, reach map[string]map[string]bool, o Options, generic bool) (res *Result, nest map[string]bool) {
	poison := map[*ssa.Phi]bool{}
	for round := 0; ; round++ {
		e := NewEngine(ld, o)
		g := &genRun{e: e, poly: poly, generic: generic, poison: poison, ctl: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, bound: 2, recur: reach, nest: map[string]bool{}, nested: map[string]bool{}}
		for _, to := range reach {
			for n := range to {
				g.nested[n] = true
			}
		}
		e.gen = g
		e.body = func() { g.path(h) }
		again := false
		func() {
			defer e.s.Close()
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case genRestart:
						again = true
					case Fatal:
						e.Unsup = append(e.Unsup, string(x))
					default:
						e.Unsup = append(e.Unsup, fmt.Sprintf("internal error: %v", r))
						if o.Verbose {
							panic(r)
						}
					}
				}
			}()
			e.Run(nil)
		}()
		if again && round < 20 {
			continue
		}
		return &Result{Harness: h.name, Paths: e.Paths, VCs: e.VCs, Trivial: e.Trivial, Obs: e.Obs, Fails: e.Fails, Covers: e.Covers,
			Unsup: e.Unsup, Inlined: e.Inlined, Used: e.Used, Intrins: e.Intrins, Queries: e.s.Queries + e.s.LiaQueries, Alt: e.s.AltUsed, LiaDone: e.s.LiaUnsat,
			Unknowns: e.s.Unknowns, SolverTime: e.s.Time + e.s.AltTime + e.s.LiaTime, Assumed: e.assumedN, Bounded: e.bounded || !generic}, g.nest
	}
}

// LoadGen loads generated code as a package inside the module of the library.
func LoadGen(modDir string, src []byte) (*Loader, error) {
	ld := &Loader{dir: modDir, ghost: map[string]bool{}}
	f := filepath.Join(modDir, "zz_verif_corpus", "corpus.polyglot.go")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: modDir, Overlay: map[string][]byte{f: src}, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./zz_verif_corpus")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	ld.pkg = pkgs[0]
	if len(ld.pkg.Errors) > 0 {
		return ld, ld.pkg.Errors[0]
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld.prog, ld.target = prog, ssapkgs[0]
	ld.target.Build()
	return ld, nil
}

// generate runs the repository's generator on the corpus.
// schemaField is a field of a message as the schema declares it.
type schemaField struct {
	Msg, Name, Type, Key string
	List                 bool
}

// plain: names are compared without case and underscores
func plain(s string) string {
	return strings.ToLower(strings.NewReplacer("_", "", ".", "").Replace(s))
}

// holds: values of the Go type are those of the type of the schema.
func (ld *Loader) holds(t types.Type, of, prefix string) bool {
	named := func(t types.Type, name string) (types.Type, bool) {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != ld.target.Pkg || plain(n.Obj().Name()) != plain(prefix+name) {
			return nil, false
		}
		return n.Underlying(), true
	}
	if n, ok := strings.CutPrefix(of, "message "); ok {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = named(p.Elem(), n)
		return ok
	}
	if n, ok := strings.CutPrefix(of, "enum "); ok {
		u, ok := named(t, n)
		if !ok {
			return false
		}
		b, ok := u.(*types.Basic)
		return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Int32)
	}
	return types.TypeString(types.Unalias(t).Underlying(), nil) == of
}

// fieldFails: what the generated types lack of the schema, field by field.
func (ld *Loader) fieldFails(decl []schemaField, prefix string) (at []string, fails map[string]string) {
	fails = map[string]string{}
	byName := map[string]*types.Struct{}
	for _, n := range ld.target.Pkg.Scope().Names() {
		if st, ok := ld.target.Pkg.Scope().Lookup(n).Type().Underlying().(*types.Struct); ok {
			byName[plain(n)] = st
		}
	}
	for _, d := range decl {
		site := d.Msg
		if d.Name != "" {
			site += "." + d.Name
		}
		at = append(at, site)
		st := byName[plain(prefix+d.Msg)]
		if st == nil {
			fails[site] = "no struct for the message " + d.Msg
			continue
		}
		if d.Name == "" {
			continue
		}
		ok, found := false, "no such field"
		for i := 0; i < st.NumFields(); i++ {
			if plain(st.Field(i).Name()) != plain(d.Name) {
				continue
			}
			t := st.Field(i).Type()
			found = t.String()
			switch {
			case d.Key != "":
				m, is := t.Underlying().(*types.Map)
				ok = is && ld.holds(m.Key(), d.Key, prefix) && ld.holds(m.Elem(), d.Type, prefix)
			case d.List:
				l, is := t.Underlying().(*types.Slice)
				ok = is && ld.holds(l.Elem(), d.Type, prefix)
			default:
				ok = ld.holds(t, d.Type, prefix)
			}
			if ok {
				break
			}
		}
		if !ok {
			fails[site] = fmt.Sprintf("the field %s of %s is generated as: %s", d.Name, d.Msg, found)
		}
	}
	return
}

func generate(modDir, schema string) (src []byte, decl []schemaField, fails string, err error) {
	dir, err := os.MkdirTemp("", "govc-gen")
	if err != nil {
		return nil, nil, "", err
	}
	defer os.RemoveAll(dir)
	main, err := os.ReadFile(filepath.Join(verifDir(), "gen", "main.go"))
	if err != nil {
		return nil, nil, "", err
	}
	mod, err := os.ReadFile(filepath.Join(modDir, "go.mod"))
	if err != nil {
		return nil, nil, "", err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		return nil, nil, "", fmt.Errorf("%s: no module", modDir)
	}
	main = bytes.ReplaceAll(main, []byte("github.com/loopholelabs/polyglot/v2/"), []byte(string(m[1])+"/"))
	if err := os.WriteFile(filepath.Join(dir, "main.go"), main, 0o644); err != nil {
		return nil, nil, "", err
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(modDir, "zz_verif_gen", "main.go"): filepath.Join(dir, "main.go")}})
	if err := os.WriteFile(filepath.Join(dir, "ov.json"), ov, 0o644); err != nil {
		return nil, nil, "", err
	}
	bin := filepath.Join(dir, "gen")
	c := exec.Command("go", "build", "-overlay", filepath.Join(dir, "ov.json"), "-o", bin, "./zz_verif_gen")
	c.Dir = modDir
	if out, err := c.CombinedOutput(); err != nil {
		return nil, nil, "", fmt.Errorf("building the generator: %v\n%s", err, out)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c = exec.CommandContext(ctx, bin, dir, schema)
	if out, err := c.CombinedOutput(); err != nil {
		return nil, nil, fmt.Sprintf("the generator fails on the corpus: %v\n%s", err, out), nil
	}
	src, err = os.ReadFile(filepath.Join(dir, "corpus.polyglot.go"))
	if err != nil {
		return nil, nil, "the generator produces no file for the corpus: " + err.Error(), nil
	}
	js, err := os.ReadFile(filepath.Join(dir, "fields.json"))
	if err == nil {
		err = json.Unmarshal(js, &decl)
	}
	return src, decl, "", err
}

func genHarnesses(ms []*types.Named) (hs []*genHarness) {
	for _, mt := range ms {
		for _, k := range []string{"roundtrip", "nil", "truncated", "foreign", "error"} {
			hs = append(hs, &genHarness{name: k + "/" + mt.Obj().Name(), mt: mt, kind: k})
		}
	}
	return
}

func grun(args []string) {
	dir, poly := filepath.Join(repoDir(), "v2"), "github.com/loopholelabs/polyglot/v2"
	if args[0] == "v1" {
		dir, poly = repoDir(), "github.com/loopholelabs/polyglot"
	}
	src, _, bad, err := generate(dir, os.Getenv("SCHEMA"))
	if err != nil || bad != "" {
		fmt.Println(bad, err)
		os.Exit(1)
	}
	if len(args) > 2 {
		os.Stdout.Write(src)
		return
	}
	ld, err := LoadGen(dir, src)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	ld.initPkg = poly
	ms := ld.genMessages(poly)
	reach := ld.genReach(ms)
	for _, h := range genHarnesses(ms) {
		if args[1] != "all" && !strings.Contains(h.name, args[1]) {
			continue
		}
		t := time.Now()
		r, nest := ld.runGen(h, poly, reach, Options{Verbose: os.Getenv("V") != ""}, os.Getenv("BOUND") == "")
		fmt.Printf("%-24s paths=%d vcs=%d trivial=%d fails=%d covers=%v unsup=%v nest=%v wall=%v\n", h.name, r.Paths, r.VCs, r.Trivial, len(r.Fails), keys(r.Covers), r.Unsup, keys(nest), time.Since(t).Round(time.Millisecond))
		for _, f := range r.Fails {
			fmt.Printf("   FAIL %s %s %v %s\n", f.Status, f.Label, f.Site, f.Path)
		}
	}
}
