package main

import (
	"sort"
	"strconv"
	"strings"
)

// Generator functions of JavaScript, as coroutines: at any time only one side
// runs.

type JGen struct {
	j       *TSExec
	f       *JFn
	this    JV
	args    []JV
	in      chan genIn
	out     chan genOut
	started bool
	running bool
	done    bool
	ended   bool // the coroutine
}

type genIn struct {
	v    JV
	kill bool
}

type genOut struct {
	v    JV
	done bool
	p    interface{} // what the body panics with
}

type genKilled struct{}

func (j *TSExec) newGen(f *JFn, this JV, args []JV) JV {
	o := j.newObj("Generator")
	o.gen = &JGen{j: j, f: f, this: this, args: args, in: make(chan genIn), out: make(chan genOut)}
	return o
}

// next resumes the body; more tells whether it came to another yield.
func (g *JGen) next(v JV) (r JV, more bool) {
	j := g.j
	if g.running {
		j.throwErr("TypeError", "generator is running")
	}
	if g.done {
		return jUndef{}, false
	}
	depth, stk, line := j.depth, append([]string{}, j.e.callstk...), j.line
	g.running = true
	if g.started {
		g.in <- genIn{v: v}
	} else {
		g.started = true
		j.gens = append(j.gens, g)
		go g.body()
	}
	o := <-g.out
	g.running = false
	j.depth, j.e.callstk, j.line = depth, stk, line
	if o.p != nil {
		g.done, g.ended = true, true
		panic(o.p)
	}
	if o.done {
		g.done, g.ended = true, true
	}
	return o.v, !o.done
}

func (g *JGen) body() {
	j := g.j
	var v JV = jUndef{}
	defer func() {
		if x := recover(); x != nil {
			g.out <- genOut{p: x}
			return
		}
		g.out <- genOut{v: v, done: true}
	}()
	f := g.f
	j.enter(f.name)
	s := newScope(f.sc)
	s.fn = &callFrame{this: g.this, home: f.home, name: f.name, args: g.args, gen: g}
	j.params(f.node, g.args, s)
	j.hoist(f.node.a["body"], s, false)
	if r := j.list(f.node.a["body"], s); r.k == 1 {
		v = r.v
	}
}

func (j *TSExec) yield(n *TN, sc *scope) JV {
	g := sc.fn.gen
	if g == nil {
		j.unsup("yield outside a generator")
	}
	var v JV = jUndef{}
	if n.n["e"] != nil {
		v = j.expr(n.n["e"], sc)
	}
	if !n.b["star"] {
		return g.give(v)
	}
	if o, ok := v.(*JObj); ok && o.kind == "Generator" {
		var sent JV = jUndef{}
		for it := 0; ; it++ {
			j.loopGuard(it)
			x, more := o.gen.next(sent)
			if !more {
				return x
			}
			sent = g.give(x)
		}
	}
	next := j.iterator(v)
	for it := 0; ; it++ {
		j.loopGuard(it)
		x, ok := next()
		if !ok {
			return jUndef{}
		}
		g.give(x)
	}
}

func (g *JGen) give(v JV) JV {
	g.out <- genOut{v: v}
	x := <-g.in
	if x.kill {
		panic(genKilled{})
	}
	return x.v
}

func hasTry(n *TN) bool {
	if n == nil {
		return false
	}
	if n.K == "try" {
		return true
	}
	for _, x := range n.n {
		if hasTry(x) {
			return true
		}
	}
	for _, l := range n.a {
		for _, x := range l {
			if hasTry(x) {
				return true
			}
		}
	}
	return false
}

// closeIter is what leaving a loop early does to the iterator.
func (j *TSExec) closeIter(v JV) {
	o, ok := v.(*JObj)
	if !ok || elemSize[o.kind] > 0 {
		return
	}
	switch o.kind {
	case "Array", "Map", "Set":
		return
	case "Generator":
		g := o.gen
		if g.done {
			return
		}
		if g.started && hasTry(g.f.node) {
			j.unsup("leaving a generator with a try statement")
		}
		g.done = true
		return
	}
	j.unsup("leaving an iteration early")
}

// own lists the property names in their order.
func (o *JObj) own() []string {
	var nums []int
	var r []string
	for _, k := range o.keys {
		if n, err := strconv.Atoi(k); err == nil && n >= 0 && strconv.Itoa(n) == k {
			nums = append(nums, n)
		} else if !strings.HasPrefix(k, "#") {
			r = append(r, k)
		}
	}
	sort.Ints(nums)
	var l []string
	for _, n := range nums {
		l = append(l, strconv.Itoa(n))
	}
	return append(l, r...)
}

// endGens ends the coroutines of the last path.
func (j *TSExec) endGens() {
	for _, g := range j.gens {
		if !g.ended {
			g.in <- genIn{kill: true}
			<-g.out
		}
	}
	j.gens = nil
}
