package main

import (
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"
)

// Symbolic execution of TypeScript modules: every path, with the meaning the
// ECMAScript standard gives to the part of the language that is understood.
// What is not understood ends the run as unsupported.

type TSExec struct {
	*RustExec // path-sensitive helpers shared with the other front end
	prog      *TProg
	mods      map[string]*tmod
	nobj      int
	ghost     map[string]bool
	f64src    map[*T]*T
	rounds    [][2]*T
	depth     int
	line      *TN
	loading   bool
	floor     int // objects made before the declaration of a module that is running
	bfloor    int // and buffers
	gens      []*JGen
	dirty     bool    // it wrote to one of those
	bufs      []*JBuf // made while loading
	touched   map[int]bool
	havoc     map[int]bool
	touchLet  map[string]bool
	classes   map[string]*JClass
	protos    map[string]*JObj
	RanTS     map[string]bool
	placed    *JObj         // the object under contract
	place0    map[string]JV // and its state, by path
	posSlots  map[string]bool
}

type tmod struct {
	file  string
	sc    *scope
	exp   map[string]*binding
	state int
}

type binding struct {
	v    JV
	c    bool
	dead bool // temporal dead zone
	mod  bool
	nm   string
	bad  string // its initialiser is outside the reach of the engine
}

type scope struct {
	vars map[string]*binding
	up   *scope
	fn   *callFrame
}

type callFrame struct {
	this   JV
	noThis bool
	home   *JClass
	name   string
	args   []JV
	newT   *JClass
	gen    *JGen
}

type jsThrow struct{ v JV }

type compl struct {
	k     int // 0 normal, 1 return, 2 break, 3 continue
	v     JV
	label string
}

func newScope(up *scope) *scope {
	s := &scope{vars: map[string]*binding{}, up: up}
	if up != nil {
		s.fn = up.fn
	}
	return s
}

func (s *scope) find(n string) *binding {
	for x := s; x != nil; x = x.up {
		if b, ok := x.vars[n]; ok {
			return b
		}
	}
	return nil
}

func (j *TSExec) tsite() string {
	if j.line == nil {
		return "module"
	}
	return fmt.Sprintf("%s:%d", filepath.Base(j.line.file), j.line.L)
}

func (j *TSExec) unsup(f string, a ...interface{}) {
	j.e.unsup("%s", fmt.Sprintf(f, a...)+" at "+j.tsite())
}

func (j *TSExec) throwErr(class, msg string) {
	panic(&jsThrow{j.newError(class, &JS{s: msg})})
}

func (j *TSExec) newObj(kind string) *JObj {
	j.nobj++
	return &JObj{id: j.nobj, kind: kind, props: map[string]JV{}, init: j.loading}
}

func (j *TSExec) newError(class string, msg JV) *JObj {
	o := j.newObj("Error")
	o.cls = j.builtinClass(class)
	if msg != nil {
		o.set("message", msg)
	}
	return o
}

// changed notes that something made while the modules were loaded is written
// to: later calls would start from another state than the one examined.
func (j *TSExec) changed(o *JObj, what string) {
	if o.init && !j.loading {
		j.touchLet[what] = true
	}
	if j.floor > 0 && o.id < j.floor {
		j.dirty = true
	}
}

func (o *JObj) set(k string, v JV) {
	if _, ok := o.props[k]; !ok {
		o.keys = append(o.keys, k)
	}
	o.props[k] = v
}

func (j *TSExec) builtinClass(n string) *JClass {
	if c, ok := j.classes[n]; ok {
		return c
	}
	c := &JClass{name: n, builtin: n, members: map[string]*JMember{}, statics: map[string]*JMember{}, sprops: map[string]JV{}}
	j.classes[n] = c
	switch n {
	case "TypeError", "RangeError", "SyntaxError", "EvalError", "ReferenceError":
		c.ext = j.builtinClass("Error")
	}
	return c
}

// ---- modules ----

func (j *TSExec) load(file string) *tmod {
	if m, ok := j.mods[file]; ok {
		return m
	}
	src := j.prog.mods[file]
	m := &tmod{file: file, sc: newScope(nil), exp: map[string]*binding{}}
	m.sc.fn = &callFrame{this: jUndef{}, name: filepath.Base(file)}
	j.mods[file] = m
	if src == nil {
		j.unsup("module %s", file)
	}
	j.hoist(src.body, m.sc, true)
	for _, st := range src.body {
		j.initStmt(st, m.sc)
		if st.b["exp"] {
			switch st.K {
			case "var":
				for _, d := range st.a["ds"] {
					for _, n := range names(d.n["t"]) {
						m.exp[n] = m.sc.vars[n]
					}
				}
			case "func", "classdecl", "enum":
				nm := st.s["n"]
				m.exp[nm] = m.sc.vars[nm]
				if st.b["def"] {
					m.exp["default"] = m.sc.vars[nm]
				}
			}
		}
	}
	return m
}

// initStmt runs a statement of a module. What a declaration needs that the engine
// does not know only concerns those who use it, provided it left everything that
// was there before alone.
func (j *TSExec) initStmt(st *TN, sc *scope) {
	if st.K != "var" || j.floor > 0 {
		j.stmt(st, sc)
		return
	}
	depth, stk := j.depth, len(j.e.callstk)
	j.floor, j.bfloor, j.dirty = j.nobj+1, len(j.bufs), false
	defer func() {
		j.floor = 0
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok || j.dirty {
				panic(r)
			}
			j.depth, j.e.callstk = depth, j.e.callstk[:stk]
			for _, d := range st.a["ds"] {
				for _, n := range names(d.n["t"]) {
					b := sc.vars[n]
					if b == nil {
						b = &binding{}
						sc.vars[n] = b
					}
					b.dead, b.bad = false, u.msg
				}
			}
		}
	}()
	j.stmt(st, sc)
}

func names(t *TN) []string {
	switch t.K {
	case "id":
		return []string{t.s["n"]}
	case "arrpat", "objpat":
		var r []string
		for _, e := range t.a["els"] {
			if e != nil {
				r = append(r, names(e.n["t"])...)
			}
		}
		return r
	}
	return nil
}

func (j *TSExec) importFrom(st *TN, sc *scope) {
	from := st.s["from"]
	if strings.HasPrefix(from, "builtin:") {
		for _, n := range st.a["ns"] {
			sc.vars[n.s["n"]] = &binding{v: j.global(n.s["from"]), c: true}
		}
		return
	}
	if filepath.Base(from) == "verif.ts" {
		for _, n := range st.a["ns"] {
			f := n.s["from"]
			sc.vars[n.s["n"]] = &binding{v: &JFn{name: f, nat: func(_ JV, args []JV) JV { return j.ghostOp(f, args) }}, c: true}
		}
		return
	}
	m := j.load(from)
	for _, n := range st.a["ns"] {
		if n.s["from"] == "*" {
			o := j.newObj("")
			for k, b := range m.exp {
				o.set(k, b.v)
			}
			sc.vars[n.s["n"]] = &binding{v: o, c: true}
			continue
		}
		b := m.exp[n.s["from"]]
		if b == nil {
			j.unsup("import of %s from %s", n.s["from"], filepath.Base(from))
		}
		sc.vars[n.s["n"]] = b
	}
}

// ---- statements ----

func (j *TSExec) hoist(body []*TN, sc *scope, top bool) {
	for _, st := range body {
		switch st.K {
		case "func":
			sc.vars[st.s["n"]] = &binding{v: &JFn{name: st.s["n"], node: st.n["f"], sc: sc}}
		case "import":
			j.importFrom(st, sc)
		case "var":
			if st.s["kind"] != "var" {
				for _, d := range st.a["ds"] {
					for _, n := range names(d.n["t"]) {
						sc.vars[n] = &binding{dead: true, mod: j.loading && top, nm: n}
					}
				}
			}
		case "classdecl", "enum":
			if _, ok := sc.vars[st.s["n"]]; !ok {
				sc.vars[st.s["n"]] = &binding{dead: true}
			}
		}
	}
}

func (j *TSExec) block(body []*TN, sc *scope) compl {
	s := newScope(sc)
	j.hoist(body, s, false)
	return j.list(body, s)
}

func (j *TSExec) list(body []*TN, s *scope) compl {
	for _, st := range body {
		if c := j.stmt(st, s); c.k != 0 {
			return c
		}
	}
	return compl{}
}

func (j *TSExec) tick(n *TN) {
	j.line = n
	j.e.steps++
	if j.e.steps > 2000000 {
		j.unsup("step limit")
	}
}

func (j *TSExec) declare(t *TN, v JV, sc *scope, konst, isVar bool) {
	j.bind(t, v, sc, func(n string, v JV) {
		if isVar {
			// function scope
			s := sc
			for s.up != nil && s.up.fn == s.fn {
				s = s.up
			}
			if b, ok := s.vars[n]; ok {
				b.v = v
				return
			}
			s.vars[n] = &binding{v: v}
			return
		}
		if b, ok := sc.vars[n]; ok && b.dead {
			b.v, b.c, b.dead = v, konst, false
			return
		}
		sc.vars[n] = &binding{v: v, c: konst}
	})
}

func (j *TSExec) bind(t *TN, v JV, sc *scope, set func(string, JV)) {
	switch t.K {
	case "id":
		set(t.s["n"], v)
	case "arrpat":
		var els []JV
		over := false
		next := j.iterator(v)
		for _, e := range t.a["els"] {
			if e != nil && e.b["rest"] {
				over = true
				for it := 0; ; it++ {
					j.loopGuard(it / 8)
					x, ok := next()
					if !ok {
						break
					}
					els = append(els, x)
				}
				break
			}
			x, ok := next()
			if !ok {
				over = true
				break
			}
			els = append(els, x)
		}
		if !over {
			j.closeIter(v)
		}
		for i, e := range t.a["els"] {
			if e == nil {
				continue
			}
			if e.b["rest"] {
				var r []JV
				if i < len(els) {
					r = els[i:]
				}
				j.bind(e.n["t"], j.array(append([]JV{}, r...)), sc, set)
				continue
			}
			var x JV = jUndef{}
			if i < len(els) {
				x = els[i]
			}
			if _, u := x.(jUndef); u && e.n["d"] != nil {
				x = j.expr(e.n["d"], sc)
			}
			j.bind(e.n["t"], x, sc, set)
		}
	case "objpat":
		taken := map[string]bool{}
		for _, e := range t.a["els"] {
			if e.b["rest"] {
				src, ok := v.(*JObj)
				if !ok || src.kind != "" {
					j.unsup("rest property")
				}
				o := j.newObj("")
				for _, k := range src.own() {
					if !taken[k] {
						o.set(k, src.props[k])
					}
				}
				j.bind(e.n["t"], o, sc, set)
				continue
			}
			k := j.propKey(j.expr(e.n["p"], sc))
			taken[k] = true
			x := j.getProp(v, k)
			if _, u := x.(jUndef); u && e.n["d"] != nil {
				x = j.expr(e.n["d"], sc)
			}
			j.bind(e.n["t"], x, sc, set)
		}
	default:
		j.unsup("pattern %s", t.K)
	}
}

func (j *TSExec) stmt(n *TN, sc *scope) compl {
	j.tick(n)
	switch n.K {
	case "empty", "func", "import":
		return compl{}
	case "expr":
		j.expr(n.n["e"], sc)
		return compl{}
	case "var":
		for _, d := range n.a["ds"] {
			var v JV = jUndef{}
			if d.n["e"] != nil {
				v = j.named(j.expr(d.n["e"], sc), d.n["t"])
			} else if n.s["kind"] == "var" {
				continue
			}
			j.declare(d.n["t"], v, sc, n.s["kind"] == "const", n.s["kind"] == "var")
		}
		return compl{}
	case "block":
		return j.block(n.a["b"], sc)
	case "if":
		if j.truth(j.expr(n.n["c"], sc)) {
			return j.block(n.a["a"], sc)
		}
		return j.block(n.a["b"], sc)
	case "for":
		s := newScope(sc)
		if n.n["i"] != nil {
			j.stmt(n.n["i"], s)
		}
		for it := 0; ; it++ {
			j.loopGuard(it)
			if n.n["c"] != nil && !j.truth(j.expr(n.n["c"], s)) {
				return compl{}
			}
			// a fresh copy of the loop variables for closures
			s2 := newScope(sc)
			for k, b := range s.vars {
				c := *b
				s2.vars[k] = &c
			}
			s = s2
			c := j.block(n.a["b"], s)
			if c.k == 1 || (c.k == 2 || c.k == 3) && c.label != "" {
				if !(c.k == 3 && c.label == n.s["mylabel"]) {
					return c
				}
			}
			if c.k == 2 {
				return compl{}
			}
			if n.n["u"] != nil {
				j.expr(n.n["u"], s)
			}
		}
	case "do":
		for it := 0; ; it++ {
			j.loopGuard(it)
			c := j.block(n.a["b"], sc)
			if c.k == 1 || (c.k == 2 || c.k == 3) && c.label != "" {
				return c
			}
			if c.k == 2 || !j.truth(j.expr(n.n["c"], sc)) {
				return compl{}
			}
		}
	case "forof":
		src := j.expr(n.n["e"], sc)
		next := j.iterator(src)
		done := false
		defer func() {
			if done {
				return
			}
			r := recover()
			if _, ok := r.(*jsThrow); r == nil || ok {
				j.closeIter(src)
			}
			if r != nil {
				panic(r)
			}
		}()
		for it := 0; ; it++ {
			j.loopGuard(it)
			v, ok := next()
			if !ok {
				done = true
				return compl{}
			}
			s := newScope(sc)
			if n.b["decl"] {
				j.declare(n.n["t"], v, s, false, false)
			} else {
				j.assignTo(n.n["t"], v, s)
			}
			c := j.block(n.a["b"], s)
			if c.k == 1 || (c.k == 2 || c.k == 3) && c.label != "" {
				return c
			}
			if c.k == 2 {
				return compl{}
			}
		}
	case "labeled":
		n.n["s"].s["mylabel"] = n.s["label"]
		c := j.stmt(n.n["s"], sc)
		if c.k == 2 && c.label == n.s["label"] {
			return compl{}
		}
		return c
	case "return":
		var v JV = jUndef{}
		if n.n["e"] != nil {
			v = j.expr(n.n["e"], sc)
		}
		return compl{k: 1, v: v}
	case "break":
		return compl{k: 2, label: n.s["label"]}
	case "continue":
		return compl{k: 3, label: n.s["label"]}
	case "throw":
		panic(&jsThrow{j.expr(n.n["e"], sc)})
	case "try":
		return j.try(n, sc)
	case "switch":
		return j.switchSt(n, sc)
	case "classdecl":
		c := j.class(n.n["c"], sc)
		sc.vars[n.s["n"]].v, sc.vars[n.s["n"]].dead = c, false
		return compl{}
	case "enum":
		o := j.newObj("")
		next := JV(j.num(0))
		s := newScope(sc)
		for _, m := range n.a["ms"] {
			k := j.propKey(j.expr(m.n["p"], sc))
			v := next
			if m.n["e"] != nil {
				v = j.expr(m.n["e"], s)
			}
			o.set(k, v)
			s.vars[k] = &binding{v: v, c: true}
			if i, ok := v.(*JI); ok && i.isConst() {
				next = j.konst(false, new(big.Int).Add(i.min, bi(1)))
				o.set(i.min.String(), &JS{s: k})
			}
		}
		sc.vars[n.s["n"]].v, sc.vars[n.s["n"]].dead = o, false
		return compl{}
	case "export":
		m := j.modOf(sc)
		if from := n.s["from"]; from != "" {
			x := j.load(from)
			for _, e := range n.a["ns"] {
				if e.s["from"] == "*" {
					for k, b := range x.exp {
						if k != "default" {
							m.exp[k] = b
						}
					}
				} else {
					m.exp[e.s["n"]] = x.exp[e.s["from"]]
				}
			}
			return compl{}
		}
		for _, e := range n.a["ns"] {
			m.exp[e.s["n"]] = sc.find(e.s["from"])
		}
		return compl{}
	case "exportdef":
		j.modOf(sc).exp["default"] = &binding{v: j.expr(n.n["e"], sc), c: true}
		return compl{}
	}
	j.unsup("%s %s", n.K, n.s["n"])
	return compl{}
}

func (j *TSExec) modOf(sc *scope) *tmod {
	for sc.up != nil {
		sc = sc.up
	}
	for _, m := range j.mods {
		if m.sc == sc {
			return m
		}
	}
	return nil
}

func (j *TSExec) loopGuard(it int) {
	j.e.checkTime()
	if it > 64 {
		j.unsup("loop beyond 64 rounds")
	}
}

func (j *TSExec) named(v JV, t *TN) JV {
	if f, ok := v.(*JFn); ok && f.name == "" && t.K == "id" {
		f.name = t.s["n"]
	}
	return v
}

// protect runs f and hands back what it throws.
func (j *TSExec) protect(f func()) (t *jsThrow) {
	d, l := j.depth, j.line
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(*jsThrow)
			if !ok {
				panic(r)
			}
			j.depth, j.line = d, l
			t = x
		}
	}()
	f()
	return nil
}

func (j *TSExec) try(n *TN, sc *scope) compl {
	var c compl
	t := j.protect(func() { c = j.block(n.a["b"], sc) })
	if _, ok := n.a["c"]; ok && t != nil {
		th := t
		t = j.protect(func() {
			s := newScope(sc)
			if n.n["p"] != nil {
				j.declare(n.n["p"], th.v, s, false, false)
			}
			c = j.block(n.a["c"], s)
		})
	}
	if _, ok := n.a["f"]; ok {
		if fc := j.block(n.a["f"], sc); fc.k != 0 {
			return fc
		}
	}
	if t != nil {
		panic(t)
	}
	return c
}

func (j *TSExec) switchSt(n *TN, sc *scope) compl {
	v := j.expr(n.n["e"], sc)
	s := newScope(sc)
	cs := n.a["cs"]
	for _, c := range cs {
		j.hoist(c.a["b"], s, false)
	}
	at := -1
	for i, c := range cs {
		if c.n["t"] != nil && j.e.branch(j.strictEq(v, j.expr(c.n["t"], s))) {
			at = i
			break
		}
	}
	if at < 0 {
		for i, c := range cs {
			if c.n["t"] == nil {
				at = i
			}
		}
	}
	if at < 0 {
		return compl{}
	}
	for _, c := range cs[at:] {
		r := j.list(c.a["b"], s)
		if r.k == 2 && r.label == "" {
			return compl{}
		}
		if r.k != 0 {
			return r
		}
	}
	return compl{}
}

// ---- classes and calls ----

func (j *TSExec) class(n *TN, sc *scope) *JFn {
	c := &JClass{name: n.s["name"], sc: sc, ctor: n.n["ctor"], members: map[string]*JMember{}, statics: map[string]*JMember{}, sprops: map[string]JV{}}
	f := &JFn{name: c.name, cls: c}
	if n.n["ext"] != nil {
		x := j.expr(n.n["ext"], sc)
		p, ok := x.(*JFn)
		if !ok || p.cls == nil {
			j.unsup("superclass")
		}
		c.ext = p.cls
	}
	s := newScope(sc)
	c.sc = s
	if c.name != "" {
		s.vars[c.name] = &binding{v: f, c: true}
	}
	for _, m := range n.a["members"] {
		if m.K == "static" || m.K == "field" {
			if !m.b["st"] && m.K == "field" {
				c.fields = append(c.fields, m)
			}
			continue
		}
		tab := c.members
		if m.b["st"] {
			tab = c.statics
		}
		k := j.propKey(j.expr(m.n["p"], s))
		if tab[k] == nil {
			tab[k] = &JMember{}
		}
		g := &JFn{name: c.name + "." + k, node: m.n["f"], sc: s, home: c}
		switch m.K {
		case "get":
			tab[k].get = g
		case "set":
			tab[k].set = g
		default:
			tab[k].fn = g
		}
	}
	for _, m := range n.a["members"] {
		switch {
		case m.K == "field" && m.b["st"]:
			var v JV = jUndef{}
			if m.n["e"] != nil {
				v = j.withThis(f, c, s, m.n["e"])
			}
			c.sprops[j.propKey(j.expr(m.n["p"], s))] = v
		case m.K == "static":
			j.callBody(&JFn{name: c.name + ".static", node: &TN{K: "fn", a: map[string][]*TN{"body": m.a["body"]}, file: n.file}, sc: s, home: c}, f, nil, nil)
		}
	}
	return f
}

func (j *TSExec) withThis(this JV, c *JClass, sc *scope, e *TN) JV {
	s := newScope(sc)
	s.fn = &callFrame{this: this, home: c, name: c.name}
	return j.expr(e, s)
}

func (c *JClass) find(k string) *JMember {
	for x := c; x != nil; x = x.ext {
		if m := x.members[k]; m != nil {
			return m
		}
	}
	return nil
}
func (c *JClass) isA(d *JClass) bool {
	for x := c; x != nil; x = x.ext {
		if x == d {
			return true
		}
	}
	return false
}
func (c *JClass) root() *JClass {
	for c.ext != nil && c.builtin == "" {
		c = c.ext
	}
	return c
}

func (j *TSExec) initFields(o *JObj, c *JClass) {
	for _, m := range c.fields {
		var v JV = jUndef{}
		if m.n["e"] != nil {
			v = j.withThis(o, c, c.sc, m.n["e"])
		}
		o.set(j.propKey(j.expr(m.n["p"], c.sc)), v)
	}
}

func (j *TSExec) construct(f JV, args []JV) JV {
	fn, ok := f.(*JFn)
	if !ok {
		j.throwErr("TypeError", "not a constructor")
	}
	if fn.cls == nil {
		if fn.ctor {
			return j.builtinNew(fn.name, args)
		}
		j.throwErr("TypeError", "not a constructor")
	}
	return j.constructCls(fn.cls, fn.cls, nil, args)
}

// constructCls runs the constructor of c for an object of class of.
func (j *TSExec) constructCls(c, of *JClass, o *JObj, args []JV) *JObj {
	if c.builtin != "" {
		switch {
		case c.isA(j.builtinClass("Error")):
			x := j.newError("Error", nil)
			x.cls = of
			if len(args) > 0 {
				if _, u := args[0].(jUndef); !u {
					x.set("message", j.toStr(args[0]))
				}
			}
			return x
		}
		r := j.builtinNew(c.builtin, args)
		x, ok := r.(*JObj)
		if !ok {
			j.unsup("subclass of %s", c.builtin)
		}
		x.cls = of
		return x
	}
	if c.ext == nil {
		o = j.newObj("")
		o.cls = of
		if c.ctor != nil {
			j.paramProps(o, c, args)
		}
		j.initFields(o, c)
		if c.ctor != nil {
			j.runCtor(c, of, o, args)
		}
		return o
	}
	if c.ctor == nil {
		o = j.constructCls(c.ext, of, nil, args)
		j.initFields(o, c)
		return o
	}
	return j.runCtor(c, of, nil, args)
}

// parameter properties are assigned before the field initialisers run (with
// native fields it is after them; either way before the constructor's body)
func (j *TSExec) paramProps(o *JObj, c *JClass, args []JV) {
	for i, p := range c.ctor.a["params"] {
		if p.b["prop"] && p.n["t"].K == "id" {
			var v JV = jUndef{}
			if i < len(args) {
				v = args[i]
			}
			if _, u := v.(jUndef); u && p.n["d"] != nil {
				continue
			}
			o.set(p.n["t"].s["n"], v)
		}
	}
}

func (j *TSExec) runCtor(c, of *JClass, o *JObj, args []JV) *JObj {
	s := newScope(c.sc)
	fr := &callFrame{home: c, name: c.name, args: args, newT: of}
	if o != nil {
		fr.this = o
	} else {
		fr.noThis = true
	}
	s.fn = fr
	j.enter(c.name)
	j.params(c.ctor, args, s)
	if o != nil {
		for _, p := range c.ctor.a["params"] {
			if p.b["prop"] {
				o.set(p.n["t"].s["n"], s.vars[p.n["t"].s["n"]].v)
			}
		}
	}
	j.hoist(c.ctor.a["body"], s, false)
	r := j.list(c.ctor.a["body"], s)
	j.leave()
	if x, ok := r.v.(*JObj); ok && r.k == 1 {
		return x
	}
	if fr.this == nil {
		j.throwErr("ReferenceError", "super not called")
	}
	return fr.this.(*JObj)
}

func (j *TSExec) enter(n string) {
	j.depth++
	if j.depth > 200 {
		j.unsup("call depth")
	}
	j.e.callstk = append(j.e.callstk, n)
}
func (j *TSExec) leave() {
	j.depth--
	j.e.callstk = j.e.callstk[:len(j.e.callstk)-1]
}

func (j *TSExec) params(f *TN, args []JV, s *scope) {
	for i, p := range f.a["params"] {
		if p.b["rest"] {
			var r []JV
			if i < len(args) {
				r = args[i:]
			}
			j.declare(p.n["t"], j.array(append([]JV{}, r...)), s, false, false)
			continue
		}
		var v JV = jUndef{}
		if i < len(args) {
			v = args[i]
		}
		if _, u := v.(jUndef); u && p.n["d"] != nil {
			v = j.expr(p.n["d"], s)
		}
		j.declare(p.n["t"], v, s, false, false)
	}
}

func (j *TSExec) callBody(f *JFn, this JV, args []JV, newT *JClass) JV {
	if f.node.K != "fn" {
		j.unsup("function %s", f.node.K)
	}
	if f.node.b["gen"] {
		return j.newGen(f, this, args)
	}
	n := len(j.e.callstk)
	j.enter(f.name)
	if !j.loading && f.node.file != "" {
		j.RanTS[filepath.Base(f.node.file)+": "+f.name] = true
	}
	s := newScope(f.sc)
	if f.node.b["arrow"] {
		s.fn = f.sc.fn
	} else {
		s.fn = &callFrame{this: this, home: f.home, name: f.name, args: args}
	}
	j.params(f.node, args, s)
	j.hoist(f.node.a["body"], s, false)
	r := j.list(f.node.a["body"], s)
	j.depth--
	j.e.callstk = j.e.callstk[:n]
	if r.k == 1 {
		return r.v
	}
	return jUndef{}
}

func (j *TSExec) call(f JV, this JV, args []JV) JV {
	fn, ok := f.(*JFn)
	if !ok {
		j.throwErr("TypeError", "not a function")
	}
	if fn.nt != nil {
		this = fn.nt
	}
	if fn.nat != nil {
		return fn.nat(this, args)
	}
	if fn.cls != nil {
		if fn.cls.builtin != "" {
			return j.builtinCall(fn.cls.builtin, args)
		}
		j.throwErr("TypeError", "class called without new")
	}
	if fn.node == nil {
		return j.builtinCall(fn.name, args)
	}
	return j.callBody(fn, this, args, nil)
}

// ---- expressions ----

func (j *TSExec) args(as []*TN, sc *scope) []JV {
	var r []JV
	for _, a := range as {
		if a.K == "spread" {
			r = append(r, j.iterate(j.expr(a.n["e"], sc))...)
			continue
		}
		r = append(r, j.expr(a, sc))
	}
	return r
}

func (j *TSExec) expr(n *TN, sc *scope) JV {
	j.tick(n)
	switch n.K {
	case "num":
		f, err := strconv.ParseFloat(n.s["v"], 64)
		if err != nil {
			j.unsup("number %s", n.s["v"])
		}
		return j.numF(f)
	case "big":
		v, ok := new(big.Int).SetString(n.s["v"], 0)
		if !ok {
			j.unsup("bigint %s", n.s["v"])
		}
		return j.konst(true, v)
	case "str":
		return &JS{s: n.s["v"]}
	case "bool":
		return &JB{j.tb.Bool(n.b["v"])}
	case "null":
		return jNull{}
	case "undef":
		return jUndef{}
	case "this":
		if sc.fn.noThis && sc.fn.this == nil {
			j.throwErr("ReferenceError", "this before super")
		}
		if sc.fn.this == nil {
			return jUndef{}
		}
		return sc.fn.this
	case "id":
		b := sc.find(n.s["n"])
		if b == nil {
			return j.global(n.s["n"])
		}
		if b.bad != "" {
			panic(Unsupported{b.bad})
		}
		if b.dead {
			j.throwErr("ReferenceError", n.s["n"])
		}
		return b.v
	case "fn":
		f := &JFn{name: n.s["name"], node: n, sc: sc}
		if f.name != "" && !n.b["arrow"] {
			s := newScope(sc)
			s.vars[f.name] = &binding{v: f}
			f.sc = s
		}
		return f
	case "class":
		return j.class(n, sc)
	case "arr":
		return j.array(j.args(n.a["els"], sc))
	case "obj":
		o := j.newObj("")
		for _, p := range n.a["ps"] {
			if p.n["spread"] != nil {
				switch x := j.expr(p.n["spread"], sc).(type) {
				case jUndef, jNull, *JB, *JI, *JF, *JQ:
				case *JObj:
					if x.kind != "" {
						j.unsup("spread of %s", x.kind)
					}
					for _, k := range x.own() {
						o.set(k, x.props[k])
					}
				default:
					j.unsup("spread of %s", typeOf(x))
				}
				continue
			}
			k := j.propKey(j.expr(p.n["p"], sc))
			v := j.expr(p.n["v"], sc)
			if f, ok := v.(*JFn); ok && (p.b["get"] || p.b["set"]) {
				if o.cls == nil {
					o.cls = &JClass{members: map[string]*JMember{}, statics: map[string]*JMember{}, sprops: map[string]JV{}}
				}
				if o.cls.members[k] == nil {
					o.cls.members[k] = &JMember{}
				}
				if p.b["get"] {
					o.cls.members[k].get = f
				} else {
					o.cls.members[k].set = f
				}
				continue
			}
			o.set(k, v)
		}
		return o
	case "yield":
		return j.yield(n, sc)
	case "delete":
		t := n.n["t"]
		if t.K != "member" && t.K != "index" {
			j.unsup("delete %s", t.K)
		}
		o, ok := j.expr(t.n["o"], sc).(*JObj)
		k := t.s["p"]
		if t.K == "index" {
			k = j.propKey(j.expr(t.n["i"], sc))
		}
		if !ok || o.kind != "" || o.flags["frozen"] {
			j.unsup("delete from %s", t.K)
		}
		j.changed(o, "property "+k)
		if _, has := o.props[k]; has {
			delete(o.props, k)
			var ks []string
			for _, x := range o.keys {
				if x != k {
					ks = append(ks, x)
				}
			}
			o.keys = ks
		}
		return &JB{j.tb.tru}
	case "tpl":
		s := &JS{s: ""}
		for i, q := range n.a["q"] {
			s = j.concatS(s, &JS{s: q.s["v"]})
			if i < len(n.a["e"]) {
				s = j.concatS(s, j.toStr(j.expr(n.a["e"][i], sc)))
			}
		}
		return s
	case "member", "index":
		v, _ := j.memberRef(n, sc)
		return v
	case "call":
		return j.callExpr(n, sc)
	case "new":
		f := j.expr(n.n["f"], sc)
		return j.construct(f, j.args(n.a["a"], sc))
	case "cond":
		if j.truth(j.expr(n.n["c"], sc)) {
			return j.expr(n.n["a"], sc)
		}
		return j.expr(n.n["b"], sc)
	case "log":
		a := j.expr(n.n["a"], sc)
		switch n.s["op"] {
		case "&&":
			if !j.truth(a) {
				return a
			}
		case "||":
			if j.truth(a) {
				return a
			}
		case "??":
			if !nullish(a) {
				return a
			}
		}
		return j.expr(n.n["b"], sc)
	case "un":
		if n.s["op"] == "typeof" {
			if x := n.n["e"]; x.K == "id" && sc.find(x.s["n"]) == nil && !knownGlobal(x.s["n"]) {
				return &JS{s: "undefined"}
			}
			return &JS{s: typeOf(j.expr(n.n["e"], sc))}
		}
		return j.unary(n.s["op"], j.expr(n.n["e"], sc))
	case "bin":
		if n.s["op"] == "," {
			j.expr(n.n["a"], sc)
			return j.expr(n.n["b"], sc)
		}
		a := j.expr(n.n["a"], sc)
		return j.binary(n.s["op"], a, j.expr(n.n["b"], sc))
	case "assign":
		return j.assign(n, sc)
	case "upd":
		get, set := j.ref(n.n["t"], sc)
		old := j.toNumeric(get())
		one := JV(j.num(1))
		if i, ok := old.(*JI); ok && i.big {
			one = j.konst(true, bi(1))
		}
		nv := j.binary(n.s["op"], old, one)
		set(nv)
		if n.b["prefix"] {
			return nv
		}
		return old
	}
	j.unsup("%s %s", n.K, n.s["n"])
	return nil
}

func nullish(v JV) bool {
	switch v.(type) {
	case jUndef, jNull:
		return true
	}
	return false
}

// memberRef evaluates o.p or o[i]; the second result is o.
func (j *TSExec) memberRef(n *TN, sc *scope) (JV, JV) {
	if n.n["o"].K == "super" {
		m := sc.fn.home.ext.find(n.s["p"])
		if m == nil {
			j.unsup("super.%s", n.s["p"])
		}
		if m.get != nil {
			return j.call(m.get, sc.fn.this, nil), sc.fn.this
		}
		return m.fn, sc.fn.this
	}
	o := j.expr(n.n["o"], sc)
	if _, ok := o.(shortCut); ok {
		return o, o
	}
	if n.b["opt"] && nullish(o) {
		return shortCut{}, shortCut{}
	}
	if n.K == "member" {
		return j.getProp(o, n.s["p"]), o
	}
	return j.getIndex(o, j.expr(n.n["i"], sc)), o
}

// the value of a chain a?.b.c whose a is nullish
type shortCut struct{}

func (j *TSExec) callExpr(n *TN, sc *scope) JV {
	f := n.n["f"]
	if f.K == "super" {
		fr := sc.fn
		o := j.constructCls(fr.home.ext, fr.newT, nil, j.args(n.a["a"], sc))
		fr.this, fr.noThis = o, false
		if fr.home.ctor != nil {
			j.paramProps(o, fr.home, fr.args)
		}
		j.initFields(o, fr.home)
		return jUndef{}
	}
	var fv, this JV
	this = jUndef{}
	if f.K == "member" || f.K == "index" {
		fv, this = j.memberRef(f, sc)
	} else {
		fv = j.expr(f, sc)
	}
	if _, ok := fv.(shortCut); ok {
		return jUndef{}
	}
	if n.b["opt"] && nullish(fv) {
		return jUndef{}
	}
	if _, u := fv.(jUndef); u {
		j.line = n
		j.throwErr("TypeError", "not a function")
	}
	as := j.args(n.a["a"], sc)
	l := j.line
	r := j.call(fv, this, as)
	j.line = l
	return r
}

// ref gives access to an assignable place, evaluating its parts once.
func (j *TSExec) ref(t *TN, sc *scope) (func() JV, func(JV)) {
	switch t.K {
	case "id":
		b := sc.find(t.s["n"])
		if b == nil {
			j.unsup("assignment to global %s", t.s["n"])
		}
		if b.bad != "" {
			panic(Unsupported{b.bad})
		}
		return func() JV {
				if b.dead {
					j.throwErr("ReferenceError", t.s["n"])
				}
				return b.v
			}, func(v JV) {
				if b.dead {
					j.throwErr("ReferenceError", t.s["n"])
				}
				if b.c {
					j.throwErr("TypeError", "assignment to constant")
				}
				if b.mod && j.loading && j.floor > 0 {
					j.dirty = true
				}
				if b.mod && !j.loading {
					j.touchLet[t.s["n"]] = true
				}
				b.v = v
			}
	case "member":
		o := j.expr(t.n["o"], sc)
		return func() JV { return j.getProp(o, t.s["p"]) }, func(v JV) { j.setProp(o, t.s["p"], v) }
	case "index":
		o := j.expr(t.n["o"], sc)
		i := j.expr(t.n["i"], sc)
		return func() JV { return j.getIndex(o, i) }, func(v JV) { j.setIndex(o, i, v) }
	}
	j.unsup("assignment to %s", t.K)
	return nil, nil
}

func (j *TSExec) assignTo(t *TN, v JV, sc *scope) {
	if t.K == "arrpat" {
		els := j.iterate(v)
		for i, e := range t.a["els"] {
			if e == nil {
				continue
			}
			var x JV = jUndef{}
			if e.b["rest"] {
				x = j.array(append([]JV{}, els[i:]...))
			} else if i < len(els) {
				x = els[i]
			}
			if _, u := x.(jUndef); u && e.n["d"] != nil {
				x = j.expr(e.n["d"], sc)
			}
			j.assignTo(e.n["t"], x, sc)
		}
		return
	}
	_, set := j.ref(t, sc)
	set(v)
}

func (j *TSExec) assign(n *TN, sc *scope) JV {
	op := n.s["op"]
	t := n.n["t"]
	if op == "" {
		if t.K == "arrpat" {
			v := j.expr(n.n["v"], sc)
			j.assignTo(t, v, sc)
			return v
		}
		_, set := j.ref(t, sc)
		v := j.expr(n.n["v"], sc)
		j.named(v, t)
		set(v)
		return v
	}
	get, set := j.ref(t, sc)
	old := get()
	switch op {
	case "&&":
		if !j.truth(old) {
			return old
		}
	case "||":
		if j.truth(old) {
			return old
		}
	case "??":
		if !nullish(old) {
			return old
		}
	default:
		v := j.binary(op, old, j.expr(n.n["v"], sc))
		set(v)
		return v
	}
	v := j.expr(n.n["v"], sc)
	set(v)
	return v
}

func typeOf(v JV) string {
	switch x := v.(type) {
	case jUndef:
		return "undefined"
	case *JB:
		return "boolean"
	case *JI:
		if x.big {
			return "bigint"
		}
		return "number"
	case *JF, *JQ:
		return "number"
	case *JS:
		return "string"
	case *JFn:
		return "function"
	case *JObj:
		if x.kind == "symbol" {
			return "symbol"
		}
	}
	return "object"
}

// boolOf is ToBoolean as a term.
func (j *TSExec) boolOf(v JV) *T {
	tb := j.tb
	switch x := v.(type) {
	case jUndef, jNull, shortCut:
		return tb.fls
	case *JB:
		return x.t
	case *JI:
		return tb.BNot(j.eq(x, j.konst(x.big, bigZero)))
	case *JQ:
		return tb.BNot(j.eq(x.n, j.num(0)))
	case *JF:
		return tb.BNot(tb.BOr(j.isNaN(x.bits), tb.Eq(tb.Shift(OShl, x.bits, tb.I(1)), tb.I(0))))
	case *JS:
		if x.sym != nil {
			return tb.BNot(tb.Eq(x.sym.n, tb.I(0)))
		}
		return tb.Bool(x.s != "")
	}
	return tb.tru
}

func (j *TSExec) truth(v JV) bool { return j.e.branch(j.boolOf(v)) }

func (j *TSExec) nan() JV { return &JF{j.tb.Const(64, math.Float64bits(math.NaN()))} }

// toNumeric is ToNumeric: a number or a bigint.
func (j *TSExec) toNumeric(v JV) JV {
	switch x := v.(type) {
	case *JI, *JF, *JQ:
		return v
	case jUndef, shortCut:
		return j.nan()
	case jNull:
		return j.num(0)
	case *JB:
		return j.mk(false, j.tb.Ite(x.t, j.tb.I(1), j.tb.I(0)), nil, bigZero, bi(1))
	case *JS:
		if x.sym == nil {
			if strings.TrimSpace(x.s) == "" {
				return j.num(0)
			}
			if f, err := strconv.ParseFloat(x.s, 64); err == nil {
				return j.numF(f)
			}
			return j.nan()
		}
	}
	j.unsup("number of %s", typeOf(v))
	return nil
}

func (j *TSExec) toNumber(v JV) JV {
	n := j.toNumeric(v)
	if i, ok := n.(*JI); ok && i.big {
		j.throwErr("TypeError", "bigint as a number")
	}
	return n
}

// trunc32 is the 32-bit word ToInt32 and ToUint32 give.
func (j *TSExec) trunc32(v JV) *T {
	return j.truncW(v, 32)
}
func (j *TSExec) truncW(v JV, w int) *T {
	switch x := j.toNumber(v).(type) {
	case *JI:
		return j.tb.Extract(x.lo, w-1, 0)
	case *JQ:
		return j.tb.Extract(j.truncQ(x).lo, w-1, 0)
	case *JF:
		f, ok := constF(x)
		if !ok {
			j.unsup("integer part of an unknown float")
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return j.tb.Const(w, 0)
		}
		b, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
		b.And(b, new(big.Int).Sub(two64, bi(1)))
		return j.tb.Const(w, b.Uint64())
	}
	return nil
}
func (j *TSExec) truncQ(q *JQ) *JI {
	return j.quo(q.n, j.konst(false, new(big.Int).Lsh(bi(1), q.k)))
}

func (j *TSExec) unary(op string, v JV) JV {
	switch op {
	case "!":
		return &JB{j.tb.BNot(j.boolOf(v))}
	case "void":
		return jUndef{}
	}
	n := j.toNumeric(v)
	i, isInt := n.(*JI)
	switch op {
	case "+":
		return j.toNumber(v)
	case "-":
		if isInt {
			return j.neg(i)
		}
		if q, ok := n.(*JQ); ok {
			return &JQ{j.neg(q.n), q.k}
		}
		return &JF{j.tb.Xor(n.(*JF).bits, j.tb.Const(64, 1<<63))}
	case "~":
		if isInt && i.big {
			return j.sub(j.neg(i), j.konst(true, bi(1)))
		}
		return j.i32(j.tb.Not(j.trunc32(n)), true)
	}
	j.unsup("operator %s", op)
	return nil
}

func (j *TSExec) binary(op string, a, b JV) JV {
	tb := j.tb
	switch op {
	case "===":
		return &JB{j.strictEq(a, b)}
	case "!==":
		return &JB{tb.BNot(j.strictEq(a, b))}
	case "==", "!=":
		t := j.looseEq(a, b)
		if op == "!=" {
			t = tb.BNot(t)
		}
		return &JB{t}
	case "<", ">", "<=", ">=":
		return &JB{j.compare(op, a, b)}
	case "instanceof":
		f, ok := b.(*JFn)
		if !ok {
			j.throwErr("TypeError", "instanceof")
		}
		return &JB{tb.Bool(j.instanceOf(a, f))}
	case "in":
		o, ok := b.(*JObj)
		if !ok {
			j.throwErr("TypeError", "in")
		}
		if o.kind == "Uint8Array" {
			if i, ok := j.toNumeric(a).(*JI); ok {
				return &JB{tb.BAnd(j.lt(j.num(-1), i), j.lt(i, j.lenI(o.len)))}
			}
		}
		k := j.propKey(a)
		_, own := o.props[k]
		return &JB{tb.Bool(own || o.cls != nil && o.cls.find(k) != nil)}
	case "+":
		_, sa := a.(*JS)
		_, sb := b.(*JS)
		if sa || sb {
			return j.concatS(j.toStr(a), j.toStr(b))
		}
		for _, v := range []JV{a, b} {
			switch v.(type) {
			case *JObj, *JFn:
				j.unsup("object in an addition")
			}
		}
	}
	x, y := j.toNumeric(a), j.toNumeric(b)
	xi, xok := x.(*JI)
	yi, yok := y.(*JI)
	if (xok && xi.big) != (yok && yi.big) {
		j.throwErr("TypeError", "bigint and number")
	}
	if xok && xi.big {
		return j.bigBinary(op, xi, yi)
	}
	switch op {
	case "&", "|", "^":
		f := map[string]func(a, b *T) *T{"&": tb.And, "|": tb.Or, "^": tb.Xor}[op]
		return j.i32(f(j.trunc32(x), j.trunc32(y)), true)
	case "<<", ">>", ">>>":
		s := j.trunc32(y)
		s = tb.And(s, tb.Const(32, 31))
		o := map[string]Op{"<<": OShl, ">>": OAshr, ">>>": OLshr}[op]
		return j.i32(tb.Shift(o, j.trunc32(x), s), op != ">>>")
	}
	if xok && yok {
		switch op {
		case "+":
			return j.exact(j.add(xi, yi))
		case "-":
			return j.exact(j.sub(xi, yi))
		case "*":
			return j.exact(j.mul(xi, yi))
		case "/":
			if yi.isConst() {
				if k := pow2(new(big.Int).Abs(yi.min)); k >= 0 {
					n := xi
					if yi.min.Sign() < 0 {
						n = j.neg(n)
					}
					if k == 0 {
						return n
					}
					if n.isConst() {
						f, _ := constF(n)
						return j.numF(math.Ldexp(f, -k))
					}
					return &JQ{n, uint(k)}
				}
			}
		case "%":
			if yi.isConst() && yi.min.Sign() != 0 {
				return j.rem(xi, yi)
			}
		case "**":
			if xi.isConst() && yi.isConst() && yi.min.Sign() >= 0 && yi.min.Cmp(bi(128)) < 0 {
				return j.exact(j.konst(false, new(big.Int).Exp(xi.min, yi.min, nil)))
			}
		}
	}
	if op == "-" || op == "+" {
		// n/2^k plus or minus an integer
		q1, ok1 := j.asQ(x)
		q2, ok2 := j.asQ(y)
		if ok1 && ok2 {
			k := max(q1.k, q2.k)
			n1, n2 := j.shl(q1.n, k-q1.k), j.shl(q2.n, k-q2.k)
			if op == "+" {
				return &JQ{j.exact(j.add(n1, n2)), k}
			}
			return &JQ{j.exact(j.sub(n1, n2)), k}
		}
	}
	f, ok1 := constF(x)
	g, ok2 := constF(y)
	if ok1 && (math.IsNaN(f)) || ok2 && math.IsNaN(g) {
		return j.nan()
	}
	if ok1 && ok2 {
		switch op {
		case "+":
			return j.numF(f + g)
		case "-":
			return j.numF(f - g)
		case "*":
			return j.numF(f * g)
		case "/":
			return j.numF(f / g)
		case "%":
			return j.numF(math.Mod(f, g))
		case "**":
			return j.numF(math.Pow(f, g))
		}
	}
	j.unsup("operator %s on floats", op)
	return nil
}

func (j *TSExec) asQ(v JV) (*JQ, bool) {
	switch x := v.(type) {
	case *JI:
		return &JQ{x, 0}, true
	case *JQ:
		return x, true
	}
	return nil, false
}

func (j *TSExec) bigBinary(op string, x, y *JI) JV {
	switch op {
	case "+":
		return j.add(x, y)
	case "-":
		return j.sub(x, y)
	case "*":
		return j.mul(x, y)
	case "/", "%":
		if y.isConst() && y.min.Sign() == 0 {
			j.throwErr("RangeError", "division by zero")
		}
		if op == "/" {
			return j.quo(x, y)
		}
		return j.rem(x, y)
	case "&", "|", "^":
		return j.bitop(op, x, y)
	case "<<", ">>":
		if !y.isConst() || y.min.CmpAbs(bi(4096)) > 0 {
			j.unsup("shift by an unknown bigint")
		}
		k := y.min.Int64()
		if op == ">>" {
			k = -k
		}
		if k >= 0 {
			return j.shl(x, uint(k))
		}
		return j.shr(x, uint(-k))
	case "**":
		if x.isConst() && y.isConst() && y.min.Sign() >= 0 && y.min.Cmp(bi(128)) < 0 {
			return j.konst(true, new(big.Int).Exp(x.min, y.min, nil))
		}
	case ">>>":
		j.throwErr("TypeError", ">>> on a bigint")
	}
	j.unsup("bigint operator %s", op)
	return nil
}

func (j *TSExec) compare(op string, a, b JV) *T {
	tb := j.tb
	if op == ">" || op == ">=" {
		a, b = b, a
		op = map[string]string{">": "<", ">=": "<="}[op]
	}
	x, y := j.toNumeric(a), j.toNumeric(b)
	q1, ok1 := j.asQ(x)
	q2, ok2 := j.asQ(y)
	if ok1 && ok2 {
		if q1.k != q2.k {
			k := max(q1.k, q2.k)
			q1, q2 = &JQ{j.shl(q1.n, k-q1.k), k}, &JQ{j.shl(q2.n, k-q2.k), k}
		}
		if op == "<" {
			return j.lt(q1.n, q2.n)
		}
		return tb.BNot(j.lt(q2.n, q1.n))
	}
	f, c1 := constF(x)
	g, c2 := constF(y)
	if c1 && math.IsNaN(f) || c2 && math.IsNaN(g) {
		return tb.fls
	}
	if c1 && c2 {
		if op == "<" {
			return tb.Bool(f < g)
		}
		return tb.Bool(f <= g)
	}
	if c2 && math.IsInf(g, 1) && ok1 || c1 && math.IsInf(f, -1) && ok2 {
		return tb.tru
	}
	if c2 && math.IsInf(g, -1) && ok1 || c1 && math.IsInf(f, 1) && ok2 {
		return tb.fls
	}
	// floats by their bits
	fx, k1 := x.(*JF)
	fy, k2 := y.(*JF)
	if !k1 {
		if h, ok := constF(x); ok {
			fx, k1 = &JF{tb.Const(64, math.Float64bits(h))}, true
		}
	}
	if !k2 {
		if h, ok := constF(y); ok {
			fy, k2 = &JF{tb.Const(64, math.Float64bits(h))}, true
		}
	}
	if k1 && k2 {
		num := tb.BNot(tb.BOr(j.isNaN(fx.bits), j.isNaN(fy.bits)))
		l := tb.Slt(j.order(fx.bits), j.order(fy.bits))
		if op == "<=" {
			l = tb.BNot(tb.Slt(j.order(fy.bits), j.order(fx.bits)))
		}
		return tb.BAnd(num, l)
	}
	j.unsup("comparison of %s and %s", typeOf(a), typeOf(b))
	return nil
}

// order maps the bits of a float64 that is not NaN to a signed number in the
// order of the floats, both zeros alike.
func (j *TSExec) order(b *T) *T {
	tb := j.tb
	mag := tb.And(b, tb.Const(64, 1<<63-1))
	return tb.Ite(tb.Slt(b, tb.I(0)), tb.Neg(mag), mag)
}

func (j *TSExec) floatEq(x, y *T) *T {
	tb := j.tb
	if x == y {
		return tb.BNot(j.isNaN(x))
	}
	return tb.BAnd(tb.BNot(tb.BOr(j.isNaN(x), j.isNaN(y))), tb.Eq(j.order(x), j.order(y)))
}

func (j *TSExec) strictEq(a, b JV) *T {
	tb := j.tb
	if _, ok := a.(shortCut); ok {
		a = jUndef{}
	}
	if _, ok := b.(shortCut); ok {
		b = jUndef{}
	}
	if typeOf(a) != typeOf(b) {
		return tb.fls
	}
	switch x := a.(type) {
	case jUndef:
		return tb.tru
	case jNull:
		_, ok := b.(jNull)
		return tb.Bool(ok)
	case *JB:
		y := b.(*JB)
		return tb.BOr(tb.BAnd(x.t, y.t), tb.BAnd(tb.BNot(x.t), tb.BNot(y.t)))
	case *JI, *JQ, *JF:
		q1, ok1 := j.asQ(a)
		q2, ok2 := j.asQ(b)
		if ok1 && ok2 {
			if q1.k != q2.k {
				k := max(q1.k, q2.k)
				q1, q2 = &JQ{j.shl(q1.n, k-q1.k), k}, &JQ{j.shl(q2.n, k-q2.k), k}
			}
			return j.eq(q1.n, q2.n)
		}
		bits := func(v JV) *T {
			if f, ok := v.(*JF); ok {
				return f.bits
			}
			if f, ok := constF(v); ok {
				return tb.Const(64, math.Float64bits(f))
			}
			return nil
		}
		f, g := bits(a), bits(b)
		for _, v := range []JV{a, b} {
			if h, ok := constF(v); ok && (math.IsNaN(h) || math.IsInf(h, 0) && (f == nil || g == nil)) {
				return tb.fls
			}
		}
		if f == nil || g == nil {
			j.unsup("equality of an unknown integer and a float")
		}
		return j.floatEq(f, g)
	case *JS:
		y := b.(*JS)
		if x.sym == nil && y.sym == nil {
			return tb.Bool(x.s == y.s)
		}
		if x.sym == y.sym {
			return tb.tru
		}
		if x.sym == nil {
			x, y = y, x
		}
		if y.sym == nil {
			c := tb.Eq(x.sym.n, tb.I(int64(len(y.s))))
			for i := 0; i < len(y.s); i++ {
				c = tb.BAnd(c, tb.Eq(j.e.read(x.sym.c, tb.Add(x.sym.off, tb.I(int64(i)))), tb.Const(8, uint64(y.s[i]))))
			}
			return c
		}
		j.unsup("equality of unknown strings")
	case *JObj:
		y, ok := b.(*JObj)
		return tb.Bool(ok && x == y)
	case *JFn:
		y := b.(*JFn)
		return tb.Bool(x == y || x.cls != nil && x.cls == y.cls)
	}
	return tb.fls
}

func (j *TSExec) looseEq(a, b JV) *T {
	if nullish(a) || nullish(b) {
		return j.tb.Bool(nullish(a) && nullish(b))
	}
	if typeOf(a) == typeOf(b) {
		return j.strictEq(a, b)
	}
	num := func(v JV) bool { t := typeOf(v); return t == "number" || t == "bigint" || t == "boolean" }
	if num(a) && num(b) {
		x, y := j.toNumeric(a), j.toNumeric(b)
		xi, ok1 := x.(*JI)
		yi, ok2 := y.(*JI)
		if ok1 && ok2 {
			return j.eq(xi, yi)
		}
	}
	j.unsup("== of %s and %s", typeOf(a), typeOf(b))
	return nil
}

func (j *TSExec) instanceOf(v JV, f *JFn) bool {
	o, ok := v.(*JObj)
	if !ok {
		return false
	}
	if f.cls != nil {
		return o.cls != nil && o.cls.isA(f.cls)
	}
	switch f.name {
	case "Object":
		return true
	default:
		return o.kind == f.name || o.cls != nil && o.cls.isA(j.builtinClass(f.name))
	}
}

func (j *TSExec) propKey(v JV) string {
	switch x := v.(type) {
	case *JS:
		if x.sym == nil {
			return x.s
		}
	case *JI:
		if x.isConst() {
			return x.min.String()
		}
	case *JObj:
		if x.kind == "symbol" {
			return fmt.Sprintf("@@%d", x.id)
		}
	}
	j.unsup("unknown property name")
	return ""
}

func (j *TSExec) concatS(a, b *JS) *JS {
	if a.sym == nil && b.sym == nil {
		return &JS{s: a.s + b.s}
	}
	if a.sym == nil && a.s == "" {
		return b
	}
	if b.sym == nil && b.s == "" {
		return a
	}
	return j.opaqueStr()
}

// a string nothing is known about
func (j *TSExec) opaqueStr() *JS {
	n := j.e.fresh("strlen", 64)
	j.sized(n)
	return &JS{sym: &JText{c: j.e.baseContent("str"), off: j.tb.I(0), n: n, valid: j.tb.tru}}
}

func (j *TSExec) toStr(v JV) *JS {
	switch x := v.(type) {
	case *JS:
		return x
	case jUndef:
		return &JS{s: "undefined"}
	case jNull:
		return &JS{s: "null"}
	case *JI:
		if x.isConst() {
			return &JS{s: x.min.String()}
		}
	case *JB:
		if x.t.isConst() {
			return &JS{s: fmt.Sprint(x.t.isTrue())}
		}
	}
	return j.opaqueStr()
}
