package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// Rust front end: the program is rustc's own monomorphic MIR, as printed by
// rs/mirdump.

type MTag struct {
	Off      int64  `json:"off"`
	W        int    `json:"w"`
	Niche    bool   `json:"niche"`
	Untagged int    `json:"untagged"`
	Start    int    `json:"start"`
	End      int    `json:"end"`
	NStart   string `json:"nstart"`
}

type MTy struct {
	id      int
	N       string    `json:"n"`
	K       string    `json:"k"`
	Size    int64     `json:"size"`
	Align   int64     `json:"align"`
	Unsized bool      `json:"unsized"`
	Offs    []int64   `json:"offs"`
	Single  *int      `json:"single"`
	Tag     *MTag     `json:"tag"`
	VOffs   [][]int64 `json:"voffs"`
	S       bool      `json:"s"`
	W       int       `json:"w"`
	Elem    int       `json:"elem"`
	Len     int64     `json:"len"`
	Fields  []int     `json:"fields"`
	VFields [][]int   `json:"vfields"`
	Discrs  []string  `json:"discrs"`
	VNames  []string  `json:"vnames"`
	Adt     string    `json:"adt"`
	Inst    *int      `json:"inst"`
	discrs  []uint64
}

type MAlloc struct {
	id     int
	B      string     `json:"b"`
	P      [][2]int64 `json:"p"`
	Align  int64      `json:"align"`
	Mut    bool       `json:"mut"`
	Static string     `json:"static"`
	VTable string     `json:"vtable"`
	Fn     *int       `json:"fn"`
	Opaque bool       `json:"opaque"`
	Extern bool       `json:"extern"`
	bytes  []byte
	init   []bool
}

func (a *MAlloc) decode() {
	if a.bytes != nil || a.B == "" {
		return
	}
	n := len(a.B) / 2
	a.bytes = make([]byte, n)
	a.init = make([]bool, n)
	for i := 0; i < n; i++ {
		h := a.B[2*i : 2*i+2]
		if h != "__" {
			x, _ := hex.DecodeString(h)
			a.bytes[i] = x[0]
			a.init[i] = true
		}
	}
}

type MProj struct {
	k       byte // '*' 'f' 'i' 'c' 's' 'd'
	a, b    int64
	ty      int
	fromEnd bool
}
type MPlace struct {
	local int
	proj  []MProj
}
type MOp struct {
	k  byte // 'p' place, 'k' constant, 'r' runtime check, '!' unsupported
	p  MPlace
	ty int
	al *MAlloc // constant bytes; nil: zero-sized
	s  string
}
type MRv struct {
	ty   int
	k    string
	op   string
	a, b *MOp
	p    MPlace
	t1   int
	t2   int
	i, j int64
	ops  []MOp
	ex   map[string]any
	exI  int
}
type MStmt struct {
	k  string
	p  MPlace
	rv *MRv
	a  []*MOp
	i  int64
	ty int
}
type MTerm struct {
	k      string
	op     *MOp
	p      MPlace
	target int
	vals   []uint64
	tgts   []int
	fn     int // call: instance, -1: operand, -2: no-op, -3: unresolved
	args   []MOp
	atys   []int
	inst   int
	ty     int
	exp    bool
	msg    string
	line   int
}
type MBlock struct {
	s []MStmt
	t MTerm
}
type MInst struct {
	id      int
	N       string
	Kind    string
	Sym     string
	Foreign bool
	Intr    string
	Targs   []int
	Vidx    int
	Args    int
	Spread  int
	Locals  []int
	Blocks  []MBlock
	Span    string
	hasBody bool
}

type MProg struct {
	Entries map[string]int
	Types   []*MTy
	Insts   []*MInst
	Allocs  []*MAlloc
	bySym   map[string]*MInst
}

func jnum(x any) int64 {
	switch v := x.(type) {
	case json.Number:
		n, err := v.Int64()
		if err != nil {
			u, _ := strconv.ParseUint(string(v), 10, 64)
			return int64(u)
		}
		return n
	case string:
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return n
		}
		u, _ := strconv.ParseUint(v, 10, 64)
		return int64(u)
	case nil:
		return -1
	}
	return -1
}
func arr(x any) []any { a, _ := x.([]any); return a }

func pPlace(x any) MPlace {
	a := arr(x)
	p := MPlace{local: int(jnum(a[0]))}
	for _, y := range arr(a[1]) {
		e := arr(y)
		switch e[0].(string) {
		case "*":
			p.proj = append(p.proj, MProj{k: '*'})
		case "f":
			p.proj = append(p.proj, MProj{k: 'f', a: jnum(e[1]), ty: int(jnum(e[2]))})
		case "i":
			p.proj = append(p.proj, MProj{k: 'i', a: jnum(e[1])})
		case "ci":
			p.proj = append(p.proj, MProj{k: 'c', a: jnum(e[1]), fromEnd: e[2].(bool)})
		case "sub":
			p.proj = append(p.proj, MProj{k: 's', a: jnum(e[1]), b: jnum(e[2]), fromEnd: e[3].(bool)})
		case "d":
			p.proj = append(p.proj, MProj{k: 'd', a: jnum(e[1])})
		case "oc":
			p.proj = append(p.proj, MProj{k: 'o', ty: int(jnum(e[1]))})
		}
	}
	return p
}

func pAlloc(x any) *MAlloc {
	m, ok := x.(map[string]any)
	if !ok {
		return nil
	}
	a := &MAlloc{}
	a.B, _ = m["b"].(string)
	for _, y := range arr(m["p"]) {
		e := arr(y)
		a.P = append(a.P, [2]int64{jnum(e[0]), jnum(e[1])})
	}
	a.Align = jnum(m["align"])
	a.Mut, _ = m["mut"].(bool)
	a.Static, _ = m["static"].(string)
	a.VTable, _ = m["vtable"].(string)
	a.Opaque, _ = m["opaque"].(bool)
	a.Extern, _ = m["extern"].(bool)
	if f, ok := m["fn"]; ok {
		n := int(jnum(f))
		a.Fn = &n
	}
	a.decode()
	return a
}

func pOp(x any) *MOp {
	a := arr(x)
	switch a[0].(string) {
	case "c", "m":
		return &MOp{k: 'p', p: pPlace(a[1])}
	case "k":
		return &MOp{k: 'k', ty: int(jnum(a[1])), al: pAlloc(a[2])}
	case "rc":
		return &MOp{k: 'r', s: a[1].(string)}
	}
	return &MOp{k: '!', s: fmt.Sprint(a...)}
}
func pOps(x any) []MOp {
	var r []MOp
	for _, y := range arr(x) {
		r = append(r, *pOp(y))
	}
	return r
}

func pRv(x any) *MRv {
	a := arr(x)
	r := &MRv{ty: int(jnum(a[0])), k: a[1].(string)}
	switch r.k {
	case "ref", "len":
		r.p = pPlace(a[2])
	case "discr":
		r.p = pPlace(a[2])
		r.t1 = int(jnum(a[3]))
	case "use":
		r.a = pOp(a[2])
	case "agg":
		r.i, r.j = jnum(a[2]), jnum(a[3])
		r.ops = pOps(a[4])
	case "mkptr", "arr":
		r.ops = pOps(a[2])
	case "bin", "cbin":
		r.op = a[2].(string)
		r.a, r.b = pOp(a[3]), pOp(a[4])
		r.t1, r.t2 = int(jnum(a[5])), int(jnum(a[6]))
	case "un":
		r.op = a[2].(string)
		r.a = pOp(a[3])
		r.t1 = int(jnum(a[4]))
	case "cast":
		r.op = a[2].(string)
		r.a = pOp(a[3])
		r.t1, r.t2 = int(jnum(a[4])), int(jnum(a[5]))
		r.ex, _ = a[6].(map[string]any)
		if _, ok := a[6].(json.Number); ok {
			r.exI = int(jnum(a[6]))
		} else {
			r.exI = -1
		}
	case "repeat":
		r.a = pOp(a[2])
		r.i = jnum(a[3])
	}
	return r
}

func pTerm(x any) MTerm {
	a := arr(x)
	t := MTerm{k: a[0].(string), target: -1}
	switch t.k {
	case "goto":
		t.target = int(jnum(a[1]))
	case "sw":
		t.op = pOp(a[1])
		for _, y := range arr(a[2]) {
			e := arr(y)
			t.vals = append(t.vals, uint64(jnum(e[0])))
			t.tgts = append(t.tgts, int(jnum(e[1])))
		}
		t.target = int(jnum(a[3]))
	case "drop":
		t.p = pPlace(a[1])
		t.inst = int(jnum(a[2]))
		t.target = int(jnum(a[3]))
		t.ty = int(jnum(a[4]))
	case "call":
		f := arr(a[1])
		switch f[0].(string) {
		case "fn":
			t.fn = int(jnum(f[1]))
		case "op":
			t.fn = -1
			t.op = pOp(f[1])
		case "nop":
			t.fn = -2
		default:
			t.fn = -3
			t.msg = fmt.Sprint(f...)
		}
		t.args = pOps(a[2])
		for _, y := range arr(a[3]) {
			t.atys = append(t.atys, int(jnum(y)))
		}
		t.p = pPlace(a[4])
		t.target = int(jnum(a[5]))
		t.line = int(jnum(a[6]))
	case "assert":
		t.op = pOp(a[1])
		t.exp = a[2].(bool)
		t.msg = a[3].(string)
		t.target = int(jnum(a[4]))
		t.line = int(jnum(a[5]))
	}
	return t
}

func loadMIR(path string) (*MProg, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var raw struct {
		Entries map[string]int   `json:"entries"`
		Types   []*MTy           `json:"types"`
		Insts   []map[string]any `json:"insts"`
		Allocs  []any            `json:"allocs"`
	}
	d := json.NewDecoder(f)
	d.UseNumber()
	if err := d.Decode(&raw); err != nil {
		return nil, err
	}
	p := &MProg{Entries: raw.Entries, Types: raw.Types, bySym: map[string]*MInst{}}
	for i, t := range p.Types {
		t.id = i
		for _, s := range t.Discrs {
			t.discrs = append(t.discrs, uint64(jnum(s)))
		}
	}
	for i, a := range raw.Allocs {
		x := pAlloc(a)
		if x == nil {
			x = &MAlloc{Opaque: true}
		}
		x.id = i
		p.Allocs = append(p.Allocs, x)
	}
	for i, m := range raw.Insts {
		in := &MInst{id: i, Vidx: -1, Spread: -1}
		in.N, _ = m["n"].(string)
		in.Kind, _ = m["kind"].(string)
		in.Sym, _ = m["sym"].(string)
		in.Foreign, _ = m["foreign"].(bool)
		in.Intr, _ = m["intr"].(string)
		for _, y := range arr(m["targs"]) {
			in.Targs = append(in.Targs, int(jnum(y)))
		}
		if v, ok := m["vidx"]; ok {
			in.Vidx = int(jnum(v))
		}
		if bl, ok := m["blocks"]; ok {
			in.hasBody = true
			in.Args = int(jnum(m["args"]))
			in.Spread = int(jnum(m["spread"]))
			in.Span, _ = m["span"].(string)
			for _, y := range arr(m["locals"]) {
				in.Locals = append(in.Locals, int(jnum(y)))
			}
			for _, b := range arr(bl) {
				bm := b.(map[string]any)
				var blk MBlock
				for _, s := range arr(bm["s"]) {
					e := arr(s)
					st := MStmt{k: e[0].(string)}
					switch st.k {
					case "=":
						st.p = pPlace(e[1])
						st.rv = pRv(e[2])
					case "sd":
						st.p = pPlace(e[1])
						st.i = jnum(e[2])
						st.ty = int(jnum(e[3]))
					case "dead", "live":
						st.i = jnum(e[1])
					case "assume":
						st.a = []*MOp{pOp(e[1])}
					case "cno":
						st.a = []*MOp{pOp(e[1]), pOp(e[2]), pOp(e[3])}
						st.ty = int(jnum(e[4]))
					}
					blk.s = append(blk.s, st)
				}
				blk.t = pTerm(bm["t"])
				in.Blocks = append(in.Blocks, blk)
			}
		}
		p.Insts = append(p.Insts, in)
		if in.Sym != "" && in.hasBody {
			p.bySym[in.Sym] = in
		}
	}
	return p, nil
}
