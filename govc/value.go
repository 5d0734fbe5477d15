package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Contents: immutable functional byte sequences.

type CKind uint8

const (
	CBase CKind = iota // uninterpreted
	CZero
	CLit
	CStore
	CCopy
)

type Content struct {
	k      CKind
	name   string
	lit    string
	prev   *Content
	idx    *T
	val    *T
	dst    *T
	src    *Content
	srcOff *T
	n      *T
	memo   map[int]*T
}

// BObj is a byte-addressed memory object.
type BObj struct {
	id     int
	name   string
	size   *T
	c      *Content
	isStr  bool // immutable string memory
	pre    bool // existed before the harness body ran (input or global)
	global bool
	// merged append: this object may be the same memory as alias, whose bytes
	// from aliasLim on it shares; index i here is aliasOff+i there.
	alias    *BObj
	aliasLim *T   // in this object's coordinates
	shared   bool // some later object may share this object's memory
	freed    bool
}

type Cell struct {
	id     int
	name   string
	typ    types.Type
	val    Value
	global bool
	gen    bool    // arbitrary element of a list of unknown length
	pool   []Value // sync.Pool contents
}

type Value interface{}

type Scalar struct{ t *T }

type SliceV struct {
	nil_     bool
	o        *BObj // byte slices
	cell     *Cell // other element types: cell holding *ArrV
	off      *T
	len, cap *T
	lazy     *lazyNil // may be nil when empty
}

type lazyNil struct{ state int }

type StrV struct {
	o   *BObj
	off *T
	len *T
}

type PtrV struct {
	nil_ bool
	cell *Cell
	path []int
	o    *BObj // pointer into byte memory
	off  *T
	arr  int64      // >=0: pointer to [arr]byte
	hdr  string     // "Data","Len","Cap": pointer to a header field of the slice/string in the cell
	cast types.Type // pointee type after an unsafe cast
}

type StructV struct {
	f []Value
}

type ArrV struct { // array of non-bytes, or a byte array held by value
	e []Value
	// by-value byte array
	bytes *Content
	n     int64
}

type IfaceV struct {
	nil_ bool
	typ  types.Type
	v    Value
}

type FuncV struct {
	nil_ bool
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}

type TupleV struct{ v []Value }

type UnsafeP struct {
	p   Value // PtrV
	elt types.Type
}

type UintptrV struct { // address taken from a header
	o    *BObj
	off  *T
	nil_ bool
}

type MapV struct {
	nil_ bool
	m    *MapObj
}
