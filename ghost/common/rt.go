package polyglot

// Ghost runtime. The verifier gives these functions their logical meaning; the
// native bodies below are what runs when a counterexample is replayed (or a
// bounded search is made) against the compiled code.

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

type vState struct {
	aspect string
	fails  []string
	covers []string
	site   string
}

var vSt *vState

type vSkip struct{}

func vFail(label string) {
	if vSt == nil {
		return
	}
	where := ""
	for i := 2; i < 6; i++ {
		_, f, l, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if !strings.Contains(f, "zz_verif_rt") {
			where = fmt.Sprintf("%s:%d", f[strings.LastIndex(f, "/")+1:], l)
			break
		}
	}
	vSt.fails = append(vSt.fails, "post/"+label+"\x00"+vSt.aspect+"\x00"+where)
}

// vRequire is a precondition.
func vRequire(c bool) {
	if !c {
		panic(vSkip{})
	}
}

func vAssume(c bool) {
	if !c {
		panic(vSkip{})
	}
}

// vAspect says which part of the contract the code from here on is under.
func vAspect(a string) {
	if vSt != nil {
		vSt.aspect = a
	}
}

func vCover(label string) {
	if vSt != nil {
		vSt.covers = append(vSt.covers, label)
	}
}

// vEnsure is a postcondition.
func vEnsure(label string, c bool) {
	if !c {
		vFail(label)
	}
}

// vSnap is the content of b now.
func vSnap(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func vBytesOf(x any) []byte {
	switch y := x.(type) {
	case []byte:
		return y
	case string:
		if len(y) == 0 {
			return nil
		}
		return unsafe.Slice(unsafe.StringData(y), len(y))
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.String {
		return vBytesOf(v.String())
	}
	return v.Bytes()
}

// vEnsureSame: a and b are equal byte sequences.
func vEnsureSame[A, B ~[]byte | ~string](label string, a A, b B) {
	x, y := vBytesOf(any(a)), vBytesOf(any(b))
	if len(x) != len(y) {
		vFail(label + "/length")
		return
	}
	if string(x) != string(y) {
		vFail(label + "/bytes")
	}
}

func vSpan(x []byte) (uintptr, uintptr) {
	if len(x) == 0 {
		return 0, 0
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(x)))
	return p, p + uintptr(len(x))
}

// vEnsureDisjoint: a and b share no memory.
func vEnsureDisjoint[A, B ~[]byte | ~string](label string, a A, b B) {
	p, q := vSpan(vBytesOf(any(a)))
	r, s := vSpan(vBytesOf(any(b)))
	if p < s && r < q {
		vFail(label)
	}
}

// vEnsureRest: rest is exactly b[n:], in place.
func vEnsureRest(label string, rest, b []byte, n int) {
	if len(rest) != len(b)-n {
		vFail(label + "/length")
		return
	}
	if string(rest) != string(b[n:]) {
		vFail(label + "/position")
	}
}

// vEnsureSuffix: rest is some suffix of b, in place.
func vEnsureSuffix(label string, rest, b []byte) {
	if len(rest) > len(b) || string(rest) != string(b[len(b)-len(rest):]) {
		vFail(label)
	}
}

// vRest is the unread input of a decoder.
func vRest(d any) []byte {
	v := reflect.ValueOf(d)
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() == reflect.Slice {
		return v.Bytes()
	}
	var b []byte
	pos := 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Slice:
			b = f.Bytes()
		case reflect.Int:
			pos = int(f.Int())
		}
	}
	return b[pos:]
}

func vIte(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
