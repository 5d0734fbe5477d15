package main

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Harness    string
	Rung       string
	Paths      int
	VCs        int
	Trivial    int
	Obs        map[Oblig]bool
	Fails      []Failure
	Covers     map[string]bool
	Unsup      []string
	Inlined    map[string]bool
	Used       map[string]bool
	Intrins    map[string]bool
	Queries    int
	Alt        int
	LiaDone    int
	Unknowns   int
	SolverTime time.Duration
	NeedFork   bool
	Assumed    int
	Bounded    bool
}

// runOne explores one harness completely.
func runOne(ld *Loader, name string, o Options, use map[string]*ssa.Function) (res *Result) {
	h := ld.target.Func(name)
	e := NewEngine(ld, o)
	if use != nil {
		e.use = use
	}
	defer e.s.Close()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case needFork:
					res = &Result{Harness: name, NeedFork: true}
				case Fatal:
					e.Unsup = append(e.Unsup, string(x))
				default:
					e.Unsup = append(e.Unsup, fmt.Sprintf("internal error: %v", r))
					if o.Verbose {
						panic(r)
					}
				}
			}
		}()
		e.Run(h)
	}()
	if res != nil {
		if o.ForkAppend {
			res.Unsup = []string{"aliasing of grown storage"}
			return res
		}
		o.ForkAppend = true
		return runOne(ld, name, o, use)
	}
	return &Result{Harness: name, Paths: e.Paths, VCs: e.VCs, Trivial: e.Trivial, Obs: e.Obs, Fails: e.Fails, Covers: e.Covers,
		Unsup: e.Unsup, Inlined: e.Inlined, Used: e.Used, Intrins: e.Intrins, Queries: e.s.Queries + e.s.LiaQueries, Alt: e.s.AltUsed, LiaDone: e.s.LiaUnsat,
		Unknowns: e.s.Unknowns, SolverTime: e.s.Time + e.s.AltTime + e.s.LiaTime, Assumed: e.assumedN, Bounded: e.bounded}
}

type contracts struct {
	use   map[string]*ssa.Function
	res   []*Result
	notes []string
}

// proveContracts verifies the contracts of internal functions; those that hold
// are used at the call sites of their functions.
func (ld *Loader) proveContracts(o Options) *contracts {
	c := &contracts{use: map[string]*ssa.Function{}}
	var names []string
	for n, h := range ld.Harness {
		if h.Contract != "" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		callee := ld.Harness[n].Contract
		spec, ok := ld.Contracts[callee]
		if !ok {
			continue
		}
		r := runOne(ld, n, o, nil)
		if len(r.Fails) == 0 && len(r.Unsup) == 0 && len(r.Covers) > 0 {
			c.use[callee] = ld.target.Func(spec)
			c.res = append(c.res, r)
		} else {
			c.notes = append(c.notes, fmt.Sprintf("contract of %s not established on this tree (%d failed, %v); its body is used", callee, len(r.Fails), r.Unsup))
		}
	}
	return c
}
