package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var verifRoot = "/verif"

func main() {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		verifRoot = v
	} else if wd, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(wd, "ghost")); err == nil {
			verifRoot = wd
		}
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: govc check PROP | govc run GROUP HARNESS [PROP]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "grun":
		grun(os.Args[2:])
	case "rrun":
		rrun(os.Args[2:])
	case "trun":
		trun(os.Args[2:])
	case "tcheck":
		os.Exit(tcheck(os.Args[2]))
	case "gcheck":
		os.Exit(gcheck(os.Args[2]))
	case "acheck":
		os.Exit(acheck(os.Args[2]))
	case "rcheck":
		os.Exit(rcheck(os.Args[2]))
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "run":
		g := groups()[os.Args[2]]
		ld, err := Load(g.Dir, g.Ghost)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		use := ld.proveContracts(Options{})
		fmt.Println("contracts used:", len(use.use), use.notes, ld.Dropped)
		if os.Getenv("INLINE") != "" {
			use.use = nil
		}
		names := []string{}
		for n := range ld.Harness {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if os.Args[3] != "all" && os.Args[3] != n {
				continue
			}
			t := time.Now()
			o := Options{ForkAppend: os.Getenv("FORK") != ""}
			if len(os.Args) > 4 {
				o.Select = props()[os.Args[4]].Parts[0].Select
			}
			r := runOne(ld, n, o, use.use)
			fmt.Printf("%-18s paths=%d vcs=%d trivial=%d fails=%d covers=%v unsup=%v queries=%d solver=%v wall=%v\n", n, r.Paths, r.VCs, r.Trivial, len(r.Fails), keys(r.Covers), r.Unsup, r.Queries, r.SolverTime.Round(time.Millisecond), time.Since(t).Round(time.Millisecond))
			for _, f := range r.Fails {
				fmt.Printf("   FAIL %s %s %v %s aspects=%v\n", f.Status, f.Label, f.Site, f.Path, f.Aspects)
				for _, i := range f.Inputs {
					fmt.Printf("      %+v\n", i)
				}
			}
		}
	default:
		os.Exit(2)
	}
}

func keys(m map[string]bool) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}
