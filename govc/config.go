package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// Group: a package under verification with its ghost files.
type Group struct {
	Name   string
	Dir    string
	ModDir string
	Ghost  []string
	Native []string // ghost files for the native build (same, without contracts)
}

type Part struct {
	Group   string
	Harness *regexp.Regexp
	Select  func(label string, asp []string) bool
}

type Prop struct {
	ID    string
	Parts []Part
}

func has(asp []string, a string) bool {
	for _, x := range asp {
		if x == a {
			return true
		}
	}
	return false
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		// for trying a copy by hand; the registered commands do not set it
		return d
	}
	return "/repo"
}

func verifDir() string {
	return verifRoot
}

func groups() map[string]*Group {
	g := map[string]*Group{}
	for _, n := range []string{"v1", "v2"} {
		d := repoDir()
		if n == "v2" {
			d = filepath.Join(d, "v2")
		}
		gr := &Group{Name: n, Dir: d, ModDir: d}
		for _, p := range []string{filepath.Join(verifDir(), "ghost", "common", "*.go"), filepath.Join(verifDir(), "ghost", n, "*.go")} {
			m, _ := filepath.Glob(p)
			for _, f := range m {
				gr.Ghost = append(gr.Ghost, f)
				if !strings.HasPrefix(filepath.Base(f), "contract_") {
					gr.Native = append(gr.Native, f)
				}
			}
		}
		g[n] = gr
	}
	return g
}

func isolate(l string) bool {
	return strings.Contains(l, "post/isolate/") || strings.HasPrefix(l, "frame/")
}
func panics(l string) bool { return strings.HasPrefix(l, "panic/") || strings.HasPrefix(l, "memory/") }

func selFunctional(l string, _ []string) bool { return !isolate(l) }
func selAccept(l string, a []string) bool {
	return strings.HasPrefix(l, "post/accept/") || panics(l) && has(a, "accept")
}
func selReject(l string, a []string) bool {
	return strings.HasPrefix(l, "post/reject/") || panics(l) && has(a, "reject")
}
func selPanics(l string, a []string) bool   { return panics(l) }
func selPosition(l string, a []string) bool { return strings.HasPrefix(l, "post/position/") }
func selIsolate(l string, a []string) bool  { return isolate(l) }
func selV1Copies(l string, a []string) bool {
	return isolate(l) || strings.HasPrefix(l, "post/pool/")
}
func selAll(l string, a []string) bool { return true }

func props() map[string]*Prop {
	re := regexp.MustCompile
	scal := re(`^hEnc(Nil|Map|Slice|Bool|Uint|Int|Float)`)
	payl := re(`^hEnc(Bytes|String|Error)`)
	dec := re(`^hDec`)
	str := re(`^hStream`)
	ps := []*Prop{
		{"C01", []Part{{"v2", scal, selFunctional}}},
		{"C02", []Part{{"v2", payl, selFunctional}}},
		{"C03", []Part{{"v2", re(`^hBuf`), selFunctional}}},
		{"C04", []Part{{"v2", dec, selAccept}}},
		{"C05", []Part{{"v2", dec, selPanics}}},
		{"C06", []Part{{"v2", dec, selReject}}},
		{"C07", []Part{{"v2", dec, selPosition}}},
		{"C08", []Part{{"v2", re(`^h(Dec|Enc(Bytes|String|Error)|BufWrite$)`), selIsolate}}},
		{"C09", []Part{{"v1", re(`^h(Enc|Buf)`), selFunctional}}},
		{"C10", []Part{{"v1", dec, selAccept}}},
		{"C11", []Part{{"v1", dec, selPanics}}},
		{"C12", []Part{{"v1", dec, selReject}}},
		{"C13", []Part{{"v1", dec, selPosition}}},
		{"C14", []Part{{"v1", re(`^h(Dec|Enc(Bytes|String|Error)|BufWrite$|Pool)`), selV1Copies}}},
		{"C28", []Part{{"v1", str, selAll}, {"v2", str, selAll}}},
	}
	m := map[string]*Prop{}
	for _, p := range ps {
		m[p.ID] = p
	}
	return m
}
