package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loader struct {
	dir     string
	prog    *ssa.Program
	target  *ssa.Package
	pkg     *packages.Package
	ghost   map[string]bool // ghost file names
	Dropped []string
	initPkg string // a dependency whose package-level variables are initialised

	Contracts map[string]string // callee full name -> spec function name
	Harness   map[string]*HarnessInfo
}

type HarnessInfo struct {
	Name     string
	Props    []string
	Contract string   // callee this harness verifies, for contract harnesses
	Of       []string // functions the harness puts under contract
	Bounded  string
}

// Load loads the package in dir together with the ghost files.
func Load(dir string, ghostFiles []string) (*Loader, error) {
	ld := &Loader{dir: dir, ghost: map[string]bool{}}
	files := map[string][]byte{}
	for _, g := range ghostFiles {
		b, err := os.ReadFile(g)
		if err != nil {
			return nil, err
		}
		files[filepath.Join(dir, "zz_verif_"+filepath.Base(g))] = b
	}
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: files, Env: os.Environ(), Tests: false}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("%d packages in %s", len(pkgs), dir)
		}
		p := pkgs[0]
		bad := map[string]bool{}
		var first string
		for _, e := range p.Errors {
			f := strings.SplitN(e.Pos, ":", 2)[0]
			if _, ok := files[f]; ok && strings.Contains(f, "contract_") {
				bad[f] = true
			} else if first == "" {
				first = e.Error()
			}
		}
		if len(bad) > 0 && round < 5 {
			// an internal function was renamed or changed its signature: its own
			// contract no longer applies; drop the declarations that mention it
			for f := range bad {
				nb, dropped := dropBad(p.Fset, f, files[f], p.Errors)
				files[f] = nb
				ld.Dropped = append(ld.Dropped, dropped...)
			}
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s does not type-check with the ghost code: %v", dir, p.Errors[0])
		}
		prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		ld.prog = prog
		ld.pkg = p
		ld.target = ssapkgs[0]
		ld.target.Build()
		for f := range files {
			ld.ghost[f] = true
		}
		ld.scanDirectives(files)
		return ld, nil
	}
}

// dropBad removes the top-level declarations of src containing type errors.
func dropBad(_ *token.FileSet, name string, src []byte, errs []packages.Error) ([]byte, []string) {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return []byte("package polyglot\n"), []string{name}
	}
	lines := map[int]bool{}
	for _, e := range errs {
		parts := strings.Split(e.Pos, ":")
		if len(parts) >= 2 && parts[0] == name {
			var l int
			fmt.Sscan(parts[1], &l)
			lines[l] = true
		}
	}
	out := append([]byte{}, src...)
	var dropped []string
	for _, d := range af.Decls {
		s, e := fs.Position(d.Pos()), fs.Position(d.End())
		hit := false
		for l := range lines {
			if l >= s.Line && l <= e.Line {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if fd, ok := d.(*ast.FuncDecl); ok {
			dropped = append(dropped, fd.Name.Name)
			st := s.Offset
			if fd.Doc != nil {
				st = fs.Position(fd.Doc.Pos()).Offset
			}
			for i := st; i < e.Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
		}
	}
	return out, dropped
}

var dirRe = regexp.MustCompile(`^//verif:(\w+)\s*(.*)$`)

func (ld *Loader) scanDirectives(files map[string][]byte) {
	ld.Contracts = map[string]string{}
	ld.Harness = map[string]*HarnessInfo{}
	for _, af := range ld.pkg.Syntax {
		fn := ld.pkg.Fset.Position(af.Pos()).Filename
		if !ld.ghost[fn] {
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			for _, c := range fd.Doc.List {
				m := dirRe.FindStringSubmatch(c.Text)
				if m == nil {
					continue
				}
				args := strings.Fields(m[2])
				h := func() *HarnessInfo {
					x := ld.Harness[fd.Name.Name]
					if x == nil {
						x = &HarnessInfo{Name: fd.Name.Name}
						ld.Harness[fd.Name.Name] = x
					}
					return x
				}
				switch m[1] {
				case "harness": // properties decided by this harness
					h().Props = args
				case "of": // functions put under contract
					h().Of = args
				case "verifies": // internal contract harness: callee
					h().Contract = ld.qualify(args[0])
				case "bounded":
					h().Bounded = m[2]
				case "spec": // this function is the use-form of the contract of callee
					ld.Contracts[ld.qualify(args[0])] = fd.Name.Name
				}
			}
		}
	}
}

// qualify turns "(*Buffer).Grow" or "encodeNil" into the ssa full name.
func (ld *Loader) qualify(s string) string {
	p := ld.pkg.PkgPath
	if strings.HasPrefix(s, "(*") {
		return "(*" + p + "." + s[2:]
	}
	if strings.HasPrefix(s, "(") {
		return "(" + p + "." + s[1:]
	}
	return p + "." + s
}

func (ld *Loader) isGhost(fn *ssa.Function) bool {
	return ld.ghost[ld.prog.Fset.Position(fn.Pos()).Filename]
}

func (ld *Loader) ensureBuilt(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
}

func (ld *Loader) initOK(g *ssa.Global) bool { return g.Pkg != nil && g.Pkg.Pkg.Path() == ld.initPkg }

var _ = types.Identical
