// The C header and the functions it declares: a contract on a function of the
// C bindings says something about C callers only if the header declares what
// the function is. Both are read on every run: the header by clang, the
// functions from MIR.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var headerFiles = []string{"polyglot.h", "polyglot.h.in"}

// desc.cc: types as their binary interface, pointers with what they point to
const headerDesc = `
#include <cstdio>
#include <string>
#include <type_traits>
template<class T, class = void> struct Whole { static constexpr bool v = false; };
template<class T> struct Whole<T, decltype(void(sizeof(T)))> { static constexpr bool v = true; };
template<class T> std::string d() {
	using U = typename std::remove_cv<T>::type;
	if constexpr (std::is_void<U>::value) return "void";
	else if constexpr (std::is_pointer<U>::value) return "*" + d<typename std::remove_pointer<U>::type>();
	else if constexpr (std::is_same<U, bool>::value) return "bool";
	else if constexpr (std::is_enum<U>::value) return d<typename std::underlying_type<U>::type>();
	else if constexpr (std::is_floating_point<U>::value) return "f" + std::to_string(8 * sizeof(U));
	else if constexpr (std::is_integral<U>::value) return (std::is_signed<U>::value ? "i" : "u") + std::to_string(8 * sizeof(U));
	else if constexpr (Whole<U>::v) return "struct" + std::to_string(sizeof(U));
	else { std::string s = __PRETTY_FUNCTION__; auto i = s.find("T = ") + 4; return "opaque:" + s.substr(i, s.find_first_of(";]", i) - i); }
}
template<class F> struct S;
template<class R, class... A> struct S<R (*)(A...)> {
	static void p(const char *n) {
		printf("%s %s", n, d<R>().c_str());
		(printf(" %s", d<A>().c_str()), ...);
		printf("\n");
	}
};
`

// rdesc: a Rust type in the same notation; opaque pointees by their own name
func (p *MProg) rdesc(t int) string {
	ty := p.Types[t]
	switch ty.K {
	case "tuple":
		if len(ty.Fields) == 0 {
			return "void"
		}
	case "bool":
		return "bool"
	case "int", "uint", "float":
		s := "u"
		if ty.S {
			s = "i"
		}
		if ty.K == "float" {
			s = "f"
		}
		return fmt.Sprint(s, ty.Size*8)
	case "ptr":
		return "*" + p.rdesc(ty.Elem)
	case "enum":
		if ty.Size == 1 || ty.Size == 2 || ty.Size == 4 {
			return fmt.Sprint("u", ty.Size*8)
		}
	}
	return fmt.Sprintf("type%d:%s", ty.Size, strings.ReplaceAll(ty.N, " ", ""))
}

// abi: does the C type c declare what the Rust type r is? Handles correspond
// one to one.
func abi(c, r string, handles map[string]string) bool {
	cp, rp := strings.HasPrefix(c, "*"), strings.HasPrefix(r, "*")
	if strings.HasPrefix(r, "type8:") && cp {
		return true // an optional reference or box, say
	}
	if cp != rp {
		return false
	}
	if !cp {
		return c == r
	}
	c, r = c[1:], r[1:]
	switch {
	case c == "void" || r == "void":
		return true
	case strings.HasPrefix(c, "*"):
		return abi(c, r, handles)
	case strings.HasPrefix(c, "opaque:"):
		if old, ok := handles[c]; ok {
			return old == r
		}
		for _, o := range handles {
			if o == r {
				return false
			}
		}
		handles[c] = r
		return strings.HasPrefix(r, "type")
	case strings.HasPrefix(c, "struct"):
		return strings.HasPrefix(r, "type"+c[6:]+":")
	case strings.HasPrefix(r, "type"):
		return false
	}
	// what is pointed to: bytes are bytes, signed or not
	return strings.TrimLeft(c, "iu") == strings.TrimLeft(r, "iu")
}

var headerStatus = []string{"PASS", "FAILURE", "NULL_PTR"}

// headerPart: the declarations of the header that the contracts rest on:
// the status values ("status"), or types of functions and of the byte buffer
// ("prototypes").
func (b *RustBuild) headerPart(id, what string) (outs []*outcome) {
	dir, err := os.MkdirTemp("", "govc-h")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	type fn struct{ name, sym, sig string }
	fns := map[string]fn{}
	for _, i := range b.prog.Insts {
		n := i.N[strings.LastIndex(i.N, ":")+1:]
		if !strings.HasPrefix(n, "polyglot_") || !strings.HasPrefix(i.N, "c_bindings::") || len(i.Locals) == 0 {
			continue
		}
		sig := b.prog.rdesc(i.Locals[0])
		for k := 1; k <= i.Args; k++ {
			sig += " " + b.prog.rdesc(i.Locals[k])
		}
		fns[n] = fn{n, i.Sym, sig}
	}
	for _, file := range headerFiles {
		h, err := os.ReadFile(filepath.Join(repoDir(), file))
		if err != nil {
			continue
		}
		text := regexp.MustCompile(`@\w+@`).ReplaceAllString(string(h), "0")
		if os.WriteFile(filepath.Join(dir, "polyglot.h"), []byte(text), 0o644) != nil {
			continue
		}
		for _, def := range []string{"", "-DPOLYGLOT_USE_C_ENUMS"} {
			o := &outcome{group: "header", name: file + " " + what + strings.TrimSuffix(" "+strings.TrimPrefix(def, "-D"), " "), rung: "declarations"}
			r := &Result{Harness: o.name, Obs: map[Oblig]bool{}, Covers: map[string]bool{what: true}}
			o.res = r
			outs = append(outs, o)
			t0 := time.Now()
			run := func(src string) (string, error) {
				cf, bin := filepath.Join(dir, "t.cc"), filepath.Join(dir, "t")
				if err := os.WriteFile(cf, []byte("#include \"polyglot.h\"\n"+src), 0o644); err != nil {
					return "", err
				}
				args := []string{"-std=c++17", "-w", cf, "-o", bin}
				if def != "" {
					args = append(args, def)
				}
				if out, err := exec.Command("clang++", args...).CombinedOutput(); err != nil {
					return string(out), err
				}
				out, err := exec.Command(bin).Output()
				return string(out), err
			}
			oblige := func(label, site string, ok bool, detail string) {
				r.VCs++
				r.Obs[Oblig{label, site}] = ok
				if !ok {
					r.Fails = append(r.Fails, Failure{Label: label, Site: site})
					o.violate = append(o.violate, violation{Property: id, Group: "header", Harness: o.name, Obligation: label, Site: site,
						Verifier: "clang: " + detail, Replayed: true, Observed: &NFind{Label: label, Site: site, Detail: detail}})
				}
			}
			src := headerDesc
			if what == "status" {
				src += "int main() {\n"
				for _, n := range headerStatus {
					src += fmt.Sprintf("\tprintf(\"%s %%d\\n\", (int)POLYGLOT_STATUS_%s);\n", n, n)
				}
				src += "\tprintf(\"size %d\\n\", (int)sizeof(polyglot_status_t));\n}\n"
			} else {
				// taken up only where declared
				var names []string
				for n := range fns {
					if regexp.MustCompile(`\b` + n + `\b`).MatchString(text) {
						names = append(names, n)
					} else {
						oblige("header/declared", file+" "+n, false, n+" is not declared")
					}
				}
				sort.Strings(names)
				src += "#include <cstddef>\nint main() {\n"
				for _, n := range names {
					src += fmt.Sprintf("\tS<decltype(&%s)>::p(\"%s\");\n", n, n)
				}
				src += "\tprintf(\"polyglot_buffer_t %d %d %d %s %s\\n\", (int)sizeof(polyglot_buffer_t), (int)offsetof(polyglot_buffer_t, data), (int)offsetof(polyglot_buffer_t, length), d<decltype(polyglot_buffer_t::data)>().c_str(), d<decltype(polyglot_buffer_t::length)>().c_str());\n}\n"
			}
			out, err := run(src)
			if err != nil {
				r.Unsup = append(r.Unsup, "clang++: "+out)
				o.bounded = &NRes{}
				continue
			}
			handles := map[string]string{}
			for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
				name, c, _ := strings.Cut(l, " ")
				if what == "status" {
					want := "1"
					for i, n := range headerStatus {
						if n == name {
							want = fmt.Sprint(i)
						}
					}
					oblige("header/status/"+name, file, c == want, fmt.Sprintf("POLYGLOT_STATUS_%s is %s in %s; the library reports %s", name, c, file, want))
					continue
				}
				if name == "polyglot_buffer_t" {
					oblige("header/buffer", file, c == "16 0 8 *u8 u32", "polyglot_buffer_t (size, offsets and types of data and length) is "+c+" in "+file+"; the library's is 16 0 8 *u8 u32")
					continue
				}
				f := fns[name]
				oblige("header/symbol", file+" "+name, f.sym == name, file+" declares "+name+", the library defines "+f.sym)
				cs, rs := strings.Fields(c), strings.Split(f.sig, " ")
				ok := len(cs) == len(rs)
				for i := 0; ok && i < len(cs); i++ {
					ok = abi(cs[i], rs[i], handles)
				}
				oblige("header/prototype", file+" "+name, ok, fmt.Sprintf("%s declares %s as (result, parameters) %s; the library defines %s", file, name, c, f.sig))
			}
			r.Paths++
			r.SolverTime = time.Since(t0)
		}
	}
	return outs
}
