// rewrite copies packages of the repository into the tree of a simulation
// build.  It inserts scheduling points between statements, makes package
// state resettable between runs, scales down the capacities of package-level
// caches, and redirects imports to simulated implementations.  All edits are
// textual insertions, so line numbers stay those of the repository.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgConfig struct {
	Src      string            // directory in the repository
	Dst      string            // directory to write
	Yields   bool              // scheduling points between statements
	Reset    bool              // package state can be reset
	Shrink   bool              // capacities of package-level values can be scaled down
	Imports  map[string]string // import path -> replacement
	Package  string            // new package name
	Drop     []string          // files left out
	SkipFunc []string          // functions left out
	Alias    string            // name under which the reset is registered
}

type config struct {
	Simrt string
	Pkgs  []pkgConfig
}

type edit struct {
	off int // insert before this offset, replacing the bytes up to end
	end int
	seq int
	txt string
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	check(err)
	var c config
	check(json.Unmarshal(data, &c))
	for _, p := range c.Pkgs {
		rewrite(c, p)
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(3)
	}
}

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not loaded")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func buildable(src []byte) bool {
	for _, line := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(line, "//go:build ") && strings.Contains(line, "ignore") {
			return false
		}
		if strings.HasPrefix(line, "package ") {
			break
		}
	}
	return true
}

func rewrite(c config, p pkgConfig) {
	check(os.MkdirAll(p.Dst, 0o755))
	entries, err := os.ReadDir(p.Src)
	check(err)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	want := map[string]bool{}
	for _, e := range entries {
		n := e.Name()
		if e.IsDir() {
			continue
		}
		ext := filepath.Ext(n)
		if ext == ".c" || ext == ".h" || ext == ".s" || ext == ".cc" {
			b, err := os.ReadFile(filepath.Join(p.Src, n))
			check(err)
			put(filepath.Join(p.Dst, n), b)
			want[n] = true
			continue
		}
		if ext != ".go" || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "_mock.go") || strings.HasSuffix(n, "_mocks.go") || contains(p.Drop, n) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(p.Src, n))
		check(err)
		if !buildable(b) || strings.Contains(string(b), "\"go.uber.org/mock/gomock\"") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.Src, n), b, parser.ParseComments|parser.SkipObjectResolution)
		check(err)
		files = append(files, f)
		names = append(names, n)
		srcs[n] = b
		want[n] = true
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	if p.Reset || p.Shrink {
		tc := types.Config{Error: func(error) {}, Importer: fakeImporter{}, FakeImportC: true}
		_, _ = tc.Check(p.Src, fset, files, info)
	}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }

	// Package-level variables in initialisation order.
	initOf := map[types.Object]string{} // variable -> name of its reset function
	var order []string
	var zero []string
	tails := map[string]*strings.Builder{}
	edits := map[string][]edit{}
	seq := 0
	add := func(n string, o, e int, t string) {
		seq++
		edits[n] = append(edits[n], edit{o, e, seq, t})
	}
	k := 0
	for i, f := range files {
		n := names[i]
		src := srcs[n]
		tail := &strings.Builder{}
		tails[n] = tail
		usesSim := false
		// a text of an expression after the edits inside of it
		var shrunk []edit
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if p.Shrink {
					for _, x := range v.Values {
						ast.Inspect(x, func(nd ast.Node) bool {
							call, ok := nd.(*ast.CallExpr)
							if !ok {
								return true
							}
							for _, a := range call.Args {
								tv := info.Types[a]
								if tv.Value == nil || tv.Value.Kind() != constant.Int || tv.Type == nil {
									continue
								}
								val, exact := constant.Int64Val(tv.Value)
								b, isb := tv.Type.Underlying().(*types.Basic)
								if !exact || !isb || val < 1<<12 {
									continue
								}
								tn := b.Name()
								if strings.HasPrefix(tn, "untyped") {
									tn = "int"
								}
								shrunk = append(shrunk, edit{off(a.Pos()), off(a.End()), 0, fmt.Sprintf("%s(simrt.Size(int(%s)))", tn, src[off(a.Pos()):off(a.End())])})
								usesSim = true
							}
							return true
						})
					}
				}
				if !p.Reset {
					continue
				}
				text := func(x ast.Expr) string {
					a, b := off(x.Pos()), off(x.End())
					out := ""
					for _, e := range shrunk {
						if e.off >= a && e.end <= b {
							out += string(src[a:e.off]) + e.txt
							a = e.end
						}
					}
					return out + string(src[a:b])
				}
				var lhs []string
				blank := true
				for _, id := range v.Names {
					lhs = append(lhs, id.Name)
					if id.Name != "_" {
						blank = false
					}
				}
				if blank {
					continue
				}
				if len(v.Values) == 0 {
					t := string(src[off(v.Type.Pos()):off(v.Type.End())])
					name := fmt.Sprintf("simReset%d", k)
					k++
					fmt.Fprintf(tail, "\nfunc %s() {", name)
					for _, id := range lhs {
						if id != "_" {
							fmt.Fprintf(tail, " %s = *new(%s);", id, t)
						}
					}
					fmt.Fprintf(tail, " }\n")
					zero = append(zero, name)
					continue
				}
				if len(v.Values) == len(v.Names) {
					for j, id := range v.Names {
						if id.Name == "_" {
							continue
						}
						name := fmt.Sprintf("simReset%d", k)
						k++
						fmt.Fprintf(tail, "\nfunc %s() { %s = %s }\n", name, id.Name, text(v.Values[j]))
						if o := info.Defs[id]; o != nil {
							initOf[o] = name
						}
						order = append(order, name)
					}
				} else {
					name := fmt.Sprintf("simReset%d", k)
					k++
					fmt.Fprintf(tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), text(v.Values[0]))
					for _, id := range v.Names {
						if o := info.Defs[id]; o != nil {
							initOf[o] = name
						}
					}
					order = append(order, name)
				}
			}
		}
		for _, e := range shrunk {
			add(n, e.off, e.end, e.txt)
		}
		// Functions.
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" && p.Reset {
				name := fmt.Sprintf("simInit%d", k)
				k++
				add(n, off(fd.Name.Pos()), off(fd.Name.End()), name)
				fmt.Fprintf(tail, "\nfunc init() { %s() }\n", name)
				order = append(order, "\x00"+name)
			}
			if contains(p.SkipFunc, fd.Name.Name) {
				a := fd.Pos()
				add(n, off(a), off(fd.End()), strings.Repeat("\n", fset.Position(fd.End()).Line-fset.Position(a).Line))
				continue
			}
			if p.Yields && fd.Body != nil {
				ast.Inspect(fd.Body, func(nd ast.Node) bool {
					var list []ast.Stmt
					switch b := nd.(type) {
					case *ast.BlockStmt:
						list = b.List
					case *ast.CaseClause:
						list = b.Body
					case *ast.CommClause:
						list = b.Body
					default:
						return true
					}
					for _, s := range list {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
							continue
						}
						add(n, off(s.Pos()), off(s.Pos()), "simrt.Y(); ")
						usesSim = true
					}
					return true
				})
			}
		}
		if p.Reset && tail.Len() > 0 {
			usesSim = true
		}
		if p.Package != "" {
			add(n, off(f.Name.Pos()), off(f.Name.End()), p.Package)
		}
		if usesSim {
			add(n, off(f.Name.End()), off(f.Name.End()), "; import simrt \""+c.Simrt+"\"; var _ = simrt.Y")
			// imports must precede declarations: the marker goes to the end
			es := edits[n]
			es[len(es)-1].txt = "; import simrt \"" + c.Simrt + "\""
			fmt.Fprintf(tail, "\nvar _ = simrt.Y\n")
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if r, ok := p.Imports[path]; ok {
				t := strconv.Quote(r)
				if im.Name == nil {
					t = filepath.Base(path) + " " + t
					if b := filepath.Base(path); len(b) > 1 && b[0] == 'v' && b[1] >= '0' && b[1] <= '9' {
						t = filepath.Base(filepath.Dir(path)) + " " + strconv.Quote(r)
					}
				}
				add(n, off(im.Path.Pos()), off(im.Path.End()), t)
				if path == "C" { // a stand-in exports everything
					fmt.Fprintf(tail, "\nvar _ = C.EVMC_SUCCESS\n")
					ast.Inspect(f, func(nd ast.Node) bool {
						if se, ok := nd.(*ast.SelectorExpr); ok {
							if x, ok := se.X.(*ast.Ident); ok && x.Name == "C" && se.Sel.Name[0] >= 'a' {
								add(n, off(se.Sel.Pos()), off(se.Sel.End()), strings.ToUpper(se.Sel.Name[:1])+se.Sel.Name[1:])
							}
						}
						return true
					})
				}
			}
		}
	}
	if p.Reset {
		// variables with an initialiser in the order the compiler would use
		var seqNames []string
		seen := map[string]bool{}
		for _, in := range info.InitOrder {
			for _, o := range in.Lhs {
				if name, ok := initOf[o]; ok && !seen[name] {
					seen[name] = true
					seqNames = append(seqNames, name)
				}
			}
		}
		var inits []string
		for _, name := range order {
			if strings.HasPrefix(name, "\x00") {
				inits = append(inits, name[1:])
			} else if !seen[name] {
				seen[name] = true
				seqNames = append(seqNames, name)
			}
		}
		all := append(append(zero, seqNames...), inits...)
		b := &strings.Builder{}
		pn := files[0].Name.Name
		if p.Package != "" {
			pn = p.Package
		}
		fmt.Fprintf(b, "package %s\n\nimport simrt %q\n\nfunc init() {\n\tsimrt.OnReset(%q, func() {\n", pn, c.Simrt, p.Alias)
		for _, a := range all {
			fmt.Fprintf(b, "\t\t%s()\n", a)
		}
		fmt.Fprintf(b, "\t})\n}\n")
		put(filepath.Join(p.Dst, "zz_sim_reset.go"), []byte(b.String()))
		want["zz_sim_reset.go"] = true
	}
	for _, n := range names {
		es := edits[n]
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].off != es[j].off {
				return es[i].off < es[j].off
			}
			return es[i].seq < es[j].seq
		})
		src := srcs[n]
		var out strings.Builder
		at := 0
		for _, e := range es {
			if e.off < at {
				continue // inside a replaced region
			}
			out.Write(src[at:e.off])
			out.WriteString(e.txt)
			at = e.end
		}
		out.Write(src[at:])
		out.WriteString(tails[n].String())
		put(filepath.Join(p.Dst, n), []byte(out.String()))
	}
	old, _ := os.ReadDir(p.Dst)
	for _, e := range old {
		if !e.IsDir() && !want[e.Name()] && !strings.HasPrefix(e.Name(), "zz_h_") {
			check(os.Remove(filepath.Join(p.Dst, e.Name())))
		}
	}
}

func put(path string, data []byte) {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(data) {
		return
	}
	check(os.WriteFile(path, data, 0o644))
}
