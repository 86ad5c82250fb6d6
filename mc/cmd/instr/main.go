// Command instr writes copies of the non-test files of a package in which every
// statement is preceded by a point where the scheduler of verif/mc/sched may go
// on with another goroutine, and a function that puts the package's variables
// back to what they were at the start; and adds them to an overlay.
//
//	instr DIR OUT overlay.json
//
// With code that starts goroutines, or uses channels, it leaves out the points.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, to int
	text   string
	seq    int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
}

func (f *file) put(at, to int, text string) {
	f.edits = append(f.edits, edit{at, to, text, len(f.edits)})
}

func (f *file) result() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].at < f.edits[j].at })
	var out []byte
	last := 0
	for _, e := range f.edits {
		out = append(out, f.src[last:e.at]...)
		out = append(out, e.text...)
		last = e.to
	}
	return append(out, f.src[last:]...)
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	dir, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	pkg, err := build.ImportDir(dir, 0)
	fatal(err)
	if len(pkg.CgoFiles) > 0 {
		fatal(fmt.Errorf("cgo files: %v", pkg.CgoFiles))
	}
	fset := token.NewFileSet()
	var files []*file
	for _, name := range pkg.GoFiles {
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		fatal(err)
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		fatal(err)
		files = append(files, &file{path: path, src: src, ast: a})
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	points := true
	for _, f := range files {
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
				points = false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					points = false
				}
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok {
					switch x.Name + "." + n.Sel.Name {
					case "sync.WaitGroup", "sync.Cond", "sync.NewCond", "time.Sleep", "time.After", "time.NewTimer":
						points = false
					}
				}
			}
			return true
		})
	}
	if !points {
		fmt.Fprintln(os.Stderr, "instr: the package has goroutines of its own; no points")
	}

	inits := 0
	for _, f := range files {
		n := len(f.edits)
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); empty {
					continue
				}
				f.put(off(s.Pos()), off(s.Pos()), "verifsched.Point();")
			}
		}
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				f.put(off(fd.Name.Pos()), off(fd.Name.End()), "verifInit"+strconv.Itoa(inits))
				inits++
				n++
			}
			if !points {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					if n != nil {
						clauses := false
						for _, s := range n.List {
							switch s.(type) {
							case *ast.CaseClause, *ast.CommClause:
								clauses = true
							}
						}
						if !clauses {
							list(n.List)
						}
					}
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
		if len(f.edits) > n {
			f.put(off(f.ast.Name.End()), off(f.ast.Name.End()), `; import verifsched "verif/mc/sched"`)
		}
		if points {
			for _, im := range f.ast.Imports {
				if im.Path.Value == `"sync"` {
					text := `"verif/mc/schedsync"`
					if im.Name == nil {
						text = "sync " + text
					}
					f.put(off(im.Path.Pos()), off(im.Path.End()), text)
				}
			}
		}
	}

	gen, imports := reset(files, fset, inits)
	var o struct{ Replace map[string]string }
	raw, err := os.ReadFile(overlay)
	if err == nil {
		fatal(json.Unmarshal(raw, &o))
	}
	if o.Replace == nil {
		o.Replace = map[string]string{}
	}
	for _, f := range files {
		p := filepath.Join(out, filepath.Base(f.path))
		fatal(os.WriteFile(p, f.result(), 0o644))
		abs, err := filepath.Abs(f.path)
		fatal(err)
		o.Replace[abs] = p
	}
	p := filepath.Join(out, "zz_verif_reset.go")
	fatal(os.WriteFile(p, []byte("package "+pkg.Name+"\n\n"+imports+gen), 0o644))
	abs, err := filepath.Abs(filepath.Join(dir, "zz_verif_reset.go"))
	fatal(err)
	o.Replace[abs] = p
	raw, err = json.Marshal(o)
	fatal(err)
	fatal(os.WriteFile(overlay, raw, 0o644))
}

type variable struct {
	names []string
	text  string // the assignment
	refs  map[string]bool
	file  *file
}

// reset writes a function that initialises the variables of the package, in
// the order of their dependencies, and runs its init functions.
func reset(files []*file, fset *token.FileSet, inits int) (gen, imports string) {
	refsOf := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				m[id.Name] = true // fields, methods and locals too: more than enough
			}
			return true
		})
		return m
	}
	funcs := map[string]map[string]bool{}
	var vars []*variable
	used := map[string]string{} // import path by name
	for _, f := range files {
		text := func(n ast.Node) string {
			return string(f.src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				m := refsOf(d.Body)
				if old := funcs[d.Name.Name]; old != nil {
					for k := range old {
						m[k] = true
					}
				}
				funcs[d.Name.Name] = m
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					need := map[string]bool{}
					add := func(names []*ast.Ident, rhs string, refs map[string]bool) {
						v := &variable{text: rhs, refs: refs, file: f}
						blank := true
						for _, id := range names {
							v.names = append(v.names, id.Name)
							blank = blank && id.Name == "_"
						}
						if blank {
							return
						}
						v.text = strings.Join(v.names, ", ") + " = " + rhs
						vars = append(vars, v)
						for k := range refs {
							need[k] = true
						}
					}
					switch {
					case len(vs.Values) == 0:
						for _, id := range vs.Names {
							add([]*ast.Ident{id}, "*new("+text(vs.Type)+")", refsOf(vs.Type))
						}
					case len(vs.Values) == len(vs.Names):
						for i, id := range vs.Names {
							add([]*ast.Ident{id}, text(vs.Values[i]), refsOf(vs.Values[i]))
						}
					default:
						add(vs.Names, text(vs.Values[0]), refsOf(vs.Values[0]))
					}
					for _, im := range f.ast.Imports {
						path, _ := strconv.Unquote(im.Path.Value)
						name := filepath.Base(path)
						if im.Name != nil {
							name = im.Name.Name
						}
						if need[name] {
							if path == "sync" && rewritten(f) {
								path = "verif/mc/schedsync"
							}
							used[name] = path
						}
					}
				}
			}
		}
	}
	owner := map[string]*variable{}
	for _, v := range vars {
		for _, n := range v.names {
			owner[n] = v
		}
	}
	state := map[*variable]int{}
	var order []*variable
	var visit func(v *variable)
	visit = func(v *variable) {
		if state[v] != 0 {
			return
		}
		state[v] = 1
		seen := map[string]bool{}
		var walk func(refs map[string]bool)
		walk = func(refs map[string]bool) {
			var names []string
			for k := range refs {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				if seen[k] {
					continue
				}
				seen[k] = true
				if w := owner[k]; w != nil && w != v {
					visit(w)
				}
				if funcs[k] != nil {
					walk(funcs[k])
				}
			}
		}
		walk(v.refs)
		order = append(order, v)
	}
	for _, v := range vars {
		visit(v)
	}
	var b strings.Builder
	b.WriteString("// VerifReset puts the variables of the package back to what they were at the start.\nfunc VerifReset() {\n")
	for _, v := range order {
		b.WriteString("\t" + v.text + "\n")
	}
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&b, "\tverifInit%d()\n", i)
	}
	b.WriteString("}\n")
	if inits > 0 {
		b.WriteString("\nfunc init() {\n")
		for i := 0; i < inits; i++ {
			fmt.Fprintf(&b, "\tverifInit%d()\n", i)
		}
		b.WriteString("}\n")
	}
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		imports += fmt.Sprintf("import %s %q\n", n, used[n])
	}
	return b.String(), imports + "\n"
}

func rewritten(f *file) bool {
	for _, e := range f.edits {
		if strings.Contains(e.text, "verif/mc/schedsync") {
			return true
		}
	}
	return false
}
