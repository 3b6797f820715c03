// Command refac rewrites a tree in ways that keep its behaviour (development aid: the checks must stay quiet on the result).
// usage: refac -dir /repo -t TRANSFORM -o OUTDIR [-mod m -rem r] [-file substr]: writes the changed files below OUTDIR and prints "rel=path,...".
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	p      *packages.Package
	f      *ast.File
	src    []byte
	rel    string
	base   int
	edits  []edit
	extra  []string // declarations to append
	n      int
	multi  bool // the edits of one site belong together
	always bool
}

func (f *file) site() { f.multi = true; f.n++ }

func (f *file) off(p token.Pos) int { return int(p) - f.base }
func (f *file) text(n ast.Node) string {
	return string(f.src[f.off(n.Pos()):f.off(n.End())])
}
func (f *file) span(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }

var modN, remN int

// put records an edit if it does not overlap one made already.
func (f *file) put(from, to token.Pos, text string) bool {
	a, b := f.off(from), f.off(to)
	for _, e := range f.edits {
		if a < e.to && e.from < b {
			return false
		}
	}
	if !f.multi {
		f.n++
	}
	if modN > 0 && !f.always && f.n%modN != remN {
		return false
	}
	f.edits = append(f.edits, edit{a, b, text})
	return true
}

func (f *file) apply() []byte {
	sort.Slice(f.edits, func(i, j int) bool { return f.edits[i].from < f.edits[j].from })
	var out bytes.Buffer
	at := 0
	for _, e := range f.edits {
		out.Write(f.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(f.src[at:])
	for _, x := range f.extra {
		out.WriteString("\n" + x + "\n")
	}
	return out.Bytes()
}

func (f *file) qual(p *types.Package) string {
	if p == f.p.Types {
		return ""
	}
	for _, im := range f.f.Imports {
		if strings.Trim(im.Path.Value, `"`) == p.Path() {
			if im.Name != nil {
				return im.Name.Name
			}
			return p.Name()
		}
	}
	return "\x00"
}

// typ is the text of a type in this file, "" if it cannot be written here.
func (f *file) typ(t types.Type) string {
	s := types.TypeString(t, f.qual)
	if strings.Contains(s, "\x00") {
		return ""
	}
	return s
}

func (f *file) typeOf(e ast.Expr) types.Type { return f.p.TypesInfo.TypeOf(e) }

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); is && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func (f *file) inner(b *ast.BlockStmt) string { return f.span(b.Lbrace+1, b.Rbrace) }

// has reports whether n holds a node for which pred holds, not looking into function literals if skip.
func has(n ast.Node, skip bool, pred func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found || x == nil {
			return false
		}
		if _, ok := x.(*ast.FuncLit); ok && skip && x != n {
			return false
		}
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

func branches(n ast.Node) bool {
	return has(n, true, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.LabeledStmt:
			return true
		}
		return false
	})
}

func returns(n ast.Node) bool {
	return has(n, true, func(x ast.Node) bool { _, ok := x.(*ast.ReturnStmt); return ok })
}
func defersIn(n ast.Node) bool {
	return has(n, true, func(x ast.Node) bool { _, ok := x.(*ast.DeferStmt); return ok })
}

type walker struct {
	f    *file
	fd   *ast.FuncDecl
	path []ast.Node
	cnt  int
}

func (f *file) funcs(fn func(fd *ast.FuncDecl)) {
	for _, d := range f.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fn(fd)
		}
	}
}

// each visits statements with their parents.
func (f *file) each(fn func(n ast.Node, path []ast.Node)) {
	f.funcs(func(fd *ast.FuncDecl) {
		var path []ast.Node
		ast.Inspect(fd, func(n ast.Node) bool {
			if n == nil {
				path = path[:len(path)-1]
				return true
			}
			fn(n, path)
			path = append(path, n)
			return true
		})
	})
}

func inElse(n ast.Node, path []ast.Node) bool {
	if len(path) == 0 {
		return false
	}
	p, ok := path[len(path)-1].(*ast.IfStmt)
	return ok && p.Else == n
}

func inList(path []ast.Node, n ast.Node) bool {
	if len(path) == 0 {
		return false
	}
	switch p := path[len(path)-1].(type) {
	case *ast.CommClause:
		return p.Comm != n
	case *ast.BlockStmt, *ast.CaseClause:
		return true
	}
	return false
}

// free are the variables of the function (parameters and locals) the node uses but does not define.
func (f *file) free(from, to token.Pos, nodes []ast.Node) (vars []*types.Var, written map[*types.Var]bool, bad bool) {
	written = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				// through a pointer it is not the variable that changes
				if t := f.typeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := f.typeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return nil
					}
				}
				e = x.X
			case *ast.Ident:
				v, _ := f.p.TypesInfo.ObjectOf(x).(*types.Var)
				return v
			default:
				return nil
			}
		}
	}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Ident:
				v, ok := f.p.TypesInfo.ObjectOf(x).(*types.Var)
				if ok && !v.IsField() && v.Parent() != nil && v.Parent() != f.p.Types.Scope() && v.Parent() != types.Universe && v.Pkg() == f.p.Types {
					if (v.Pos() < from || v.Pos() >= to) && !seen[v] {
						seen[v] = true
						vars = append(vars, v)
					}
				}
				if k, ok := f.p.TypesInfo.ObjectOf(x).(*types.Const); ok && k.Parent() != nil && k.Parent() != f.p.Types.Scope() && k.Pkg() == f.p.Types {
					bad = true
				}
				if tn, ok := f.p.TypesInfo.ObjectOf(x).(*types.TypeName); ok && tn.Parent() != nil && tn.Parent() != f.p.Types.Scope() && tn.Pkg() == f.p.Types {
					bad = true
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if v := root(l); v != nil {
						written[v] = true
					}
				}
			case *ast.IncDecStmt:
				if v := root(x.X); v != nil {
					written[v] = true
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						if v := root(l); v != nil {
							written[v] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if v := root(x.X); v != nil {
						written[v] = true
					}
				}
			case *ast.CallExpr:
				// a method with a pointer receiver takes the address
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel := f.p.TypesInfo.Selections[s]; sel != nil {
						if fn, ok := sel.Obj().(*types.Func); ok {
							if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
								_, rp := sig.Recv().Type().(*types.Pointer)
								_, xp := f.typeOf(s.X).Underlying().(*types.Pointer)
								if rp && !xp {
									if v := root(s.X); v != nil {
										written[v] = true
									}
								}
							}
						}
					}
				}
			}
			return true
		})
	}
	return
}

func (f *file) params(vars []*types.Var) (decl, args string, ok bool) {
	var d, a []string
	for _, v := range vars {
		if v.Name() == "_" {
			continue
		}
		t := f.typ(v.Type())
		if t == "" {
			return "", "", false
		}
		d = append(d, v.Name()+" "+t)
		a = append(a, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(a, ", "), true
}

var helperN int

func (f *file) helper() string {
	helperN++
	return fmt.Sprintf("zh%d_%d%s", helperN, os.Getpid(), strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r
		}
		return -1
	}, filepath.Base(f.rel)))
}

func simpleIf(s *ast.IfStmt) bool { return s.Init == nil }

func main() {
	dir := flag.String("dir", "/repo", "")
	tr := flag.String("t", "", "")
	out := flag.String("o", "", "")
	only := flag.String("file", "", "")
	flag.IntVar(&modN, "mod", 0, "")
	flag.IntVar(&remN, "rem", 0, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var ns []string
		for k := range transforms {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	fset := token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: *dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	t := transforms[*tr]
	if t == nil {
		panic("no transform " + *tr)
	}
	var outs []string
	for _, p := range ps {
		for _, sf := range p.Syntax {
			name := fset.Position(sf.Pos()).Filename
			rel, _ := filepath.Rel(*dir, name)
			if strings.HasPrefix(rel, "tests") || strings.HasSuffix(rel, ".pb.go") || *only != "" && !strings.Contains(rel, *only) {
				continue
			}
			src, _ := os.ReadFile(name)
			f := &file{p: p, f: sf, src: src, rel: rel, base: fset.File(sf.Pos()).Base()}
			t(f)
			if len(f.edits) == 0 {
				continue
			}
			b := f.apply()
			if g, err := format.Source(b); err == nil {
				b = g
			} else {
				fmt.Fprintln(os.Stderr, rel, err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			os.MkdirAll(*out, 0o755)
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				panic(err)
			}
			outs = append(outs, rel+"="+dst)
			fmt.Fprintln(os.Stderr, rel, len(f.edits))
		}
	}
	fmt.Println(strings.Join(outs, ","))
}
