// Command automut writes small mutants of a tree, one file each, that still type-check (development aid: survivors of
// all checks are looked at by hand).
// usage: automut -dir /repo -o OUT: writes OUT/N.go and prints "N<TAB>file<TAB>line<TAB>operator<TAB>text".
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type imp map[string]*types.Package

func (m imp) Import(p string) (*types.Package, error) {
	if x := m[p]; x != nil {
		return x, nil
	}
	return nil, fmt.Errorf("no %s", p)
}

func main() {
	dir := flag.String("dir", "/repo", "")
	out := flag.String("o", "", "")
	sub := flag.String("file", "", "")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	all := imp{"unsafe": types.Unsafe}
	packages.Visit(ps, nil, func(p *packages.Package) { all[p.PkgPath] = p.Types })
	n := 0
	seen := map[string]bool{}
	for _, p := range ps {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(*dir, name)
			if seen[name] || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") || strings.HasPrefix(rel, "tests") || strings.HasPrefix(rel, "example") || strings.HasPrefix(rel, "..") || !strings.Contains(rel, *sub) {
				continue
			}
			seen[name] = true
			src, _ := os.ReadFile(name)
			base := p.Fset.File(f.Pos()).Base()
			off := func(x token.Pos) int { return int(x) - base }
			text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
			emit := func(at token.Pos, op string, a, b token.Pos, repl string) {
				mut := string(src[:off(a)]) + repl + string(src[off(b):])
				// type-check
				fset := token.NewFileSet()
				nf, err := parser.ParseFile(fset, name, mut, parser.SkipObjectResolution)
				if err != nil {
					return
				}
				files := []*ast.File{nf}
				for _, g := range p.Syntax {
					if g != f {
						gn := p.Fset.Position(g.Pos()).Filename
						gf, err := parser.ParseFile(fset, gn, nil, parser.SkipObjectResolution)
						if err != nil {
							return
						}
						files = append(files, gf)
					}
				}
				bad := false
				tc := types.Config{Importer: all, Error: func(error) { bad = true }}
				tc.Check(p.PkgPath, fset, files, nil)
				if bad {
					return
				}
				n++
				os.WriteFile(fmt.Sprintf("%s/%d.go", *out, n), []byte(mut), 0o644)
				old := strings.Join(strings.Fields(string(src[off(a):off(b)])), " ")
				fmt.Printf("%d\t%s\t%d\t%s\t%.90s => %.60s\n", n, rel, p.Fset.Position(at).Line, op, old, strings.Join(strings.Fields(repl), " "))
			}
			isLog := func(e ast.Expr) bool {
				c, ok := e.(*ast.CallExpr)
				if !ok {
					return false
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					return false
				}
				x, ok := s.X.(*ast.Ident)
				return ok && (x.Name == "log" || x.Name == "fmt")
			}
			var errRes []bool // of the enclosing functions: last result is an error
			var walk func(x ast.Node) bool
			walk = func(x ast.Node) bool {
				switch s := x.(type) {
				case *ast.FuncDecl:
					if s.Body == nil {
						return false
					}
					errRes = append(errRes, endsErr(p.TypesInfo, s.Type))
					ast.Inspect(s.Body, walk)
					errRes = errRes[:len(errRes)-1]
					return false
				case *ast.FuncLit:
					errRes = append(errRes, endsErr(p.TypesInfo, s.Type))
					ast.Inspect(s.Body, walk)
					errRes = errRes[:len(errRes)-1]
					return false
				case *ast.ExprStmt:
					if !isLog(s.X) {
						emit(s.Pos(), "del", s.Pos(), s.End(), "")
					}
				case *ast.IncDecStmt, *ast.SendStmt:
					emit(s.Pos(), "del", s.Pos(), s.End(), "")
				case *ast.DeferStmt:
					emit(s.Pos(), "del", s.Pos(), s.End(), "")
					emit(s.Pos(), "undefer", s.Pos(), s.Call.Pos(), "")
				case *ast.GoStmt:
					emit(s.Pos(), "del", s.Pos(), s.End(), "")
					emit(s.Pos(), "ungo", s.Pos(), s.Call.Pos(), "")
				case *ast.AssignStmt:
					if s.Tok == token.DEFINE {
						// keep the variables used
						return true
					}
					emit(s.Pos(), "del", s.Pos(), s.End(), "")
					if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
						// neutralised but the value still used
						emit(s.Pos(), "blank", s.Lhs[0].Pos(), s.Lhs[0].End(), "_")
					}
				case *ast.IfStmt:
					emit(s.Pos(), "neg", s.Cond.Pos(), s.Cond.End(), "!("+text(s.Cond)+")")
					emit(s.Pos(), "never", s.Cond.Pos(), s.Cond.End(), "false && ("+text(s.Cond)+")")
					emit(s.Pos(), "always", s.Cond.Pos(), s.Cond.End(), "true || ("+text(s.Cond)+")")
				case *ast.ForStmt:
					if s.Cond != nil {
						emit(s.Pos(), "never", s.Cond.Pos(), s.Cond.End(), "false && ("+text(s.Cond)+")")
						emit(s.Pos(), "break", s.Body.Rbrace, s.Body.Rbrace, "\nbreak\n")
					}
				case *ast.RangeStmt:
					emit(s.Pos(), "break", s.Body.Rbrace, s.Body.Rbrace, "\nbreak\n")
				case *ast.BinaryExpr:
					switch s.Op {
					case token.LAND, token.LOR:
						emit(s.Pos(), "left", s.Pos(), s.End(), text(s.X))
						emit(s.Pos(), "right", s.Pos(), s.End(), text(s.Y))
					case token.LSS, token.GTR, token.LEQ, token.GEQ, token.ADD, token.SUB, token.MUL, token.QUO:
						m := map[token.Token]string{token.LSS: "<=", token.GTR: ">=", token.LEQ: "<", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*"}
						emit(s.Pos(), "op", s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), m[s.Op])
					}
				case *ast.ReturnStmt:
					if k := len(s.Results); k > 0 && errRes[len(errRes)-1] {
						l := s.Results[k-1]
						if id, ok := l.(*ast.Ident); !ok || id.Name != "nil" {
							if id, ok := l.(*ast.Ident); ok {
								emit(s.Pos(), "noerr", l.Pos(), l.End(), "func() error { _ = "+id.Name+"; return nil }()")
							} else {
								emit(s.Pos(), "noerr", l.Pos(), l.End(), "nil")
							}
						}
					}
					if len(s.Results) == 0 {
						emit(s.Pos(), "del", s.Pos(), s.End(), "")
					}
				case *ast.BranchStmt:
					if s.Label == nil {
						emit(s.Pos(), "del", s.Pos(), s.End(), "")
						if s.Tok == token.BREAK {
							emit(s.Pos(), "swap", s.Pos(), s.End(), "continue")
						}
						if s.Tok == token.CONTINUE {
							emit(s.Pos(), "swap", s.Pos(), s.End(), "break")
						}
					}
				case *ast.BasicLit:
					if s.Kind == token.INT {
						if v, err := strconv.Atoi(s.Value); err == nil {
							emit(s.Pos(), "int", s.Pos(), s.End(), strconv.Itoa(v+1))
						}
					}
					if s.Kind == token.STRING && len(s.Value) > 2 {
						emit(s.Pos(), "str", s.Pos(), s.End(), s.Value[:len(s.Value)-1]+"x"+s.Value[len(s.Value)-1:])
					}
				case *ast.Ident:
					if o := p.TypesInfo.Uses[s]; o != nil && o.Pkg() == nil && (s.Name == "true" || s.Name == "false") {
						emit(s.Pos(), "bool", s.Pos(), s.End(), map[string]string{"true": "false", "false": "true"}[s.Name])
					}
				case *ast.KeyValueExpr:
					if _, ok := s.Key.(*ast.Ident); ok {
						end := s.End()
						for off(end) < len(src) && (src[off(end)] == ' ' || src[off(end)] == ',') {
							end++
						}
						emit(s.Pos(), "nokey", s.Pos(), end, "")
					}
				case *ast.CallExpr:
					if isLog(s) {
						return false
					}
					// swap neighbours of one type
					for i := 0; i+1 < len(s.Args); i++ {
						a, b := p.TypesInfo.TypeOf(s.Args[i]), p.TypesInfo.TypeOf(s.Args[i+1])
						if a != nil && b != nil && types.Identical(a, b) && text(s.Args[i]) != text(s.Args[i+1]) {
							emit(s.Pos(), "args", s.Args[i].Pos(), s.Args[i+1].End(), text(s.Args[i+1])+", "+text(s.Args[i]))
						}
					}
				case *ast.CaseClause:
					if len(s.Body) > 0 {
						emit(s.Pos(), "nocase", s.Body[0].Pos(), s.Body[len(s.Body)-1].End(), "")
					}
				case *ast.GenDecl:
					if s.Tok == token.IMPORT {
						return false
					}
				case *ast.StructType, *ast.ImportSpec:
					return false
				}
				return true
			}
			ast.Inspect(f, walk)
			// two statements swapped
			ast.Inspect(f, func(x ast.Node) bool {
				b, ok := x.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for i := 0; i+1 < len(b.List); i++ {
					s, t := b.List[i], b.List[i+1]
					if e, ok := s.(*ast.ExprStmt); ok && isLog(e.X) {
						continue
					}
					if e, ok := t.(*ast.ExprStmt); ok && isLog(e.X) {
						continue
					}
					if _, ok := t.(*ast.ReturnStmt); ok {
						continue
					}
					emit(s.Pos(), "order", s.Pos(), t.End(), text(t)+"\n"+text(s))
				}
				return true
			})
		}
	}
	fmt.Fprintln(os.Stderr, n, "mutants")
}

func endsErr(info *types.Info, t *ast.FuncType) bool {
	if t.Results == nil || len(t.Results.List) == 0 {
		return false
	}
	l := t.Results.List[len(t.Results.List)-1]
	return types.Identical(info.TypeOf(l.Type), types.Universe.Lookup("error").Type())
}
