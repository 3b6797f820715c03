package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func lockType(t types.Type) string {
	if t == nil {
		return ""
	}
	s := strings.TrimPrefix(t.String(), "*")
	if s == "sync.Mutex" || s == "sync.RWMutex" {
		return s
	}
	return ""
}

// lockRecv: the call is a method of a mutex; its receiver's text (with the embedded field spelled out).
func (f *file) lockRecv(c *ast.CallExpr) (recv, typ, op string) {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) > 0 {
		return
	}
	switch s.Sel.Name {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return
	}
	sel := f.p.TypesInfo.Selections[s]
	if sel == nil {
		return
	}
	fn, ok := sel.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync" {
		return
	}
	recv = f.text(s.X)
	typ = lockType(f.typeOf(s.X))
	if len(sel.Index()) > 1 {
		t := sel.Recv()
		for _, i := range sel.Index()[:len(sel.Index())-1] {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || !st.Field(i).Exported() && st.Field(i).Pkg() != f.p.Types {
				return "", "", ""
			}
			recv += "." + st.Field(i).Name()
			t = st.Field(i).Type()
		}
		typ = lockType(t)
	}
	return recv, typ, s.Sel.Name
}

func init() {
	k := 0
	fresh := func() string { k++; return fmt.Sprintf("zk%d", k) }
	transforms["rlock-lock"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return
			}
			_, _, op := f.lockRecv(c)
			if strings.HasPrefix(op, "R") {
				s := c.Fun.(*ast.SelectorExpr)
				f.put(s.Sel.Pos(), s.Sel.End(), op[1:])
			}
		})
	}
	transforms["lock-func"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || !f.imports("sync") {
				return
			}
			r, t, op := f.lockRecv(c)
			if t == "" {
				return
			}
			if s := c.Fun.(*ast.SelectorExpr); len(f.p.TypesInfo.Selections[s].Index()) == 1 {
				if _, ok := f.typeOf(s.X).(*types.Pointer); ok {
					r = "(&*" + r + ")"
				}
			}
			amp := "&"
			if strings.HasPrefix(r, "(&") {
				amp = ""
			}
			h := f.helper()
			if f.put(c.Pos(), c.End(), h+"("+amp+r+")") {
				f.extra = append(f.extra, "func "+h+"(m *"+t+") { m."+op+"() }")
			}
		})
	}
	transforms["unembed-lock"] = func(f *file) {
		f.always = true
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.StructType:
				for _, fd := range x.Fields.List {
					if len(fd.Names) == 0 && lockType(f.typeOf(fd.Type)) != "" {
						f.put(fd.Pos(), fd.Pos(), "zmu ")
					}
				}
			case *ast.CallExpr:
				s, ok := x.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				sel := f.p.TypesInfo.Selections[s]
				if r, t, _ := f.lockRecv(x); t != "" && len(sel.Index()) == 2 && (strings.HasSuffix(r, ".RWMutex") || strings.HasSuffix(r, ".Mutex")) {
					f.put(s.X.End(), s.X.End(), ".zmu")
				}
			}
			return true
		})
	}
	transforms["defer-explicit"] = func(f *file) {
		// X.Lock(); defer X.Unlock() => X.Unlock() before every return
		f.funcs(func(fd *ast.FuncDecl) {
			for i := 0; i+1 < len(fd.Body.List); i++ {
				d, ok := fd.Body.List[i+1].(*ast.DeferStmt)
				es, ok2 := fd.Body.List[i].(*ast.ExprStmt)
				if !ok || !ok2 {
					continue
				}
				c, ok := es.X.(*ast.CallExpr)
				if !ok {
					continue
				}
				if _, t, _ := f.lockRecv(c); t == "" {
					continue
				}
				un := f.text(d.Call)
				if _, t, _ := f.lockRecv(d.Call); t == "" {
					continue
				}
				bad := false
				for _, s := range fd.Body.List[i+2:] {
					bad = bad || defersIn(s)
				}
				if bad || fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
					continue
				}
				f.site()
				f.put(d.Pos(), d.End(), "")
				for _, s := range fd.Body.List[i+2:] {
					ast.Inspect(s, func(x ast.Node) bool {
						if _, ok := x.(*ast.FuncLit); ok {
							return false
						}
						r, ok := x.(*ast.ReturnStmt)
						if !ok {
							return true
						}
						if len(r.Results) == 0 {
							f.put(r.Pos(), r.Pos(), un+"\n")
							return false
						}
						consts := true
						for _, e := range r.Results {
							id, ok := e.(*ast.Ident)
							consts = consts && ok && id != nil
						}
						if consts {
							f.put(r.Pos(), r.Pos(), un+"\n")
							return false
						}
						sig := f.p.TypesInfo.Defs[fd.Name].Type().(*types.Signature)
						var vs []string
						decl := ""
						for j := 0; j < sig.Results().Len(); j++ {
							v := fresh()
							vs = append(vs, v)
							decl += "var " + v + " " + f.typ(sig.Results().At(j).Type()) + "\n"
						}
						f.put(r.Pos(), r.End(), decl+strings.Join(vs, ", ")+" = "+f.span(r.Results[0].Pos(), r.Results[len(r.Results)-1].End())+"\n"+un+"\nreturn "+strings.Join(vs, ", "))
						return false
					})
				}
				if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
					if !terminates(fd.Body) {
						f.put(fd.Body.Rbrace, fd.Body.Rbrace, un+"\n")
					}
				}
				return
			}
		})
	}
	transforms["after-timer"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.SelectStmt)
			if !ok || !inList(path, n) {
				return
			}
			pre, post := "", ""
			f.site()
			for _, cc := range s.Body.List {
				if cc.(*ast.CommClause).Comm == nil {
					continue
				}
				ast.Inspect(cc.(*ast.CommClause).Comm, func(x ast.Node) bool {
					c, ok := x.(*ast.CallExpr)
					if ok && f.text(c.Fun) == "time.After" {
						v := fresh()
						pre += v + " := time.NewTimer(" + f.text(c.Args[0]) + ")\n"
						_ = post
						f.put(c.Pos(), c.End(), v+".C")
						return false
					}
					return true
				})
			}
			if pre != "" {
				f.put(s.Pos(), s.Pos(), pre)
			}
		})
	}
	transforms["itoa-sprintf"] = func(f *file) {
		if !f.imports("fmt") {
			return
		}
		first := true
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "strconv.Itoa" {
				return
			}
			if first {
				first = false
				f.extra = append(f.extra, "var _ = strconv.Itoa")
			}
			f.put(c.Pos(), c.End(), "fmt.Sprintf(\"%d\", "+f.text(c.Args[0])+")")
		})
	}
	transforms["sprintf-itoa"] = func(f *file) {
		if !f.imports("strconv") {
			return
		}
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if ok && f.text(c.Fun) == "fmt.Sprintf" && len(c.Args) == 2 && f.text(c.Args[0]) == `"%d"` && f.typeOf(c.Args[1]).String() == "int" {
				f.put(c.Pos(), c.End(), "strconv.Itoa("+f.text(c.Args[1])+")")
			}
		})
	}
	transforms["prealloc"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			d, ok := l[i].(*ast.DeclStmt)
			if !ok {
				return
			}
			g, ok := d.Decl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
				return
			}
			v := g.Specs[0].(*ast.ValueSpec)
			a, ok := v.Type.(*ast.ArrayType)
			if !ok || a.Len != nil || len(v.Names) != 1 || len(v.Values) > 0 {
				return
			}
			f.put(d.Pos(), d.End(), v.Names[0].Name+" := make("+f.text(v.Type)+", 0, 4)")
		})
	}
	transforms["go-arg"] = func(f *file) {
		// go func() { use(x) }()  =>  go func(x T) { use(x) }(x), for variables that never change
		f.each(func(n ast.Node, path []ast.Node) {
			g, ok := n.(*ast.GoStmt)
			if !ok || len(g.Call.Args) > 0 {
				return
			}
			fl, ok := g.Call.Fun.(*ast.FuncLit)
			if !ok {
				return
			}
			vars, _, _ := f.free(fl.Pos(), fl.End(), []ast.Node{fl.Body})
			var use []*types.Var
			for _, v := range vars {
				fixed := true
				ast.Inspect(path[0], func(x ast.Node) bool {
					switch y := x.(type) {
					case *ast.AssignStmt:
						for _, l := range y.Lhs {
							if id, ok := l.(*ast.Ident); ok && f.p.TypesInfo.Uses[id] == v {
								fixed = false
							}
						}
					case *ast.IncDecStmt:
						if id, ok := y.X.(*ast.Ident); ok && f.p.TypesInfo.Uses[id] == v {
							fixed = false
						}
					case *ast.UnaryExpr:
						if id, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && f.p.TypesInfo.Uses[id] == v {
							fixed = false
						}
					}
					return true
				})
				switch v.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					fixed = false
				}
				if fixed {
					use = append(use, v)
				}
			}
			decl, args, ok := f.params(use)
			if !ok || len(use) == 0 {
				return
			}
			f.site()
			f.put(fl.Type.Params.Opening+1, fl.Type.Params.Closing, decl)
			f.put(g.Call.Lparen+1, g.Call.Rparen, args)
		})
	}
	transforms["typeswitch-any"] = func(f *file) {
		// the value of a type switch is computed before it
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.TypeSwitchStmt)
			if !ok || s.Init != nil || !inList(path, n) {
				return
			}
			a, ok := s.Assign.(*ast.ExprStmt)
			if !ok {
				return
			}
			x := a.X.(*ast.TypeAssertExpr).X
			v := fresh()
			f.put(s.Pos(), s.Pos(), v+" := "+f.text(x)+"\n")
			f.put(x.Pos(), x.End(), v)
		})
	}
}
