package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (f *file) renameObjs(pick func(o types.Object) bool) {
	f.always = true
	ast.Inspect(f.f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || id.Name == "init" || id.Name == "main" {
			return true
		}
		o := f.p.TypesInfo.Defs[id]
		if o == nil {
			o = f.p.TypesInfo.Uses[id]
		}
		if o == nil || o.Exported() || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "github.com/pojol/braid") || strings.HasSuffix(o.Pkg().Path(), "/router") {
			return true
		}
		if pick(o) {
			f.put(id.Pos(), id.End(), id.Name+"Zr")
		}
		return true
	})
}

func init() {
	transforms["rename-fields"] = func(f *file) {
		f.renameObjs(func(o types.Object) bool {
			v, ok := o.(*types.Var)
			return ok && v.IsField() && !v.Embedded()
		})
	}
	transforms["rename-funcs"] = func(f *file) {
		f.renameObjs(func(o types.Object) bool { _, ok := o.(*types.Func); return ok })
	}
	transforms["rename-types"] = func(f *file) {
		f.renameObjs(func(o types.Object) bool {
			switch o := o.(type) {
			case *types.TypeName:
				return o.Parent() == o.Pkg().Scope()
			case *types.Var:
				return o.Embedded()
			}
			return false
		})
	}
	transforms["rename-globals"] = func(f *file) {
		f.renameObjs(func(o types.Object) bool {
			switch o.(type) {
			case *types.Var, *types.Const:
				return o.Parent() == o.Pkg().Scope()
			}
			return false
		})
	}
	transforms["reverse-fields"] = func(f *file) {
		ast.Inspect(f.f, func(n ast.Node) bool {
			ts, ok := n.(*ast.TypeSpec)
			if !ok {
				return true
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok || ts.Name.Name == "Code" || len(st.Fields.List) < 2 {
				return true
			}
			t := ""
			for i := len(st.Fields.List) - 1; i >= 0; i-- {
				t += "\n" + f.text(st.Fields.List[i])
			}
			f.put(st.Fields.Opening+1, st.Fields.Closing, t+"\n")
			return true
		})
	}
	transforms["inline-var"] = func(f *file) {
		// x := e; S(x)  =>  S(e), when x is used once, at once
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := 0; i+1 < len(b.List); i++ {
				as, ok := b.List[i].(*ast.AssignStmt)
				if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
					continue
				}
				switch as.Rhs[0].(type) {
				case *ast.FuncLit, *ast.BasicLit, *ast.CompositeLit:
					continue
				}
				switch nx := b.List[i+1].(type) {
				case *ast.ReturnStmt:
					if len(nx.Results) > 1 {
						continue
					}
				case *ast.ExprStmt, *ast.AssignStmt:
				default:
					continue
				}
				o := f.p.TypesInfo.Defs[as.Lhs[0].(*ast.Ident)]
				if o == nil {
					continue
				}
				var use *ast.Ident
				uses := 0
				ast.Inspect(f.f, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok && f.p.TypesInfo.Uses[id] == o {
						uses++
						use = id
					}
					return true
				})
				if uses != 1 || use.Pos() < b.List[i+1].Pos() || use.End() > b.List[i+1].End() {
					continue
				}
				// evaluated first, outside closures
				if has(b.List[i+1], false, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) {
					continue
				}
				early := false
				ast.Inspect(b.List[i+1], func(x ast.Node) bool {
					switch c := x.(type) {
					case *ast.CallExpr:
						if c.End() <= use.Pos() {
							early = true
						}
					case *ast.UnaryExpr:
						if c.Op == token.AND {
							early = true
						}
					case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
						_ = c
					}
					return true
				})
				if early {
					continue
				}
				f.site()
				f.put(as.Pos(), as.End(), "")
				f.put(use.Pos(), use.End(), "("+f.text(as.Rhs[0])+")")
				return
			}
		})
	}
	transforms["early-continue"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || len(b.List) == 0 || len(path) == 0 {
				return
			}
			kw := ""
			switch p := path[len(path)-1].(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				kw = "continue"
			case *ast.FuncDecl:
				if p.Type.Results != nil && len(p.Type.Results.List) > 0 {
					return
				}
				kw = "return"
			case *ast.FuncLit:
				if p.Type.Results != nil && len(p.Type.Results.List) > 0 {
					return
				}
				kw = "return"
			default:
				return
			}
			s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil {
				return
			}
			f.put(s.Pos(), s.End(), "if !("+f.text(s.Cond)+") {\n"+kw+"\n}\n"+f.inner(s.Body))
		})
	}
	transforms["nest-guard"] = func(f *file) {
		// if c { return/continue }; rest  =>  if !c { rest }, in loops and functions without results
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || len(path) == 0 {
				return
			}
			loop := false
			switch p := path[len(path)-1].(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				loop = true
			case *ast.FuncDecl:
				if p.Type.Results != nil && len(p.Type.Results.List) > 0 {
					return
				}
			case *ast.FuncLit:
				if p.Type.Results != nil && len(p.Type.Results.List) > 0 {
					return
				}
			default:
				return
			}
			for i, x := range b.List {
				s, ok := x.(*ast.IfStmt)
				if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) != 1 || i+1 >= len(b.List) {
					continue
				}
				switch r := s.Body.List[0].(type) {
				case *ast.ReturnStmt:
					if loop || len(r.Results) > 0 {
						continue
					}
				case *ast.BranchStmt:
					if !loop || r.Tok != token.CONTINUE || r.Label != nil {
						continue
					}
				default:
					continue
				}
				f.site()
				f.put(s.Pos(), s.End(), "if !("+f.text(s.Cond)+") {")
				f.put(b.Rbrace, b.Rbrace, "}\n")
				return
			}
		})
	}
	transforms["merge-init"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := 0; i+1 < len(b.List); i++ {
				as, ok := b.List[i].(*ast.AssignStmt)
				s, ok2 := b.List[i+1].(*ast.IfStmt)
				if !ok || !ok2 || as.Tok != token.DEFINE || s.Init != nil {
					continue
				}
				fine := true
				for _, l := range as.Lhs {
					id := l.(*ast.Ident)
					o := f.p.TypesInfo.Defs[id]
					if o == nil && id.Name != "_" {
						fine = false
						continue
					}
					ast.Inspect(f.f, func(x ast.Node) bool {
						if id, ok := x.(*ast.Ident); ok && o != nil && f.p.TypesInfo.Uses[id] == o && id.Pos() > s.End() {
							fine = false
						}
						return true
					})
				}
				if has(as.Rhs[0], false, func(x ast.Node) bool { _, ok := x.(*ast.CompositeLit); return ok }) {
					fine = false
				}
				if fine {
					f.put(as.Pos(), s.Cond.Pos(), "if "+f.text(as)+"; ")
				}
			}
		})
	}
	transforms["defer-closure"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			d, ok := n.(*ast.DeferStmt)
			if !ok || len(d.Call.Args) > 0 {
				return
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
				return
			}
			f.put(d.Pos(), d.End(), "defer func() {\n"+f.text(d.Call)+"\n}()")
		})
	}
	transforms["go-closure"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			d, ok := n.(*ast.GoStmt)
			if !ok {
				return
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
				return
			}
			for _, a := range d.Call.Args {
				if _, ok := a.(*ast.Ident); !ok {
					return
				}
			}
			f.put(d.Pos(), d.End(), "go func() {\n"+f.text(d.Call)+"\n}()")
		})
	}
	transforms["explicit-embed"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return
			}
			sel := f.p.TypesInfo.Selections[s]
			if sel == nil || len(sel.Index()) < 2 {
				return
			}
			t := sel.Recv()
			mid := ""
			for _, i := range sel.Index()[:len(sel.Index())-1] {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				st, ok := t.Underlying().(*types.Struct)
				if !ok {
					return
				}
				if !st.Field(i).Exported() && st.Field(i).Pkg() != f.p.Types {
					return
				}
				mid += "." + st.Field(i).Name()
				t = st.Field(i).Type()
			}
			f.put(s.X.End(), s.X.End(), mid)
		})
	}
	transforms["empty-len"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			lit, ok := b.Y.(*ast.BasicLit)
			if !ok {
				return
			}
			switch {
			case lit.Value == `""`:
				f.put(b.Pos(), b.End(), "len("+f.text(b.X)+") "+b.Op.String()+" 0")
			case lit.Value == "0":
				if c, ok := b.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" {
						if bt, ok := f.typeOf(c.Args[0]).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
							f.put(b.Pos(), b.End(), f.text(c.Args[0])+" "+b.Op.String()+` ""`)
							return
						}
						op := "< 1"
						if b.Op == token.NEQ {
							op = "> 0"
						}
						f.put(b.Pos(), b.End(), f.text(c)+" "+op)
					}
				}
			}
		})
	}
	transforms["concat-sprintf"] = func(f *file) {
		im := false
		for _, i := range f.f.Imports {
			im = im || i.Path.Value == `"fmt"` && i.Name == nil
		}
		if !im {
			return
		}
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD || f.p.TypesInfo.Types[b].Value != nil {
				return
			}
			if bt, ok := f.typeOf(b).(*types.Basic); !ok || bt.Kind() != types.String {
				return
			}
			f.put(b.Pos(), b.End(), `fmt.Sprintf("%s%s", `+f.text(b.X)+", "+f.text(b.Y)+")")
		})
	}
	transforms["sprintf-concat"] = func(f *file) {
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "fmt.Sprintf" || len(c.Args) < 2 {
				return
			}
			lit, ok := c.Args[0].(*ast.BasicLit)
			if !ok {
				return
			}
			ps := strings.Split(strings.Trim(lit.Value, `"`), "%s")
			if len(ps) != len(c.Args) || strings.Contains(strings.Join(ps, ""), "%") {
				return
			}
			for _, a := range c.Args[1:] {
				if bt, ok := f.typeOf(a).(*types.Basic); !ok || bt.Kind() != types.String {
					return
				}
			}
			t := `"` + ps[0] + `"`
			for i, a := range c.Args[1:] {
				t += " + " + f.text(a)
				if ps[i+1] != "" {
					t += ` + "` + ps[i+1] + `"`
				}
			}
			k++
			if f.put(c.Pos(), c.End(), t) && k == 1 {
				f.extra = append(f.extra, "var _ = fmt.Sprint")
			}
		})
	}
	transforms["alias-sel"] = func(f *file) {
		// a.b.c.m(...) => t := a.b.c; t.m(...)
		f.each(func(n ast.Node, path []ast.Node) {
			es, ok := n.(*ast.ExprStmt)
			if !ok || !inList(path, n) {
				return
			}
			c, ok := es.X.(*ast.CallExpr)
			if !ok {
				return
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return
			}
			if _, ok := s.X.(*ast.SelectorExpr); !ok || !pure(s.X) {
				return
			}
			tv := f.p.TypesInfo.Types[s.X]
			if tv.Type == nil || tv.IsType() {
				return
			}
			switch tv.Type.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				f.put(es.Pos(), s.X.End(), "zt := "+f.text(s.X)+"\nzt")
			default:
				f.put(es.Pos(), s.X.End(), "zt := &"+f.text(s.X)+"\nzt")
			}
			f.edits[len(f.edits)-1].text = "{\n" + f.edits[len(f.edits)-1].text
			f.put(es.End(), es.End(), "\n}")
		})
	}
	transforms["lock-closure"] = func(f *file) {
		// mu.Lock(); defer mu.Unlock(); rest of a function without results => in a function literal
		f.funcs(func(fd *ast.FuncDecl) {
			for i := 0; i+1 < len(fd.Body.List); i++ {
				es, ok := fd.Body.List[i].(*ast.ExprStmt)
				d, ok2 := fd.Body.List[i+1].(*ast.DeferStmt)
				if !ok || !ok2 || !strings.Contains(f.text(es), "Lock()") || !strings.Contains(f.text(d), "nlock()") {
					continue
				}
				res := ""
				pre := ""
				if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
					if len(fd.Type.Results.List[0].Names) > 0 {
						return
					}
					res = f.text(fd.Type.Results)
					pre = "return "
				}
				f.site()
				f.put(es.Pos(), es.Pos(), pre+"func() "+res+" {\n")
				f.put(fd.Body.Rbrace, fd.Body.Rbrace, "}()\n")
				return
			}
		})
	}
	transforms["lock-defer"] = func(f *file) {
		// X.Lock(); A; X.Unlock()  =>  func() { X.Lock(); defer X.Unlock(); A }(), when A stays inside
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i, x := range b.List {
				es, ok := x.(*ast.ExprStmt)
				if !ok || !strings.HasSuffix(f.text(es), "Lock()") || strings.HasSuffix(f.text(es), "Unlock()") {
					continue
				}
				un := strings.Replace(f.text(es), "Lock()", "Unlock()", 1)
				for j := i + 1; j < len(b.List); j++ {
					y := b.List[j]
					if f.text(y) == un {
						bad := false
						for _, z := range b.List[i+1 : j] {
							if returns(z) || defersIn(z) || escapingBranch(z) {
								bad = true
							}
							if as, ok := z.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
								bad = true
							}
							if _, ok := z.(*ast.DeclStmt); ok {
								bad = true
							}
						}
						if !bad {
							f.put(es.Pos(), y.End(), "func() {\n"+f.text(es)+"\ndefer "+un+"\n"+f.span(es.End(), y.Pos())+"\n}()")
						}
						break
					}
				}
			}
		})
	}
	transforms["swap-defs"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := 0; i+1 < len(b.List); i++ {
				x, ok := b.List[i].(*ast.AssignStmt)
				y, ok2 := b.List[i+1].(*ast.AssignStmt)
				if !ok || !ok2 || len(x.Lhs) != 1 || len(y.Lhs) != 1 || !pure(x.Rhs[0]) || !pure(y.Rhs[0]) || !pure(x.Lhs[0]) || !pure(y.Lhs[0]) {
					continue
				}
				xt, yt := f.text(x.Lhs[0]), f.text(y.Lhs[0])
				if strings.Contains(f.text(y), xt) || strings.Contains(f.text(x), yt) {
					continue
				}
				if x.Tok == token.ASSIGN && y.Tok == token.DEFINE || x.Tok == token.DEFINE && y.Tok == token.ASSIGN {
					if !strings.Contains(xt+yt, ".") {
						continue
					}
				}
				// a store must not be seen by the other's reads
				if has(x.Rhs[0], false, isDeref) && strings.Contains(yt, ".") || has(y.Rhs[0], false, isDeref) && strings.Contains(xt, ".") {
					continue
				}
				f.put(x.Pos(), y.End(), f.text(y)+"\n"+f.text(x))
				i++
			}
		})
	}
	transforms["new-ptr"] = func(f *file) {
		// x := &T{...}  =>  x := new(T); *x = T{...}
		f.each(func(n ast.Node, path []ast.Node) {
			as, ok := n.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || !inList(path, n) {
				return
			}
			u, ok := as.Rhs[0].(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return
			}
			cl, ok := u.X.(*ast.CompositeLit)
			if !ok || has(cl, false, func(x ast.Node) bool {
				y, ok := x.(*ast.Ident)
				return ok && y.Name == as.Lhs[0].(*ast.Ident).Name
			}) {
				return
			}
			id := as.Lhs[0].(*ast.Ident).Name
			f.put(as.Pos(), as.End(), id+" := new("+f.text(cl.Type)+")\n*"+id+" = "+f.text(cl))
		})
	}
	transforms["val-then-ptr"] = func(f *file) {
		// return &T{...} / x := &T{...}  =>  v := T{...}; ... &v
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			if !inList(path, n) {
				return
			}
			var e ast.Expr
			switch s := n.(type) {
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					e = s.Results[0]
				}
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					e = s.Rhs[0]
				}
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return
			}
			cl, ok := u.X.(*ast.CompositeLit)
			if !ok {
				return
			}
			k++
			nm := fmt.Sprintf("zv%d", k)
			f.put(n.Pos(), n.End(), nm+" := "+f.text(cl)+"\n"+f.span(n.Pos(), u.Pos())+"&"+nm)
		})
	}
}

func isDeref(n ast.Node) bool {
	switch n.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}
