package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// sig is the signature of the function around.
func (f *file) sig(path []ast.Node) (*types.Signature, *ast.FuncType, ast.Node) {
	for i := len(path) - 1; i >= 0; i-- {
		switch p := path[i].(type) {
		case *ast.FuncLit:
			return f.typeOf(p).(*types.Signature), p.Type, p
		case *ast.FuncDecl:
			return f.p.TypesInfo.Defs[p.Name].Type().(*types.Signature), p.Type, p
		}
	}
	return nil, nil, nil
}

func isError(t types.Type) bool { return t.String() == "error" }

func isNil(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "nil" }

func one(b *ast.BlockStmt) ast.Stmt {
	if len(b.List) != 1 {
		return nil
	}
	return b.List[0]
}

func (f *file) imports(p string) bool {
	for _, im := range f.f.Imports {
		if strings.Trim(im.Path.Value, `"`) == p && im.Name == nil {
			return true
		}
	}
	return false
}

// stmtAt calls fn for statements in a list with their index.
func (f *file) lists(fn func(list []ast.Stmt, i int, path []ast.Node)) {
	f.each(func(n ast.Node, path []ast.Node) {
		var l []ast.Stmt
		switch b := n.(type) {
		case *ast.BlockStmt:
			l = b.List
		case *ast.CaseClause:
			l = b.Body
		case *ast.CommClause:
			l = b.Body
		default:
			return
		}
		pp := append(append([]ast.Node{}, path...), n)
		for i := range l {
			fn(l, i, pp)
		}
	})
}

func init() {
	k := 0
	fresh := func() string { k++; return fmt.Sprintf("zi%d", k) }

	// return f()  =>  if err := f(); err != nil { return err }; return nil
	transforms["return-err"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			r, ok := l[i].(*ast.ReturnStmt)
			sig, _, _ := f.sig(path)
			if !ok || len(r.Results) != 1 || sig == nil || sig.Results().Len() == 0 {
				return
			}
			c, ok := r.Results[0].(*ast.CallExpr)
			n := sig.Results().Len()
			if !ok || !isError(sig.Results().At(n-1).Type()) {
				return
			}
			if t := f.typeOf(c); n == 1 && (t == nil || !isError(t)) {
				return
			}
			var vs []string
			for j := 0; j < n; j++ {
				vs = append(vs, fresh())
			}
			all := strings.Join(vs, ", ")
			e := vs[n-1]
			ok2 := strings.Join(append(append([]string{}, vs[:n-1]...), "nil"), ", ")
			f.put(r.Pos(), r.End(), all+" := "+f.text(c)+"\nif "+e+" != nil {\nreturn "+all+"\n}\nreturn "+ok2)
		})
	}
	// if err := f(); err != nil { return err }; return nil  =>  return f()
	transforms["err-return"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			s, ok := l[i].(*ast.IfStmt)
			if !ok || s.Else != nil || i+1 >= len(l) {
				return
			}
			sig, _, _ := f.sig(path)
			if sig == nil || sig.Results().Len() != 1 || !isError(sig.Results().At(0).Type()) {
				return
			}
			r, ok := l[i+1].(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 || !isNil(r.Results[0]) {
				return
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			in, ok2 := one(s.Body).(*ast.ReturnStmt)
			if !ok || !ok2 || b.Op != token.NEQ || !isNil(b.Y) || len(in.Results) != 1 || f.text(in.Results[0]) != f.text(b.X) {
				return
			}
			if s.Init == nil {
				f.put(s.Pos(), r.End(), "return "+f.text(b.X))
				return
			}
			as, ok := s.Init.(*ast.AssignStmt)
			if ok && len(as.Lhs) == 1 && f.text(as.Lhs[0]) == f.text(b.X) && isError(f.typeOf(as.Rhs[0])) {
				f.put(s.Pos(), r.End(), "return "+f.text(as.Rhs[0]))
			}
		})
	}
	// return c  =>  if c { return true }; return false
	transforms["bool-return"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			r, ok := l[i].(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 || f.typeOf(r.Results[0]) == nil {
				return
			}
			if b, ok := f.typeOf(r.Results[0]).Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				return
			}
			if id, ok := r.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
				return
			}
			f.put(r.Pos(), r.End(), "if "+f.text(r.Results[0])+" {\nreturn true\n}\nreturn false")
		})
	}
	// if c { return true }; return false  =>  return c
	transforms["return-bool"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			s, ok := l[i].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || i+1 >= len(l) {
				return
			}
			r, ok := l[i+1].(*ast.ReturnStmt)
			in, ok2 := one(s.Body).(*ast.ReturnStmt)
			if !ok || !ok2 || len(r.Results) != 1 || len(in.Results) != 1 {
				return
			}
			switch f.text(in.Results[0]) + " " + f.text(r.Results[0]) {
			case "true false":
				f.put(s.Pos(), r.End(), "return "+f.text(s.Cond))
			case "false true":
				f.put(s.Pos(), r.End(), "return !("+f.text(s.Cond)+")")
			}
		})
	}
	// !x  =>  x == false
	transforms["bool-cmp"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			u, ok := n.(*ast.UnaryExpr)
			if !ok || u.Op != token.NOT {
				return
			}
			if _, ok := u.X.(*ast.Ident); ok {
				f.put(u.Pos(), u.End(), "("+f.text(u.X)+" == false)")
			}
		})
	}
	// v = append(v, a, b)  =>  v = append(v, a); v = append(v, b)
	transforms["append-split"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			as, ok := l[i].(*ast.AssignStmt)
			if !ok || len(as.Rhs) != 1 || as.Tok != token.ASSIGN {
				return
			}
			c, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "append" || len(c.Args) < 3 || c.Ellipsis.IsValid() || f.text(c.Args[0]) != f.text(as.Lhs[0]) {
				return
			}
			t := ""
			for _, a := range c.Args[1:] {
				t += f.text(as.Lhs[0]) + " = append(" + f.text(c.Args[0]) + ", " + f.text(a) + ")\n"
			}
			f.put(as.Pos(), as.End(), t)
		})
	}
	// v = append(v, xs...)  =>  for _, x := range xs { v = append(v, x) }
	transforms["append-loop"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			as, ok := l[i].(*ast.AssignStmt)
			if !ok || len(as.Rhs) != 1 || as.Tok != token.ASSIGN {
				return
			}
			c, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "append" || len(c.Args) != 2 || !c.Ellipsis.IsValid() || f.text(c.Args[0]) != f.text(as.Lhs[0]) {
				return
			}
			v := fresh()
			f.put(as.Pos(), as.End(), "for _, "+v+" := range "+f.text(c.Args[1])+" {\n"+f.text(as.Lhs[0])+" = append("+f.text(c.Args[0])+", "+v+")\n}")
		})
	}
	// errors.New(x)  =>  fmt.Errorf("%s", x)
	transforms["errorf"] = func(f *file) {
		if !f.imports("fmt") || !f.imports("errors") {
			return
		}
		first := true
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "errors.New" {
				return
			}
			if first {
				first = false
				f.extra = append(f.extra, "var _ = errors.New")
			}
			if b, ok := c.Args[0].(*ast.BasicLit); ok && !strings.Contains(b.Value, "%") {
				f.put(c.Pos(), c.End(), "fmt.Errorf("+b.Value+")")
			} else {
				f.put(c.Pos(), c.End(), "fmt.Errorf(\"%s\", "+f.text(c.Args[0])+")")
			}
		})
	}
	// make(map[K]V)  =>  map[K]V{}
	transforms["make-lit"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || f.text(c.Fun) != "make" || len(c.Args) != 1 {
				return
			}
			if _, ok := c.Args[0].(*ast.MapType); ok {
				f.put(c.Pos(), c.End(), f.text(c.Args[0])+"{}")
			}
		})
	}
	// x.m(a)  =>  g := x.m; g(a)
	transforms["method-val"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			es, ok := l[i].(*ast.ExprStmt)
			if !ok {
				return
			}
			c, ok := es.X.(*ast.CallExpr)
			if !ok {
				return
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || f.p.TypesInfo.Selections[s] == nil || !pure(s.X) {
				return
			}
			v := fresh()
			f.put(c.Fun.Pos(), c.Fun.End(), v+" := "+f.text(c.Fun)+"\n"+v)
		})
	}
	// named results, returned by name
	transforms["naked"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			var ft *ast.FuncType
			var body *ast.BlockStmt
			switch d := n.(type) {
			case *ast.FuncDecl:
				ft, body = d.Type, d.Body
			case *ast.FuncLit:
				ft, body = d.Type, d.Body
			default:
				return
			}
			if ft.Results == nil || len(ft.Results.List) == 0 || len(ft.Results.List[0].Names) > 0 {
				return
			}
			var vs []string
			decl := "("
			for _, r := range ft.Results.List {
				v := fresh()
				vs = append(vs, v)
				decl += v + " " + f.text(r.Type) + ", "
			}
			f.site()
			f.put(ft.Results.Pos(), ft.Results.End(), strings.TrimSuffix(decl, ", ")+") ")
			ast.Inspect(body, func(x ast.Node) bool {
				if _, ok := x.(*ast.FuncLit); ok {
					return false
				}
				if r, ok := x.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
					f.put(r.Pos(), r.End(), strings.Join(vs, ", ")+" = "+f.span(r.Results[0].Pos(), r.Results[len(r.Results)-1].End())+"\nreturn "+strings.Join(vs, ", "))
					return false
				}
				return true
			})
		})
	}
	// the parameters are copied first
	transforms["param-alias"] = func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) {
			f.site()
			t := ""
			for _, p := range fd.Type.Params.List {
				for _, id := range p.Names {
					o := f.p.TypesInfo.Defs[id]
					if id.Name == "_" || o == nil {
						continue
					}
					used := false
					ast.Inspect(fd.Body, func(x ast.Node) bool {
						if y, ok := x.(*ast.Ident); ok && f.p.TypesInfo.Uses[y] == o {
							used = true
							f.put(y.Pos(), y.End(), y.Name+"Pz")
						}
						return true
					})
					if used {
						t += "\n" + id.Name + "Pz := " + id.Name
					}
				}
			}
			f.put(fd.Body.Lbrace+1, fd.Body.Lbrace+1, t+"\n")
		})
	}
	// f(a, b) of f(...T)  =>  f([]T{a, b}...)
	transforms["variadic-slice"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || c.Ellipsis.IsValid() || f.typeOf(c.Fun) == nil {
				return
			}
			sig, ok := f.typeOf(c.Fun).(*types.Signature)
			if !ok || !sig.Variadic() || strings.Contains(f.text(c.Fun), "append") || strings.Contains(f.text(c.Fun), "rintf") || strings.Contains(f.text(c.Fun), "Errorf") {
				return
			}
			np := sig.Params().Len()
			if len(c.Args) < np {
				return
			}
			t := f.typ(sig.Params().At(np - 1).Type())
			if t == "" {
				return
			}
			f.put(c.Args[np-1].Pos(), c.Args[len(c.Args)-1].End(), t+"{"+f.span(c.Args[np-1].Pos(), c.Args[len(c.Args)-1].End())+"}...")
		})
	}
	// switch v := x.(type)  =>  if v, ok := x.(T); ok
	transforms["typeswitch-if"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.TypeSwitchStmt)
			if !ok || s.Init != nil || !inList(path, n) {
				return
			}
			var x ast.Expr
			v := ""
			switch a := s.Assign.(type) {
			case *ast.ExprStmt:
				x = a.X.(*ast.TypeAssertExpr).X
			case *ast.AssignStmt:
				v = f.text(a.Lhs[0])
				x = a.Rhs[0].(*ast.TypeAssertExpr).X
			}
			if !pure(x) || branches(s.Body) {
				return
			}
			t, def := "", ""
			for _, cc := range s.Body.List {
				c := cc.(*ast.CaseClause)
				body := ""
				if len(c.Body) > 0 {
					body = f.span(c.Body[0].Pos(), c.Body[len(c.Body)-1].End())
				}
				if c.List == nil {
					if v != "" {
						body = v + " := " + f.text(x) + "\n_ = " + v + "\n" + body
					}
					def = body
					continue
				}
				if len(c.List) != 1 || isNil(c.List[0]) {
					return
				}
				w := "_"
				if v != "" && len(c.Body) > 0 {
					w = v
				}
				if w != "_" {
					body = "_ = " + v + "\n" + body
				}
				if t != "" {
					t += " else "
				}
				o := fresh()
				t += "if " + w + ", " + o + " := " + f.text(x) + ".(" + f.text(c.List[0]) + "); " + o + " {\n" + body + "\n}"
			}
			if t == "" {
				return
			}
			if def != "" {
				t += " else {\n" + def + "\n}"
			}
			// a switch that always returns has no statement after it
			f.put(s.Pos(), s.End(), t)
		})
	}
	// x == y and both values decided before: the condition is a variable set by branches
	transforms["cond-flag"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			s, ok := l[i].(*ast.IfStmt)
			if !ok || s.Init != nil {
				return
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR {
				return
			}
			v := fresh()
			if b.Op == token.LAND {
				f.put(s.Pos(), s.Cond.End(), v+" := false\nif "+f.text(b.X)+" {\n"+v+" = "+f.text(b.Y)+"\n}\nif "+v)
			} else {
				f.put(s.Pos(), s.Cond.End(), v+" := true\nif !("+f.text(b.X)+") {\n"+v+" = "+f.text(b.Y)+"\n}\nif "+v)
			}
		})
	}
	// x := v  =>  var x T = v, assigned in a branchless block
	transforms["late-assign"] = func(f *file) {
		f.lists(func(l []ast.Stmt, i int, path []ast.Node) {
			as, ok := l[i].(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) < 2 {
				return
			}
			t := ""
			for _, x := range as.Lhs {
				id := x.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if f.p.TypesInfo.Defs[id] == nil {
					continue
				}
				ty := f.typ(f.typeOf(id))
				if ty == "" || strings.HasPrefix(ty, id.Name+".") {
					return
				}
				for _, im := range f.f.Imports {
					if strings.HasSuffix(strings.Trim(im.Path.Value, "\""), "/"+id.Name) {
						return
					}
				}
				t += "var " + id.Name + " " + ty + "\n"
			}
			f.put(as.Pos(), as.End(), t+strings.Replace(f.text(as), ":=", "=", 1))
		})
	}
	// the select's or switch's tail: statements after a terminating if go into else
	transforms["if-else-tail"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i, x := range b.List {
				s, ok := x.(*ast.IfStmt)
				if !ok || s.Else != nil || !terminates(s.Body) || i+1 >= len(b.List) {
					continue
				}
				if _, ok := b.List[len(b.List)-1].(*ast.ReturnStmt); !ok {
					return
				}
				f.site()
				f.put(s.End(), s.End(), " else {")
				f.put(b.Rbrace, b.Rbrace, "}\n")
				return
			}
		})
	}
	// a mutex is locked through a pointer to it
	transforms["lock-ptr"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) > 0 {
				return
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || f.typeOf(s.X) == nil || !strings.HasPrefix(f.typeOf(s.X).String(), "sync.") {
				return
			}
			switch s.Sel.Name {
			case "Lock", "Unlock", "RLock", "RUnlock":
				f.put(s.X.Pos(), s.X.End(), "(&"+f.text(s.X)+")")
			}
		})
	}
	// for range over channel or list by position
	transforms["count-loop"] = func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || r.Value == nil || !inList(path, n) || !pure(r.X) || has(path[0], false, func(x ast.Node) bool { _, ok := x.(*ast.LabeledStmt); return ok }) {
				return
			}
			if _, ok := f.typeOf(r.X).Underlying().(*types.Slice); !ok {
				return
			}
			if has(r.Body, true, func(x ast.Node) bool { b, ok := x.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) {
				return
			}
			i := f.text(r.Key)
			if i == "_" {
				i = fresh()
			}
			xs := fresh()
			val := ""
			if f.text(r.Value) != "_" {
				val = f.text(r.Value) + " := " + xs + "[" + i + "]\n"
			}
			f.put(r.Pos(), r.Body.Lbrace+1, xs+" := "+f.text(r.X)+"\n"+i+" := 0\nfor "+i+" < len("+xs+") {\n"+val)
			f.put(r.Body.Rbrace, r.Body.Rbrace, "\n"+i+"++\n")
		})
	}
}
