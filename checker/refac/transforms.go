package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

var transforms = map[string]func(*file){
	"invert-if": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil || inElse(n, path) {
				return
			}
			e, ok := s.Else.(*ast.BlockStmt)
			if !ok {
				return
			}
			f.put(s.Pos(), s.End(), "if !("+f.text(s.Cond)+") {"+f.inner(e)+"} else {"+f.inner(s.Body)+"}")
		})
	},
	"not-not": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				op := "||"
				if b.Op == token.LOR {
					op = "&&"
				}
				f.put(b.Pos(), b.End(), "!(!("+f.text(b.X)+")"+op+"!("+f.text(b.Y)+"))")
			}
		})
	},
	"nested-and": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil || inElse(n, path) || s.Else != nil {
				return
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				f.put(s.Pos(), s.End(), "if "+f.text(b.X)+" {\nif "+f.text(b.Y)+" {"+f.inner(s.Body)+"}\n}")
			}
		})
	},
	"split-init": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init == nil || !inList(path, n) {
				return
			}
			f.put(s.Pos(), s.End(), "{\n"+f.text(s.Init)+"\nif "+f.span(s.Cond.Pos(), s.End())+"\n}")
		})
	},
	"result-var": func(f *file) {
		f.results(func(r *ast.ReturnStmt, sig *types.Tuple) {
			if len(r.Results) == 0 || len(r.Results) != sig.Len() {
				return
			}
			pre, res := "", []string{}
			for i, e := range r.Results {
				t := f.typ(sig.At(i).Type())
				if t == "" {
					return
				}
				pre += fmt.Sprintf("var zr%d %s = %s\n", i, t, f.text(e))
				res = append(res, fmt.Sprintf("zr%d", i))
			}
			f.put(r.Pos(), r.End(), "{\n"+pre+"return "+strings.Join(res, ", ")+"\n}")
		})
	},
	"cond-var": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil || !inList(path, n) {
				return
			}
			f.site()
			f.put(s.Pos(), s.Body.Lbrace, "{\nzc := "+f.text(s.Cond)+"\nif zc ")
			f.put(s.End(), s.End(), "\n}")
		})
	},
	"else-after-return": func(f *file) {
		// if c { ...; return }; rest  =>  if c { ...; return } else { rest }
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for i, x := range b.List {
				s, ok := x.(*ast.IfStmt)
				if !ok || s.Else != nil || !terminates(s.Body) || i+1 >= len(b.List) {
					continue
				}
				f.site()
				f.put(s.End(), s.End(), " else {")
				f.put(b.Rbrace, b.Rbrace, "}\n")
				return
			}
		})
		f.fixReturns()
	},
	"no-else": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil || !inList(path, n) || !terminates(s.Body) {
				return
			}
			if e, ok := s.Else.(*ast.BlockStmt); ok {
				f.put(s.Pos(), s.End(), "if "+f.text(s.Cond)+" {"+f.inner(s.Body)+"}\n{"+f.inner(e)+"}")
			}
		})
	},
	"swap-eq": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			if b, ok := n.(*ast.BinaryExpr); ok {
				op := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[b.Op]
				if op != "" && (pure(b.X) || pure(b.Y)) {
					f.put(b.Pos(), b.End(), f.text(b.Y)+" "+op+" "+f.text(b.X))
				}
			}
		})
	},
	"not-eq": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			if b, ok := n.(*ast.BinaryExpr); ok {
				op := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}[b.Op]
				if op != "" {
					if bt, ok := f.typeOf(b.X).Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
						return
					}
					f.put(b.Pos(), b.End(), "!("+f.text(b.X)+" "+op+" "+f.text(b.Y)+")")
				}
			}
		})
	},
	"body-helper": func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) {
			if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil || len(fd.Body.List) < 2 {
				return
			}
			name := "z" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Body"
			var args []string
			i := 0
			var parms []string
			for _, fl := range fd.Type.Params.List {
				ns := fl.Names
				if len(ns) == 0 {
					ns = []*ast.Ident{{Name: "_"}}
				}
				for _, id := range ns {
					nm := id.Name
					if nm == "_" {
						nm = fmt.Sprintf("zp%d", i)
					}
					i++
					parms = append(parms, nm+" "+f.text(fl.Type))
					if _, ok := fl.Type.(*ast.Ellipsis); ok {
						nm += "..."
					}
					args = append(args, nm)
				}
			}
			recv, pre := "", ""
			if fd.Recv != nil {
				r := fd.Recv.List[0]
				rn := "zs"
				if len(r.Names) > 0 && r.Names[0].Name != "_" {
					rn = r.Names[0].Name
				}
				recv = "(" + rn + " " + f.text(r.Type) + ") "
				pre = rn + "."
			}
			res := ""
			if fd.Type.Results != nil {
				res = f.text(fd.Type.Results)
				if fd.Type.Results.Opening == token.NoPos {
					res = " " + res
				}
			}
			call := pre + name + "(" + strings.Join(args, ", ") + ")"
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				call = "return " + call
			}
			if f.put(fd.Pos(), fd.End(), "func "+recv+fd.Name.Name+"("+strings.Join(parms, ", ")+")"+res+" {\n"+call+"\n}\n\nfunc "+recv+name+"("+strings.Join(parms, ", ")+")"+res+" "+f.text(fd.Body)) {
			}
		})
	},
	"arg-vars": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			es, ok := n.(*ast.ExprStmt)
			if !ok || !inList(path, n) {
				return
			}
			f.hoist(es, es.X)
		})
	},
	"arg-vars-assign": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			as, ok := n.(*ast.AssignStmt)
			if !ok || !inList(path, n) || len(as.Rhs) != 1 {
				return
			}
			for _, l := range as.Lhs {
				if !pure(l) {
					return
				}
			}
			f.hoist(as, as.Rhs[0])
		})
	},
	"range-index": func(f *file) {
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.RangeStmt)
			if !ok || !inList(path, n) || s.Tok != token.DEFINE {
				return
			}
			if _, ok := f.typeOf(s.X).Underlying().(*types.Slice); !ok {
				return
			}
			k++
			x := fmt.Sprintf("zx%d", k)
			i := fmt.Sprintf("zi%d", k)
			if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
				i = id.Name
			}
			v := ""
			if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
				v = id.Name + " := " + x + "[" + i + "]\n"
			}
			f.site()
			f.put(s.Pos(), s.Body.Lbrace+1, "{\n"+x+" := "+f.text(s.X)+"\nfor "+i+" := 0; "+i+" < len("+x+"); "+i+"++ {\n"+v+"{\n")
			f.put(s.End(), s.End(), "\n}\n}")
		})
	},
	"if-switch": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Init != nil || !inList(path, n) || branches(s) {
				return
			}
			t := "switch {\ncase " + f.text(s.Cond) + ":" + f.inner(s.Body)
			for x := s.Else; x != nil; {
				switch e := x.(type) {
				case *ast.IfStmt:
					if e.Init != nil {
						return
					}
					t += "\ncase " + f.text(e.Cond) + ":" + f.inner(e.Body)
					x = e.Else
					continue
				case *ast.BlockStmt:
					t += "\ndefault:" + f.inner(e)
				}
				break
			}
			f.put(s.Pos(), s.End(), t+"\n}")
		})
		f.fixReturns()
	},
	"switch-if": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.SwitchStmt)
			if !ok || s.Init != nil || s.Tag == nil || !inList(path, n) || has(s.Body, true, func(x ast.Node) bool {
				b, ok := x.(*ast.BranchStmt)
				return ok && b.Tok != token.CONTINUE
			}) {
				return
			}
			t := "{\nzt := " + f.text(s.Tag) + "\n"
			def := ""
			sep := ""
			for _, cc := range s.Body.List {
				c := cc.(*ast.CaseClause)
				body := ""
				if len(c.Body) > 0 {
					body = f.span(c.Body[0].Pos(), c.Body[len(c.Body)-1].End())
				}
				if c.List == nil {
					def = body
					continue
				}
				var cs []string
				for _, e := range c.List {
					cs = append(cs, "zt == "+f.text(e))
				}
				t += sep + "if " + strings.Join(cs, " || ") + " {\n" + body + "\n}"
				sep = " else "
			}
			if sep == "" {
				return
			}
			if def != "" {
				t += " else {\n" + def + "\n}"
			}
			f.put(s.Pos(), s.End(), t+"\n}")
		})
		f.fixReturns()
	},
	"rename": func(f *file) {
		f.always = true
		f.funcs(func(fd *ast.FuncDecl) {
			ast.Inspect(fd, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok || id.Name == "_" {
					return true
				}
				o := f.p.TypesInfo.ObjectOf(id)
				if o == nil {
					return true
				}
				v, ok := o.(*types.Var)
				if ok && !v.IsField() && v.Pkg() == f.p.Types && v.Parent() != f.p.Types.Scope() && v.Pos() >= fd.Pos() && v.Pos() < fd.End() {
					f.put(id.Pos(), id.End(), id.Name+"Z")
				}
				return true
			})
		})
		// the variable of a type switch is not an object of its own
		f.each(func(n ast.Node, path []ast.Node) {
			if s, ok := n.(*ast.TypeSwitchStmt); ok {
				if a, ok := s.Assign.(*ast.AssignStmt); ok {
					id := a.Lhs[0].(*ast.Ident)
					f.put(id.Pos(), id.End(), id.Name+"Z")
				}
			}
		})
	},
	"reorder": func(f *file) {
		f.always = true
		var fds []*ast.FuncDecl
		f.funcs(func(fd *ast.FuncDecl) { fds = append(fds, fd) })
		for i, fd := range fds {
			f.put(fd.Pos(), fd.End(), f.text(fds[len(fds)-1-i]))
		}
	},
	"extract-stmt": func(f *file) { f.extractStmts(false) },
	"extract-if":   func(f *file) { f.extractStmts(true) },
	"extract-expr": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			as, ok := n.(*ast.AssignStmt)
			if !ok || len(as.Rhs) != 1 || !inList(path, n) {
				return
			}
			f.extractExpr(as.Rhs[0], path)
		})
	},
	"extract-cond": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.IfStmt)
			if !ok {
				return
			}
			f.extractExpr(s.Cond, path)
		})
	},
	"extract-return": func(f *file) {
		f.results(func(r *ast.ReturnStmt, sig *types.Tuple) {
			if len(r.Results) != 1 || sig.Len() != 1 {
				return
			}
			if _, ok := r.Results[0].(*ast.Ident); ok {
				return
			}
			f.extractAs(r.Results[0], sig.At(0).Type())
		})
	},
	"tail": func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) { f.tail(fd, len(fd.Body.List)/2) })
	},
	"tail-last": func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) { f.tail(fd, len(fd.Body.List)-2) })
	},
	"tail-first": func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) { f.tail(fd, 1) })
	},
	"loop-body": func(f *file) {
		// the body of a loop becomes a function when it only continues and writes nothing outside
		f.each(func(n ast.Node, path []ast.Node) {
			var b *ast.BlockStmt
			switch s := n.(type) {
			case *ast.RangeStmt:
				b = s.Body
			case *ast.ForStmt:
				b = s.Body
			default:
				return
			}
			if len(b.List) == 0 || returns(b) || defersIn(b) || has(b, true, func(x ast.Node) bool { _, ok := x.(*ast.LabeledStmt); return ok }) {
				return
			}
			if has(b, true, func(x ast.Node) bool {
				br, ok := x.(*ast.BranchStmt)
				return ok && br.Tok != token.CONTINUE
			}) {
				return
			}
			// continues of this loop only
			if has(b, true, func(x ast.Node) bool {
				switch x.(type) {
				case *ast.RangeStmt, *ast.ForStmt:
					return true
				}
				return false
			}) {
				return
			}
			vars, written, bad := f.free(b.Pos(), b.End(), []ast.Node{b})
			if bad {
				return
			}
			for _, v := range vars {
				if written[v] {
					return
				}
			}
			decl, args, ok := f.params(vars)
			if !ok {
				return
			}
			body := f.replaceIn(b, func(x ast.Node) (string, bool) {
				if br, ok := x.(*ast.BranchStmt); ok && br.Tok == token.CONTINUE {
					return "return", true
				}
				return "", false
			})
			h := f.helper()
			if f.put(b.Pos(), b.End(), "{\n"+h+"("+args+")\n}") {
				f.extra = append(f.extra, "func "+h+"("+decl+") {\n{"+body+"}\n}")
			}
		})
	},
	"lit-fields": func(f *file) {
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			as, ok := n.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || !inList(path, n) {
				return
			}
			e := as.Rhs[0]
			amp := ""
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				e = u.X
				amp = "&"
			}
			cl, ok := e.(*ast.CompositeLit)
			if !ok || len(cl.Elts) == 0 {
				return
			}
			if _, ok := f.typeOf(cl).Underlying().(*types.Struct); !ok {
				return
			}
			id := as.Lhs[0].(*ast.Ident)
			if has(cl, false, func(x ast.Node) bool { y, ok := x.(*ast.Ident); return ok && y.Name == id.Name }) {
				return
			}
			pre, post := "", ""
			for _, el := range cl.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					return
				}
				k++
				if pure(kv.Value) {
					post += "\n" + id.Name + "." + f.text(kv.Key) + " = " + f.text(kv.Value)
					continue
				}
				t := f.typ(f.typeOf(kv.Value))
				if t == "" {
					return
				}
				pre += fmt.Sprintf("zl%d := %s\n", k, f.text(kv.Value))
				post += "\n" + id.Name + "." + f.text(kv.Key) + fmt.Sprintf(" = zl%d", k)
			}
			f.put(as.Pos(), as.End(), pre+id.Name+" := "+amp+f.text(cl.Type)+"{}"+post)
		})
	},
	"op-assign": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			switch s := n.(type) {
			case *ast.IncDecStmt:
				op := "+="
				if s.Tok == token.DEC {
					op = "-="
				}
				f.put(s.Pos(), s.End(), f.text(s.X)+" "+op+" 1")
			case *ast.AssignStmt:
				if s.Tok == token.ADD_ASSIGN && pure(s.Lhs[0]) {
					f.put(s.Pos(), s.End(), f.text(s.Lhs[0])+" = "+f.text(s.Lhs[0])+" + "+f.text(s.Rhs[0]))
				}
			}
		})
	},
	"for-break": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			s, ok := n.(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return
			}
			f.site()
			f.put(s.Cond.Pos(), s.Cond.End(), "")
			f.put(s.Body.Lbrace+1, s.Body.Lbrace+1, "\nif !("+f.text(s.Cond)+") {\nbreak\n}\n")
		})
	},
	"var-decl": func(f *file) {
		// x := e  =>  var x T; x = e
		f.each(func(n ast.Node, path []ast.Node) {
			as, ok := n.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || !inList(path, n) {
				return
			}
			pre := ""
			for _, l := range as.Lhs {
				id, ok := l.(*ast.Ident)
				if !ok {
					return
				}
				if o := f.p.TypesInfo.Defs[id]; o != nil && id.Name != "_" {
					t := f.typ(o.Type())
					if t == "" {
						return
					}
					pre += "var " + id.Name + " " + t + "\n"
				}
			}
			var ls []string
			for _, l := range as.Lhs {
				ls = append(ls, f.text(l))
			}
			// the right side must not mean an outer variable of the same name
			if has(as.Rhs[0], false, func(x ast.Node) bool {
				id, ok := x.(*ast.Ident)
				if !ok {
					return false
				}
				for _, l := range ls {
					if l == id.Name {
						return true
					}
				}
				return false
			}) {
				return
			}
			f.put(as.Pos(), as.Rhs[0].Pos(), pre+strings.Join(ls, ", ")+" = ")
		})
	},
	"recv-alias": func(f *file) {
		f.funcs(func(fd *ast.FuncDecl) {
			if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
				return
			}
			if _, ok := f.typeOf(fd.Recv.List[0].Type).(*types.Pointer); !ok {
				return
			}
			id := fd.Recv.List[0].Names[0]
			f.site()
			f.put(id.Pos(), id.End(), "zself")
			f.put(fd.Body.Lbrace+1, fd.Body.Lbrace+1, "\n"+id.Name+" := zself\n_ = "+id.Name+"\n")
		})
	},
	"closure-name": func(f *file) {
		// go func(){...}() / defer func(){...}()  =>  f := func(){...}; go f()
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			if !inList(path, n) {
				return
			}
			var c *ast.CallExpr
			kw := ""
			switch s := n.(type) {
			case *ast.GoStmt:
				c, kw = s.Call, "go "
			case *ast.DeferStmt:
				c, kw = s.Call, "defer "
			default:
				return
			}
			fl, ok := c.Fun.(*ast.FuncLit)
			if !ok {
				return
			}
			k++
			nm := fmt.Sprintf("zf%d", k)
			f.site()
			f.put(n.Pos(), fl.Pos(), nm+" := ")
			f.put(fl.End(), fl.End(), "\n"+kw+nm)
		})
	},
	"go-named": func(f *file) {
		// go func(){...}() without parameters  =>  go helper(free variables)
		f.each(func(n ast.Node, path []ast.Node) {
			var c *ast.CallExpr
			switch s := n.(type) {
			case *ast.GoStmt:
				c = s.Call
			default:
				return
			}
			fl, ok := c.Fun.(*ast.FuncLit)
			if !ok || len(c.Args) > 0 {
				return
			}
			vars, written, bad := f.free(fl.Pos(), fl.End(), []ast.Node{fl.Body})
			if bad {
				return
			}
			for _, v := range vars {
				if written[v] || f.assignedTwice(v) {
					return
				}
			}
			decl, args, ok := f.params(vars)
			if !ok {
				return
			}
			h := f.helper()
			if f.put(fl.Pos(), c.End(), h+"("+args+")") {
				f.extra = append(f.extra, "func "+h+"("+decl+") "+f.text(fl.Body))
			}
		})
	},
	"block": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			es, ok := n.(*ast.ExprStmt)
			if !ok || !inList(path, n) {
				return
			}
			f.put(es.Pos(), es.End(), "{\n"+f.text(es)+"\n}")
		})
	},
	"wrap-iife": func(f *file) {
		f.each(func(n ast.Node, path []ast.Node) {
			es, ok := n.(*ast.ExprStmt)
			if !ok || !inList(path, n) {
				return
			}
			if c, ok := es.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return
				}
				f.put(es.Pos(), es.End(), "func() {\n"+f.text(es)+"\n}()")
			}
		})
	},
	"const-name": func(f *file) {
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return
			}
			k++
			nm := fmt.Sprintf("zk%d%s", k, f.helper())
			if f.put(b.Pos(), b.End(), nm) {
				f.extra = append(f.extra, "const "+nm+" = "+b.Value)
			}
		})
	},
	"noop": func(f *file) {
		k := 0
		f.each(func(n ast.Node, path []ast.Node) {
			if b, ok := n.(*ast.BlockStmt); ok {
				switch path[len(path)-1].(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					return
				}
				k++
				f.put(b.Lbrace+1, b.Lbrace+1, fmt.Sprintf("\nzn%d := 0\n_ = zn%d\n", k, k))
			}
		})
	},
}

func (f *file) assignedTwice(v *types.Var) bool {
	n := 0
	ast.Inspect(f.f, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if id, ok := l.(*ast.Ident); ok && f.p.TypesInfo.ObjectOf(id) == v {
					n++
				}
			}
		}
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id, ok := u.X.(*ast.Ident); ok && f.p.TypesInfo.ObjectOf(id) == v {
				n += 2
			}
		}
		return true
	})
	return n > 1
}

// results visits the return statements with the result types of their function.
func (f *file) results(fn func(r *ast.ReturnStmt, sig *types.Tuple)) {
	f.each(func(n ast.Node, path []ast.Node) {
		r, ok := n.(*ast.ReturnStmt)
		if !ok {
			return
		}
		for i := len(path) - 1; i >= 0; i-- {
			switch x := path[i].(type) {
			case *ast.FuncLit:
				if s, ok := f.typeOf(x).(*types.Signature); ok {
					fn(r, s.Results())
				}
				return
			case *ast.FuncDecl:
				if o, ok := f.p.TypesInfo.Defs[x.Name].(*types.Func); ok {
					if x.Type.TypeParams == nil {
						fn(r, o.Type().(*types.Signature).Results())
					}
				}
				return
			}
		}
	})
}

// fixReturns: nothing to do when every path still returns; the compiler tells otherwise.
func (f *file) fixReturns() {
	f.always = true
	// functions whose last statement is no longer terminating would not compile: end them with a panic
	f.funcs(func(fd *ast.FuncDecl) {
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
			return
		}
		f.put(fd.Body.Rbrace, fd.Body.Rbrace, "\npanic(\"unreachable\")\n")
	})
	f.each(func(n ast.Node, path []ast.Node) {
		if fl, ok := n.(*ast.FuncLit); ok && fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			f.put(fl.Body.Rbrace, fl.Body.Rbrace, "\npanic(\"unreachable\")\n")
		}
	})
}

func (f *file) hoist(stmt ast.Stmt, x ast.Expr) {
	c, ok := x.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 || c.Ellipsis != token.NoPos {
		return
	}
	if tv, ok := f.p.TypesInfo.Types[c.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
		return
	}
	if !pure(c.Fun) {
		return
	}
	sig, ok := f.typeOf(c.Fun).(*types.Signature)
	if !ok {
		return
	}
	pre := ""
	var args []string
	if len(c.Args) == 1 {
		if t, ok := f.typeOf(c.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			return
		}
	}
	for i, a := range c.Args {
		tv := f.p.TypesInfo.Types[a]
		if tv.IsNil() || tv.Value != nil {
			args = append(args, f.text(a))
			continue
		}
		_ = sig
		nm := fmt.Sprintf("za%d", i)
		pre += nm + " := " + f.text(a) + "\n"
		args = append(args, nm)
	}
	if pre == "" {
		return
	}
	if as, ok := stmt.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
		// the defined names stay visible: no block; unique names
		for i := range args {
			u := f.helper()
			old := fmt.Sprintf("za%d", i)
			if args[i] == old {
				args[i] = u
				pre = strings.Replace(pre, old+" := ", u+" := ", 1)
			}
		}
		f.put(stmt.Pos(), stmt.End(), pre+f.span(stmt.Pos(), c.Lparen+1)+strings.Join(args, ", ")+")")
		return
	}
	f.put(stmt.Pos(), stmt.End(), "{\n"+pre+f.span(stmt.Pos(), c.Lparen+1)+strings.Join(args, ", ")+")\n}")
}

func (f *file) extractStmts(ifs bool) {
	f.each(func(n ast.Node, path []ast.Node) {
		if !inList(path, n) {
			return
		}
		switch s := n.(type) {
		case *ast.ExprStmt:
			if ifs {
				return
			}
			if c, ok := s.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "panic" || id.Name == "recover") {
					return
				}
			}
		case *ast.AssignStmt:
			if ifs || s.Tok == token.DEFINE {
				return
			}
		case *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.GoStmt:
			if !ifs {
				return
			}
		default:
			return
		}
		if returns(n) || defersIn(n) || has(n, true, func(x ast.Node) bool { _, ok := x.(*ast.LabeledStmt); return ok }) {
			return
		}
		if escapingBranch(n) {
			return
		}
		if has(n, true, func(x ast.Node) bool {
			c, ok := x.(*ast.CallExpr)
			if !ok {
				return false
			}
			id, ok := c.Fun.(*ast.Ident)
			return ok && id.Name == "recover"
		}) {
			return
		}
		vars, written, bad := f.free(n.Pos(), n.End(), []ast.Node{n})
		if bad {
			return
		}
		for _, v := range vars {
			if written[v] || f.typeParam(v.Type()) || has(n, false, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) && f.assignedTwice(v) {
				return
			}
		}
		decl, args, ok := f.params(vars)
		if !ok {
			return
		}
		h := f.helper()
		if f.put(n.Pos(), n.End(), h+"("+args+")") {
			f.extra = append(f.extra, "func "+h+"("+decl+") {\n"+f.text(n)+"\n}")
		}
	})
}

func (f *file) typeParam(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "T" || strings.Contains(s, "[T]") || strings.HasSuffix(s, "*T")
}

// escapingBranch: a break or continue that leaves n.
func escapingBranch(n ast.Node) bool {
	bad := false
	var walk func(x ast.Node, brk, cont bool)
	walk = func(x ast.Node, brk, cont bool) {
		ast.Inspect(x, func(y ast.Node) bool {
			if y == nil || y == x {
				return true
			}
			switch z := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(z, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(z, true, cont)
				return false
			case *ast.BranchStmt:
				if z.Label != nil || z.Tok == token.GOTO || z.Tok == token.BREAK && !brk || z.Tok == token.CONTINUE && !cont {
					bad = true
				}
			}
			return true
		})
	}
	switch n.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		walk(n, true, true)
	case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		walk(n, true, false)
	default:
		walk(n, false, false)
	}
	return bad
}

func (f *file) extractExpr(e ast.Expr, path []ast.Node) {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit, *ast.FuncLit:
		return
	case *ast.UnaryExpr:
		if x.Op == token.AND || x.Op == token.ARROW {
			return
		}
	case *ast.CallExpr:
		if tv, ok := f.p.TypesInfo.Types[x.Fun]; ok && tv.IsBuiltin() {
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "recover" {
				return
			}
		}
	case *ast.TypeAssertExpr, *ast.IndexExpr:
		return // may have two results
	}
	tv := f.p.TypesInfo.Types[e]
	if tv.IsNil() || tv.Type == nil {
		return
	}
	f.extractAs(e, types.Default(tv.Type))
}

func (f *file) extractAs(e ast.Expr, t types.Type) {
	tt := ""
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 0 {
			return
		}
		var ps []string
		for i := 0; i < tu.Len(); i++ {
			x := f.typ(tu.At(i).Type())
			if x == "" {
				return
			}
			ps = append(ps, x)
		}
		tt = "(" + strings.Join(ps, ", ") + ")"
	} else if tt = f.typ(t); tt == "" {
		return
	}
	vars, written, bad := f.free(e.Pos(), e.End(), []ast.Node{e})
	if bad || strings.Contains(tt, "T]") || tt == "T" || strings.HasSuffix(tt, "*T") {
		return
	}
	for _, v := range vars {
		if written[v] || f.typeParam(v.Type()) {
			return
		}
		if has(e, false, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) && f.assignedTwice(v) {
			return
		}
	}
	decl, args, ok := f.params(vars)
	if !ok {
		return
	}
	h := f.helper()
	if f.put(e.Pos(), e.End(), h+"("+args+")") {
		f.extra = append(f.extra, "func "+h+"("+decl+") "+tt+" {\nreturn "+f.text(e)+"\n}")
	}
}

// tail moves the statements of fd from k on into a function of their own.
func (f *file) tail(fd *ast.FuncDecl, k int) {
	b := fd.Body.List
	if k < 1 || k >= len(b) || fd.Type.TypeParams != nil {
		return
	}
	from := b[k].Pos()
	var nodes []ast.Node
	for _, s := range b[k:] {
		nodes = append(nodes, s)
		if has(s, true, func(x ast.Node) bool { _, ok := x.(*ast.LabeledStmt); return ok }) || defersIn(s) {
			return
		}
	}
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			if len(r.Names) > 0 {
				return
			}
		}
	}
	vars, written, bad := f.free(from, fd.Body.Rbrace, nodes)
	if bad {
		return
	}
	// captured or addressed before: not a copy
	for _, v := range vars {
		if f.typeParam(v.Type()) {
			return
		}
		shared := false
		for _, s := range b[:k] {
			if has(s, false, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					return has(y, false, func(z ast.Node) bool {
						id, ok := z.(*ast.Ident)
						return ok && f.p.TypesInfo.ObjectOf(id) == v
					})
				case *ast.UnaryExpr:
					if y.Op == token.AND {
						return has(y.X, false, func(z ast.Node) bool {
							id, ok := z.(*ast.Ident)
							return ok && f.p.TypesInfo.ObjectOf(id) == v
						})
					}
				}
				return false
			}) {
				shared = true
			}
		}
		if _, isPtr := v.Type().Underlying().(*types.Pointer); shared && (written[v] || f.assignedTwice(v)) && !isPtr {
			return
		}
		if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct {
			return // holds state (locks, groups)
		}
	}
	decl, args, ok := f.params(vars)
	if !ok {
		return
	}
	res := ""
	h := f.helper()
	call := h + "(" + args + ")"
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		res = f.text(fd.Type.Results)
		if !strings.HasPrefix(res, "(") {
			res = " " + res
		}
		call = "return " + call
	}
	if f.put(from, fd.Body.Rbrace, call+"\n") {
		f.extra = append(f.extra, "func "+h+"("+decl+")"+res+" {\n"+f.span(from, fd.Body.Rbrace)+"}")
	}
}

func (f *file) replaceIn(b *ast.BlockStmt, fn func(ast.Node) (string, bool)) string {
	g := &file{src: f.src, base: f.base}
	save := modN
	modN = 0
	ast.Inspect(b, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if t, ok := fn(n); ok {
			g.put(n.Pos(), n.End(), t)
		}
		return true
	})
	modN = save
	from, to := g.off(b.Lbrace+1), g.off(b.Rbrace)
	out := ""
	at := from
	for _, e := range g.edits {
		out += string(g.src[at:e.from]) + e.text
		at = e.to
	}
	return out + string(g.src[at:to])
}
