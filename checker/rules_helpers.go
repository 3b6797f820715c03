package main

import (
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "E01", Run: runE01, Method: "path-sensitive value analysis of error codes and their comparisons",
		Expl:   "Every path of making, reading, deriving and comparing error codes is decided: a code keeps the number and text it was made with, a business code is positive or refused, no error is the success code, an error that carries a code answers that code, any other error with a text is never the success code, and two codes are equal exactly if their numbers are, with an absent one counting as success.",
		Assume: []string{"errors.Cause of github.com/pkg/errors unwraps to the innermost cause"}})
	register(&Prop{ID: "L12", Run: runL12, Method: "path-sensitive value analysis of the helper functions",
		Expl:   "Every path of the string, slice and file helpers is decided against what they are named after: membership is answered by an equality that was decided for an element or for all of them, a name is cut exactly at its last dot with no index out of range, a file exists exactly if asking for it did not fail, and an attribute carries its own key and the value given.",
		Assume: []string{"os.Stat, strings.LastIndex and their like do what they document"}})
}

func runE01(c *Check) {
	p := c.P
	c.Rule("made", "a code keeps the number and text it was made with, and a business code is positive or refused")
	c.Rule("success", "the success code is zero without text, and no error is success")
	c.Rule("cause", "an error that carries a code answers it, and any other error with a text a negative code with that text")
	c.Rule("equal", "two codes are equal exactly if their numbers are, an absent one counting as success")
	c.Rule("accessor", "an accessor of a code answers what it is named after")
	const rel = "lib/errcode"
	n := p.Named(rel, "Code")
	if n == nil {
		c.Missing("errcode.Code")
		return
	}
	st := structOf(n)
	var num *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			num = st.Field(i)
		}
	}
	if num == nil {
		c.Missing("the number of errcode.Code")
		return
	}
	code := p.MethodN(n, "Code")
	c.accessor(code, num.Name())
	// the text is the field Error answers
	var text *types.Var
	ef := p.MethodN(n, "Error")
	if c.Anchor(ef, "Code.Error") {
		for _, pa := range c.Walk(ef, WalkOpts{}).Paths {
			if pa.Outcome == Returned {
				text = fieldVar(pa.Ret[0])
			}
		}
	}
	if !c.Expect(text != nil, "accessor", "lib/errcode.Code.Error", ef.Pos(), "the error's text is not answered", nil) {
		return
	}
	c.accessor(p.MethodN(n, "Message"), text.Name())
	if d := p.MethodN(n, "Details"); d != nil {
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f != num && f != text && isStringT(f.Type()) {
				c.accessor(d, f.Name())
			}
		}
	}
	// what a code is made of
	parts := func(pa *Path, t *Term) (no, tx *Term) {
		v := structVals(pa, stripAll(t))
		return v[num.Name()], v[text.Name()]
	}
	for _, it := range []struct {
		name string
		pos  bool
	}{{"New", true}, {"Add", false}} {
		fn := p.Func(rel, it.name)
		if !c.Anchor(fn, it.name) {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			lo, hi := pa.St.interval(tParam(fn, 0))
			if pa.Outcome == Panicked {
				c.Expect(it.pos && hi <= 0, "made", fnName(fn)+" refused", fn.Pos(), "a positive code is refused", pa)
				continue
			}
			if it.pos {
				c.Expect(lo >= 1, "made", fnName(fn)+" positive", fn.Pos(), "a business code that is not positive is accepted", pa)
			}
			no, tx := parts(pa, pa.Ret[0])
			c.Expect(no != nil && tx != nil && sameID(no, tParam(fn, 0)) && sameID(tx, tParam(fn, 1)), "made", fnName(fn), fn.Pos(), "the code does not have the number and text given", pa)
		}
	}
	// success
	var ok0 types.Object
	if pk := p.Pkg(rel); pk != nil {
		ok0 = pk.Scope().Lookup("OK")
	}
	if ok0 == nil {
		c.Missing("the success code")
		return
	}
	isOK := func(t *Term) bool {
		t = stripAll(t)
		for t.Op == "load" {
			t = t.Args[0]
		}
		return t.Op == "global" && t.Obj == ok0
	}
	zero := false
	var okFn *ssa.Function
	if call, ok := p.globalInit(ok0).(*ssa.Call); ok {
		okFn = call.Parent()
		if cal := call.Call.StaticCallee(); cal != nil && len(call.Call.Args) > 1 {
			a, ok1 := call.Call.Args[0].(*ssa.Const)
			b, ok2 := call.Call.Args[1].(*ssa.Const)
			if ok1 && ok2 && a.Value != nil && b.Value != nil {
				i, ex := constant.Int64Val(a.Value)
				zero = ex && i == 0 && constant.StringVal(b.Value) == ""
				for _, pa := range c.Walk(cal, WalkOpts{}).Paths {
					if pa.Outcome == Returned {
						no, tx := parts(pa, pa.Ret[0])
						zero = zero && no != nil && tx != nil && sameID(no, tParam(cal, 0)) && sameID(tx, tParam(cal, 1))
					}
				}
			}
		}
	}
	pos := ok0.Pos()
	c.Expect(zero, "success", "lib/errcode.OK", pos, "the success code is not zero without text", nil)
	_ = okFn
	c.immutableGlobal("success", ok0)
	// String and Cause
	plain := func(con string, fn *ssa.Function, pa *Path, r *Term, given func(*Term) bool, emptyOK bool) {
		if isOK(r) {
			e := false
			for k, v := range pa.St.assume {
				if t := pa.St.terms[k]; v && t != nil && t.Op == "bin" && t.S == "==" && len(t.Args) == 2 {
					s, is := t.Args[1].StrConst()
					e = e || is && s == "" && given(t.Args[0])
				}
			}
			c.Expect(emptyOK && e, "cause", con+" text", fn.Pos(), "an error with a text is taken for success", pa)
			return
		}
		no, tx := parts(pa, r)
		if !c.Expect(no != nil && tx != nil, "cause", con+" plain", fn.Pos(), "a plain error has no code", pa) {
			return
		}
		i, is := no.IntConst()
		c.Expect(is && i < 0, "cause", con+" negative", fn.Pos(), "a plain error has a business or the success code", pa)
		c.Expect(given(tx), "cause", con+" kept", fn.Pos(), "a plain error loses its text", pa)
	}
	if fn := p.Func(rel, "String"); c.Anchor(fn, "errcode.String") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome == Returned {
				plain(fnName(fn), fn, pa, pa.Ret[0], func(t *Term) bool { return sameID(t, tParam(fn, 0)) }, true)
				empty := pa.True("==", tParam(fn, 0), constStr(""))
				c.Expect(empty == 0 || isOK(pa.Ret[0]), "success", fnName(fn)+" empty", fn.Pos(), "the empty text is not success", pa)
			} else {
				c.Expect(pa.Outcome == Cut, "cause", fnName(fn)+" end", fn.Pos(), "reading a code crashes", pa)
			}
		}
	}
	if fn := p.Func(rel, "Cause"); c.Anchor(fn, "errcode.Cause") {
		con := fnName(fn)
		in := tParam(fn, 0)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "cause", con+" end", fn.Pos(), "reading the code of an error crashes", pa) {
				continue
			}
			switch pa.nil(in) {
			case IsNil:
				c.Expect(isOK(pa.Ret[0]), "success", con+" none", fn.Pos(), "no error is not success", pa)
				continue
			case Unknown:
				c.Expect(false, "success", con+" decided", fn.Pos(), "an error is used without having been found", pa)
				continue
			}
			var carried *Term
			asked := false
			for _, e := range pa.Events {
				c.Expect(!mayFail(pa, e), "cause", con+" assertion", e.Pos, "reading the code of an error crashes", pa)
				if e.Kind == EvAssert && strings.HasSuffix(e.Name, "errcode.Codes") {
					asked = true
					if pa.St.Truth(&Term{Op: "is", S: e.Name, Args: []*Term{e.Recv}}) == 1 {
						carried = e.Recv
					}
					x := callOf(pa, e.Recv, func(x *Event) bool { return strings.HasSuffix(x.Name, "pkg/errors.Cause") })
					c.Expect(x != nil && sameID(x.Args[0], in) || sameID(stripAll(e.Recv), in), "cause", con+" cause", e.Pos, "another error's code is asked for", pa)
				}
				if e.Kind == EvCall && e.Name == "errors.As" && sameID(e.Args[0], in) {
					asked = true
					if pa.St.Truth(e.Res) == 1 {
						carried = e.Args[1]
					}
				}
			}
			if carried != nil {
				r := stripAll(pa.Ret[0])
				c.Expect(sameID(r, stripAll(carried)) || r.Mentions(stripAll(carried).ID()), "cause", con+" carried", fn.Pos(), "the code an error carries is not answered", pa)
				continue
			}
			decided := asked
			for _, e := range pa.Events {
				if e.Kind == EvAssert && strings.HasSuffix(e.Name, "errcode.Codes") && pa.St.Truth(&Term{Op: "is", S: e.Name, Args: []*Term{e.Recv}}) != 0 {
					decided = false
				}
				if e.Kind == EvCall && e.Name == "errors.As" && pa.St.Truth(e.Res) != 0 {
					decided = false
				}
			}
			c.Expect(decided, "cause", con+" asked", fn.Pos(), "whether the error carries a code is not asked", pa)
			plain(con, fn, pa, pa.Ret[0], func(t *Term) bool {
				x := callOf(pa, t, func(x *Event) bool { return isCall(x, "(error).Error") })
				return x != nil && sameID(x.Recv, in)
			}, true)
		}
	}
	// comparisons
	codeOf := func(pa *Path, t, of *Term) bool {
		if of == nil {
			return false
		}
		if pa.nil(of) == IsNil || isOK(of) {
			i, is := t.IntConst()
			if is && i == 0 {
				return true
			}
			return fieldVar(t) == num && len(stripAll(t).Args) > 0 && rootedAt(t, isOK)
		}
		if stripAll(of).Op == "struct" {
			no, _ := parts(pa, of)
			return no != nil && sameID(t, no)
		}
		x := callOf(pa, t, func(x *Event) bool { return strings.HasSuffix(x.Name, "errcode.Codes).Code") || strings.HasSuffix(x.Name, "errcode.Code).Code") })
		if x != nil {
			return sameID(stripAll(x.Recv), stripAll(of))
		}
		return fieldVar(t) == num && rootedAt(t, func(r *Term) bool { return sameID(r, stripAll(of)) })
	}
	compared := func(con string, fn *ssa.Function, pa *Path, a, b *Term) {
		r := notNot(pa.Ret[0])
		good := func(t *Term) bool {
			return t != nil && t.Op == "bin" && t.S == "==" && (codeOf(pa, t.Args[0], a) && codeOf(pa, t.Args[1], b) || codeOf(pa, t.Args[1], a) && codeOf(pa, t.Args[0], b))
		}
		ok := good(r)
		if v, is := r.BoolConst(); is {
			for k, w := range pa.St.assume {
				ok = ok || good(pa.St.terms[k]) && v == w
			}
			ok = ok || v && (pa.nil(a) == IsNil || isOK(a)) && (pa.nil(b) == IsNil || isOK(b))
		}
		c.Expect(ok, "equal", con, fn.Pos(), "two codes are not compared by their numbers, an absent one as success", pa)
	}
	if fn := p.Func(rel, "Equal"); c.Anchor(fn, "errcode.Equal") {
		none := [2]bool{}
		defer func() {
			c.Expect(none[0] && none[1], "equal", fnName(fn)+" absent", fn.Pos(), "comparing an absent code crashes", nil)
		}()
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			for i := range none {
				none[i] = none[i] || pa.Outcome == Returned && pa.nil(tParam(fn, i)) == IsNil
				for _, e := range pa.Events {
					if e.Kind == EvCall && e.Invoke && sameID(e.Recv, tParam(fn, i)) {
						c.Expect(decidedNonNil(pa, e, e.Recv), "equal", fnName(fn)+" decided", e.Pos, "comparing an absent code crashes", pa)
					}
				}
			}
			if pa.Outcome != Cut && c.Expect(pa.Outcome == Returned && pa.nil(tParam(fn, 0)) != Unknown && pa.nil(tParam(fn, 1)) != Unknown, "equal", fnName(fn)+" end", fn.Pos(), "comparing an absent code crashes", pa) {
				compared(fnName(fn), fn, pa, tParam(fn, 0), tParam(fn, 1))
			}
		}
	}
	cause := p.Func(rel, "Cause")
	for _, fn := range []*ssa.Function{p.Func(rel, "EqualError"), p.MethodN(n, "Equal")} {
		if !c.Anchor(fn, "comparison with an error") || cause == nil {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{Opaque: []string{"lib/errcode.Cause"}}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			var got *Term
			for _, e := range pa.Events {
				if isCall(e, "lib/errcode.Cause") && sameID(e.Args[0], tParam(fn, 1)) {
					got = e.Res
				}
			}
			if c.Expect(pa.Outcome == Returned && got != nil, "equal", fnName(fn)+" asked", fn.Pos(), "the error's code is not asked for", pa) {
				compared(fnName(fn), fn, pa, tParam(fn, 0), got)
			}
		}
	}
	c.Min("made", 4)
	c.Min("success", 3)
	c.Min("cause", 5)
	c.Min("equal", 6)
	c.Min("accessor", 3)
}

// rootedAt: a field of something.
func rootedAt(t *Term, is func(*Term) bool) bool {
	r, _ := stripAll(t).FieldPath()
	return r != nil && is(r) || len(stripAll(t).Args) > 0 && is(stripAll(t).Args[0])
}

func constStr(s string) *Term {
	return &Term{Op: "const", C: constant.MakeString(s), T: types.Typ[types.String]}
}

// immutableGlobal: nothing but its initialiser stores to a package variable.
func (c *Check) immutableGlobal(rule string, obj types.Object) {
	for _, fn := range c.P.Fns {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && g.Object() == obj {
					c.Expect(false, rule, fnName(fn)+" changes "+obj.Name(), st.Pos(), "a package's constant value is changed", nil)
				}
			}
		}
	}
}

func runL12(c *Check) {
	p := c.P
	c.Rule("contains", "a list contains a text exactly if one of its elements equals it")
	c.Rule("name", "a file name is cut at its last dot, and one without a dot has neither part")
	c.Rule("exists", "a file exists exactly if asking for it does not fail")
	c.Rule("attr", "an attribute has its own key and the value given")
	if fn := p.Func("utils/algorithms", "ContainsInSlice"); c.Anchor(fn, "ContainsInSlice") {
		con := fnName(fn)
		list, item := tParam(fn, 0), tParam(fn, 1)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 3}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "contains", con+" end", fn.Pos(), "searching a list crashes", pa) {
				continue
			}
			r := pa.Ret[0].Strip()
			if r.Op == "call" {
				x := callOf(pa, r, func(x *Event) bool { return x.Name == "slices.Contains" })
				c.Expect(x != nil && sameID(x.Args[0], list) && sameID(x.Args[1], item), "contains", con, fn.Pos(), "the list is not searched for the text", pa)
				continue
			}
			v, is := r.BoolConst()
			if !c.Expect(is, "contains", con, fn.Pos(), "undecided: the answer is no constant on a path", pa) {
				continue
			}
			hit, miss := false, map[int64]bool{}
			end := int64(-1)
			for k, w := range pa.St.assume {
				t := pa.St.terms[k]
				if t == nil || t.Op != "bin" || len(t.Args) != 2 {
					continue
				}
				if t.S == "==" {
					for i := 0; i < 2; i++ {
						if a := stripAll(t.Args[i]); a.Op == "load" && a.Args[0].Op == "index" && sameID(a.Args[0].Args[0], list) && sameID(t.Args[1-i], item) {
							n, ok := a.Args[0].Args[1].IntConst()
							hit = hit || w
							if ok && !w {
								miss[n] = true
							}
						}
					}
				}
				if t.S == "<" && !w && t.Args[1].Op == "len" && sameID(t.Args[1].Args[0], list) {
					if n, ok := t.Args[0].IntConst(); ok {
						end = n
					}
				}
			}
			if v {
				c.Expect(hit, "contains", con+" found", fn.Pos(), "a text is found that no element equals", pa)
				continue
			}
			all := end >= 0
			for i := int64(0); i < end; i++ {
				all = all && miss[i]
			}
			c.Expect(all && !hit, "contains", con+" missed", fn.Pos(), "a text is not found although an element may equal it", pa)
		}
	}
	for _, it := range []struct {
		name string
		ext  bool
	}{{"GetFileExt", true}, {"GetFileRealName", false}} {
		fn := p.Func("utils/file", it.name)
		if !c.Anchor(fn, it.name) {
			continue
		}
		con := fnName(fn)
		name := tParam(fn, 0)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "name", con+" end", fn.Pos(), "cutting a name crashes", pa) {
				continue
			}
			var idx *Term
			for _, e := range pa.Events {
				if e.Kind == EvCall && (e.Name == "strings.LastIndex" || e.Name == "strings.LastIndexByte" || e.Name == "strings.LastIndexAny") && sameID(e.Args[0], name) && isDot(e.Args[1]) {
					idx = e.Res
				}
			}
			r := stripAll(pa.Ret[0])
			if s, is := r.StrConst(); is && s == "" {
				none := pa.True("==", name, constStr("")) == 1
				if idx != nil {
					_, hi := pa.St.interval(idx)
					none = none || hi < 0 || !it.ext && hi <= 0
				}
				c.Expect(none, "name", con+" without", fn.Pos(), "a name with a dot has no part", pa)
				continue
			}
			ok := r.Op == "slice" && idx != nil && sameID(r.Args[0], name)
			if ok && it.ext {
				ok = sameID(r.Args[1], idx) && r.Args[2].Op == "len" && sameID(r.Args[2].Args[0], name)
			} else if ok {
				n, z := r.Args[1].IntConst()
				ok = z && n == 0 && sameID(r.Args[2], idx)
			}
			c.Expect(ok, "name", con, fn.Pos(), "a name is not cut at its last dot", pa)
			if idx != nil {
				lo, _ := pa.St.interval(idx)
				has := lo >= 0 || pa.True("==", idx, &Term{Op: "const", C: constant.MakeInt64(-1), T: types.Typ[types.Int]}) == 0
				c.Expect(has, "name", con+" dot", fn.Pos(), "a name without a dot crashes the cut", pa)
			}
		}
	}
	if fn := p.Func("utils/file", "Exist"); c.Anchor(fn, "Exist") {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			var st *Event
			for _, e := range pa.Events {
				if isCall(e, "os.Stat", "os.Lstat") && sameID(e.Args[0], tParam(fn, 0)) {
					st = e
				}
			}
			if !c.Expect(st != nil, "exists", con+" asked", fn.Pos(), "the file given is not asked for", pa) {
				continue
			}
			err := extract(st.Res, 1)
			r := notNot(pa.Ret[0])
			switch v, is := r.BoolConst(); {
			case is && v:
				c.Expect(pa.nil(err) == IsNil || saysExist(pa, err) == 1, "exists", con, fn.Pos(), "a file is taken to exist although asking failed", pa)
			case is:
				c.Expect(pa.nil(err) == NonNil && saysExist(pa, err) != 1, "exists", con, fn.Pos(), "a file that exists is taken not to", pa)
			default:
				x := callOf(pa, r, func(x *Event) bool { return isCall(x, "os.IsExist") })
				eq := r.Op == "bin" && r.S == "==" && sameID(r.Args[0], err) && r.Args[1].IsNilConst()
				c.Expect(x != nil && sameID(x.Args[0], err) && pa.nil(err) == NonNil || eq, "exists", con, fn.Pos(), "whether a file exists is not what asking said", pa)
			}
		}
	}
	// attributes
	keys := map[string]*ssa.Function{}
	for _, fn := range p.Fns {
		if relPkg(fn) != "def" || fn.Signature.Results().Len() != 1 || !typeIs(fn.Signature.Results().At(0).Type(), modPath+"/router/msg.Attr") || fn.Parent() != nil || !slices.Contains(p.Entries([]*ssa.Function{fn}), fn) {
			continue
		}
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{Extra: []string{"router/msg"}}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			v := structVals(pa, stripAll(pa.Ret[0]))
			k, is := orNil(v["Key"]).StrConst()
			c.Expect(is && k != "" && (keys[k] == nil || keys[k] == fn), "attr", con+" key", fn.Pos(), "an attribute does not have a key of its own", pa)
			if is {
				keys[k] = fn
			}
			c.Expect(v["Value"] != nil && sameID(stripAll(v["Value"]), tParam(fn, 0)), "attr", con, fn.Pos(), "an attribute does not have the value given", pa)
		}
	}
	c.Min("contains", 3)
	c.Min("name", 4)
	c.Min("exists", 2)
	c.Min("attr", 4)
}

func saysExist(pa *Path, err *Term) int {
	for _, e := range pa.Events {
		if isCall(e, "os.IsExist") && sameID(e.Args[0], err) {
			return pa.St.Truth(e.Res)
		}
	}
	return -1
}

func isDot(t *Term) bool {
	if s, ok := t.StrConst(); ok {
		return s == "."
	}
	n, ok := t.IntConst()
	return ok && n == '.'
}

// notNot takes double negations away.
func notNot(t *Term) *Term {
	t = t.Strip()
	for t.Op == "un" && t.S == "!" {
		in := t.Args[0].Strip()
		if in.Op == "bin" && in.S == "!=" {
			return &Term{Op: "bin", S: "==", Args: in.Args, T: in.T}
		}
		if in.Op != "un" || in.S != "!" {
			break
		}
		t = in.Args[0].Strip()
	}
	return t
}
