package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L01", Run: runL01, Method: "path-sensitive provenance analysis of signing and parsing, with key and algorithm agreement",
		Expl: "On every path of token creation and parsing, a token is decided to be the signature of claims that carry exactly the entity given, with an HMAC method and the key the parser verifies with, and an entity to be handed out only after verification succeeded; the claims' own check is decided to refuse an empty entity."})
	register(&Prop{ID: "L06", Run: runL06, Method: "path summaries compared with the specification over every relative order of the versions involved; lock analysis of the list",
		Expl: "The list of strategies is decided to be touched only under its lock and to grow by exactly the strategy registered. The comparisons on every path of the lookups are evaluated for every relative order of the versions involved, and the result has to be the one specified."})
	register(&Prop{ID: "L07", Run: runL07, Method: "path-sensitive effect analysis of the file helpers: flags, content, release",
		Expl: "On every path of the exported save and read helpers, the file is decided to be opened truncating and creating (or replaced whole), to be written exactly the bytes given, to be read whole, and to be closed."})
	register(&Prop{ID: "L08", Run: runL08, Method: "path-sensitive dispatch analysis of every logging helper, for every level",
		Expl: "Every exported helper is decided to log once at the level it is named after, with its own values, and the implementation's paths are evaluated for every level: exactly one record, at that level, if it is enabled, and none if it is not."})
}

// ---------------------------------------------------------------- L01

const jwtLib = "github.com/golang-jwt/jwt"

// emptyText: whether the path decided that a string is empty.
func emptyText(pa *Path, is func(*Term) bool) int {
	for _, k := range sortedKeys(pa.St.assume) {
		v := pa.St.assume[k]
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		isLen := func(x *Term) bool { return x.Op == "len" && is(x.Args[0].Strip()) }
		num := func(x *Term, n int64) bool { m, ok := x.IntConst(); return ok && m == n }
		empty := func(x *Term) bool { s, ok := x.StrConst(); return ok && s == "" }
		switch {
		case t.S == "==" && (is(a.Strip()) && empty(b) || is(b.Strip()) && empty(a)):
			return b2i(v)
		case t.S == "==" && (isLen(a) && num(b, 0) || isLen(b) && num(a, 0)):
			return b2i(v)
		case t.S == "<" && num(a, 0) && isLen(b):
			return 1 - b2i(v)
		case t.S == "<" && isLen(a) && num(b, 1):
			return b2i(v)
		}
	}
	return -1
}

// fromJWT: functions of the jwt library, any version.
func fromJWT(e *Event, name string) bool {
	return e.Kind == EvCall && e.Obj != nil && strings.HasPrefix(objPkg(e), jwtLib) && e.Obj.Name() == name
}

// keyText: the key's source, without the addresses of the path.
func keyText(t *Term) string {
	s := t.Strip()
	for s.Op == "conv" || s.Op == "iface" {
		s = s.Args[0].Strip()
	}
	return s.ID()
}

func runL01(c *Check) {
	c.Rule("create", "a token is the signature of claims with exactly the given entity, and none is made for an empty one")
	c.Rule("parse", "an entity is returned only if the token's signature and claims were verified")
	c.Rule("key", "tokens are verified with the key and algorithm family they are signed with")
	c.Rule("claims", "the claims' check refuses an empty entity")
	p := c.P
	isSign := func(in ssa.Instruction) bool { return callsNamed(in, jwtLib, "SignedString") }
	isParse := func(in ssa.Instruction) bool {
		return callsNamed(in, jwtLib, "ParseWithClaims", "Parse", "ParseUnverified")
	}
	keys := map[string]bool{}
	var claims *types.Named
	var ent *types.Var
	n := 0
	for _, fn := range p.Entries(p.FnsWith(isSign)) {
		n++
		con := fnName(fn)
		entity := stringParam(fn)
		if entity == nil || !lastIsErr(fn) {
			c.Missing(con + "'s entity and error")
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{Extra: []string{relPkg(fn)}}).Paths {
			if pa.Outcome != Returned {
				c.Expect(false, "create", con, fn.Pos(), "creating a token panics", pa)
				continue
			}
			fails := pa.nil(pa.Ret[1]) == NonNil
			c.Expect(fails || pa.nil(pa.Ret[1]) == IsNil || errOf(pa, pa.Ret[1]), "create", con+" decided", fn.Pos(), "undecided: whether the token was made", pa)
			empty := emptyText(pa, func(t *Term) bool { return t.ID() == entity.ID() })
			if fails {
				s, ok := pa.Ret[0].StrConst()
				c.Expect(ok && s == "", "create", con+" failed", fn.Pos(), "a token is returned with an error", pa)
				c.Expect(empty == 1 || signFailed(pa), "create", con+" refused", fn.Pos(), "a token is refused for an entity that is not empty", pa)
				continue
			}
			c.Expect(empty == 0, "create", con+" empty", fn.Pos(), "a token is made for an empty entity", pa)
			ok := false
			for i, e := range pa.Events {
				if !fromJWT(e, "SignedString") {
					continue
				}
				ok = pa.is(pa.Ret[0], extract(e.Res, 0)) && (pa.nil(extract(e.Res, 1)) == IsNil || pa.is(pa.Ret[1], extract(e.Res, 1)))
				keys[keyText(e.Args[0])] = true
				made := false
				for _, x := range pa.Events[:i] {
					if !fromJWT(x, "NewWithClaims") || x.Res.Strip().ID() != e.Recv.Strip().ID() {
						continue
					}
					made = true
					c.Expect(isHMAC(x.Args[0]), "key", con+" method", x.Pos, "the token is not signed with an HMAC method", pa)
					cl, f, v := claimsOf(pa, i, x.Args[1])
					if cl == nil {
						c.Missing("the claims' type")
						continue
					}
					claims, ent = cl, f
					c.Expect(v != nil && stripAll(v).ID() == entity.ID(), "create", con+" entity", x.Pos, "the token carries another entity than the one given", pa)
				}
				c.Expect(made, "create", con+" claims", e.Pos, "undecided: what is signed", pa)
			}
			c.Expect(ok, "create", con+" signed", fn.Pos(), "what is returned is not a signed token", pa)
		}
	}
	if n == 0 || claims == nil || ent == nil {
		c.Missing("a function that signs tokens")
		return
	}
	// parsing
	n = 0
	for _, fn := range p.Entries(p.FnsWith(isParse)) {
		n++
		con := fnName(fn)
		text := stringParam(fn)
		if text == nil || !lastIsErr(fn) {
			c.Missing(con + "'s token and error")
			continue
		}
		w := c.Walk(fn, WalkOpts{Extra: []string{relPkg(fn)}})
		for _, pa := range w.Paths {
			if pa.Outcome != Returned {
				c.Expect(false, "parse", con, fn.Pos(), "parsing a token panics", pa)
				continue
			}
			c.Expect(pa.nil(pa.Ret[1]) != Unknown, "parse", con+" decided", fn.Pos(), "undecided: whether the token was accepted", pa)
			var parsed *Event
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasPrefix(objPkg(e), jwtLib) {
					switch e.Obj.Name() {
					case "ParseWithClaims":
						parsed = e
					case "ParseUnverified", "Parse":
						c.Expect(false, "parse", con+" unverified", e.Pos, "the token is not verified against its claims", pa)
					}
					if e.Recv != nil && e.Obj.Name() == "ParseWithClaims" {
						for k, v := range structVals(pa, e.Recv) {
							if k == "SkipClaimsValidation" {
								b, ok := v.Strip().BoolConst()
								c.Expect(ok && !b, "parse", con+" skipped", e.Pos, "the claims are not validated", pa)
							}
						}
					}
				}
			}
			if parsed != nil {
				c.Expect(len(parsed.Args) > 2 && parsed.Args[0].Strip().ID() == text.ID(), "parse", con+" token", parsed.Pos, "another token is parsed than the one given", pa)
				gw := c.walkValue(w, pa, parsed.Args[2], WalkOpts{Extra: []string{relPkg(fn)}})
				if gw == nil {
					c.Expect(false, "key", con, parsed.Pos, "undecided: the key tokens are verified with", pa)
				} else {
					for _, gp := range gw.Paths {
						if gp.Outcome == Returned && gp.nil(gp.Ret[1]) == NonNil {
							continue
						}
						ok := gp.Outcome == Returned && keys[keyText(gp.Ret[0])]
						c.Expect(ok, "key", con, gw.root.Pos(), "tokens are verified with another key than they are signed with", gp)
						c.Expect(ok && isBytes(gp.Ret[0]), "key", con+" kind", gw.root.Pos(), "the key is of a kind that other algorithms accept", gp)
					}
				}
			}
			if pa.nil(pa.Ret[1]) == NonNil {
				s, ok := pa.Ret[0].StrConst()
				c.Expect(ok && s == "", "parse", con+" failed", fn.Pos(), "an entity is returned with an error", pa)
				continue
			}
			ok := parsed != nil && pa.nil(extract(parsed.Res, 1)) == IsNil
			c.Expect(ok, "parse", con+" verified", fn.Pos(), "an entity is returned for a token that was not verified", pa)
			if ok {
				r := pa.Ret[0].Strip()
				b, _ := r.FieldPath()
				ok = fieldVar(r) == ent && strings.TrimPrefix(stripAll(b).ID(), "&") == strings.TrimPrefix(stripAll(parsed.Args[1]).ID(), "&")
				c.Expect(ok, "parse", con+" entity", fn.Pos(), "another value is returned than the entity of the token's claims", pa)
			}
		}
	}
	c.Expect(n > 0, "parse", "token", token.NoPos, "no function verifies tokens", nil)
	// the key: one that never changes and is not empty
	for k := range keys {
		c.keyConst(k)
	}
	valid := p.MethodN(claims, "Valid")
	if !c.Anchor(valid, "the claims' check") {
		return
	}
	for _, pa := range c.Walk(valid, WalkOpts{Extra: []string{relPkg(valid)}}).Paths {
		if pa.Outcome != Returned {
			c.Expect(false, "claims", fnName(valid), valid.Pos(), "the check panics", pa)
			continue
		}
		empty := emptyText(pa, func(t *Term) bool { return fieldVar(t) == ent })
		if pa.nil(pa.Ret[0]) == NonNil {
			c.Expect(empty == 1, "claims", fnName(valid)+" refused", valid.Pos(), "claims with an entity are refused", pa)
		} else {
			c.Expect(empty == 0, "claims", fnName(valid), valid.Pos(), "claims without an entity are accepted", pa)
		}
	}
}

// keyConst: a global is assigned once, with text.
func (c *Check) keyConst(k string) {
	for _, pk := range c.P.SSA.AllPackages() {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || pk.Pkg == nil || !inScope(pk.Pkg.Path()) || !strings.HasSuffix(k, "."+g.Name()) || strings.TrimPrefix(k, "&") != pk.Pkg.Name()+"."+g.Name() {
				continue
			}
			v := c.P.globalInit(g.Object())
			s, isText := "", false
			if v != nil {
				s = c.P.constText(v)
				isText = true
			}
			c.Expect(v != nil && (!isText || s != ""), "key", "token key", g.Pos(), "the key is empty or changes", nil)
		}
	}
}

func isBytes(t *Term) bool {
	s := t
	for s.Op == "iface" && len(s.Args) > 0 {
		s = s.Args[0]
	}
	if s.T == nil {
		return false
	}
	sl, ok := s.T.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.Byte])
}

func isHMAC(t *Term) bool {
	s := stripAll(t)
	if s.Op == "load" {
		s = s.Args[0].Strip()
	}
	return strings.Contains(s.ID(), "jwt.SigningMethodHS")
}

// claimsOf: the claims' type, its entity field and what is stored there.
func claimsOf(pa *Path, at int, t *Term) (*types.Named, *types.Var, *Term) {
	s := t.Strip()
	for s.Op == "iface" || s.Op == "conv" {
		s = s.Args[0].Strip()
	}
	tt := s.T
	if p, ok := tt.(*types.Pointer); ok {
		tt = p.Elem()
	}
	n, ok := tt.(*types.Named)
	if !ok || structOf(n) == nil {
		return nil, nil, nil
	}
	f := FieldBy(n, "", func(v *types.Var) bool { b, ok := v.Type().(*types.Basic); return ok && b.Kind() == types.String })
	if f == nil {
		return nil, nil, nil
	}
	if m := structVals(pa, s); m[f.Name()] != nil {
		return n, f, m[f.Name()]
	}
	return n, f, deepVal(pa, at, s, f.Name())
}

func stringParam(fn *ssa.Function) *Term {
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return &Term{Op: "param", S: "$" + strconv.Itoa(i), N: i, T: p.Type()}
		}
	}
	return nil
}

func lastIsErr(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 2 && isErr(rs.At(1).Type())
}

// errOf: the value is the error result of signing.
func errOf(pa *Path, t *Term) bool {
	for _, e := range pa.Events {
		if fromJWT(e, "SignedString") && extract(e.Res, 1).Strip().ID() == t.Strip().ID() {
			return true
		}
	}
	return false
}

func signFailed(pa *Path) bool {
	for _, e := range pa.Events {
		if fromJWT(e, "SignedString") && pa.nil(extract(e.Res, 1)) == NonNil {
			return true
		}
	}
	return false
}

// callsNamed: the instruction calls a function of the package (or its versions) with one of the names.
func callsNamed(in ssa.Instruction, pkg string, names ...string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	var o *types.Func
	if ci.Common().IsInvoke() {
		o = ci.Common().Method
	} else if f := ci.Common().StaticCallee(); f != nil {
		o, _ = f.Object().(*types.Func)
	}
	return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), pkg) && contains(names, o.Name())
}

// ---------------------------------------------------------------- L06

func runL06(c *Check) {
	c.Rule("locked", "the list of strategies is only touched under its lock")
	c.Rule("register", "registering appends exactly the strategy given")
	c.Rule("found", "a strategy is found exactly by its version")
	c.Rule("next", "the next version is the smallest registered one above, or the version itself")
	p := c.P
	strat := p.Named("core", "VerStrategy")
	if strat == nil {
		c.Missing("VerStrategy")
		return
	}
	ver := FieldBy(strat, "", func(v *types.Var) bool { b, ok := v.Type().(*types.Basic); return ok && b.Info()&types.IsInteger != 0 })
	var list *ssa.Global
	for _, m := range p.SPkgs["core"].Members {
		if g, ok := m.(*ssa.Global); ok {
			if s, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), strat) {
				list = g
			}
		}
	}
	if ver == nil || list == nil {
		c.Missing("the list of strategies")
		return
	}
	isList := func(t *Term) bool {
		s := t.Strip()
		for s.Op == "load" {
			s = s.Args[0].Strip()
		}
		return s.Op == "global" && s.Obj == list.Object() || s.Op == "addr" && s.Obj == list.Object()
	}
	touches := func(in ssa.Instruction) bool {
		if fn := in.Parent(); fn != nil && fn.Name() == "init" {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op == list {
				return true
			}
		}
		return false
	}
	// the lock: held at every access, the same everywhere
	lock := ""
	for _, fn := range p.Entries(p.FnsWith(touches)) {
		con := fnName(fn)
		w := c.Walk(fn, WalkOpts{LoopBound: 2, Loads: true})
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				write := e.Kind == EvStore && isList(e.Recv)
				read := e.Kind == EvLoad && isList(e.Recv) || e.Kind == EvIndex && isList(e.Recv)
				if !write && !read {
					continue
				}
				held := ""
				for _, h := range e.Locks {
					if (!write || !h.Read) && (lock == "" || h.Lock == lock) {
						held = h.Lock
					}
				}
				if lock == "" {
					lock = held
				}
				c.Expect(held != "", "locked", con, e.Pos, "the list is touched without its lock", pa)
			}
			c.balanced("locked", con, pa)
		}
		takesStrategy := len(fn.Params) == 1 && types.Identical(fn.Params[0].Type(), strat)
		rs := fn.Signature.Results()
		switch {
		case takesStrategy:
			for _, pa := range w.Paths {
				if pa.Outcome != Returned {
					continue
				}
				n := 0
				for _, e := range pa.Events {
					if e.Kind == EvStore && isList(e.Recv) {
						n++
						v := e.Val.Strip()
						ok := v.Op == "append" && len(v.Args) == 2 && isList(v.Args[0])
						if ok {
							x := v.Args[1].Strip()
							ok = x.Op == "list" && len(x.Args) == 1 && x.Args[0].Strip().ID() == "$0"
						}
						c.Expect(ok, "register", con, e.Pos, "the list does not grow by exactly the strategy given", pa)
					}
				}
				c.Expect(n == 1, "register", con+" once", fn.Pos(), "a strategy is not registered exactly once", pa)
			}
		case rs.Len() == 2 && types.Identical(rs.At(0).Type(), strat) && isErr(rs.At(1).Type()):
			c.lookupOrder(fn, ver, isList, true)
		case rs.Len() == 1 && len(fn.Params) == 1 && types.Identical(rs.At(0).Type(), fn.Params[0].Type()):
			c.lookupOrder(fn, ver, isList, false)
		}
	}
	c.Min("locked", 4)
	c.Min("register", 1)
	c.Min("found", 3)
	c.Min("next", 3)
}

// lookupOrder evaluates the paths of a lookup for every relative order of the version asked for and the registered ones.
func (c *Check) lookupOrder(fn *ssa.Function, ver *types.Var, isList func(*Term) bool, exact bool) {
	con, rule := fnName(fn), "next"
	if exact {
		rule = "found"
	}
	w := c.Walk(fn, WalkOpts{LoopBound: 4, MaxPaths: 4000})
	// the number of a registered version in a term, -1 for the version asked for
	elem := func(t *Term) (int, bool) {
		s := t.Strip()
		if s.ID() == "$0" {
			return -1, true
		}
		if fieldVar(s) != ver {
			return 0, false
		}
		b := s
		for b.Op == "load" || b.Op == "field" || b.Op == "fieldval" {
			b = b.Args[0].Strip()
		}
		if b.Op != "index" && b.Op != "indexval" || !isList(b.Args[0]) {
			return 0, false
		}
		k, ok := b.Args[1].IntConst()
		return int(k), ok
	}
	const max = 3
	for n := 0; n <= max; n++ {
		// every relative order of n+1 numbers
		total := 1
		for i := 0; i <= n; i++ {
			total *= n + 1
		}
		for code := 0; code < 3*total; code++ {
			// adjacent small numbers, numbers around zero with gaps, larger numbers with gaps
			scale, off := []int{1, 3, 2}[code/total], []int{0, -4, 5}[code/total]
			vals := make([]int, n+1)
			x := code % total
			for i := range vals {
				vals[i] = x%(n+1)*scale + off
				x /= n + 1
			}
			var num func(t *Term) (int, bool)
			num = func(t *Term) (int, bool) {
				if k, ok := elem(t); ok {
					if k+1 < 0 || k+1 >= len(vals) {
						return 0, false
					}
					return vals[k+1], true
				}
				s := t.Strip()
				if k, ok := s.IntConst(); ok {
					return int(k), true
				}
				if s.Op == "len" && isList(s.Args[0]) {
					return n, true
				}
				if s.Op == "bin" && (s.S == "+" || s.S == "-") && len(s.Args) == 2 {
					a, ok1 := num(s.Args[0])
					b, ok2 := num(s.Args[1])
					if s.S == "-" {
						b = -b
					}
					return a + b, ok1 && ok2
				}
				return 0, false
			}
			taken := 0
			for _, pa := range w.Paths {
				fits, known := true, true
				for _, k := range sortedKeys(pa.St.assume) {
					t := pa.St.terms[k]
					if t == nil || t.Op != "bin" || len(t.Args) != 2 {
						known = false
						continue
					}
					a, ok1 := num(t.Args[0])
					b, ok2 := num(t.Args[1])
					if !ok1 || !ok2 {
						if mentionsBeyond(t, n, isList) {
							fits = false
						} else {
							known = false
						}
						continue
					}
					var r bool
					switch t.S {
					case "==":
						r = a == b
					case "<":
						r = a < b
					case "<=":
						r = a <= b
					default:
						known = false
						continue
					}
					if r != pa.St.assume[k] {
						fits = false
					}
				}
				if !fits {
					continue
				}
				c.Expect(known, rule, con+" decided", fn.Pos(), "undecided: the search depends on something else than the versions", pa)
				if !known || pa.Outcome == Cut {
					continue
				}
				taken++
				if pa.Outcome != Returned {
					c.Expect(false, rule, con+" panic", fn.Pos(), "the search panics", pa)
					continue
				}
				if exact {
					there := false
					for _, v := range vals[1:] {
						there = there || v == vals[0]
					}
					if !there {
						c.Expect(pa.nil(pa.Ret[1]) == NonNil, rule, con+" unknown", fn.Pos(), "an unregistered version is found", pa)
						continue
					}
					ok := pa.nil(pa.Ret[1]) == IsNil
					b := pa.Ret[0].Strip()
					for b.Op == "load" {
						b = b.Args[0].Strip()
					}
					if ok && (b.Op == "index" || b.Op == "indexval") && isList(b.Args[0]) {
						k, isc := b.Args[1].IntConst()
						ok = isc && int(k) < n && vals[k+1] == vals[0]
					} else {
						ok = false
					}
					c.Expect(ok, rule, con, fn.Pos(), "a registered version is not found", pa)
					continue
				}
				want, above := vals[0], false
				for _, v := range vals[1:] {
					if v > vals[0] && (!above || v < want) {
						want, above = v, true
					}
				}
				got, ok := num(pa.Ret[0])
				c.Expect(ok && got == want, rule, con, fn.Pos(), "the result is not the smallest registered version above", pa)
			}
			c.Expect(taken > 0, rule, con+" total", fn.Pos(), "undecided: no path covers some order of the versions", nil)
		}
	}
}

// mentionsBeyond: the condition reads an element the list does not have.
func mentionsBeyond(t *Term, n int, isList func(*Term) bool) bool {
	return t.Any(func(x *Term) bool {
		if x.Op != "index" && x.Op != "indexval" || !isList(x.Args[0]) {
			return false
		}
		k, ok := x.Args[1].IntConst()
		return ok && int(k) >= n
	})
}

// ---------------------------------------------------------------- L07

func runL07(c *Check) {
	c.Rule("whole", "the file is opened to be created and truncated, or is replaced whole")
	c.Rule("content", "exactly the bytes given are written, and exactly the file's bytes are read")
	c.Rule("release", "an opened file is closed on every path")
	p := c.P
	opens := []string{"OpenFile", "Open", "Create", "WriteFile", "ReadFile"}
	n := 0
	for _, fn := range p.Entries(p.FnsWith(func(in ssa.Instruction) bool {
		return callsNamed(in, "os", opens...) || callsNamed(in, "io/ioutil", opens...)
	})) {
		if relPkg(fn) != "utils/file" {
			continue
		}
		con := fnName(fn)
		name := stringParam(fn)
		var data *Term
		for i, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				data = &Term{Op: "param", S: "$" + strconv.Itoa(i), N: i, T: q.Type()}
			}
		}
		if name == nil {
			c.Missing(con + "'s path")
			continue
		}
		n++
		w := c.Walk(fn, WalkOpts{LoopBound: 2, Extra: []string{relPkg(fn)}})
		for _, pa := range w.Paths {
			if pa.Outcome == Cut {
				continue
			}
			var file *Term
			var opened *Event
			written, complete := 0, false
			failed := false
			for i, e := range pa.Events {
				if e.Kind != EvCall || e.Obj == nil {
					continue
				}
				// the error decides what is returned, or is returned itself
				untold := func(err *Term) {
					ok := pa.nil(err) != Unknown || pa.Outcome != Returned
					for _, r := range pa.Ret {
						ok = ok || pa.is(r, err)
					}
					c.Expect(ok, "content", con+" told", e.Pos, "a failure is taken for success", pa)
				}
				pkg, fname := objPkg(e), e.Obj.Name()
				isOS := pkg == "os" || pkg == "io/ioutil"
				switch {
				case isOS && e.Recv == nil && contains(opens, fname):
					c.Expect(e.Args[0].Strip().ID() == name.ID(), "content", con+" path", e.Pos, "another file is opened than the one given", pa)
				}
				switch {
				case isOS && e.Recv == nil && fname == "WriteFile":
					ok := data != nil && len(e.Args) == 3 && e.Args[1].Strip().ID() == data.ID()
					c.Expect(ok, "content", con, e.Pos, "other bytes are written than those given", pa)
					c.Expect(true, "whole", con, e.Pos, "", pa)
					c.Expect(true, "release", con, e.Pos, "", pa)
					written++
					failed = failed || pa.nil(e.Res) == NonNil
					untold(e.Res)
					complete = true
				case isOS && e.Recv == nil && fname == "ReadFile":
					complete = pa.is(pa.Ret[0], extract(e.Res, 0)) && pa.is(pa.Ret[1], extract(e.Res, 1))
					c.Expect(complete, "content", con, e.Pos, "what is returned is not the file's content and error", pa)
					c.Expect(true, "release", con, e.Pos, "", pa)
				case pkg == "os" && e.Recv == nil && (fname == "OpenFile" || fname == "Create" || fname == "Open"):
					opened = e
					if pa.nil(extract(e.Res, 1)) == NonNil {
						failed = true
					} else {
						file = extract(e.Res, 0)
					}
					if data == nil {
						break
					}
					ok := fname == "Create"
					if fname == "OpenFile" && len(e.Args) == 3 {
						fl, isc := e.Args[1].IntConst()
						ok = isc && fl&c.osFlag("O_CREATE") != 0 && fl&c.osFlag("O_TRUNC") != 0 && fl&(c.osFlag("O_WRONLY")|c.osFlag("O_RDWR")) != 0 && fl&(c.osFlag("O_EXCL")|c.osFlag("O_APPEND")) == 0
					}
					c.Expect(ok, "whole", con, e.Pos, "old content is left in the file, or it is not created", pa)
				case e.Recv != nil && file != nil && sameID(e.Recv, file):
					switch fname {
					case "Write", "WriteString":
						written++
						ok := data != nil && stripAll(e.Args[0]).ID() == data.ID()
						c.Expect(ok, "content", con, e.Pos, "other bytes are written than those given", pa)
						if pa.nil(extract(e.Res, 1)) == NonNil {
							failed = true
						}
						untold(extract(e.Res, 1))
						complete = true
					case "Seek", "Truncate", "WriteAt", "ReadFrom":
						c.Expect(false, "content", con+" position", e.Pos, "undecided: the file's position or size is changed", pa)
					}
				case file != nil && fname == "ReadAll" && len(e.Args) == 1 && sameID(e.Args[0], file):
					complete = pa.Outcome == Returned && len(pa.Ret) == 2 && pa.is(pa.Ret[0], extract(e.Res, 0)) && pa.is(pa.Ret[1], extract(e.Res, 1))
					c.Expect(complete, "content", con, e.Pos, "what is returned is not the file's content and error", pa)
				}
				_ = i
			}
			if file != nil && pa.Outcome == Returned {
				closed := 0
				for _, e := range pa.Events {
					if e.Kind != EvCall || e.Obj == nil {
						continue
					}
					uses := e.Recv != nil && sameID(e.Recv, file)
					for _, a := range e.Args {
						uses = uses || sameID(a, file)
					}
					if e.Recv != nil && e.Obj.Name() == "Close" && sameID(e.Recv, file) {
						closed++
					} else if uses && closed > 0 {
						c.Expect(false, "release", con+" early", e.Pos, "the file is used after it was closed", pa)
					}
				}
				c.Expect(closed > 0, "release", con, opened.Pos, "the file is left open", pa)
			}
			if pa.Outcome != Returned {
				continue
			}
			if data != nil {
				c.Expect(written == 1 || failed && written == 0, "content", con+" once", fn.Pos(), "the bytes are not written exactly once", pa)
			} else {
				c.Expect(complete || failed, "content", con+" read", fn.Pos(), "the content is not read", pa)
			}
			// a failure is told
			if failed {
				told := fatal(pa)
				for i, r := range pa.Ret {
					if isErr(fn.Signature.Results().At(i).Type()) {
						told = told || pa.nil(r) == NonNil
					}
				}
				c.Expect(told, "content", con+" failed", fn.Pos(), "a failure is taken for success", pa)
			}
		}
	}
	c.Expect(n >= 3, "content", "utils/file", token.NoPos, "undecided: fewer file helpers than expected", nil)
	c.Min("whole", 1)
	c.Min("release", 2)
}

func fatal(pa *Path) bool {
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Obj != nil && (strings.HasPrefix(e.Obj.Name(), "Fatal") || e.Obj.Name() == "Exit" && objPkg(e) == "os") {
			return true
		}
	}
	return false
}

func (c *Check) osFlag(name string) int64 {
	for _, pk := range c.P.SSA.AllPackages() {
		if pk.Pkg != nil && pk.Pkg.Path() == "os" {
			if k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				v, _ := constant.Int64Val(k.Val())
				return v
			}
		}
	}
	return 0
}

// ---------------------------------------------------------------- L08

var zapLevels = map[string]int64{"Debug": -1, "Info": 0, "Warn": 1, "Error": 2, "DPanic": 3, "Panic": 4, "Fatal": 5}

// emission: a call that emits a record: its level (or the term that is it) and message.
func emission(pa *Path, e *Event) (lv int64, given *Term, msg *Term, ok bool) {
	if e.Kind != EvCall || e.Obj == nil || !strings.HasPrefix(objPkg(e), "go.uber.org/zap") || e.Recv == nil || len(e.Args) == 0 {
		return
	}
	if e.Obj.Name() == "Write" && strings.Contains(e.Name, "CheckedEntry)") {
		for _, x := range pa.Events {
			if x.Kind == EvCall && x.Obj != nil && x.Obj.Name() == "Check" && x.Res != nil && sameID(x.Res, e.Recv) && len(x.Args) == 2 {
				k, isc := x.Args[0].IntConst()
				if isc {
					return k, nil, x.Args[1], true
				}
				return 0, x.Args[0], x.Args[1], true
			}
		}
		return
	}
	if e.Obj.Name() == "Log" && len(e.Args) > 1 {
		if k, isc := e.Args[0].IntConst(); isc {
			return k, nil, e.Args[1], true
		}
		return 0, e.Args[0], e.Args[1], true
	}
	if l, is := zapLevels[e.Obj.Name()]; is && strings.Contains(e.Name, "zap.Logger)") {
		return l, nil, e.Args[0], true
	}
	return
}

func runL08(c *Check) {
	c.Rule("named", "an exported helper logs once, at the level it is named after, with its own values")
	c.Rule("level", "for every level, exactly one record is emitted, at that level, if it is enabled")
	c.Rule("filter", "nothing is emitted if the level is not enabled")
	c.Rule("message", "the record's message is made of the caller's format and values")
	c.Rule("core", "the logger filters by the configured level")
	p := c.P
	iface := p.Named("lib/log", "Helper")
	if iface == nil {
		c.Missing("log.Helper")
		return
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		c.Missing("log.Helper's methods")
		return
	}
	// exported helpers
	used := map[string]map[int64]bool{} // method: levels used
	for _, fn := range p.Entries(p.FnsWith(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && ci.Common().Method.Pkg() != nil && inScope(ci.Common().Method.Pkg().Path()) && strings.HasSuffix(ci.Common().Method.Pkg().Path(), "lib/log") && isHelperMethod(it, ci.Common().Method) && formatAt(ci.Common().Method.Type().(*types.Signature)) >= 0
	})) {
		if relPkg(fn) != "lib/log" || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		con := fnName(fn)
		want, isNamed := int64(0), false
		for l, k := range zapLevels {
			if strings.Contains(fn.Name(), l) && !(l == "Panic" && strings.Contains(fn.Name(), "DPanic")) {
				want, isNamed = k, true
			}
		}
		for _, pa := range c.Walk(fn, WalkOpts{NoIgnore: true}).Paths {
			if pa.Outcome != Returned {
				c.Expect(pa.Outcome == Cut, "named", con+" panic", fn.Pos(), "logging panics", pa)
				continue
			}
			n := 0
			for _, e := range pa.Events {
				if e.Kind != EvCall || !e.Invoke || e.Obj == nil {
					continue
				}
				m, _ := e.Obj.(*types.Func)
				if m == nil || !isHelperMethod(it, m) || formatAt(m.Type().(*types.Signature)) < 0 {
					continue
				}
				n++
				args := e.Args
				if len(args) > 0 && isLevel(m.Type().(*types.Signature).Params().At(0).Type()) {
					k, isc := args[0].IntConst()
					c.Expect(isc && (!isNamed || k == want), "named", con, e.Pos, "the message is logged at another level than the helper is named after", pa)
					if used[m.Name()] == nil {
						used[m.Name()] = map[int64]bool{}
					}
					used[m.Name()][k] = true
					args = args[1:]
				} else if used[m.Name()] == nil {
					used[m.Name()] = map[int64]bool{0: true}
				}
				same := len(args) == len(fn.Params)
				for i := range args {
					same = same && args[i].Strip().ID() == "$"+strconv.Itoa(i)
				}
				c.Expect(same, "named", con+" values", e.Pos, "the helper does not hand on its own values", pa)
			}
			c.Expect(n == 1, "named", con+" once", fn.Pos(), "the helper does not log exactly once", pa)
		}
	}
	c.Min("named", 15)
	// implementations
	all := map[int64]bool{}
	for _, k := range zapLevels {
		all[k] = true
	}
	for _, impl := range p.Implementers("lib/log", "Helper") {
		for i := 0; i < it.NumMethods(); i++ {
			m := p.MethodN(impl, it.Method(i).Name())
			if m == nil || len(m.Blocks) == 0 || m.Synthetic != "" { // promoted from an embedded interface
				continue
			}
			fi := formatAt(m.Signature)
			if fi < 0 {
				continue
			}
			fi++ // the receiver
			lvl := ""
			if isLevel(m.Signature.Params().At(0).Type()) {
				lvl = "$1"
			}
			levels := used[it.Method(i).Name()]
			if lvl != "" && m.Signature.Params().Len() == 3 {
				levels = all
			}
			c.emits(m, lvl, fi, levels)
		}
	}
	c.Min("level", 11)
	c.Min("message", 2)
	// the logger's core filters by the configured level
	fn := p.Func("lib/log", "NewLogger")
	if !c.Anchor(fn, "NewLogger") {
		return
	}
	opt := c.optionField("lib/log", "WithLevel")
	if opt == nil {
		c.Missing("WithLevel")
		return
	}
	n := 0
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2, Extra: []string{"lib/log"}, NoIgnore: true, MaxPaths: 3000}).Paths {
		for _, e := range pa.Events {
			if e.Kind != EvCall || !strings.HasSuffix(e.Name, "zapcore.NewCore") || len(e.Args) != 3 || !dynamicCalls(pa) {
				continue
			}
			n++
			lv := stripAll(e.Args[2])
			ok := fieldVar(lv) == opt
			for _, x := range pa.Events {
				if x.Kind == EvCall && strings.HasSuffix(x.Name, "zap.NewAtomicLevelAt") && len(x.Args) == 1 && fieldVar(stripAll(x.Args[0])) == opt && lv.Mentions(x.Res.ID()) {
					ok = true
				}
			}
			c.Expect(ok, "core", fnName(fn), e.Pos, "the logger does not filter by the configured level", pa)
		}
	}
	c.Expect(n > 0, "core", fnName(fn)+" core", fn.Pos(), "undecided: how the logger filters", nil)
}

func isHelperMethod(it *types.Interface, m *types.Func) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i) == m {
			return true
		}
	}
	return false
}

// formatAt: the position of the format of a method that takes a format and its values.
func formatAt(sig *types.Signature) int {
	n := sig.Params().Len()
	if !sig.Variadic() || n < 2 {
		return -1
	}
	if b, ok := sig.Params().At(n - 2).Type().(*types.Basic); ok && b.Kind() == types.String {
		return n - 2
	}
	return -1
}

func isLevel(t types.Type) bool { return typeIs(t, "go.uber.org/zap/zapcore.Level") }

// emits decides one logging method for every level.
func (c *Check) emits(m *ssa.Function, lvl string, fi int, levels map[int64]bool) {
	con := fnName(m)
	w := c.Walk(m, WalkOpts{LoopBound: 2, Extra: []string{"lib/log"}, NoIgnore: true})
	format, values := "$"+strconv.Itoa(fi), "$"+strconv.Itoa(fi+1)
	for _, lv := range sortedInts(levels) {
		taken := 0
		for _, pa := range w.Paths {
			if pa.Outcome == Cut || lvl != "" && !agrees(pa, lvl, lv) {
				continue
			}
			// enabled
			on := -1
			for _, e := range pa.Events {
				if e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "Enabled" && len(e.Args) == 1 {
					k, isc := e.Args[0].IntConst()
					if !(lvl != "" && e.Args[0].Strip().ID() == lvl || isc && k == lv) {
						c.Expect(false, "filter", con+" level", e.Pos, "another level is asked about than the record's", pa)
						continue
					}
					if v := pa.St.Truth(e.Res); v >= 0 {
						on = v
					}
				}
				// nothing is checked in if the level is off
				if e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "Check" && len(e.Args) == 2 && strings.Contains(e.Name, "zap.Logger)") {
					k, isc := e.Args[0].IntConst()
					if (lvl != "" && e.Args[0].Strip().ID() == lvl || isc && k == lv) && pa.nil(e.Res) == IsNil {
						on = 0
					}
				}
			}
			n := 0
			for _, e := range pa.Events {
				k, given, msg, isEm := emission(pa, e)
				if !isEm {
					continue
				}
				n++
				if on == 0 {
					c.Expect(false, "filter", con, e.Pos, "a record is emitted though its level is not enabled", pa)
				}
				ok := given == nil && k == lv || given != nil && lvl != "" && given.Strip().ID() == lvl
				c.Expect(ok, "level", con+" "+levelName(lv), e.Pos, "the record is emitted at another level", pa)
				c.Expect(madeOf(pa, msg, format, values), "message", con, e.Pos, "the message is not made of the caller's format and values", pa)
			}
			if pa.Outcome != Returned {
				continue
			}
			if on == 0 {
				continue
			}
			taken++
			c.Expect(n == 1, "level", con+" "+levelName(lv)+" once", m.Pos(), "not exactly one record is emitted at level "+levelName(lv), pa)
		}
		c.Expect(taken > 0, "level", con+" "+levelName(lv)+" total", m.Pos(), "undecided: no path logs at level "+levelName(lv), nil)
	}
}

func levelName(k int64) string {
	for n, v := range zapLevels {
		if v == k {
			return n
		}
	}
	return strconv.FormatInt(k, 10)
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for i := int64(-8); i < 16; i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return out
}

// agrees: the path's decisions about an integer parameter hold for the value.
func agrees(pa *Path, param string, v int64) bool {
	for k, truth := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		num := func(x *Term) (int64, bool) {
			if x.Strip().ID() == param {
				return v, true
			}
			return x.IntConst()
		}
		a, ok1 := num(t.Args[0])
		b, ok2 := num(t.Args[1])
		if !ok1 || !ok2 {
			continue
		}
		var r bool
		switch t.S {
		case "==":
			r = a == b
		case "<":
			r = a < b
		case "<=":
			r = a <= b
		default:
			continue
		}
		if r != truth {
			return false
		}
	}
	return true
}

// madeOf: the text is Sprintf of exactly the format and the values.
func madeOf(pa *Path, msg *Term, format, values string) bool {
	s := msg.Strip()
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Name == "fmt.Sprintf" && sameID(e.Res, s) && len(e.Args) == 2 {
			return e.Args[0].Strip().ID() == format && e.Args[1].Strip().ID() == values
		}
	}
	return s.Op == "tmpl" && s.Mentions(format) && s.Mentions(values)
}
