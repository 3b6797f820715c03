package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L13", Run: runL13, Method: "path-sensitive definite-decision analysis of every use of a value that may be missing",
		Expl:   "Every function of the module is walked, and each use of a value that may be missing is decided on every path: the text of an error is asked only of an error decided to be there, what a guarded assertion yields is used only where the assertion held, what came with an error or out of a map is used only where the error was decided absent or the value present.",
		Assume: []string{"A call that answers no error answers its other results"}})
}

// mayBeMissing tells in which way a value can be missing.
func missingKind(t *Term) string {
	switch t.Op {
	case "assert":
		return "assertion"
	case "extract", "call":
		return "result"
	case "lookup":
		return "entry"
	}
	return ""
}

func runL13(c *Check) {
	p := c.P
	c.Rule("made", "a map that is written to, a channel that is used, a function that is called and an object whose methods are called without asking is put there where its owner is made or initialised")
	c.Rule("nothing", "what was decided to be absent, or is never there, is not used")
	c.Rule("error", "the text of an error is asked only where the error was decided to be there")
	c.Rule("assertion", "what a guarded type assertion yields is used only where the assertion held")
	c.Rule("result", "what a call answers beside an error is used only where the error was decided absent, or the value present")
	c.Rule("element", "an element is asked of a list only where the list was decided to be that long")
	c.Rule("entry", "what a map lookup yields is used only where the entry was decided present")
	madeFields(c)
	for _, fn := range p.Fns {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || generated(p, fn) {
			continue
		}
		w := c.Walk(fn, WalkOpts{LoopBound: 1, Derefs: true, Extra: []string{relPkg(fn)}, NoIgnore: relPkg(fn) == "lib/log"})
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				if e.Kind == EvCall && len(e.Args) > 0 && strings.Contains(e.Name, "math/rand") && strings.HasSuffix(e.Name, ".Intn") {
					lo, _ := pa.St.interval(e.Args[len(e.Args)-1])
					c.Expect(lo >= 1, "element", fnName(e.Fn)+" random", e.Pos, "a random element of a list that may be empty", pa)
				}
				if e.Recv == nil {
					continue
				}
				if e.Kind != EvDeref && !(e.Kind == EvCall && (e.Invoke || e.Dynamic)) {
					continue
				}
				r := e.Recv
				for r.Op == "iface" || r.Op == "conv" {
					r = r.Args[0]
				}
				con := fnName(e.Fn)
				if r.IsNilConst() || pa.nil(r) == IsNil && decidedAt(pa, e, r) {
					c.Expect(false, "nothing", con+" "+r.ID(), e.Pos, "what is used is known not to be there", pa)
					continue
				}
				if r.Op == "index" {
					root, _ := r.Args[0].FieldPath()
					if root.Op == "param" && !(root.N == 0 && fn.Signature.Recv() != nil) || r.Args[0].ID() == "os.Args" {
						continue // the caller's to give
					}
					c.Expect(longEnough(pa, r), "element", con+" "+r.ID(), e.Pos, "an element is asked of a list that was not decided to be that long", pa)
					continue
				}
				switch missingKind(r) {
				case "assertion":
					c.Expect(pa.assertHeld(e, r), "assertion", con+" "+r.ID(), e.Pos, "the value of an assertion that may have failed is used", pa)
				case "result":
					if r.T != nil && isErr(r.T) {
						c.Expect(decidedNonNil(pa, e, r), "error", con+" "+r.ID(), e.Pos, "an error that may be absent is used", pa)
						continue
					}
					if r.Op != "extract" {
						continue
					}
					c.Expect(decidedNonNil(pa, e, r) || pa.errAbsent(e, r), "result", con+" "+r.ID(), e.Pos, "a result is used although its error was not decided absent", pa)
				case "entry":
					c.Expect(decidedNonNil(pa, e, r) || pa.entryHeld(e, r), "entry", con+" "+r.ID(), e.Pos, "an entry that may be absent is used", pa)
				}
			}
		}
	}
}

// neededFields are the fields of the module's structs that are used as if they were always
// made: maps written to, channels used, functions called and objects whose methods are
// called, where nothing ever asks whether the field is there.
func (p *Prog) neededFields() map[*types.Var]string {
	use, asked := map[*types.Var]string{}, map[*types.Var]bool{}
	note := func(v ssa.Value, kind string) {
		if f := usedField(v); f != nil && f.Pkg() != nil && (f.Pkg().Path() == modPath || strings.HasPrefix(f.Pkg().Path(), modPath+"/")) &&
			!strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, ".pb.go") {
			switch f.Type().Underlying().(type) {
			case *types.Map, *types.Chan, *types.Signature, *types.Pointer, *types.Interface:
				use[f] = kind
			}
		}
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					note(x.Map, "a map")
				case *ssa.Send:
					note(x.Chan, "a channel")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						note(x.X, "a channel")
					}
				case *ssa.Select:
					for _, st := range x.States {
						note(st.Chan, "a channel")
					}
				case *ssa.BinOp:
					for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if k, ok := o[1].(*ssa.Const); ok && k.Value == nil {
							if f := usedField(o[0]); f != nil {
								asked[f] = true
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				switch v := cc.Value.(type) {
				case *ssa.Builtin:
					if v.Name() == "close" {
						note(cc.Args[0], "a channel")
					}
				case *ssa.Function:
					if cc.Signature().Recv() != nil && len(cc.Args) > 0 {
						note(cc.Args[0], "an object")
					}
				default:
					if cc.IsInvoke() {
						note(cc.Value, "an object")
					} else {
						note(cc.Value, "a function")
					}
				}
			}
		}
	}
	for f := range asked {
		delete(use, f)
	}
	return use
}

// usedField: v is read from that field.
func usedField(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return usedField(x.X)
	case *ssa.ChangeInterface:
		return usedField(x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			t := fa.X.Type().Underlying()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem().Underlying()
			}
			return t.(*types.Struct).Field(fa.Field)
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field)
	}
	return nil
}

// madeFields decides that what is used as if it was always there was put there where the object is made.
func madeFields(c *Check) {
	p := c.P
	need := p.neededFields()
	owner := map[*types.Var]*types.Named{}
	for f := range need {
		for _, pk := range p.Pkgs {
			for _, nm := range pk.Types.Scope().Names() {
				if tn, ok := pk.Types.Scope().Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() {
					if n, ok := tn.Type().(*types.Named); ok && ownerIs(f, n) {
						owner[f] = n
					}
				}
			}
		}
	}
	makes := map[*types.Named][]*ssa.Function{}
	stores := map[*types.Var][]*ssa.Function{}
	anywhere := map[*types.Var]bool{}
	for _, fn := range p.Fns {
		if fn.Synthetic != "" || generated(p, fn) {
			continue
		}
		seen := map[*types.Named]bool{}
		seenF := map[*types.Var]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if n, ok := x.Type().(*types.Pointer).Elem().(*types.Named); ok && x.Heap && !seen[n] {
						seen[n] = true
						makes[n] = append(makes[n], fn)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						anywhere[fieldOfAddr(fa)] = true
						if f := stateVar(x.Addr); need[f] != "" && !seenF[f] && !p.freshBase(fa) {
							seenF[f] = true
							stores[f] = append(stores[f], fn)
						}
					}
				}
			}
		}
	}
	var fs []*types.Var
	for f := range owner {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	walks := map[*ssa.Function]*Walk{}
	walk := func(fn *ssa.Function) *Walk {
		if walks[fn] == nil {
			walks[fn] = c.Walk(fn, WalkOpts{LoopBound: 1, Extra: []string{relPkg(fn)}, NoIgnore: relPkg(fn) == "lib/log"})
		}
		return walks[fn]
	}
	for _, f := range fs {
		n := owner[f]
		con := fieldName(f)
		n0 := 0
		failed := func(pa *Path) bool {
			if len(pa.Ret) == 0 {
				return false
			}
			r := pa.Ret[len(pa.Ret)-1]
			return r.T != nil && types.IsInterface(r.T) && pa.nil(r) == NonNil
		}
		given := func(v *Term) bool { return v != nil && !v.Strip().IsNilConst() }
		for _, fn := range p.Entries(makes[n]) {
			for _, pa := range walk(fn).Paths {
				if pa.Outcome != Returned || failed(pa) {
					continue
				}
				for _, r := range pa.Ret {
					r = stripAll(r)
					if r.Op == "alloc" && isPtrTo(r.T, n) {
						n0++
						c.Expect(given(structVals(pa, r)[f.Name()]), "made", fnName(fn)+" "+con, fn.Pos(), need[f]+" that is used as if it were always there is not made with its object", pa)
					}
				}
			}
		}
		if n0 == 0 && (!f.Exported() || need[f] == "a map") {
			c.Expect(anywhere[f], "made", n.Obj().Name()+" "+con, f.Pos(), need[f]+" that is used as if it were always there is never made", nil)
		}
		if n0 > 0 || len(stores[f]) == 0 {
			continue
		}
		// an object others make: one of its own methods puts it there, on every path
		var missing *Path
		var at *ssa.Function
		found := false
		for _, fn := range stores[f] {
			all := true
			for _, pa := range walk(fn).Paths {
				if pa.Outcome != Returned || failed(pa) {
					continue
				}
				var last *Term
				any := false
				for _, e := range pa.Events {
					if e.Kind != EvStore || e.Recv.Op != "field" {
						continue
					}
					v := fieldVar(e.Recv)
					any = any || v != nil && ownerIs(v, n)
					if v == f {
						last = e.Val
					}
				}
				if any && !given(last) {
					all, missing, at = false, pa, fn
				}
			}
			found = found || all
		}
		if at == nil {
			at = stores[f][0]
		}
		c.Expect(found, "made", fnName(at)+" "+con, at.Pos(), need[f]+" that is used as if it were always there is not made on every path", missing)
	}
}

func generated(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, ".pb.go")
}

// assertHeld tells whether the assertion that yielded r had held before e.
func (pa *Path) assertHeld(e *Event, r *Term) bool {
	want := types.TypeString(r.T, shortQual)
	for _, b := range pa.Events {
		if b == e {
			break
		}
		switch {
		case b.Kind == EvBranch && b.Val.Op == "is" && b.Val.S == want && sameID(b.Val.Args[0], r.Args[0]) && b.Ok:
			return true
		case b.Kind == EvAssert && !b.CommaOk && b.Name == want && sameID(b.Recv, r.Args[0]):
			return true
		}
	}
	return decidedNonNil(pa, e, r)
}

// decidedAt tells whether r was decided absent before e.
func decidedAt(pa *Path, e *Event, r *Term) bool {
	for _, b := range pa.Events {
		if b == e {
			break
		}
		if b.Kind == EvBranch && b.Ok && b.Val.Op == "bin" && b.Val.S == "==" && len(b.Val.Args) == 2 {
			x, y := b.Val.Args[0], b.Val.Args[1]
			if y.IsNilConst() && x.Key() == r.Key() || x.IsNilConst() && y.Key() == r.Key() {
				return true
			}
		}
	}
	return false
}

// longEnough tells whether the list was decided to have the element.
func longEnough(pa *Path, r *Term) bool {
	list, at := r.Args[0], r.Args[1]
	n := &Term{Op: "len", Args: []*Term{list}, T: types.Typ[types.Int]}
	if k, ok := at.IntConst(); ok {
		if list.T != nil {
			T := list.T.Underlying()
			if ptr, isP := T.(*types.Pointer); isP {
				T = ptr.Elem().Underlying()
			}
			if a, isA := T.(*types.Array); isA {
				return k >= 0 && k < a.Len()
			}
		}
		lo, _ := pa.St.interval(n)
		return k >= 0 && lo > k
	}
	lo, _ := pa.St.interval(at)
	return pa.True("<", at, n) == 1 && lo >= 0
}

// entryHeld tells whether the lookup that yielded r had been decided to have found something before e.
func (pa *Path) entryHeld(e *Event, r *Term) bool {
	for _, b := range pa.Events {
		if b == e {
			break
		}
		if b.Kind == EvBranch && b.Ok && b.Val.Op == "has" && sameID(b.Val.Args[0], r) {
			return true
		}
	}
	return false
}

// errAbsent tells whether the error beside r was decided absent before e.
func (pa *Path) errAbsent(e *Event, r *Term) bool {
	tup, ok := r.Args[0].T.(*types.Tuple)
	if !ok || tup.Len() < 2 {
		return true
	}
	last := tup.At(tup.Len() - 1).Type()
	if !types.Identical(last, types.Universe.Lookup("error").Type()) {
		return true
	}
	er := extract(r.Args[0], tup.Len()-1)
	for _, b := range pa.Events {
		if b == e {
			break
		}
		if b.Kind == EvBranch && b.Ok && b.Val.Op == "bin" && b.Val.S == "==" && len(b.Val.Args) == 2 {
			x, y := b.Val.Args[0], b.Val.Args[1]
			if y.IsNilConst() && sameID(x, er) || x.IsNilConst() && sameID(y, er) {
				return true
			}
		}
	}
	return false
}
