package main

// Module-wide rules on shared state (L11).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L11", Run: runL11, Method: "module-wide lockset inference over walked paths, atomic-access consistency",
		Expl:   "Every function of the module that touches a field of a module struct or a package variable is followed on all its paths, with the locks held at each access. State that is changed after construction and touched under a lock of its own object (or package) anywhere must be touched under that lock everywhere, exclusively for changes. A field that is accessed through sync/atomic anywhere is accessed through it everywhere.",
		Assume: []string{"an object is not shared before its Init method ends", "option functions and setup functions run before what they configure is used"}})
}

// access is one touch of shared state on one path.
type access struct {
	e     *Event
	write bool
	any   []string // locks of the same object held
	excl  []string // those held exclusively
	pa    *Path
	root  *ssa.Function
}

func runL11(c *Check) {
	c.Rule("locked", "state that is changed after construction and guarded anywhere is guarded everywhere, by one lock, exclusively for changes")
	c.Rule("atomic", "state that is accessed atomically anywhere is accessed atomically everywhere")
	p := c.P
	c.atomics()

	// the state that may be changed
	changed := map[*types.Var]bool{}
	for _, fn := range p.Fns {
		if p.setup(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if v := stateVar(x.Addr); v != nil && !p.freshAddr(x.Addr) {
						changed[v] = true
					}
				case *ssa.MapUpdate:
					if v := loadedVar(x.Map); v != nil {
						changed[v] = true
					}
				case ssa.CallInstruction:
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						if v := loadedVar(x.Common().Args[0]); v != nil {
							changed[v] = true
						}
					}
				}
			}
		}
	}
	fns := p.FnsWith(func(in ssa.Instruction) bool {
		var addr ssa.Value
		switch x := in.(type) {
		case *ssa.FieldAddr:
			addr = x
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Store:
			addr = x.Addr
		}
		v := stateVar(addr)
		return v != nil && changed[v]
	})
	accs := map[*types.Var][]access{}
	for _, fn := range p.Entries(fns) {
		if p.setup(fn) {
			continue
		}
		opt := WalkOpts{Loads: true, LoopBound: 2, MaxPaths: 30000}
		w := p.Walk(fn, opt)
		if w.Trunc {
			opt.LoopBound = 1
			w = p.Walk(fn, opt)
		}
		c.account(w, fn)
		walks := []*Walk{w}
		for _, g := range w.Spawned() {
			if g.GoFn.Parent() != nil && p.inModule(g.GoFn) {
				gw := w.WalkGo(g, opt)
				if gw.Trunc {
					opt.LoopBound = 1
					gw = w.WalkGo(g, opt)
				}
				c.account(gw, g.GoFn)
				walks = append(walks, gw)
			}
		}
		for _, w := range walks {
			for _, pa := range w.Paths {
				for _, e := range pa.Events {
					write := false
					switch e.Kind {
					case EvLoad, EvLookup, EvRange:
					case EvStore, EvMapSet, EvMapDel:
						write = true
					default:
						continue
					}
					if e.Recv == nil {
						continue
					}
					if e.Fn != nil && p.setup(e.Fn) {
						continue
					}
					a := e.Recv
					v := fieldVar(a)
					if a.Op == "load" {
						a = a.Args[0]
					}
					if v == nil && a.Op == "global" {
						v, _ = a.Obj.(*types.Var)
					}
					if v == nil || !changed[v] {
						continue
					}
					if a.Op == "global" {
						accs[v] = append(accs[v], access{e, write, globalLocks(e, v, false), globalLocks(e, v, true), pa, w.root})
						continue
					}
					if len(a.Args) == 0 {
						continue
					}
					base := a.Args[0]
					made := base
					for (made.Op == "field" || made.Op == "addr") && len(made.Args) > 0 {
						made = made.Args[0] // an embedded part
					}
					if made.Op == "alloc" && (!pa.St.esc[made.Key()] || privateAt(pa, e, made)) {
						continue
					}
					accs[v] = append(accs[v], access{e, write, ownLocks(e, base, false), ownLocks(e, base, true), pa, w.root})
				}
			}
		}
	}
	var vs []*types.Var
	for v := range accs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	guarded := 0
	for _, v := range vs {
		held := false
		for _, a := range accs[v] {
			held = held || len(a.any) > 0
		}
		if !held {
			continue
		}
		guarded++
		var common map[string]bool
		for _, a := range accs[v] {
			con := lockName(v) + " in " + fnName(a.e.Fn)
			c.Ob("locked", con+" ("+kindNames[a.e.Kind]+")", a.e.Pos)
			ls := a.any
			if a.write {
				ls = a.excl
			}
			if len(ls) == 0 {
				what := "read"
				if a.write {
					what = "changed"
				}
				if a.write && len(a.any) > 0 {
					what += " with only a read lock, not"
				}
				c.Viol("locked", con, a.e.Pos, lockName(v)+" is "+what+" under its lock as it is elsewhere", a.pa)
				continue
			}
			m := map[string]bool{}
			for _, l := range ls {
				if common == nil || common[l] {
					m[l] = true
				}
			}
			common = m
			if len(m) == 0 {
				c.Viol("locked", con, a.e.Pos, lockName(v)+" is guarded by different locks in different places", a.pa)
			}
		}
	}
	c.Expect(guarded >= 12, "locked", "guarded state", token.NoPos, "undecided: less guarded state than expected", nil)
}

// setup: fn, or every function that calls it, runs before what it sets up is shared.
func (p *Prog) setup(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if setup(f) || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil || !p.private(f) {
			return false
		}
		for _, cs := range p.callersOf()[f] {
			if _, ok := cs.Ins.(*ssa.Call); !ok || cs.Caller == nil || !up(cs.Caller) {
				return false
			}
		}
		return true
	}
	return up(fn)
}

// setup: runs before what it sets up is shared.
func setup(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		if once(fn) {
			return true
		}
		fn = fn.Parent()
	}
	return fn.Name() == "Init" && fn.Signature.Recv() != nil || strings.HasPrefix(fn.Name(), "init")
}

// once: a closure that is only run by a package's sync.Once.
func once(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if mc, isMC := in.(*ssa.MakeClosure); ok && isMC && mc.Fn == ssa.Value(fn) {
				for _, r := range *v.Referrers() {
					n++
					if insCalls(r, "(*sync.Once).Do") && packageOnce(r) {
						continue
					}
					return false
				}
			}
			if insCalls(in, "(*sync.Once).Do") && packageOnce(in) {
				if a := in.(ssa.CallInstruction).Common().Args; len(a) == 2 && a[1] == ssa.Value(fn) {
					n++
				}
			}
		}
	}
	return n > 0
}

// packageOnce: the sync.Once guards the set-up of the whole package, not an operation on one object.
func packageOnce(in ssa.Instruction) bool {
	_, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.Global)
	return ok
}

// stateVar: the module's struct field or package variable an address names.
func stateVar(a ssa.Value) *types.Var {
	var v *types.Var
	switch x := a.(type) {
	case *ssa.FieldAddr:
		v = fieldOfAddr(x)
	case *ssa.Global:
		v, _ = x.Object().(*types.Var)
	}
	if v == nil || v.Pkg() == nil || !inScope(v.Pkg().Path()) || strings.HasSuffix(v.Pkg().Path(), "/router") {
		return nil // the wire types hold no state of the framework's own
	}
	return v
}

// freshAddr: a field of what the function itself made.
func (p *Prog) freshAddr(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && p.freshBase(fa)
}

func loadedVar(m ssa.Value) *types.Var {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		return stateVar(u.X)
	}
	return nil
}

// ownLocks: the locks of the object, or of the one it is embedded in, that are held.
func ownLocks(e *Event, base *Term, excl bool) []string {
	var r []string
	for b := base; ; b = b.Args[0] {
		for _, l := range holdsOf(e, b.ID(), excl) {
			r = append(r, l[strings.LastIndex(l, ".")+1:])
		}
		if b.Op != "field" && b.Op != "addr" || len(b.Args) == 0 {
			return r
		}
	}
}

// globalLocks: the package-level locks of the variable's package that are held.
func globalLocks(e *Event, v *types.Var, excl bool) []string {
	var r []string
	for _, h := range e.Locks {
		if excl && h.Read {
			continue
		}
		l := strings.TrimPrefix(h.Lock, "&")
		own := v.Pkg().Name() + "." + v.Name() + "." // a lock in what it points to guards that
		if strings.HasPrefix(l, v.Pkg().Name()+".") && !strings.HasPrefix(l, own) {
			r = append(r, l)
		}
	}
	return r
}

// atomics decides that a field given to sync/atomic is never touched otherwise.
func (c *Check) atomics() {
	at := map[*types.Var]bool{}
	type use struct {
		v   *types.Var
		fn  *ssa.Function
		ins ssa.Instruction
	}
	var plain []use
	n := 0
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				addr, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				fa, ok := addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				v := stateVar(fa)
				if v == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case ssa.CallInstruction:
						if cal := x.Common().StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync/atomic" && cal.Signature.Recv() == nil {
							at[v] = true
							n++
							c.Ob("atomic", lockName(v)+" in "+fnName(fn), x.Pos())
						}
					case *ssa.Store:
						if _, fresh := fa.X.(*ssa.Alloc); x.Addr == ssa.Value(fa) && !fresh && !c.P.freshBase(fa) && !c.P.setup(fn) {
							plain = append(plain, use{v, fn, x})
						}
					case *ssa.UnOp:
						plain = append(plain, use{v, fn, x})
					}
				}
			}
		}
	}
	for _, u := range plain {
		if at[u.v] {
			c.Expect(false, "atomic", lockName(u.v)+" in "+fnName(u.fn), u.ins.Pos(), lockName(u.v)+" is touched without sync/atomic, as it is elsewhere", nil)
		}
	}
	c.Expect(n > 8, "atomic", "atomic accesses", token.NoPos, "undecided: fewer atomic accesses than expected", nil)
}
