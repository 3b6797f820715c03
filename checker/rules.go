package main

// Vocabulary shared by the rules.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Prop struct {
	ID     string
	Run    func(c *Check)
	Method string   // technique
	Expl   string   // what is decided, for evidence and manifest
	Assume []string // what is trusted
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// isCall: a call event (opaque) to one of the named callees.
func isCall(e *Event, names ...string) bool {
	if e.Kind != EvCall {
		return false
	}
	for _, n := range names {
		if e.Name == n {
			return true
		}
	}
	return false
}

// methodCall: a call of a method with this name, whatever implements it, on a type of
// the given package path suffix ("" any).
func methodCall(e *Event, name string) bool {
	return e.Kind == EvCall && strings.HasSuffix(e.Name, ")."+name)
}

type atomicEv struct {
	Op   string // Load Store Add Swap CompareAndSwap
	Addr *Term
	Args []*Term
}

// atomicOp decodes operations of sync/atomic, functions and typed values alike.
func atomicOp(e *Event) *atomicEv {
	if e.Kind != EvCall || !strings.Contains(e.Name, "sync/atomic.") {
		return nil
	}
	name := e.Name[strings.LastIndex(e.Name, ".")+1:]
	a := &atomicEv{}
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
		if strings.HasPrefix(name, op) {
			a.Op = op
		}
	}
	if a.Op == "" {
		return nil
	}
	if e.Recv != nil {
		a.Addr, a.Args = e.Recv, e.Args
	} else if len(e.Args) > 0 {
		a.Addr, a.Args = e.Args[0].Strip(), e.Args[1:]
	}
	return a
}

// constVal of a term behind conversions.
func constVal(t *Term) (int64, bool) { return t.Strip().IntConst() }

// isField: the term is the address or the value of a field of that name on root r.
func fieldOf(t *Term, root string) (string, bool) {
	if t == nil {
		return "", false
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op != "field" && t.Op != "fieldval" {
		return "", false
	}
	b := t.Args[0]
	if b.ID() == root {
		return t.S, true
	}
	return "", false
}

// addrField returns the field object an address or loaded value designates.
func fieldVar(t *Term) *types.Var {
	for t != nil && (t.Op == "load" || t.Op == "conv" || t.Op == "iface") {
		t = t.Args[0]
	}
	if t == nil || (t.Op != "field" && t.Op != "fieldval") {
		return nil
	}
	v, _ := t.Obj.(*types.Var)
	return v
}

// holds: a lock on a field of the object base (by ID) is held at e; write mode if w.
func holdsOf(e *Event, base string, w bool) []string {
	var r []string
	base = deref(base)
	for _, h := range e.Locks {
		if w && h.Read {
			continue
		}
		// the lock is a field, or what a pointer field points to
		if h.Lock == "&"+base || strings.HasPrefix(h.Lock, "&"+base+".") || strings.HasPrefix(h.Lock, base+".") {
			r = append(r, h.Lock)
		}
	}
	return r
}

// is: the value is the wanted one, or a constant the path found the wanted one to be.
func (pa *Path) is(v, want *Term) bool {
	if v == nil || want == nil {
		return false
	}
	if sameID(v, want) {
		return true
	}
	if pa.nil(v) == IsNil && pa.nil(want) == IsNil {
		return true
	}
	if b, ok := v.BoolConst(); ok {
		t := pa.St.Truth(want)
		return t == 1 && b || t == 0 && !b
	}
	return false
}

// orDecided: the value, or for true, false and nil the value last found to be that.
func (pa *Path) orDecided(v *Term) *Term {
	b, ok := v.Strip().BoolConst()
	if !ok && !v.Strip().IsNilConst() {
		return v
	}
	for i := len(pa.Events) - 1; i >= 0; i-- {
		switch e := pa.Events[i]; e.Kind {
		case EvReturn, EvLeave, EvUnlock:
		case EvCall:
			if !e.Deferred {
				return v
			}
		case EvStore:
			// the result variable
			if e.Recv.Root().Op != "alloc" || !sameID(e.Val, v) {
				return v
			}
		case EvBranch:
			if !ok {
				if x := e.Val; x.Op == "bin" && (x.S == "==" && e.Ok || x.S == "!=" && !e.Ok) && x.Args[1].IsNilConst() {
					return x.Args[0]
				}
				return v
			}
			if e.Ok == b {
				return e.Val
			}
			if e.Val.Op == "un" && e.Val.S == "!" {
				return e.Val.Args[0]
			}
			return &Term{Op: "un", S: "!", Args: []*Term{e.Val}, T: e.Val.T}
		default:
			return v
		}
	}
	return v
}

func sameID(a, b *Term) bool { return a != nil && b != nil && a.Strip().ID() == b.Strip().ID() }

// closureFree resolves the address of a captured variable.
func idOf(t *Term) string {
	if t == nil {
		return ""
	}
	return t.Strip().ID()
}

// callers in the module of a function, by direct call, go or defer.
type callSite struct {
	Caller *ssa.Function
	Ins    ssa.CallInstruction
}

func (p *Prog) callersOf() map[*ssa.Function][]callSite {
	if p.callers != nil {
		return p.callers
	}
	p.callers = map[*ssa.Function][]callSite{}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil {
						p.callers[cal] = append(p.callers[cal], callSite{fn, ci})
					}
				}
			}
		}
	}
	return p.callers
}

// addressTaken: functions used as values other than as a callee.
func (p *Prog) valueUses() map[*ssa.Function][]ssa.Instruction {
	if p.fnvals != nil {
		return p.fnvals
	}
	p.fnvals = map[*ssa.Function][]ssa.Instruction{}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, o := range ops {
					if *o == nil {
						continue
					}
					f, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && !ci.Common().IsInvoke() {
						continue
					}
					p.fnvals[f] = append(p.fnvals[f], in)
				}
			}
		}
	}
	return p.fnvals
}

// Entries climbs from functions to the entry points that run them synchronously: an
// unexported function that is only called directly is replaced by its callers, a
// closure that is only called where it is made by its parent, and so on. Functions
// started as goroutines, stored, or exported stay.
func (p *Prog) Entries(fns []*ssa.Function) []*ssa.Function {
	callers := p.callersOf()
	vals := p.valueUses()
	res := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var climb func(fn *ssa.Function)
	climb = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Parent() != nil {
			// closure: how is it used in the parent?
			called := false
			for _, cs := range callers[fn] {
				switch cs.Ins.(type) {
				case *ssa.Call, *ssa.Defer:
					called = true
					climb(cs.Caller)
				default:
					res[fn] = true
				}
			}
			other := closureEscapes(fn)
			if other || !called {
				res[fn] = true
			}
			return
		}
		obj := fn.Object()
		exported := obj != nil && obj.Exported()
		if exported || len(vals[fn]) > 0 || fn.Name() == "init" {
			res[fn] = true
			return
		}
		n := 0
		for _, cs := range callers[fn] {
			switch cs.Ins.(type) {
			case *ssa.Go:
				res[fn] = true
			default:
				n++
				climb(cs.Caller)
			}
		}
		if n == 0 {
			res[fn] = true
		}
	}
	for _, f := range fns {
		climb(f)
	}
	var r []*ssa.Function
	for f := range res {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

// closureEscapes: the closure value is used other than by being called or deferred on the spot.
func closureEscapes(fn *ssa.Function) bool {
	par := fn.Parent()
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for _, r := range *mc.Referrers() {
					switch u := r.(type) {
					case *ssa.Call:
						if u.Call.Value == mc {
							continue
						}
					case *ssa.Defer:
						if u.Call.Value == mc {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					return true
				}
			}
			if _, ok := in.(*ssa.MakeClosure); ok {
				continue
			}
			var ops []*ssa.Value
			for i, o := range in.Operands(ops) {
				if *o == ssa.Value(fn) {
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && !ci.Common().IsInvoke() {
						if _, isgo := in.(*ssa.Go); !isgo {
							continue
						}
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// FnsWith: functions of the module with an instruction accepted by pred.
func (p *Prog) FnsWith(pred func(in ssa.Instruction) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.Fns {
	scan:
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					r = append(r, fn)
					break scan
				}
			}
		}
	}
	return r
}

// callsTo: call instructions (call, go, defer) whose static callee or interface method
// has one of these names.
func insCalls(in ssa.Instruction, names ...string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	c := ci.Common()
	var o types.Object
	if c.IsInvoke() {
		o = c.Method
	} else if cal := c.StaticCallee(); cal != nil {
		o = cal.Object()
		if o == nil && cal.Origin() != nil {
			o = cal.Origin().Object()
		}
	}
	if o == nil {
		return false
	}
	n := calleeName(o)
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// spawned: the goroutines a walk starts, once per go statement and function.
func (w *Walk) Spawned() []*Event {
	seen := map[string]bool{}
	var r []*Event
	for _, pa := range w.Paths {
		for _, e := range pa.Events {
			if e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 {
				k := fmt.Sprint(e.GoFn.String(), "@", e.Pos)
				// one per distinct assumption set about arguments is enough: keep all distinct snapshots small
				if !seen[k] {
					seen[k] = true
					r = append(r, e)
				}
			}
		}
	}
	return r
}

// SpawnedAll keeps every start event.
func (w *Walk) SpawnedAll(max int) []*Event {
	var r []*Event
	n := map[string]int{}
	for _, pa := range w.Paths {
		for _, e := range pa.Events {
			if e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 {
				k := fmt.Sprint(e.GoFn.String(), "@", e.Pos)
				if n[k] < max {
					n[k]++
					r = append(r, e)
				}
			}
		}
	}
	return r
}

// segments splits the events of a path at each event accepted by head; the first segment
// precedes the first head. The head event is the first of its segment.
func segments(evs []*Event, head func(e *Event) bool) [][]*Event {
	var r [][]*Event
	cur := []*Event{}
	for _, e := range evs {
		if head(e) {
			r = append(r, cur)
			cur = []*Event{}
		}
		cur = append(cur, e)
	}
	return append(r, cur)
}

func where(e *Event) token.Pos {
	if e == nil {
		return token.NoPos
	}
	return e.Pos
}

// site names a construct stably: enclosing function, kind and callee.
func site(e *Event) string {
	s := ""
	if e.Fn != nil {
		s = fnName(e.Fn) + ": "
	}
	s += kindNames[e.Kind]
	if e.Name != "" {
		s += " " + e.Name
	}
	return s
}

// hasBranch reports whether the path decided cond accepted by pred, and how.
func branches(evs []*Event, pred func(c *Term) bool) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == EvBranch && e.Val != nil && pred(e.Val) {
			r = append(r, e)
		}
	}
	return r
}

// truthAfter evaluates a condition with the final assumptions of a path.
func (pa *Path) True(op string, x, y *Term) int {
	return pa.St.Truth(&Term{Op: "bin", S: op, Args: []*Term{x, y}})
}

// wrapsErr: the error value returned carries e (is it, or was built from it).
func carries(ret *Term, e *Term) bool {
	if ret == nil || e == nil {
		return false
	}
	return ret.Mentions(e.ID())
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// errResult is the error component of a call's result.
func errResult(e *Event) *Term {
	if e.Res == nil || e.Obj == nil {
		return nil
	}
	sig, ok := e.Obj.Type().(*types.Signature)
	if !ok {
		return nil
	}
	n := sig.Results().Len()
	if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return e.Res
	}
	return &Term{Op: "extract", Args: []*Term{e.Res}, N: n - 1, T: sig.Results().At(n - 1).Type()}
}

func extract(t *Term, i int) *Term {
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return &Term{Op: "extract", Args: []*Term{t}, N: i}
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// nilAt evaluates nilness of a term using the assumptions at the end of the path.
func (pa *Path) nil(t *Term) Nilness { return pa.St.Nil(t) }

// LB is the loop bound of a walk: deeper in the thorough tier.
func (c *Check) LB(n int) int {
	if c.Deep {
		return n + 1
	}
	return n
}

// Guarded decides that a field (and, for a map, its contents) is only touched with one
// common lock of the same object held, in write mode for writes.
func (c *Check) Guarded(rule string, T *types.Named, fname string, pred func(v *types.Var) bool, exempt func(fn *ssa.Function) bool, min int) {
	f := FieldBy(T, fname, pred)
	if f == nil {
		c.Missing(T.Obj().Name() + "." + fname)
		return
	}
	p := c.P
	fns := p.FnsWith(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && fieldOfAddr(fa) == f
	})
	type acc struct {
		e     *Event
		write bool
		locks []string
		w     []string
		pa    *Path
		fn    *ssa.Function
	}
	var accs []acc
	for _, fn := range p.Entries(fns) {
		if exempt != nil && exempt(fn) {
			continue
		}
		w := c.Walk(fn, WalkOpts{Loads: true, LoopBound: 2})
		walks := []*Walk{w}
		for _, g := range w.Spawned() {
			if g.GoFn.Parent() != nil && c.P.inModule(g.GoFn) {
				walks = append(walks, c.WalkGo(w, g, WalkOpts{Loads: true, LoopBound: 2}))
			}
		}
		for _, w := range walks {
			for _, pa := range w.Paths {
				for _, e := range pa.Events {
					if e.Recv == nil {
						continue
					}
					var a *Term
					write := false
					switch e.Kind {
					case EvLoad:
						a = e.Recv
					case EvStore:
						a = e.Recv
						write = true
					case EvLookup, EvRange:
						a = e.Recv
					case EvMapSet, EvMapDel:
						a = e.Recv
						write = true
					default:
						continue
					}
					if fieldVar(a) != f {
						continue
					}
					if a.Op == "load" {
						a = a.Args[0]
					}
					base := a.Args[0]
					if base.Op == "alloc" && !pa.St.esc[base.Key()] {
						continue // still private
					}
					if base.Op == "alloc" && privateAt(pa, e, base) {
						continue
					}
					accs = append(accs, acc{e, write, rel(holdsOf(e, base.ID(), false), base.ID()), rel(holdsOf(e, base.ID(), true), base.ID()), pa, w.root})
				}
			}
		}
	}
	var common map[string]bool
	for _, a := range accs {
		c.Ob(rule, T.Obj().Name()+"."+f.Name()+" in "+fnName(a.e.Fn)+" ("+kindNames[a.e.Kind]+")", a.e.Pos)
		ls := a.locks
		if a.write {
			ls = a.w
		}
		if len(ls) == 0 {
			what := "read"
			if a.write {
				what = "changed"
			}
			extra := ""
			if a.write && len(a.locks) > 0 {
				extra = " (only a read lock is held)"
			}
			c.Viol(rule, T.Obj().Name()+"."+f.Name()+" in "+fnName(a.e.Fn), a.e.Pos, T.Obj().Name()+"."+f.Name()+" is "+what+" without its lock"+extra, a.pa)
			continue
		}
		m := map[string]bool{}
		for _, l := range ls {
			if common == nil || common[l] {
				m[l] = true
			}
		}
		common = m
		if len(m) == 0 {
			c.Viol(rule, T.Obj().Name()+"."+f.Name()+" in "+fnName(a.e.Fn), a.e.Pos, T.Obj().Name()+"."+f.Name()+" is guarded by different locks in different places", a.pa)
		}
	}
	if len(accs) < min {
		c.Viol(rule, T.Obj().Name()+"."+f.Name(), f.Pos(), fmt.Sprintf("undecided: only %d accesses found", len(accs)), nil)
	}
}

func rel(ls []string, base string) []string {
	var r []string
	base = deref(base)
	for _, l := range ls {
		r = append(r, strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(l, "&"), base), "."))
	}
	return r
}

// privateAt: at e, the allocation has not been handed to anybody yet on this path.
func privateAt(pa *Path, e *Event, base *Term) bool {
	id := base.ID()
	for _, x := range pa.Events {
		if x == e {
			return true
		}
		switch x.Kind {
		case EvGo, EvSend, EvCall:
			if x.Recv != nil && x.Recv.Mentions(id) {
				return false
			}
			for _, a := range x.Args {
				if a.Mentions(id) {
					return false
				}
			}
			if x.Val != nil && x.Val.Mentions(id) {
				return false
			}
		case EvStore:
			if x.Val != nil && x.Val.Mentions(id) && x.Recv.Root().ID() != id {
				return false
			}
		case EvMapSet:
			if x.Val != nil && x.Val.Mentions(id) {
				return false
			}
		}
	}
	return true
}
