package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const mpscPkg = "lib/mpsc"

func init() {
	register(&Prop{ID: "C01", Run: runC01, Method: "path-sensitive typestate of publication order over SSA paths",
		Expl:   "Every path of Queue.Push, Queue.Pop, Queue.Count and the constructor is followed; the order store value / swap head / link predecessor / count / signal, the atomicity of each step, the exactness of the count updates, the capacity of the wake-up channel and the absence of blocking operations are decided on each of them, and every use of the counter and the wake-up channel in the module is inspected.",
		Assume: []string{"sync/atomic operations are sequentially consistent", "Pop is called by one goroutine at a time (decided by C03)"}})
}

func runC01(c *Check) {
	p := c.P
	c.Rule("publish-order", "Push stores the value in a fresh node, then swaps it in as head, then links the previous head to it, each exactly once and by atomic operations")
	c.Rule("count-exact", "the count is changed by exactly +1 after linking in every Push, by exactly -1 in every successful Pop and not at all by an unsuccessful one")
	c.Rule("signal", "after the count changed, the consumer is signalled without blocking, unless nothing is queued")
	c.Rule("non-blocking", "Push and Pop contain no blocking operation and no lock")
	c.Rule("pop-takes-next", "a successful Pop returns the value of the node after the tail, moves the tail to exactly that node and reads the value before clearing it")
	c.Rule("signal-buffered", "the wake-up channel is buffered, so that a signal stays pending")
	c.Rule("counter-atomic", "the counter is accessed by atomic operations only")
	push, pop, count, ctor := p.Method(mpscPkg, "Queue", "Push"), p.Method(mpscPkg, "Queue", "Pop"), p.Method(mpscPkg, "Queue", "Count"), p.Func(mpscPkg, "New")
	if !c.Anchor(push, "Queue.Push") || !c.Anchor(pop, "Queue.Pop") || !c.Anchor(count, "Queue.Count") || !c.Anchor(ctor, "mpsc.New") {
		return
	}
	qT := p.Named(mpscPkg, "Queue")
	var countVar, linkVar, headVar, chanVar *types.Var
	s := structOf(qT)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
			chanVar = s.Field(i)
		}
	}
	noBlock := func(e *Event) {
		bad := e.Kind == EvSend || e.Kind == EvRecv || (e.Kind == EvSelect && e.Blocking) || e.Kind == EvLock
		c.Ob("non-blocking", fnName(e.Fn), e.Fn.Pos())
		if bad {
			c.Viol("non-blocking", site(e), e.Pos, "blocking operation on the mailbox path", nil)
		}
	}
	// signalled: after index i, a non-blocking send on the queue's channel was tried, or the count is known not positive
	signalled := func(pa *Path, i int, cv *types.Var) bool {
		for j := i + 1; j < len(pa.Events); j++ {
			e := pa.Events[j]
			if e.Kind == EvSelect && !e.Blocking {
				for _, cs := range e.Cases {
					if v := fieldVar(cs.Chan); cs.Send && v != nil && v == chanVar && sameID(cs.Chan.Root(), pa.Events[i].rootOr()) {
						return true
					}
				}
			}
		}
		for j := i; j < len(pa.Events); j++ {
			if a := atomicOp(pa.Events[j]); a != nil && (a.Op == "Add" || a.Op == "Load") && fieldVar(a.Addr) == cv {
				if pa.St.Truth(&Term{Op: "bin", S: "<", Args: []*Term{tConst(constant.MakeInt64(0), nil), pa.Events[j].Res}}) == 0 {
					return true
				}
			}
		}
		return false
	}
	w := c.Walk(push, WalkOpts{})
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		for _, e := range pa.Events {
			noBlock(e)
		}
		swap, link, add := -1, -1, -1
		var node *Term
		stored := false
		bad := ""
		for i, e := range pa.Events {
			if e.Kind == EvStore && e.Val.ID() == "$1" && e.Recv.Op == "field" && e.Recv.Args[0].Op == "alloc" {
				stored = true
				node = e.Recv.Args[0]
			}
			a := atomicOp(e)
			if e.Kind == EvStore && fieldVar(e.Recv) != nil && e.Recv.Root().Op != "alloc" {
				bad = "plain store to shared memory " + e.Recv.ID()
			}
			if a == nil {
				continue
			}
			switch a.Op {
			case "Swap":
				if swap >= 0 {
					bad = "head swapped twice"
				}
				swap = i
				headVar = fieldVar(a.Addr)
				if !stored || node == nil || !sameID(a.Args[len(a.Args)-1], node) {
					bad = "the node swapped in does not hold the pushed value yet"
				}
				if _, ok := fieldOf(a.Addr, "$0"); !ok {
					bad = "the swap is not on the queue"
				}
			case "Store":
				if swap < 0 {
					bad = "linked before the head was swapped"
					break
				}
				if link >= 0 {
					bad = "linked twice"
				}
				link = i
				linkVar = fieldVar(a.Addr)
				if a.Addr.Op != "field" || !sameID(a.Addr.Args[0], pa.Events[swap].Res) {
					bad = "the link is not stored in the previous head"
				} else if !sameID(a.Args[0], node) {
					bad = "the previous head is not linked to the new node"
				}
			case "Add":
				if v, ok := constVal(a.Args[0]); !ok || v != 1 {
					bad2 := "count changed by " + a.Args[0].ID()
					c.Viol("count-exact", "Queue.Push", e.Pos, bad2, pa)
				}
				if add >= 0 {
					c.Viol("count-exact", "Queue.Push", e.Pos, "count changed twice", pa)
				}
				if link < 0 {
					c.Viol("count-exact", "Queue.Push", e.Pos, "counted before the value is linked", pa)
				}
				add = i
				countVar = fieldVar(a.Addr)
			case "CompareAndSwap":
				bad = "unexpected compare-and-swap"
			}
		}
		if pa.Outcome != Returned {
			bad = "Push panics"
		}
		if swap < 0 || link < 0 {
			bad = "the value is not swapped in and linked"
		}
		c.Expect(bad == "", "publish-order", "Queue.Push", push.Pos(), bad, pa)
		if c.Expect(add >= 0, "count-exact", "Queue.Push", push.Pos(), "count not increased", pa) {
			c.Expect(signalled(pa, add, countVar), "signal", "Queue.Push", push.Pos(), "no wake-up signal after the push was counted", pa)
		}
	}
	w = c.Walk(pop, WalkOpts{})
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		for _, e := range pa.Events {
			noBlock(e)
		}
		var next *Term
		adds, tailStores := 0, 0
		lastAdd := -1
		bad := ""
		for i, e := range pa.Events {
			if e.Kind == EvStore {
				if _, ok := fieldOf(e.Recv, "$0"); ok {
					tailStores++
					if fieldVar(e.Recv) == headVar {
						bad = "Pop moves the producers' end"
					}
					if next == nil || !sameID(e.Val, next) {
						bad = "the tail is not moved to the node taken"
					}
				}
			}
			a := atomicOp(e)
			if a == nil {
				continue
			}
			switch a.Op {
			case "Load":
				if fieldVar(a.Addr) == linkVar && linkVar != nil {
					next = e.Res
					if b := a.Addr.Args[0].Strip(); b.Op != "load" || !isOn(b, "$0") || fieldVar(b) == headVar {
						bad = "the node taken is not the one after the tail"
					}
				}
			case "Add":
				adds++
				lastAdd = i
				if v, ok := constVal(a.Args[0]); !ok || v != -1 {
					c.Viol("count-exact", "Queue.Pop", e.Pos, "count changed by "+a.Args[0].ID(), pa)
				}
			case "Store", "Swap", "CompareAndSwap":
				bad = "Pop changes shared state by " + e.Name
			}
		}
		if pa.Outcome != Returned {
			c.Viol("pop-takes-next", "Queue.Pop", pop.Pos(), "Pop panics", pa)
			continue
		}
		ret := pa.Ret[0].Strip()
		if adds == 0 && tailStores == 0 {
			c.Expect(ret.IsNilConst(), "count-exact", "Queue.Pop empty", pop.Pos(), "a value is returned without being removed and counted", pa)
			// only when there is no next node
			c.Expect(next != nil && pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{nilCmp(pa, next), tNil(nil)}}) == 1, "pop-takes-next", "Queue.Pop empty", pop.Pos(), "Pop gives up although a value may be linked", pa)
			continue
		}
		c.Expect(adds == 1, "count-exact", "Queue.Pop", pop.Pos(), "the count is not lowered exactly once per value", pa)
		if tailStores != 1 {
			bad = "the tail is not moved exactly once"
		}
		if !(ret.Op == "load" && ret.Args[0].Op == "field" && next != nil && sameID(ret.Args[0].Args[0], next)) {
			bad = "the value returned is not the one of the node taken"
		}
		c.Expect(bad == "", "pop-takes-next", "Queue.Pop", pop.Pos(), bad, pa)
		if lastAdd >= 0 {
			c.Expect(signalled(pa, lastAdd, countVar), "signal", "Queue.Pop", pop.Pos(), "no wake-up signal although values may remain", pa)
		}
	}
	w = c.Walk(count, WalkOpts{})
	for _, pa := range w.Paths {
		ok := false
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "Load" && fieldVar(a.Addr) == countVar && len(pa.Ret) == 1 && pa.is(pa.Ret[0], e.Res) {
				ok = true
			}
		}
		c.Expect(ok, "count-exact", "Queue.Count", count.Pos(), "Count does not report the counter", pa)
	}
	w = c.Walk(ctor, WalkOpts{})
	for _, pa := range w.Paths {
		ok, stub := false, map[string]int{}
		for _, e := range pa.Events {
			if e.Kind != EvStore {
				continue
			}
			if v := fieldVar(e.Recv); v != nil && v == chanVar && e.Val.Op == "makechan" {
				if n, k := e.Val.Args[0].IntConst(); k && n >= 1 {
					ok = true
				}
			}
			if e.Recv.Op == "field" && e.Val.Op == "alloc" && len(pa.Ret) == 1 && sameID(e.Recv.Args[0], pa.Ret[0]) {
				stub[e.Val.ID()]++
			}
		}
		c.Expect(ok, "signal-buffered", "mpsc.New", ctor.Pos(), "the wake-up channel is not made with a buffer", pa)
		two := false
		for _, n := range stub {
			two = two || n == 2
		}
		c.Expect(two, "publish-order", "mpsc.New", ctor.Pos(), "head and tail do not start at one stub node", pa)
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldOfAddr(fa)
				if fv == nil {
					continue
				}
				if fv == countVar {
					c.Ob("counter-atomic", fnName(fn), fa.Pos())
					if !onlyAtomic(fa) && !p.freshBase(fa) {
						c.Viol("counter-atomic", fnName(fn), fa.Pos(), "the counter is accessed without an atomic operation", nil)
					}
				}
				if fv == chanVar {
					for _, r := range *fa.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == fa && !p.freshBase(fa) {
							c.Viol("signal-buffered", fnName(fn), st.Pos(), "the wake-up channel is replaced", nil)
						}
						if ld, ok := r.(*ssa.UnOp); ok {
							for _, u := range *ld.Referrers() {
								if cl, ok := u.(*ssa.Call); ok {
									if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
										c.Viol("signal-buffered", fnName(fn), cl.Pos(), "the wake-up channel is closed", nil)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	c.Min("counter-atomic", 1)
	c.Min("signal", 2)
}

// isOn: the loaded value is a field of the object with that ID.
func isOn(t *Term, root string) bool { _, ok := fieldOf(t, root); return ok }

// nilCmp finds the form of t the path compared with nil (t itself or a conversion of it).
func nilCmp(pa *Path, t *Term) *Term {
	for _, c := range pa.St.terms {
		if c.Op == "bin" && c.S == "==" && c.Args[1].IsNilConst() && sameID(c.Args[0], t) {
			return c.Args[0]
		}
	}
	return t
}

func (e *Event) rootOr() *Term {
	if a := atomicOp(e); a != nil && a.Addr != nil {
		return a.Addr.Root()
	}
	if e.Recv != nil {
		return e.Recv.Root()
	}
	return nil
}

func fieldOfAddr(fa *ssa.FieldAddr) *types.Var {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// onlyAtomic: every use of the address is an argument of a sync/atomic operation.
func onlyAtomic(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			cal := u.Common().StaticCallee()
			if cal == nil || cal.Object() == nil || cal.Object().Pkg() == nil || cal.Object().Pkg().Path() != "sync/atomic" {
				return false
			}
		case *ssa.Convert:
			if !onlyAtomic(u) {
				return false
			}
		case *ssa.ChangeType:
			if !onlyAtomic(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// freshBase: the field belongs to an object that is only being made.
func (p *Prog) freshBase(fa *ssa.FieldAddr) bool {
	return p.fresh(fa.X, map[ssa.Value]bool{})
}

// fresh: v is an object made by this function, by one it calls for it, or by all its callers.
func (p *Prog) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return p.fresh(x.X, seen) // a part of an embedded struct
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a captured or addressed local that only ever holds one
		cell := x.X
		for {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			cell = binding(fv)
		}
		if a, ok := cell.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					n++
					if !p.fresh(st.Val, seen) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Call:
		cal := x.Call.StaticCallee()
		if cal == nil || !p.inModule(cal) || len(cal.Blocks) == 0 || cal.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range cal.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !p.fresh(r.Results[0], seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		if !p.private(fn) {
			return false
		}
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			for _, cs := range p.callersOf()[fn] {
				ci, ok := cs.Ins.(*ssa.Call)
				if !ok || i >= len(ci.Call.Args) || !p.fresh(ci.Call.Args[i], seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// binding: what a closure that is made in one place captured.
func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	var r ssa.Value
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			for i, v := range fn.FreeVars {
				if v == fv {
					if r != nil {
						return nil
					}
					r = mc.Bindings[i]
				}
			}
		}
	}
	return r
}

// private: fn is only ever called directly, by functions of the module.
func (p *Prog) private(fn *ssa.Function) bool {
	if fn.Parent() != nil || len(p.callersOf()[fn]) == 0 || len(p.valueUses()[fn]) > 0 {
		return false
	}
	o := fn.Object()
	return o != nil && !o.Exported()
}
