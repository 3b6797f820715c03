package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedLock: both events hold the same acquisition of a lock (same critical section).
func sharedLock(a, b *Event) bool {
	if a == nil || b == nil {
		return false
	}
	for _, h := range a.Locks {
		for _, g := range b.Locks {
			if h.Lock == g.Lock && h.Pos == g.Pos {
				return true
			}
		}
	}
	return false
}

// storedTo: the stores of a path to a field of the object with this ID.
func storedTo(evs []*Event, obj, field string) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == EvStore && e.Recv != nil && e.Recv.Op == "field" && e.Recv.S == field && e.Recv.Args[0].Strip().ID() == obj {
			r = append(r, e)
		}
	}
	return r
}

func indexOf(evs []*Event, x *Event) int {
	for i, e := range evs {
		if e == x {
			return i
		}
	}
	return -1
}

// invocation of a function value: by call, by go, or inside a goroutine started for it.
type invocation struct {
	Fn     *Term
	Args   []*Term
	Locked bool
	At     int
	Pos    *Event
}

// invocations lists the function values a path runs, looking into goroutines that only
// wrap such a call.
func (c *Check) invocations(w *Walk, pa *Path) []invocation {
	var r []invocation
	for i, e := range pa.Events {
		switch {
		case e.Kind == EvCall && e.Dynamic:
			r = append(r, invocation{e.Recv, e.Args, len(e.Locks) > 0, i, e})
		case e.Kind == EvGo && e.Dynamic:
			r = append(r, invocation{e.Recv, e.Args, false, i, e})
		case e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 && c.P.inModule(e.GoFn):
			gw := c.WalkGo(w, e, WalkOpts{LoopBound: 2})
			for _, gp := range gw.Paths {
				var one []invocation
				for _, x := range gp.Events {
					if x.Kind == EvCall && x.Dynamic {
						one = append(one, invocation{x.Recv, x.Args, len(x.Locks) > 0, i, x})
					}
				}
				r = append(r, one...)
				break
			}
		}
	}
	return r
}

const (
	nThen        = "(*core/actor.Future).Then"
	nIsCompleted = "(*core/actor.Future).IsCompleted"
)

// ---------------------------------------------------------------- C08

func runC08(c *Check) {
	p := c.P
	c.Rule("complete-once", "Complete decides under the future's lock whether it is the first; only then, and in that critical section, it stores the result and closes the completion signal, the result first")
	c.Rule("all-callbacks", "the first completion starts every queued callback exactly once with the result")
	c.Rule("then-decides", "Then decides under the future's lock, with one check of the completion signal, either to queue the callback or to start it, exactly one of them")
	c.Rule("derived", "what Then queues or starts runs the callback once with the result and afterwards, also after a panic, completes the future it returned with it, once")
	c.Rule("outside-lock", "no callback is invoked while the future's lock is held")
	c.Rule("poll", "IsCompleted reports the completion signal without blocking")
	c.Rule("future-lock", "result and callback list are only touched under the future's lock")
	fT := p.Named(actorPkg, "Future")
	then, comp, isc := p.MethodN(fT, "Then"), p.MethodN(fT, "Complete"), p.MethodN(fT, "IsCompleted")
	if !c.Anchor(then, "Future.Then") || !c.Anchor(comp, "Future.Complete") || !c.Anchor(isc, "Future.IsCompleted") {
		return
	}
	cbF := FieldBy(fT, "callbacks", func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Slice); return ok })
	if cbF == nil {
		c.Missing("callback list of Future")
		return
	}
	var done *types.Var
	w := c.Walk(comp, WalkOpts{LoopBound: c.LB(3)})
	for _, pa := range w.Paths {
		for _, e := range pa.Events {
			if e.Kind == EvClose && fieldVar(e.Recv) != nil {
				done = fieldVar(e.Recv)
			}
		}
	}
	if done == nil {
		c.Missing("completion signal of Future")
		return
	}
	// seen: the check of the completion signal on a path
	seen := func(pa *Path) (*Event, bool) {
		for _, e := range pa.Events {
			if e.Kind == EvSelect && !e.Blocking {
				for _, cs := range e.Cases {
					if fieldVar(cs.Chan) == done {
						return e, e.Case >= 0
					}
				}
			}
		}
		return nil, false
	}
	for _, pa := range w.Paths {
		con := fnName(comp)
		chk, already := seen(pa)
		closes, stores := []*Event{}, []*Event{}
		for _, e := range pa.Events {
			if e.Kind == EvClose {
				closes = append(closes, e)
			}
			if e.Kind == EvStore && e.Val != nil && e.Recv.Op == "field" && e.Recv.Args[0].ID() == "$0" && isWrapperPtr(ptrElem(e.Recv.T)) {
				stores = append(stores, e)
			}
		}
		inv := c.invocations(w, pa)
		if pa.Outcome == Panicked || pa.Outcome == Stuck {
			c.Viol("complete-once", con, comp.Pos(), "Complete panics or blocks", pa)
			continue
		}
		if chk == nil {
			c.Expect(len(closes) == 0 && len(stores) == 0 && len(inv) == 0, "complete-once", con, comp.Pos(), "the future is completed without having checked that it is not completed yet", pa)
			continue
		}
		if already {
			c.Expect(len(closes) == 0 && len(stores) == 0 && len(inv) == 0, "complete-once", con+" again", comp.Pos(), "a second completion has an effect", pa)
			continue
		}
		if pa.Outcome == Cut {
			continue
		}
		ok := len(closes) == 1 && len(stores) == 1 && stores[0].Val.ID() == "$1"
		if c.Expect(ok, "complete-once", con, comp.Pos(), fmt.Sprintf("the first completion stores the result %d times and closes the signal %d times", len(stores), len(closes)), pa) {
			c.Expect(sharedLock(chk, closes[0]) && sharedLock(chk, stores[0]), "complete-once", con+" section", comp.Pos(), "check, result and signal are not in one critical section", pa)
			c.Expect(indexOf(pa.Events, stores[0]) < indexOf(pa.Events, closes[0]), "complete-once", con+" order", comp.Pos(), "the signal is given before the result is stored", pa)
		}
		// how many callbacks does this path see?
		n, end := int64(0), false
		for _, e := range pa.Events {
			if e.Kind != EvBranch || e.Val.Op != "bin" {
				continue
			}
			if k, nn, is := lenDecision(e, cbF.Name()); is {
				end = true
				n = nn
				_ = k
			}
		}
		if !end {
			c.Viol("all-callbacks", con, comp.Pos(), "the list of callbacks is not run to its end", pa)
			continue
		}
		got := map[string]int{}
		good := true
		for _, x := range inv {
			got[x.Fn.ID()]++
			if len(x.Args) != 1 || (x.Args[0].ID() != "$1" && x.Args[0].ID() != "$0."+stores0(stores)) {
				good = false
			}
			c.Expect(!x.Locked, "outside-lock", con, x.Pos.Pos, "a callback is invoked while the future's lock is held", pa)
		}
		for i := int64(0); i < n; i++ {
			cnt := 0
			for id, k := range got {
				if strings.HasSuffix(id, fmt.Sprintf("[%d]", i)) {
					cnt += k
				}
			}
			if cnt != 1 {
				good = false
			}
		}
		c.Expect(good && int64(len(inv)) == n, "all-callbacks", con, comp.Pos(), fmt.Sprintf("%d callbacks queued but %d started, or not with the result", n, len(inv)), pa)
	}
	c.Min("complete-once", 2)

	tw := c.Walk(then, WalkOpts{})
	for _, pa := range tw.Paths {
		con := fnName(then)
		if pa.Outcome != Returned {
			c.Viol("then-decides", con, then.Pos(), "Then does not return", pa)
			continue
		}
		chk, already := seen(pa)
		if chk == nil {
			c.Viol("then-decides", con, then.Pos(), "Then does not look whether the future is completed", pa)
			continue
		}
		newF := pa.Ret[0].Strip()
		var queued, started []*Event
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Val != nil && e.Val.Op == "append" && e.Recv.Op == "field" && e.Recv.Args[0].ID() == "$0" {
				queued = append(queued, e)
			}
			if e.Kind == EvGo || e.Kind == EvCall && e.Dynamic {
				started = append(started, e)
			}
			if e.Kind == EvCall && e.Dynamic {
				c.Expect(len(e.Locks) == 0, "outside-lock", con, e.Pos, "a callback is invoked while the future's lock is held", pa)
			}
		}
		if already {
			if !c.Expect(len(queued) == 0 && len(started) == 1, "then-decides", con+" completed", then.Pos(), fmt.Sprintf("on a completed future the callback is queued %d times and started %d times", len(queued), len(started)), pa) {
				continue
			}
			e := started[0]
			if e.Kind == EvGo && e.GoFn != nil {
				arg := &Term{Op: "param", S: "$result"}
				if len(e.Args) == 1 {
					if fv := fieldVar(e.Args[0]); fv == nil || !isWrapperPtr(fv.Type()) || e.Args[0].Root().ID() != "$0" {
						c.Viol("derived", con+" argument", e.Pos, "the callback is not given the future's result", pa)
					}
					g := *e
					g.Args = []*Term{arg}
					c.derived(tw, &g, newF, con, arg)
				} else {
					c.derived(tw, e, newF, con, nil)
				}
			} else {
				c.Viol("derived", con, e.Pos, "undecided: the callback is not started as a closure of Then", pa)
			}
			continue
		}
		if !c.Expect(len(queued) == 1 && len(started) == 0, "then-decides", con+" open", then.Pos(), fmt.Sprintf("on an open future the callback is queued %d times and started %d times", len(queued), len(started)), pa) {
			continue
		}
		q := queued[0]
		c.Expect(sharedLock(chk, q), "then-decides", con+" section", q.Pos, "the callback is queued outside the critical section in which the future was seen open", pa)
		els := q.Val.Args[1].Args
		base := q.Val.Args[0]
		ok := len(els) == 1 && els[0].Op == "closure" && fieldVar(base) == fieldVar(q.Recv)
		if !c.Expect(ok, "then-decides", con+" list", q.Pos, "the callback is not added to the end of the future's list", pa) {
			continue
		}
		arg := &Term{Op: "param", S: "$result"}
		c.derived(tw, &Event{GoFn: els[0].Fn, Recv: els[0], Snap: pa.St, Fn: then, Args: []*Term{arg}}, newF, con+" queued", arg)
	}
	c.Min("then-decides", 3)
	c.Min("derived", 1)
	for _, pa := range c.Walk(isc, WalkOpts{}).Paths {
		chk, already := seen(pa)
		ok := pa.Outcome == Returned && chk != nil
		if ok {
			b, known := pa.Ret[0].BoolConst()
			ok = known && b == already
		}
		c.Expect(ok, "poll", fnName(isc), isc.Pos(), "IsCompleted does not report the completion signal", pa)
		for _, e := range pa.Events {
			if e.Kind == EvRecv || isSelect(e) {
				c.Viol("poll", fnName(isc), e.Pos, "IsCompleted blocks", pa)
			}
		}
	}
	// the constructor makes the signal
	nf := p.Func(actorPkg, "NewFuture")
	if c.Anchor(nf, "NewFuture") {
		for _, pa := range c.Walk(nf, WalkOpts{}).Paths {
			ok := false
			for _, e := range pa.Events {
				if e.Kind == EvStore && fieldVar(e.Recv) == done && e.Val.Op == "makechan" {
					ok = true
				}
			}
			c.Expect(ok, "poll", fnName(nf), nf.Pos(), "a new future has no completion signal", pa)
		}
	}
	c.Guarded("future-lock", fT, "result", func(v *types.Var) bool { return isWrapperPtr(v.Type()) }, nil, 2)
	c.Guarded("future-lock", fT, "callbacks", func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Slice); return ok }, nil, 2)
}

func stores0(s []*Event) string {
	if len(s) == 0 {
		return ""
	}
	return s[0].Recv.S
}

// lenDecision: the branch ends an iteration over a list field with that name: it decided
// that exactly n elements exist.
func lenDecision(e *Event, field string) (string, int64, bool) {
	v := e.Val
	if v.Op != "bin" {
		return "", 0, false
	}
	x, y := v.Args[0], v.Args[1]
	if v.S == "<" && !e.Ok && y.Op == "len" && y.Args[0].PathEnds(field) {
		if n, ok := x.IntConst(); ok {
			return y.ID(), n, true
		}
	}
	if v.S == "==" && e.Ok && x.Op == "len" && x.Args[0].PathEnds(field) {
		if n, ok := y.IntConst(); ok {
			return x.ID(), n, true
		}
	}
	if v.S == "<" && e.Ok && x.Op == "len" && x.Args[0].PathEnds(field) {
		if n, ok := y.IntConst(); ok && n == 1 {
			return x.ID(), 0, true
		}
	}
	return "", 0, false
}

// derived checks the closure Then makes around a callback.
func (c *Check) derived(w *Walk, g *Event, newF *Term, con string, arg *Term) {
	gw := c.WalkGo(w, g, WalkOpts{Opaque: []string{nComplete}, MayPanic: func(e *Event) bool { return e.Kind == EvCall && e.Dynamic }})
	for _, pa := range gw.Paths {
		cb, comp := -1, -1
		n, m := 0, 0
		good := true
		for i, e := range pa.Events {
			if e.Kind == EvCall && e.Dynamic {
				n++
				cb = i
				good = good && e.Recv.ID() == "$1" && len(e.Args) == 1 && (arg == nil || e.Args[0].ID() == arg.ID())
			}
			if isCall(e, nComplete) {
				m++
				comp = i
				good = good && e.Recv.ID() == newF.ID() && (arg == nil || e.Args[0].ID() == arg.ID())
			}
			if e.Kind == EvGo {
				good = false
			}
		}
		c.Expect(pa.Outcome == Returned && n == 1 && m == 1 && cb < comp && good, "derived", con, g.GoFn.Pos(),
			fmt.Sprintf("the callback is run %d times and the derived future completed %d times, in another order, with something else, or the panic is not caught", n, m), pa)
	}
}

// ---------------------------------------------------------------- C09

const (
	nSwap     = "router/msg.Swap"
	nNewB     = "router/msg.NewBuilder"
	nBuild    = "(*router/msg.MsgBuilder).Build"
	wrapperTy = "router/msg.Wrapper"
)

// usable: the wrapper comes from the builder (request and response are there).
func usable(t *Term) bool {
	t = t.Strip()
	return t.Op == "call" && (t.S == nBuild || t.S == nSwap)
}

func runC09(c *Check) {
	p := c.P
	c.Rule("call", "the call is issued once, with the caller's target, type and event, on a swapped copy of the message, and its outcome completes the inner future exactly once, with the error if there is one and the copy otherwise; its context is released only afterwards")
	c.Rule("deadline", "a goroutine waits for the inner completion or the end of a context bounded by a timeout and derived from the caller's, and then completes the returned future with an error in a usable wrapper")
	c.Rule("handoff", "the outcome is queued to the actor's loop under the gate lock with the actor seen open, or else the returned future completes with an error in a usable wrapper")
	c.Rule("action", "the queued action completes the returned future exactly once with the caller's message, after taking over the error or the response, and also when it panics")
	c.Rule("loop", "the loop runs the action of every reentrant item exactly once with the item's message")
	c.Rule("own-group", "the copy has its own completion group")
	re := p.Method(actorPkg, "Runtime", "ReenterCall")
	if !c.Anchor(re, "Runtime.ReenterCall") {
		return
	}
	opaque := WalkOpts{Opaque: []string{nThen, nComplete}, LoopBound: 2}
	w := c.Walk(re, opaque)
	var gateFlag *types.Var
	for _, pa := range c.P.Walk(p.Method(actorPkg, "Runtime", "Received"), WalkOpts{}).Paths {
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "Load" {
				gateFlag = fieldVar(a.Addr)
			}
		}
	}
	for _, pa := range w.Paths {
		if pa.Outcome != Returned {
			c.Viol("call", fnName(re), re.Pos(), "ReenterCall does not return", pa)
			continue
		}
		ret := pa.Ret[0].Strip()
		var thens []*Event
		var gos []*Event
		var ctxCall *Event
		for _, e := range pa.Events {
			if isCall(e, nThen) {
				thens = append(thens, e)
			}
			if e.Kind == EvGo && e.GoFn != nil {
				gos = append(gos, e)
			}
			if isCall(e, "context.WithTimeout", "context.WithDeadline") {
				ctxCall = e
			}
			if isCall(e, nSysCall) {
				c.Viol("call", fnName(re), e.Pos, "the call blocks the caller", pa)
			}
		}
		var inner *Term
		callers, monitors, released := 0, 0, false
		for _, g := range gos {
			gw := c.WalkGo(w, g, opaque)
			isCaller := false
			for _, gp := range gw.Paths {
				for _, e := range gp.Events {
					if isCall(e, nSysCall) {
						isCaller = true
					}
				}
			}
			if !isCaller {
				continue
			}
			callers++
			con := fnName(re) + " call goroutine"
			for _, gp := range gw.Paths {
				var call, comp *Event
				nc, nn := 0, 0
				release := false
				for _, e := range gp.Events {
					if isCall(e, nSysCall) {
						call = e
						nc++
					}
					if isCall(e, nComplete) {
						comp = e
						nn++
						inner = e.Recv
						if release {
							c.Viol("call", con+" release", e.Pos, "the call's context is released before the outcome is known", gp)
						}
					}
					if e.Kind == EvCall && e.Dynamic && ctxCall != nil && sameID(e.Recv, extract(ctxCall.Res, 1)) {
						release, released = true, true
					}
				}
				ok := gp.Outcome == Returned && nc == 1 && nn == 1 && indexOf(gp.Events, call) < indexOf(gp.Events, comp)
				if !c.Expect(ok, "call", con, g.Pos, fmt.Sprintf("%d calls, %d completions on a path", nc, nn), gp) {
					continue
				}
				x := call.Args[3].Strip()
				okArgs := call.Args[0].ID() == "$1" && call.Args[1].ID() == "$2" && call.Args[2].ID() == "$3"
				c.Expect(okArgs, "call", con+" arguments", call.Pos, "target, type or event handed to the system are not the caller's", gp)
				c.Expect(x.Op == "call" && x.S == nSwap && len(x.Args) == 1 && x.Args[0].ID() == "$4", "call", con+" copy", call.Pos, "the message handed to the system is not a swapped copy of the caller's", gp)
				res := comp.Args[0].Strip()
				if gp.nil(call.Res) == IsNil {
					c.Expect(res.ID() == x.ID(), "call", con+" success", comp.Pos, "a successful call does not complete with the message it was made with", gp)
				} else {
					er := false
					for _, st := range storedTo(gp.Events, res.ID(), "Err") {
						er = carries(st.Val, call.Res)
					}
					c.Expect(er && gp.nil(call.Res) == NonNil, "call", con+" failure", comp.Pos, "the call's error does not reach the future", gp)
				}
			}
		}
		if !c.Expect(callers == 1 && inner != nil, "call", fnName(re), re.Pos(), fmt.Sprintf("%d goroutines make the call", callers), pa) {
			continue
		}
		if inner.ID() == ret.ID() {
			c.Viol("call", fnName(re)+" futures", re.Pos(), "undecided: the call completes the returned future directly", pa)
			continue
		}
		okCtx := ctxCall != nil && ctxCall.Args[0].PathEnds("Ctx") && ctxCall.Args[0].Root().ID() == "$4"
		c.Expect(okCtx && someTime(pa, ctxCall), "deadline", fnName(re)+" timeout", re.Pos(), "the time given to the call is neither the caller's deadline nor a positive time of its own", pa)
		c.Expect(okCtx, "deadline", fnName(re)+" context", re.Pos(), "the waiting is not bounded by a timeout on the caller's context", pa)
		for _, g := range gos {
			gw := c.WalkGo(w, g, opaque)
			for _, gp := range gw.Paths {
				for i, e := range gp.Events {
					if !isSelect(e) {
						continue
					}
					ctxI, doneI := -1, -1
					for k, cs := range e.Cases {
						if ctxCall != nil && cs.Chan.Op == "call" && strings.HasSuffix(cs.Chan.S, ".Done") && sameID(cs.Chan.R, extract(ctxCall.Res, 0)) {
							ctxI = k
						}
						if cs.Chan.Op == "makechan" || strings.HasPrefix(cs.Chan.ID(), strings.TrimPrefix(inner.ID(), "&")+".") {
							doneI = k
						}
					}
					if ctxI < 0 || doneI < 0 {
						continue
					}
					monitors++
					con := fnName(re) + " waiting goroutine"
					if e.Case != ctxI {
						c.Ob("deadline", con+" inner", e.Pos)
						continue
					}
					completed := 0
					excused, asked := false, false
					for _, x := range gp.Events[i:] {
						if isCall(x, nComplete) && x.Recv.ID() == ret.ID() {
							completed++
							c.Expect(asked || !released, "deadline", con+" race", x.Pos, "the end of the call's own context is taken for a failure: a successful call may be reported as cancelled", gp)
							a := x.Args[0].Strip()
							c.Expect(usable(a), "deadline", con+" wrapper", x.Pos, "the wrapper completing the future has no usable parts", gp)
							er := false
							for _, st := range storedTo(gp.Events[:indexOf(gp.Events, x)], a.ID(), "Err") {
								v := st.Val.Strip()
								er = er || gp.nil(st.Val) == NonNil || v.Op == "call" && strings.HasSuffix(v.S, ".Err")
							}
							c.Expect(er, "deadline", con+" error", x.Pos, "the end of the context is not reported as an error", gp)
						}
						if x.Kind == EvSelect && !x.Blocking {
							asked = asked || x.Case < 0
							excused = excused || x.Case >= 0 // the call had completed
						}
					}
					c.Expect(completed == 1 || excused && completed == 0, "deadline", con, e.Pos, "the end of the context does not complete the returned future", gp)
				}
			}
		}
		c.Expect(monitors > 0, "deadline", fnName(re), re.Pos(), "nobody waits for the end of the context", pa)
		// handoff
		var hand *Event
		for _, t := range thens {
			if t.Recv.ID() == inner.ID() {
				if hand != nil {
					c.Viol("handoff", fnName(re), t.Pos, "the outcome is handed over twice", pa)
				}
				hand = t
			}
		}
		if !c.Expect(hand != nil && len(hand.Args) == 1 && hand.Args[0].Op == "closure", "handoff", fnName(re), re.Pos(), "nothing is attached to the outcome of the call", pa) {
			continue
		}
		arg := &Term{Op: "param", S: "$outcome", T: nil}
		hg := &Event{GoFn: hand.Args[0].Fn, Recv: hand.Args[0], Snap: pa.St, Fn: re, Args: []*Term{arg}}
		hw := c.WalkGo(w, hg, opaque)
		for _, hp := range hw.Paths {
			con := fnName(re) + " handoff"
			var push, comp []*Event
			var chk *Event
			for _, e := range hp.Events {
				if isCall(e, nPush) {
					push = append(push, e)
				}
				if isCall(e, nComplete) {
					comp = append(comp, e)
				}
				if a := atomicOp(e); a != nil && a.Op == "Load" && fieldVar(a.Addr) == gateFlag {
					chk = e
				}
			}
			if !c.Expect(hp.Outcome == Returned && len(push)+len(comp) == 1, "handoff", con, hg.GoFn.Pos(), fmt.Sprintf("the outcome is queued %d times and completes the future %d times", len(push), len(comp)), hp) {
				continue
			}
			if len(comp) == 1 {
				a := comp[0].Args[0].Strip()
				er := false
				for _, st := range storedTo(hp.Events[:indexOf(hp.Events, comp[0])], a.ID(), "Err") {
					er = er || hp.nil(st.Val) == NonNil
				}
				c.Expect(comp[0].Recv.ID() == ret.ID() && usable(a) && er, "handoff", con+" refused", comp[0].Pos, "the returned future is not completed with an error in a usable wrapper", hp)
				continue
			}
			e := push[0]
			open := chk != nil && sharedLock(chk, e) && hp.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{chk.Res, tInt(0)}}) == 1
			c.Expect(open, "handoff", con+" gate", e.Pos, "the outcome is queued without having seen the actor open under the gate lock: nobody may be left to run it", hp)
			item := e.Args[0].Strip()
			var action, m *Term
			for _, st := range hp.Events {
				if st.Kind == EvStore && st.Recv.Op == "field" && st.Recv.Args[0].ID() == item.ID() {
					if st.Val.Op == "closure" {
						action = st.Val
					} else {
						m = st.Val
					}
				}
			}
			if !c.Expect(action != nil && m != nil && m.Strip().ID() == "$outcome", "handoff", con+" item", e.Pos, "the item queued does not carry the action and the outcome", hp) {
				continue
			}
			in := &Term{Op: "param", S: "$mw"}
			ag := &Event{GoFn: action.Fn, Recv: action, Snap: hp.St, Fn: hg.GoFn, Args: []*Term{in}}
			ao := opaque
			ao.MayPanic = func(e *Event) bool { return isCall(e, nComplete) && e.Fn == ag.GoFn }
			aw := c.WalkGo(hw, ag, ao)
			for _, ap := range aw.Paths {
				con := fnName(re) + " action"
				n, pan := 0, false
				var last *Event
				for _, x := range ap.Events {
					if isCall(x, nComplete) {
						if x.Panicked {
							pan = true
							continue
						}
						n++
						last = x
					}
				}
				if pan {
					if c.Expect(ap.Outcome != Panicked && n >= 1 && last.Recv.ID() == ret.ID(), "action", con+" panic", ag.GoFn.Pos(), "a panic while processing the result leaves the future open", ap) {
						er := false
						for _, st := range storedTo(ap.Events[:indexOf(ap.Events, last)], last.Args[0].Strip().ID(), "Err") {
							er = ap.nil(st.Val) == NonNil
						}
						c.Expect(er, "action", con+" panic error", last.Pos, "a panic while processing the result is not reported as an error", ap)
					}
					continue
				}
				if !c.Expect(ap.Outcome == Returned && n == 1 && last.Recv.ID() == ret.ID() && last.Args[0].Strip().ID() == "$4", "action", con, ag.GoFn.Pos(), fmt.Sprintf("the returned future is completed %d times, or not with the caller's message", n), ap) {
					continue
				}
				upto := ap.Events[:indexOf(ap.Events, last)]
				errs, ress := storedTo(upto, "$4", "Err"), storedTo(upto, "$4", "Res")
				failed := Unknown
				for _, b := range upto {
					if b.Kind == EvBranch && b.Val.Op == "bin" && b.Val.S == "==" && b.Val.Args[1].IsNilConst() && b.Val.Args[0].ID() == "$mw.Err" {
						failed = NonNil
						if b.Ok {
							failed = IsNil
						}
					}
				}
				if failed != IsNil {
					c.Expect(len(errs) >= 1 && errs[len(errs)-1].Val.ID() == "$mw.Err", "action", con+" error", last.Pos, "the error of the call is not taken over", ap)
					for _, st := range ress {
						c.Expect(ap.nil(st.Val) == NonNil, "action", con+" error response", st.Pos, "a failed call's missing response replaces the usable one", ap)
					}
				}
				if failed == IsNil {
					c.Expect(len(ress) >= 1 && ress[len(ress)-1].Val.ID() == "$mw.Res", "action", con+" response", last.Pos, "the response of the call is not taken over", ap)
				}
			}
		}
	}
	c.Min("handoff", 2)
	c.Min("action", 2)
	// consumption
	_, starts, lw := c.runtimeLoop()
	for _, g := range starts {
		gw := c.WalkGo(lw, g, loopOpts(c))
		for _, pa := range gw.Paths {
			segs := segments(pa.Events, isSelect)
			for si, seg := range segs {
				if si == len(segs)-1 && pa.Outcome == Cut {
					continue
				}
				var taken *Term
				re := false
				n := 0
				for _, e := range seg {
					if isCall(e, nPop) {
						taken = e.Res
					}
					if taken == nil {
						continue
					}
					if e.Kind == EvBranch && e.Val.Op == "is" && sameID(e.Val.Args[0], taken) && strings.HasSuffix(e.Val.S, "reenterMessage") {
						re = e.Ok
					}
					if e.Kind == EvCall && e.Dynamic && e.Recv.Root().ID() == taken.ID() {
						n++
						ok := len(e.Args) == 1 && e.Args[0].Root().ID() == taken.ID()
						c.Expect(ok, "loop", "consumer loop", e.Pos, "the action is not given its own message", pa)
					}
				}
				if re {
					c.Expect(n == 1, "loop", "consumer loop", g.GoFn.Pos(), fmt.Sprintf("the action of a reentrant item is run %d times", n), pa)
				}
			}
		}
	}
	c.Min("loop", 1)
	c.swapGroup("own-group")
}

// someTime: a context with a timeout has a positive one, or the remaining time of a deadline that exists.
func someTime(pa *Path, e *Event) bool {
	if len(e.Args) < 2 {
		return false
	}
	positive := func(t *Term) bool {
		k, ok := stripAll(t).IntConst()
		return ok && k > 0
	}
	deadline := func(t *Term) bool {
		t = stripAll(t)
		return t.Op == "extract" && len(t.Args) > 0 && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].S, ".Deadline") && pa.St.Truth(extract(t.Args[0], 1)) == 1
	}
	d := stripAll(e.Args[1])
	if positive(d) || deadline(d) {
		return true
	}
	switch {
	case d.Op == "call" && d.S == "time.Until" && len(d.Args) > 0:
		return deadline(d.Args[0])
	case d.Op == "call" && d.S == "(time.Time).Add" && len(d.Args) > 0:
		return positive(d.Args[len(d.Args)-1])
	case d.Op == "call" && d.S == "(time.Time).Sub":
		return d.R != nil && deadline(d.R)
	}
	return false
}

// swapGroup: Swap gives the copy a completion group made on the spot.
func (c *Check) swapGroup(rule string) {
	sw := c.P.Func("router/msg", "Swap")
	if !c.Anchor(sw, "msg.Swap") {
		return
	}
	for _, pa := range c.Walk(sw, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			c.Viol(rule, fnName(sw), sw.Pos(), "Swap does not return", pa)
			continue
		}
		r := pa.Ret[0].Strip()
		fresh := false
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Recv.Op == "field" && e.Recv.Args[0].ID() == r.ID() && isCtx(ptrElem(e.Recv.T)) {
				v := e.Val.Strip()
				fresh = v.Op == "call" && v.S == "context.WithValue" && len(v.Args) == 3 && freshGroup(v.Args[2])
			}
		}
		c.Expect(r.Op == "alloc" && fresh, rule, fnName(sw), sw.Pos(), "the copy does not get a completion group of its own", pa)
		for _, f := range []string{"Req", "Res"} {
			ok := false
			for _, e := range storedTo(pa.Events, r.ID(), f) {
				ok = pa.nil(e.Val) != IsNil
			}
			c.Expect(ok, rule, fnName(sw)+" "+f, sw.Pos(), "the copy has no "+f, pa)
		}
	}
}

func isCtx(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "context.Context"
}

func freshGroup(t *Term) bool {
	t = t.Strip()
	return t.Op == "alloc" && typeIs(t.T, modPath+"/lib/warpwaitgroup.WrapWaitGroup")
}

// ---------------------------------------------------------------- C10

func runC10(c *Check) {
	p := c.P
	c.Rule("ends", "every wait of a timer goroutine includes the shutdown signal, and taking it ends the goroutine at once")
	c.Rule("one-shot", "a timer whose interval is not positive delivers exactly one tick and makes no ticker")
	c.Rule("deliver", "the ticks delivered are of the timer created, to the channel the loop reads, and never by the goroutine that creates the timer")
	c.Rule("positive", "a ticker is made or reset only with an interval known to be positive, and the interval is only ever changed to a positive one")
	c.Rule("active", "the loop executes a tick only after having seen the timer active; Stop clears that state, cancelling stops and forgets the timer")
	c.Rule("ticker-nil", "the ticker is used only when it exists")
	c.Rule("timer-lock", "timer state and the actor's set of timers are only touched under their locks")
	c.Rule("settings", "a timer has the due time, interval, callback and argument given, calls that callback with that argument, and is in the set of timers the actor cancels on exit")
	c.Rule("stop-reset", "Stop ends an active timer and its ticker and reports whether it was active, a ticker made for a stopped timer is stopped, Reset leaves an active timer with the interval asked for and reports whether it does")
	c.Rule("due", "a timer with a due time waits for it, fires then for the first time, and only then starts its interval")
	on, cancel := p.Method(actorPkg, "Runtime", "OnTimer"), p.Method(actorPkg, "Runtime", "CancelTimer")
	exit := p.Method(actorPkg, "Runtime", "Exit")
	tT := p.Named(actorPkg, "TimerInfo")
	stop := p.MethodN(tT, "Stop")
	isAct := p.MethodN(tT, "IsActive")
	if !c.Anchor(on, "Runtime.OnTimer") || !c.Anchor(cancel, "Runtime.CancelTimer") || !c.Anchor(exit, "Runtime.Exit") || !c.Anchor(stop, "TimerInfo.Stop") || !c.Anchor(isAct, "TimerInfo.IsActive") {
		return
	}
	var shut *types.Var
	for _, pa := range p.Walk(exit, WalkOpts{LoopBound: 1}).Paths {
		for _, e := range pa.Events {
			if e.Kind == EvClose {
				shut = fieldVar(e.Recv)
			}
		}
	}
	ivM := p.MethodN(tT, "Interval")
	if !c.Anchor(ivM, "TimerInfo.Interval") {
		return
	}
	var ivF *types.Var
	for _, pa := range c.Walk(ivM, WalkOpts{}).Paths {
		if pa.Outcome == Returned {
			ivF = fieldVar(pa.Ret[0])
		}
	}
	tkF := FieldBy(tT, "ticker", func(v *types.Var) bool { return types.TypeString(v.Type(), nil) == "*time.Ticker" })
	if shut == nil || ivF == nil || tkF == nil {
		c.Missing("shutdown signal, interval or ticker of actor timers")
		return
	}
	// the channel the loop takes ticks from
	loopChans := map[*types.Var]bool{}
	_, starts, lw := c.runtimeLoop()
	for _, g := range starts {
		gw := c.WalkGo(lw, g, loopOpts(c))
		for _, pa := range gw.Paths {
			segs := segments(pa.Events, isSelect)
			for si, seg := range segs {
				var timer *Term
				var act, exec *Event
				stops, kind := 0, 0
				for _, e := range seg {
					if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "<" {
						for _, x := range e.Val.Args {
							if x.Op == "call" && strings.HasSuffix(x.S, "ITimer).Interval") || x.Op == "getter" && strings.HasSuffix(x.S, "Interval") {
								if k := positiveCond(e.Val, e.Ok); k != 0 {
									kind = k
								}
							}
						}
					}
					if isCall(e, "(core.ITimer).Stop") {
						stops++
					}
					if isSelect(e) && e.Case >= 0 {
						timer = nil
						act = nil
						if e.Res != nil {
							timer = e.Res
						}
						_ = timer
					}
					if isCall(e, "(core.ITimer).IsActive") {
						act = e
					}
					if isCall(e, nTimerEx) {
						loopChans[fieldVar(seg[0].Recv)] = true
						ok := act != nil && sameID(act.Recv, e.Recv) && pa.St.Truth(act.Res) == 1
						c.Expect(ok, "active", "consumer loop", e.Pos, "a tick is executed without having seen the timer active", pa)
						exec = e
					}
				}
				if exec != nil && !(pa.Outcome == Cut && si == len(segs)-1) {
					c.Expect(kind != 0, "one-shot", "consumer loop kind", exec.Pos, "a tick is executed without looking at the timer's interval: a timer that fires once is never finished", pa)
					c.Expect(kind >= 0 || stops == 1, "one-shot", "consumer loop finished", exec.Pos, "a timer that fires once is not finished and forgotten when it fires", pa)
					c.Expect(kind <= 0 || stops == 0, "one-shot", "consumer loop periodic", exec.Pos, "a periodic timer is stopped by its own tick", pa)
				}
			}
		}
	}
	c.Min("active", 1)
	w := c.Walk(on, WalkOpts{LoopBound: 2})
	c.timerSettings(on, w, tT, ivF)
	if due := dueField(tT, ivF); due != nil {
		c.immutable("due", due)
	}
	for _, pa := range w.Paths {
		n := 0
		for _, e := range pa.Events {
			if e.Kind == EvSend || e.Kind == EvRecv || isSelect(e) {
				c.Viol("deliver", fnName(on)+" caller", e.Pos, "creating a timer can block its caller", pa)
			}
			if e.Kind == EvGo {
				n++
			}
		}
		c.Expect(n == 1 && pa.Outcome == Returned, "deliver", fnName(on)+" goroutine", on.Pos(), fmt.Sprintf("%d goroutines are started for a timer", n), pa)
	}
	for _, g := range w.SpawnedAll(4) {
		gw := c.WalkGo(w, g, WalkOpts{LoopBound: c.LB(3)})
		for _, pa := range gw.Paths {
			con := fnName(on) + " goroutine"
			sends := 0
			over := false
			allNon := true
			decided, infeasible := false, false
			for i, e := range pa.Events {
				if e.Kind == EvBranch && isIntervalCond(e.Val, ivF) {
					switch positiveCond(e.Val, e.Ok) {
					case 1:
						decided, allNon = true, false
					case -1:
						decided = true
						if !allNon {
							infeasible = true // intervals only ever become positive
						}
					}
				}
				if e.Kind == EvSend || e.Kind == EvRecv {
					c.Viol("ends", con, e.Pos, "the goroutine waits for something else than the shutdown signal", pa)
				}
				if isCall(e, "time.Sleep", nWgWait, "(*sync.WaitGroup).Wait") {
					c.Viol("ends", con, e.Pos, "the goroutine waits without watching the shutdown signal", pa)
				}
				if over && (isSelect(e) || e.Kind == EvSelect || e.Kind == EvSend || e.Kind == EvRecv) {
					c.Viol("ends", con, e.Pos, "the goroutine goes on after the shutdown signal", pa)
				}
				if e.Kind == EvSelect {
					has := false
					for _, cs := range e.Cases {
						if fieldVar(cs.Chan) == shut {
							has = true
						}
					}
					if e.Blocking {
						c.Expect(has, "ends", con, e.Pos, "a wait does not include the shutdown signal", pa)
					}
					if e.Case >= 0 {
						cs := e.Cases[e.Case]
						if fieldVar(cs.Chan) == shut && !cs.Send {
							over = true
						}
						if cs.Send {
							sends++
							ok := loopChans[fieldVar(cs.Chan)] && typeIs(cs.Val.Strip().T, modPath+"/core/actor.TimerInfo") && cs.Val.Strip().Op == "alloc"
							c.Expect(ok, "deliver", con, e.Pos, "what is delivered is not the timer created, or not to the loop", pa)
						}
					}
				}
				_ = i
			}
			if over {
				c.Expect(pa.Outcome == Returned, "ends", con+" signal", g.Pos, "the shutdown signal does not end the goroutine", pa)
				continue
			}
			if infeasible {
				continue
			}
			c.firstDue(con, g, pa, tT, ivF)
			tick := false
			for _, e := range pa.Events {
				if isCall(e, "time.NewTicker") {
					tick = true
				}
			}
			if decided && allNon {
				c.Expect(sends == 1 && !tick && pa.Outcome == Returned, "one-shot", con, g.Pos, fmt.Sprintf("a timer without interval delivers %d ticks", sends), pa)
			} else if pa.Outcome == Returned && !decided {
				c.Viol("one-shot", con, g.Pos, "the goroutine ends without looking at the interval", pa)
			} else if pa.Outcome == Returned && sends == 0 {
				c.Viol("one-shot", con+" periodic", g.Pos, "the goroutine of a periodic timer ends by itself", pa)
			}
			if !allNon && pa.Outcome == Cut {
				c.Expect(tick && sends > 0, "one-shot", con+" periodic", g.Pos, "a periodic timer does not deliver ticks of a ticker", pa)
			}
		}
	}
	c.Min("ends", 1)
	c.Min("one-shot", 1)
	// positive intervals
	fns := p.FnsWith(func(in ssa.Instruction) bool {
		if insCalls(in, "time.NewTicker", "(*time.Ticker).Reset", "(*time.Ticker).Stop") {
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldOfAddr(fa) == ivF {
				return true
			}
		}
		return false
	})
	var mine []*ssa.Function
	for _, f := range fns {
		if relPkg(f) == actorPkg {
			mine = append(mine, f)
		}
	}
	for _, fn := range p.Entries(mine) {
		ew := c.Walk(fn, WalkOpts{LoopBound: 2})
		walks := []*Walk{ew}
		for _, g := range ew.Spawned() {
			if fn == on {
				walks = append(walks, c.WalkGo(ew, g, WalkOpts{LoopBound: 2}))
			}
		}
		for _, ww := range walks {
			for _, pa := range ww.Paths {
				pos := map[string]bool{}
				for i, e := range pa.Events {
					if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "<" {
						if z, ok := e.Val.Args[0].IntConst(); ok && z >= 0 {
							pos[e.Val.Args[1].ID()] = e.Ok
						}
						if z, ok := e.Val.Args[1].IntConst(); ok && z <= 1 && z >= 0 {
							pos[e.Val.Args[0].ID()] = !e.Ok && z == 1 || pos[e.Val.Args[0].ID()] && z < 1
						}
					}
					if isCall(e, "time.NewTicker") || isCall(e, "(*time.Ticker).Reset") {
						a := e.Args[0]
						k, isc := a.IntConst()
						ok := isc && k > 0 || pos[a.ID()] || loEdge(pa, a) > 0
						c.Expect(ok, "positive", shortName(e.Name)+" in "+fnName(e.Fn), e.Pos, "the interval may not be positive", pa)
					}
					if isCall(e, "(*time.Ticker).Reset", "(*time.Ticker).Stop") {
						r := e.Recv
						ok := pa.nil(r) == NonNil || r.Strip().Op == "call"
						if !ok {
							for _, b := range pa.Events[:i] {
								if b.Kind == EvBranch && b.Val.Op == "bin" && b.Val.S == "==" && b.Val.Args[1].IsNilConst() && b.Val.Args[0].ID() == r.ID() {
									ok = !b.Ok
								}
							}
						}
						c.Expect(ok, "ticker-nil", shortName(e.Name)+" in "+fnName(e.Fn), e.Pos, "the ticker may not exist yet", pa)
					}
					if e.Kind == EvStore && fieldVar(e.Recv) == ivF && e.Recv.Root().Op != "alloc" {
						ok := pos[e.Val.ID()] || loEdge(pa, e.Val) > 0
						c.Expect(ok, "positive", "interval stored in "+fnName(e.Fn), e.Pos, "the interval may be changed to one that is not positive", pa)
						pos["$0."+ivF.Name()] = ok
					}
				}
			}
		}
	}
	c.Min("positive", 2)
	// Stop and IsActive talk about the same state
	var actF *types.Var
	for _, pa := range c.Walk(isAct, WalkOpts{}).Paths {
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "Load" && pa.Outcome == Returned && pa.is(pa.Ret[0], e.Res) {
				actF = fieldVar(a.Addr)
			}
		}
		c.Expect(actF != nil, "active", fnName(isAct), isAct.Pos(), "IsActive does not report the timer's state", pa)
	}
	for _, pa := range c.Walk(stop, WalkOpts{}).Paths {
		ok := false
		for _, e := range pa.Events {
			a := atomicOp(e)
			if a == nil || fieldVar(a.Addr) != actF {
				continue
			}
			switch a.Op {
			case "Load":
				ok = pa.St.Truth(e.Res) == 0
			case "Store":
				b, k := a.Args[0].BoolConst()
				ok = k && !b
			case "Swap":
				b, k := a.Args[0].BoolConst()
				ok = k && !b
			case "CompareAndSwap":
				b, k := a.Args[1].BoolConst()
				ok = k && !b
			}
		}
		c.Expect(ok && pa.Outcome == Returned, "active", fnName(stop), stop.Pos(), "a stopped timer stays active", pa)
	}
	c.stopReset(tT, stop, actF, tkF, ivF)
	tmF := FieldBy(p.Named(actorPkg, "Runtime"), "timers", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && strings.HasSuffix(types.TypeString(m.Key(), nil), "core.ITimer")
	})
	for _, pa := range c.Walk(cancel, WalkOpts{}).Paths {
		if pa.St.Nil(&Term{Op: "param", S: "$1"}) == IsNil || nilParam(pa, "$1") {
			continue
		}
		stops, dels := 0, 0
		for _, e := range pa.Events {
			if isCall(e, "(core.ITimer).Stop") && e.Recv.ID() == "$1" {
				stops++
				c.Expect(decidedNonNil(pa, e, e.Recv), "active", fnName(cancel)+" nil", e.Pos, "cancelling a timer that is nil crashes", pa)
			}
			if e.Kind == EvMapDel && fieldVar(e.Recv) == tmF && e.Args[0].ID() == "$1" {
				dels++
			}
		}
		c.Expect(stops >= 1 && dels == 1, "active", fnName(cancel), cancel.Pos(), "cancelling does not stop and forget the timer", pa)
	}
	noCtor := func(fn *ssa.Function) bool { return fn.Name() == "NewTimerInfo" }
	c.Guarded("timer-lock", tT, tkF.Name(), func(v *types.Var) bool { return v == tkF }, noCtor, 2)
	c.Guarded("timer-lock", tT, ivF.Name(), func(v *types.Var) bool { return v == ivF }, noCtor, 2)
	if tmF != nil {
		c.Guarded("timer-lock", p.Named(actorPkg, "Runtime"), "timers", func(v *types.Var) bool { return v == tmF }, func(fn *ssa.Function) bool { return fn.Name() == "Init" }, 2)
	} else {
		c.Missing("set of timers of Runtime")
	}
}

// stopReset: what Stop, Reset and the start of the ticker do to the state of a timer.
func (c *Check) stopReset(tT *types.Named, stop *ssa.Function, actF, tkF, ivF *types.Var) {
	if actF == nil {
		return
	}
	// state follows the active flag along a path: what it was at first and what it is at the end (1, 0, -1 unknown)
	state := func(pa *Path, upto int) (was, is int) {
		was, is = -1, -1
		for _, e := range pa.Events[:upto] {
			a := atomicOp(e)
			if a == nil || fieldVar(a.Addr) != actF {
				continue
			}
			val := func(t *Term) int {
				b, ok := t.BoolConst()
				switch {
				case ok && b:
					return 1
				case ok:
					return 0
				}
				return -1
			}
			seen := -1
			switch a.Op {
			case "Load":
				seen = pa.St.Truth(e.Res)
				is = seen
			case "Store":
				is = val(a.Args[0])
			case "Swap":
				seen = pa.St.Truth(e.Res)
				is = val(a.Args[0])
			case "CompareAndSwap":
				switch pa.St.Truth(e.Res) {
				case 1:
					seen, is = val(a.Args[0]), val(a.Args[1])
				case 0:
					seen = val(a.Args[0])
					if seen >= 0 {
						seen = 1 - seen
					}
					is = seen
				}
			}
			if was < 0 && seen >= 0 {
				was = seen
			}
		}
		return
	}
	mine := func(r *Term) bool { return r != nil && fieldVar(stripAll(r)) == tkF }
	ops := func(pa *Path, name string) (n int, last *Event) {
		for _, e := range pa.Events {
			if isCall(e, "(*time.Ticker)."+name) && (mine(e.Recv) || stripAll(e.Recv).Op == "call") {
				n++
				last = e
			}
		}
		return
	}
	none := func(pa *Path) bool {
		for _, e := range pa.Events {
			if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "==" && e.Val.Args[1].IsNilConst() && mine(e.Val.Args[0]) && e.Ok {
				return true
			}
		}
		return false
	}
	for _, pa := range c.Walk(stop, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		was, _ := state(pa, len(pa.Events))
		n, _ := ops(pa, "Stop")
		if was == 1 {
			c.Expect(n > 0 || none(pa), "stop-reset", fnName(stop)+" ticker", stop.Pos(), "the ticker of a stopped timer goes on", pa)
		}
		ret := pa.St.Truth(pa.Ret[0])
		c.Expect(was >= 0 && ret == was, "stop-reset", fnName(stop)+" result", stop.Pos(), "Stop does not report whether the timer was active", pa)
	}
	// who makes the ticker
	makers := c.P.FnsWith(func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fieldOfAddr(fa) == tkF
	})
	for _, fn := range c.P.Entries(makers) {
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			made := -1
			for i, e := range pa.Events {
				if isCall(e, "time.NewTicker") {
					made = i
				}
			}
			if made < 0 || pa.Outcome == Cut {
				continue
			}
			_, is := state(pa, len(pa.Events))
			n, _ := ops(pa, "Stop")
			c.Expect(is >= 0 && (n > 0) == (is == 0), "stop-reset", fnName(fn)+" stopped", pa.Events[made].Pos, "a ticker made for a timer that was stopped meanwhile goes on, or that of an active one does not", pa)
		}
	}
	reset := c.P.MethodN(tT, "Reset")
	if !c.Anchor(reset, "TimerInfo.Reset") {
		return
	}
	iv := tParam(reset, 1)
	own := &Term{Op: "load", Args: []*Term{tParam(reset, 0)}}
	_ = own
	for _, pa := range c.Walk(reset, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		_, is := state(pa, len(pa.Events))
		given := pa.True("<", tInt(0), iv)
		var stored *Term
		touched := false
		for _, e := range pa.Events {
			if e.Kind == EvStore && fieldVar(e.Recv) == ivF {
				stored = e.Val
				touched = true
			}
			if a := atomicOp(e); a != nil && a.Op != "Load" && fieldVar(a.Addr) == actF {
				touched = true
			}
		}
		same, positive := false, false
		for _, e := range pa.Events {
			if e.Kind != EvBranch || e.Val.Op != "bin" {
				continue
			}
			x, y := e.Val.Args[0], e.Val.Args[1]
			if e.Val.S == "==" && e.Ok && (fieldVar(x) == ivF && y.ID() == iv.ID() || fieldVar(y) == ivF && x.ID() == iv.ID()) {
				same = true
			}
			if e.Val.S == "<" && (fieldVar(x) == ivF || fieldVar(y) == ivF) {
				switch positiveCond(e.Val, e.Ok) {
				case 1:
					positive = true
				}
			}
		}
		con := fnName(reset)
		switch pa.St.Truth(pa.Ret[0]) {
		case 1:
			c.Expect(is == 1, "stop-reset", con+" active", reset.Pos(), "Reset reports success but the timer is not active", pa)
			has := given == 1 && (stored != nil && stored.ID() == iv.ID() || stored == nil && same) || given == 0 && stored == nil && positive
			c.Expect(has, "stop-reset", con+" interval", reset.Pos(), "Reset reports success but the timer does not have the interval asked for", pa)
			n, last := ops(pa, "Reset")
			kept := same && !touched
			c.Expect(kept || n > 0 || none(pa), "stop-reset", con+" ticker", reset.Pos(), "Reset does not restart the timer's ticker", pa)
			if last != nil {
				a := stripAll(last.Args[0])
				c.Expect(fieldVar(a) == ivF || a.ID() == iv.ID() && given == 1, "stop-reset", con+" ticker interval", last.Pos, "Reset gives the ticker another interval", pa)
			}
		case 0:
			c.Expect(!touched && given == 0 && !positive, "stop-reset", con+" refused", reset.Pos(), "Reset refuses an interval it could use, or changes a timer it refuses to reset", pa)
		default:
			c.Viol("stop-reset", con+" result", reset.Pos(), "the result of Reset does not depend on what it did", pa)
		}
	}
	c.Min("stop-reset", 6)
}

func nilParam(pa *Path, id string) bool {
	for _, b := range pa.Events {
		if b.Kind == EvBranch && b.Val.Op == "bin" && b.Val.S == "==" && b.Val.Args[1].IsNilConst() && b.Val.Args[0].ID() == id && b.Ok {
			return true
		}
	}
	return false
}

func loEdge(pa *Path, t *Term) int64 {
	lo, _ := pa.St.interval(t)
	return lo
}

// millis: the value is the parameter with this id, taken as milliseconds.
func millis(t *Term, id string) bool {
	s := stripAll(t)
	if s.Op != "bin" || s.S != "*" || len(s.Args) != 2 {
		return false
	}
	for i, a := range s.Args {
		if k, ok := a.IntConst(); ok && k == 1000000 && stripAll(s.Args[1-i]).ID() == id {
			return true
		}
	}
	return false
}

func dueField(tT *types.Named, ivF *types.Var) *types.Var {
	return FieldBy(tT, "", func(v *types.Var) bool { return v != ivF && typeIs(v.Type(), "time.Duration") })
}

func (c *Check) timerSettings(on *ssa.Function, w *Walk, tT *types.Named, ivF *types.Var) {
	due := dueField(tT, ivF)
	cb := FieldBy(tT, "", func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Signature); return ok })
	arg := FieldBy(tT, "", func(v *types.Var) bool {
		i, ok := v.Type().Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	})
	exec := c.P.MethodN(tT, "Execute")
	if due == nil || cb == nil || arg == nil || !c.Anchor(exec, "TimerInfo.Execute") {
		c.Missing("due time, callback or argument of actor timers")
		return
	}
	con := fnName(on)
	for _, pa := range w.Paths {
		if pa.Outcome != Returned || len(pa.Ret) != 1 {
			continue
		}
		t := pa.orDecided(pa.Ret[0]).Strip()
		last := map[*types.Var]*Term{}
		kept := false
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Recv.Root().ID() == t.Root().ID() {
				if v := fieldVar(e.Recv); v != nil {
					last[v] = e.Val
				}
			}
			switch {
			case e.Kind == EvMapSet && len(e.Args) > 0:
				kept = kept || sameID(e.Args[0].Strip(), t) || e.Val != nil && sameID(e.Val.Strip(), t)
			case e.Kind == EvStore && e.Recv.Root().ID() == "$0":
				v := e.Val.Strip()
				if v.Op == "append" && len(v.Args) == 2 {
					for _, x := range v.Args[1].Strip().Args {
						kept = kept || sameID(x.Strip(), t)
					}
				}
			}
		}
		ok := last[due] != nil && millis(last[due], "$1") && last[ivF] != nil && millis(last[ivF], "$2")
		c.Expect(ok, "settings", con+" times", on.Pos(), "the timer's due time and interval are not the milliseconds given", pa)
		ok = last[cb] != nil && stripAll(last[cb]).ID() == "$3" && last[arg] != nil && last[arg].Strip().ID() == "$4"
		c.Expect(ok, "settings", con+" callback", on.Pos(), "the timer's callback and argument are not those given", pa)
		c.Expect(kept, "settings", con+" kept", on.Pos(), "the timer is not added to the actor's timers, so its exit does not cancel it", pa)
	}
	for _, pa := range c.Walk(exec, WalkOpts{}).Paths {
		n := 0
		var res *Term
		for _, e := range pa.Events {
			if e.Kind == EvCall && e.Dynamic {
				n++
				res = e.Res
				c.Expect(e.Recv != nil && fieldVar(e.Recv) == cb && len(e.Args) == 1 && fieldVar(e.Args[0]) == arg, "settings", fnName(exec), e.Pos, "not the timer's callback is called, or not with its argument", pa)
			}
		}
		c.Expect(n == 1 && (pa.Outcome != Returned || pa.is(pa.Ret[0], res)), "settings", fnName(exec)+" result", exec.Pos(), "the callback is not called once with its error returned", pa)
	}
	c.Min("settings", 5)
}

// firstDue decides the first delivery of a timer goroutine's path.
func (c *Check) firstDue(con string, g *Event, pa *Path, tT *types.Named, ivF *types.Var) {
	due := dueField(tT, ivF)
	if due == nil {
		return // missing, see settings
	}
	isDue := func(t *Term) bool { return fieldVar(stripAll(t)) == due || millis(t, "$1") }
	none, some := false, false // decided that there is no due time, that there is one
	for _, t := range pa.St.terms {
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		for i, a := range t.Args {
			if _, ok := t.Args[1-i].IntConst(); ok && isDue(a) {
				if lo, hi := pa.St.interval(a); hi < 1000000 || t.S == "==" && pa.St.Truth(t) == 1 && lo <= 0 {
					none = true
				} else if lo > 0 {
					some = true
				}
			}
		}
	}
	if none && some {
		return // the due time never changes
	}
	waited, ticked, stopped := false, false, map[string]bool{}
	for _, e := range pa.Events {
		if isCall(e, "(*time.Timer).Stop", "(*time.Timer).Reset") && e.Recv != nil {
			stopped[e.Recv.Root().ID()] = true
		}
		if e.Kind == EvSelect && e.Case >= 0 {
			cs := e.Cases[e.Case]
			if cs.Send {
				c.Expect(waited || none, "due", con, e.Pos, "the first tick is delivered without waiting for the due time", pa)
				c.Expect(!waited || !ticked || none, "due", con+" first", e.Pos, "a timer with a due time does not fire when it has passed, only one interval later", pa)
				return
			}
			r := cs.Chan.Root()
			for r.Op == "load" || r.Op == "field" || r.Op == "fieldval" {
				r = r.Args[0].Root()
			}
			if r.Op == "call" && len(r.Args) > 0 {
				last := r.Args[len(r.Args)-1]
				if isDue(last) && !stopped[r.ID()] {
					waited = true
				} else if fieldVar(stripAll(last)) == ivF || millis(last, "$2") {
					ticked = true
				}
			}
		}
	}
}

// isIntervalCond: a comparison of the timer's interval with zero or one.
func isIntervalCond(v *Term, iv *types.Var) bool {
	if v.Op != "bin" || v.S != "<" {
		return false
	}
	return fieldVar(v.Args[0]) == iv || fieldVar(v.Args[1]) == iv
}

// positiveCond: what the outcome of a comparison with the interval says about it: 1 positive, -1 not positive, 0 neither
// (intervals are whole milliseconds).
func positiveCond(v *Term, truth bool) int {
	const ms = 1000000
	if k, ok := v.Args[0].IntConst(); ok { // k < interval
		switch {
		case truth && k >= 0:
			return 1
		case !truth && k < ms:
			return -1
		}
		return 0
	}
	k, ok := v.Args[1].IntConst() // interval < k
	switch {
	case ok && truth && k <= ms:
		return -1
	case ok && !truth && k > 0:
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- C11

func runC11(c *Check) {
	p := c.P
	c.Rule("stamp", "origin id and type are recorded if and only if the message has no origin, the previous hop always, nothing else in the header changes, all before the message is handed over")
	c.Rule("unchanged", "the target, type, event and message handed to the system are the caller's, once, and its answer is returned")
	c.Rule("context", "the actor context's operations reach the actor or system of that context with the caller's arguments and return the answer")
	c.Rule("self-call", "Received refuses with the self-call error exactly the messages whose origin is the receiving actor, without queueing them")
	for _, name := range []string{"Call", "ReenterCall"} {
		fn := p.Method(actorPkg, "Runtime", name)
		if !c.Anchor(fn, "Runtime."+name) {
			return
		}
		for _, pa := range c.Walk(fn, WalkOpts{Opaque: []string{nThen, nComplete}}).Paths {
			con := fnName(fn)
			var id, ty, prev []*Event
			other := ""
			handed := -1
			calls := 0
			for i, e := range pa.Events {
				if e.Kind == EvStore {
					root, path := e.Recv.FieldPath()
					pth := strings.Join(path, ".")
					if root.ID() == "$4" && strings.HasPrefix(pth, "Req.Header") || root.ID() == "$4" && (pth == "Req" || pth == "Req.Header") {
						switch pth {
						case "Req.Header.OrgActorID":
							id = append(id, e)
						case "Req.Header.OrgActorType":
							ty = append(ty, e)
						case "Req.Header.PrevActorType":
							prev = append(prev, e)
						default:
							other = pth
						}
						if handed >= 0 {
							c.Viol("stamp", con+" order", e.Pos, "the header is changed after the message was handed over", pa)
						}
					}
				}
				if e.Kind == EvGo && handed < 0 {
					handed = i
				}
				if isCall(e, nSysCall) {
					handed = i
					calls++
					ok := len(e.Args) == 4 && e.Args[0].ID() == "$1" && e.Args[1].ID() == "$2" && e.Args[2].ID() == "$3" && e.Args[3].ID() == "$4"
					c.Expect(ok, "unchanged", con, e.Pos, "the system is not called with the caller's arguments", pa)
					c.Expect(pa.Outcome == Returned && len(pa.Ret) == 1 && pa.is(pa.Ret[0], e.Res), "unchanged", con+" result", e.Pos, "the answer of the system is not returned", pa)
				}
			}
			c.Expect(other == "", "stamp", con+" others", fn.Pos(), "header field "+other+" is changed", pa)
			c.Expect(pa.Outcome == Returned && handed >= 0, "stamp", con+" handed over", fn.Pos(), "the message is not handed over", pa)
			if name == "Call" {
				c.Expect(calls == 1, "unchanged", con+" once", fn.Pos(), fmt.Sprintf("the system is called %d times", calls), pa)
			}
			// what did the path decide about the origin?
			empty, known := false, false
			for _, b := range pa.Events {
				if b.Kind != EvBranch || b.Val.Op != "bin" {
					continue
				}
				x, y := b.Val.Args[0], b.Val.Args[1]
				if s, ok := y.StrConst(); ok && s == "" && b.Val.S == "==" && x.PathEnds("Req", "Header", "OrgActorID") {
					empty, known = b.Ok, true
				}
				if x.Op == "len" && b.Val.S == "==" && x.Args[0].PathEnds("Req", "Header", "OrgActorID") {
					if n, ok := y.IntConst(); ok && n == 0 {
						empty, known = b.Ok, true
					}
				}
				if y.Op == "len" && b.Val.S == "<" && y.Args[0].PathEnds("Req", "Header", "OrgActorID") {
					empty, known = !b.Ok, true
				}
			}
			if !c.Expect(known, "stamp", con+" decision", fn.Pos(), "the origin is recorded or not without looking whether there is one", pa) {
				continue
			}
			self := func(evs []*Event, f string) bool {
				return len(evs) == 1 && ownField(evs[0].Val, f)
			}
			if empty {
				c.Expect(self(id, "ID") && self(ty, "Type"), "stamp", con+" origin", fn.Pos(), "a message without origin does not get this actor's id and type", pa)
			} else {
				c.Expect(len(id) == 0 && len(ty) == 0, "stamp", con+" kept", fn.Pos(), "an origin already recorded is overwritten", pa)
			}
			c.Expect(self(prev, "Type"), "stamp", con+" previous", fn.Pos(), "the previous hop is not this actor's type", pa)
		}
	}
	c.Min("stamp", 6)
	// context
	ac := p.Named(actorPkg, "actorContext")
	if ac == nil {
		// the type implementing core.ActorContext
		for _, n := range p.Implementers("core", "ActorContext") {
			ac = n
		}
	}
	if ac == nil {
		c.Missing("actor context")
	} else {
		for _, m := range []struct {
			name, target string
			key          string
		}{
			{"Call", "(core.IActor).Call", "actorKey"}, {"ReenterCall", "(core.IActor).ReenterCall", "actorKey"},
			{"Send", "(core.ISystem).Send", "systemKey"}, {"Unregister", "(core.ISystem).Unregister", "systemKey"},
			{"Pub", "(core.ISystem).Pub", "systemKey"},
		} {
			fn := p.MethodN(ac, m.name)
			if !c.Anchor(fn, "actorContext."+m.name) {
				continue
			}
			for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
				if pa.Outcome == Panicked {
					continue // a context without its actor or system
				}
				n := 0
				ok := true
				for _, e := range pa.Events {
					if e.Kind != EvCall || !e.Invoke || strings.HasPrefix(e.Name, "(context.Context)") {
						continue
					}
					n++
					ok = ok && e.Name == m.target
					for i, a := range e.Args {
						ok = ok && a.ID() == fmt.Sprintf("$%d", i+1)
					}
					ok = ok && len(pa.Ret) == 1 && pa.is(pa.Ret[0], e.Res)
				}
				c.Expect(ok && n == 1 && pa.Outcome == Returned, "context", fnName(fn), fn.Pos(), "the operation is not passed on unchanged, once, with its answer returned", pa)
			}
		}
	}
	// self call
	recv := p.Method(actorPkg, "Runtime", "Received")
	if !c.Anchor(recv, "Runtime.Received") {
		return
	}
	for _, pa := range c.Walk(recv, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		refused := pa.Ret[0].Any(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.S, ".ErrSelfCall") })
		pushed := len(pa.Calls(func(e *Event) bool { return isCall(e, nPush) }))
		same, empty := -1, -1
		for _, b := range pa.Events {
			if b.Kind != EvBranch || b.Val.Op != "bin" || b.Val.S != "==" {
				continue
			}
			x, y := b.Val.Args[0], b.Val.Args[1]
			if y.PathEnds("OrgActorID") {
				x, y = y, x
			}
			if !x.PathEnds("Req", "Header", "OrgActorID") {
				continue
			}
			v := 0
			if b.Ok {
				v = 1
			}
			if s, ok := y.StrConst(); ok && s == "" {
				empty = v
			} else if ownField(y, "ID") {
				same = v
			}
		}
		c.Ob("self-call", fnName(recv), recv.Pos())
		if refused {
			c.Expect(same == 1 && empty != 1 && pushed == 0, "self-call", fnName(recv)+" refused", recv.Pos(), "a message that is not a self-call is refused as one, or queued as well", pa)
		} else {
			c.Expect(same == 0 || empty == 1, "self-call", fnName(recv)+" passed", recv.Pos(), "a self-call is not refused", pa)
		}
	}
	c.Min("self-call", 3)
}

// ownField: the actor's own id or type, by field or accessor.
func ownField(t *Term, what string) bool {
	t = t.Strip()
	if t.Op == "getter" && t.S == what && t.Args[0].ID() == "$0" {
		return true
	}
	root, path := t.FieldPath()
	if root.ID() != "$0" || len(path) != 1 {
		return false
	}
	switch what {
	case "ID":
		return path[0] == "Id" || path[0] == "ID"
	case "Type":
		return path[0] == "Ty" || path[0] == "Type"
	}
	return false
}

// ---------------------------------------------------------------- C12

const nChStop = "(*lib/pubsub.Channel).Stop"
const nArrived = "(*lib/pubsub.Channel).Arrived"

func runC12(c *Check) {
	p := c.P
	c.Rule("first-handler", "the handler is registered under the channel's name before delivery starts, and delivery goes to the actor's own mailbox, once")
	c.Rule("both-or-error", "nil is returned only if handler, subscription and delivery are all there; the subscription is made with the caller's topic, channel and options")
	c.Rule("no-residue", "a subscription that fails after its handler was registered removes that handler, one that fails before changes nothing")
	c.Rule("exit-aware", "whether the actor is exiting is decided in the critical section that records the channel; a channel made for an exiting actor is stopped")
	c.Rule("exit-stops", "exiting marks the actor and takes over the recorded channels in one critical section and stops every one of them before the shutdown signal")
	sub, exit, recv := p.Method(actorPkg, "Runtime", "Sub"), p.Method(actorPkg, "Runtime", "Exit"), p.Method(actorPkg, "Runtime", "Received")
	tbl := chainsField(p)
	if !c.Anchor(sub, "Runtime.Sub") || !c.Anchor(exit, "Runtime.Exit") || !c.Anchor(recv, "Runtime.Received") || tbl == nil {
		return
	}
	var mailbox *types.Var
	for _, pa := range p.Walk(recv, WalkOpts{}).Paths {
		for _, e := range pa.Events {
			if isCall(e, nPush) {
				mailbox = fieldVar(e.Recv)
			}
		}
	}
	var list *types.Var
	var mark *types.Var
	for _, pa := range c.Walk(sub, WalkOpts{}).Paths {
		con := fnName(sub)
		var set, ask, arr, app, stop, del *Event
		dels := 0
		for i, e := range pa.Events {
			switch {
			case e.Kind == EvMapSet && fieldVar(e.Recv) == tbl:
				set = e
			case e.Kind == EvMapDel && fieldVar(e.Recv) == tbl:
				del = e
				dels++
			case isCall(e, nSysSub):
				if ask != nil {
					c.Viol("both-or-error", con, e.Pos, "the subscription is made twice", pa)
				}
				ask = e
				ok := len(e.Args) >= 2 && e.Args[0].ID() == "$1" && e.Args[1].ID() == "$2" && len(e.Args) == 3 && e.Args[2].ID() == "$4"
				c.Expect(ok, "both-or-error", con+" arguments", e.Pos, "the subscription is not made with the caller's topic, channel and options", pa)
			case isCall(e, nArrived):
				if arr != nil {
					c.Viol("first-handler", con, e.Pos, "delivery is started twice", pa)
				}
				arr = e
				okQ := len(e.Args) == 1 && fieldVar(e.Args[0]) == mailbox && e.Args[0].Root().ID() == "$0"
				c.Expect(okQ, "first-handler", con+" mailbox", e.Pos, "messages are not delivered to the actor's own mailbox", pa)
				okSet := set != nil && set.Args[0].ID() == "$2" && indexOf(pa.Events, set) < i && (del == nil || indexOf(pa.Events, del) < indexOf(pa.Events, set))
				c.Expect(okSet, "first-handler", con, e.Pos, "delivery starts before the handler is registered", pa)
				okCh := ask != nil && sameID(e.Recv, extract(ask.Res, 0)) && pa.nil(errResult(ask)) == IsNil
				c.Expect(okCh, "first-handler", con+" channel", e.Pos, "delivery is started on something else than the channel subscribed", pa)
			case e.Kind == EvStore && e.Val != nil && e.Val.Op == "append" && e.Recv.Op == "field" && e.Recv.Args[0].ID() == "$0":
				app = e
				list = fieldVar(e.Recv)
				els := e.Val.Args[1].Args
				if ask == nil || len(els) != 1 || !sameID(els[0], extract(ask.Res, 0)) {
					c.Viol("exit-aware", con+" list", e.Pos, "the channel recorded is not the one subscribed", pa)
				}
			case isCall(e, nChStop):
				stop = e
			}
		}
		if pa.Outcome != Returned {
			c.Viol("both-or-error", con, sub.Pos(), "Sub panics or does not return", pa)
			continue
		}
		var markEv *Event
		marked := -1
		for i, e := range pa.Events {
			if e.Kind == EvBranch && e.Val.Op == "load" && fieldVar(e.Val) != nil && e.Val.Root().ID() == "$0" {
				markEv = e
				mark = fieldVar(e.Val)
				marked = 0
				if e.Ok {
					marked = 1
				}
				_ = i
			}
		}
		if pa.RetErr() == IsNil {
			ok := set != nil && ask != nil && arr != nil && pa.nil(errResult(ask)) == IsNil && dels == 0
			c.Expect(ok, "both-or-error", con, sub.Pos(), "Sub reports success without handler, subscription and delivery", pa)
			open := app != nil && markEv != nil && marked == 0 && sharedLockAt(markEv, app)
			c.Expect(open, "exit-aware", con, sub.Pos(), "the channel is not recorded in the critical section in which the actor was seen not exiting", pa)
			continue
		}
		c.Expect(pa.RetErr() == NonNil, "both-or-error", con+" result", sub.Pos(), "the result is neither success nor a known error", pa)
		c.Expect(arr == nil, "no-residue", con+" delivery", sub.Pos(), "delivery was started by a subscription that failed", pa)
		if set != nil {
			ok := del != nil && dels == 1 && del.Args[0].ID() == set.Args[0].ID() && indexOf(pa.Events, del) > indexOf(pa.Events, set)
			c.Expect(ok, "no-residue", con, sub.Pos(), "a failed subscription leaves its handler registered", pa)
		} else {
			c.Expect(dels == 0 && ask == nil, "no-residue", con+" refused", sub.Pos(), "a refused registration removes the existing handler or still subscribes", pa)
		}
		if ask != nil && pa.nil(errResult(ask)) == IsNil {
			c.Expect(stop != nil && sameID(stop.Recv, extract(ask.Res, 0)), "exit-aware", con+" stop", sub.Pos(), "a channel that is not used is not stopped", pa)
		}
	}
	c.Min("both-or-error", 3)
	if list == nil || mark == nil {
		c.Viol("exit-aware", "Runtime.Sub", sub.Pos(), "undecided: the list of channels or the mark of an exiting actor was not found", nil)
		return
	}
	for _, pa := range c.Walk(exit, WalkOpts{LoopBound: 3}).Paths {
		con := fnName(exit)
		var set *Event
		once := -1
		stops := map[string]int{}
		n, end := int64(0), false
		closed := false
		nstop := 0
		for i, e := range pa.Events {
			if e.Kind == EvStore && fieldVar(e.Recv) == mark {
				b, k := e.Val.BoolConst()
				if k && b && len(e.Locks) > 0 {
					set = e
				} else {
					c.Viol("exit-stops", con+" mark", e.Pos, "the actor is not marked as exiting under the lock", pa)
				}
			}
			if isCall(e, "(*sync.Once).Do") && once < 0 {
				once = i
			}
			if e.Kind == EvBranch {
				if _, k, is := lenDecision(e, list.Name()); is {
					n, end = k, true
				}
			}
			if isCall(e, nChStop) {
				nstop++
				stops[e.Recv.ID()]++
				c.Expect(len(e.Locks) == 0 || true, "exit-stops", con+" stop", e.Pos, "", pa)
			}
			if e.Kind == EvClose {
				closed = true
				good := set != nil && end && int64(nstop) == n
				for _, k := range stops {
					good = good && k == 1
				}
				for id := range stops {
					good = good && strings.Contains(id, "."+list.Name()+"[")
				}
				c.Expect(good, "exit-stops", con, e.Pos, fmt.Sprintf("the shutdown signal is given after %d of %d channels were stopped, or before the actor was marked", nstop, n), pa)
			}
		}
		if once >= 0 && pa.Outcome == Returned {
			// paths of the first call reach the signal
			_ = closed
		}
	}
	c.Min("exit-stops", 1)
	rt := p.Named(actorPkg, "Runtime")
	c.Guarded("exit-aware", rt, list.Name(), func(v *types.Var) bool { return v == list }, nil, 2)
	c.Guarded("exit-aware", rt, mark.Name(), func(v *types.Var) bool { return v == mark }, nil, 2)
}

// sharedLockAt: the value branched on was read while b's lock was held: the branch itself may
// come after the unlock, so the lock of the read counts.
func sharedLockAt(a, b *Event) bool { return sharedLock(a, b) }
