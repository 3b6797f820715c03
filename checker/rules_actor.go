package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const actorPkg = "core/actor"

const (
	nPush     = "(*lib/mpsc.Queue).Push"
	nPop      = "(*lib/mpsc.Queue).Pop"
	nCount    = "(*lib/mpsc.Queue).Count"
	nGetWg    = "(*router/msg.Wrapper).GetWg"
	nWgAdd    = "(*lib/warpwaitgroup.WrapWaitGroup).Add"
	nWgDone   = "(*lib/warpwaitgroup.WrapWaitGroup).Done"
	nWgCount  = "(*lib/warpwaitgroup.WrapWaitGroup).Count"
	nWgWait   = "(*lib/warpwaitgroup.WrapWaitGroup).Wait"
	nChainEx  = "(core.IChain).Execute"
	nTimerEx  = "(core.ITimer).Execute"
	nSysCall  = "(core.ISystem).Call"
	nSysSub   = "(core.ISystem).Sub"
	nComplete = "(*core/actor.Future).Complete"
)

// wgOwner: the message whose completion group is the receiver of e.
func wgOwner(e *Event) *Term {
	if e.Recv == nil {
		return nil
	}
	r := e.Recv.Strip()
	if r.Op == "call" && r.S == nGetWg {
		return r.R
	}
	return nil
}

func isWrapperPtr(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "*"+modPath+"/router/msg.Wrapper"
}

// runtimeLoop finds the consumer loop: the goroutine the runtime starts in Init.
func (c *Check) runtimeLoop() (init *ssa.Function, starts []*Event, w *Walk) {
	init = c.P.Method(actorPkg, "Runtime", "Init")
	if !c.Anchor(init, "actor.Runtime.Init") {
		return
	}
	w = c.Walk(init, WalkOpts{})
	for _, e := range w.Spawned() {
		// the consumer is the one that reaches Pop
		g := c.P.Walk(e.GoFn, WalkOpts{LoopBound: 1, Args: e.Args})
		found := false
		for _, pa := range g.Paths {
			for _, x := range pa.Events {
				if isCall(x, nPop) {
					found = true
				}
			}
		}
		if found {
			starts = append(starts, e)
		}
	}
	if len(starts) == 0 {
		c.Missing("the goroutine consuming the mailbox, started by Runtime.Init")
	}
	return
}

// userCallback: calls of code the framework's user supplied.
func userCallback(e *Event) bool {
	if isCall(e, nChainEx, nTimerEx) {
		return true
	}
	return e.Kind == EvCall && e.Dynamic && e.Recv != nil && !strings.HasPrefix(idOf(e.Recv), "context.With")
}

func loopOpts(c *Check) WalkOpts {
	return WalkOpts{LoopBound: c.LB(2), MayPanic: func(e *Event) bool { return isCall(e, nChainEx, nTimerEx) }}
}

func isSelect(e *Event) bool { return e.Kind == EvSelect && e.Blocking }

func init() {
	register(&Prop{ID: "C02", Run: runC02, Method: "path-sensitive pairing (typestate) over SSA paths with panic edges",
		Expl:   "Every function that puts a message wrapper into a mailbox queue is followed on all paths: the message's completion group must be raised by one exactly once before the push and never without a push. The consumer loop is followed with the handler both returning and panicking: every message taken must be released exactly once, after its handler. The group's two counters are compared operation by operation.",
		Assume: []string{"sync.WaitGroup and sync/atomic behave as documented"}})
	register(&Prop{ID: "C03", Run: runC03, Method: "call-graph reachability (who may call) plus path analysis of Init",
		Expl: "All call sites of event chains, timer callbacks and mailbox Pop in the module are traced up the synchronous call graph; the only entry point allowed to reach them is the goroutine Runtime.Init starts exactly once on each of its paths."})
	register(&Prop{ID: "C04", Run: runC04, Method: "exceptional control-flow analysis (panic edges, defer/recover) over SSA paths",
		Expl: "The consumer loop and every goroutine and closure of the actor runtime that invokes a user callback is followed with that callback panicking: the panic must be recovered inside, the loop must go on, the message be released and, for handlers and timers, the recovery function be called."})
	register(&Prop{ID: "C05", Run: runC05, Method: "path-sensitive dataflow with held-lock and branch conditions",
		Expl: "Every path of Received, Exit and the consumer loop is followed: the exiting flag is checked under the gate lock together with the push and set under its write lock, the loop ends only with the flag set and both queues empty or after the forced timeout, the end signal is closed once on every way out, and Exit signals once, waits bounded and cancels the timers."})
	register(&Prop{ID: "C06", Run: runC06, Method: "path enumeration over the chain's control-flow graph",
		Expl: "All paths of DefaultChain.Execute up to the loop bound are followed, with every element failing or succeeding: order, completeness, arguments and the returned error are decided on each."})
	register(&Prop{ID: "C07", Run: runC07, Method: "path-sensitive check-then-act and lockset analysis",
		Expl: "Every insertion into the handler table is preceded by a lookup of the same name in the same critical section that found nothing; dispatch uses exactly the message's event name; every access to the table holds its lock."})
	register(&Prop{ID: "C08", Run: runC08, Method: "path-sensitive typestate of futures with lockset analysis",
		Expl: "All paths of Future.Then, Future.Complete and of the goroutines and closures they create are followed: one critical section decides between queueing a callback and starting it, completion happens once, every queued callback is started once with the result and outside the lock, and the derived future is completed once, after the callback, also when it panics."})
	register(&Prop{ID: "C09", Run: runC09, Method: "path analysis of ReenterCall, its goroutines and closures",
		Expl: "Every path of ReenterCall, of both goroutines, of the queued action and of the closure between them is followed: each outcome completes the future that outcome belongs to, with usable parts, and the call is made on a swapped copy with its own completion group."})
	register(&Prop{ID: "C10", Run: runC10, Method: "path-sensitive blocking and guard analysis of timer goroutines, lockset analysis",
		Expl: "Every path of the timer goroutine is followed: each wait includes the shutdown signal and taking it ends the goroutine, tickers are only made for positive intervals, interval 0 delivers one tick. The loop executes a tick only after seeing the timer active. Timer state is only touched under its lock."})
	register(&Prop{ID: "C11", Run: runC11, Method: "path-sensitive dataflow on header fields",
		Expl: "All paths of Call, ReenterCall, the actor context and Received are followed with every combination of header conditions; stores to the header, the arguments handed over and the refusal condition are decided on each."})
	register(&Prop{ID: "C12", Run: runC12, Method: "path-sensitive ordering and error-path analysis",
		Expl: "All paths of Runtime.Sub and Exit are followed: registration precedes delivery, failure undoes it, only an actor that is not exiting attaches its own mailbox, and exiting stops every attached channel before the shutdown signal."})
}

// ---------------------------------------------------------------- C02

func runC02(c *Check) {
	p := c.P
	c.Rule("add-before-push", "a message wrapper is pushed into a mailbox only after its completion group was raised by one, exactly once on that path")
	c.Rule("no-count-without-push", "the group of a message that is not pushed (refused) is not raised")
	c.Rule("accepted-returns-nil", "Received returns nil exactly when the message was pushed, and pushes it once")
	c.Rule("done-once", "each message taken by the consumer is released exactly once, after its handler returned or panicked")
	c.Rule("group-pair", "the wrapper group's counter and WaitGroup change by the same amount, the counter first when releasing")

	recv := p.Method(actorPkg, "Runtime", "Received")
	if !c.Anchor(recv, "actor.Runtime.Received") {
		return
	}
	fns := p.FnsWith(func(in ssa.Instruction) bool { return insCalls(in, nPush) })
	entries := p.Entries(fns)
	okRecv := false
	for _, fn := range entries {
		w := c.Walk(fn, WalkOpts{LoopBound: 2})
		for _, pa := range w.Paths {
			pushed := map[string]int{}
			added := map[string]int{}
			for _, e := range pa.Events {
				if isCall(e, nWgAdd) {
					if o := wgOwner(e); o != nil {
						n, k := constVal(e.Args[0])
						if !k {
							c.Viol("add-before-push", fnName(fn), e.Pos, "the group is raised by a variable amount", pa)
						}
						added[idOf(o)] += int(n)
					}
				}
				if isCall(e, nWgDone) {
					if o := wgOwner(e); o != nil {
						added[idOf(o)]--
					}
				}
				if isCall(e, nPush) && isWrapperPtr(e.Args[0].Strip().T) || isCall(e, nPush) && e.Args[0].Op == "iface" && isWrapperPtr(e.Args[0].T) {
					id := idOf(e.Args[0])
					pushed[id]++
					c.Expect(added[id] == 1, "add-before-push", fnName(e.Fn), e.Pos, fmt.Sprintf("the completion group of %s was raised %d times before the push", id, added[id]), pa)
					c.Expect(pushed[id] == 1, "add-before-push", fnName(e.Fn)+" once", e.Pos, "the message is pushed twice", pa)
				}
			}
			for id, n := range added {
				if pa.Outcome == Cut && pushed[id] == 0 {
					continue
				}
				c.Ob("no-count-without-push", fnName(fn), fn.Pos())
				if n != pushed[id] {
					c.Viol("no-count-without-push", fnName(fn), fn.Pos(), fmt.Sprintf("the completion group of %s is raised by %d but the message is pushed %d times", id, n, pushed[id]), pa)
				}
			}
			if fn == recv && pa.Outcome == Returned {
				okRecv = true
				n := pushed["$1"]
				want := IsNil
				if n == 0 {
					want = NonNil
				}
				c.Expect(pa.RetErr() == want && n <= 1, "accepted-returns-nil", fnName(fn), fn.Pos(), fmt.Sprintf("%d pushes but the result is %v", n, pa.Ret), pa)
			}
		}
	}
	if !okRecv {
		c.Viol("accepted-returns-nil", "Runtime.Received", recv.Pos(), "undecided: Received does not push into a mailbox itself", nil)
	}
	c.Min("add-before-push", 4)

	// consumption
	_, starts, w := c.runtimeLoop()
	for _, g := range starts {
		lw := c.WalkGo(w, g, loopOpts(c))
		for _, pa := range lw.Paths {
			segs := segments(pa.Events, isSelect)
			for si, seg := range segs {
				last := si == len(segs)-1 && pa.Outcome == Cut
				var taken *Term
				done, doneAt, lastHandler := 0, -1, -1
				asserted := false
				for i, e := range seg {
					if isCall(e, nPop) {
						taken = e.Res
					}
					if taken == nil {
						continue
					}
					if e.Kind == EvBranch && e.Val.Op == "is" && sameID(e.Val.Args[0], taken) && strings.HasSuffix(e.Val.S, "msg.Wrapper") {
						asserted = e.Ok
					}
					if e.Kind == EvAssert && !e.CommaOk && sameID(e.Recv, taken) {
						asserted = true
					}
					if isCall(e, nWgDone) && sameID(wgOwner(e), taken) {
						done++
						doneAt = i
					}
					if isCall(e, nWgAdd) && sameID(wgOwner(e), taken) {
						n, _ := constVal(e.Args[0])
						done -= int(n)
						doneAt = i
					}
					if isCall(e, nChainEx) {
						lastHandler = i
					}
				}
				if taken == nil || !asserted {
					if done > 0 {
						c.Viol("done-once", "consumer loop", g.GoFn.Pos(), "something that is not a message is released", pa)
					}
					continue
				}
				if last && done == 0 {
					continue
				}
				c.Expect(done == 1, "done-once", "consumer loop", g.GoFn.Pos(), fmt.Sprintf("a message taken from the mailbox is released %d times", done), pa)
				if lastHandler >= 0 && done == 1 {
					c.Expect(doneAt > lastHandler, "done-once", "consumer loop, order", g.GoFn.Pos(), "the message is released before its handler ended", pa)
				}
			}
		}
	}
	c.Min("done-once", 2)

	// the group
	gT := p.Named("lib/warpwaitgroup", "WrapWaitGroup")
	add, done, cnt, wait := p.MethodN(gT, "Add"), p.MethodN(gT, "Done"), p.MethodN(gT, "Count"), p.MethodN(gT, "Wait")
	if !c.Anchor(add, "WrapWaitGroup.Add") || !c.Anchor(done, "WrapWaitGroup.Done") || !c.Anchor(cnt, "WrapWaitGroup.Count") || !c.Anchor(wait, "WrapWaitGroup.Wait") {
		return
	}
	var ctr *types.Var
	for _, fn := range []*ssa.Function{add, done} {
		gw := c.Walk(fn, WalkOpts{})
		for _, pa := range gw.Paths {
			var aDelta, wDelta []string
			ai, wi := -1, -1
			for i, e := range pa.Events {
				if a := atomicOp(e); a != nil && a.Op == "Add" {
					aDelta = append(aDelta, idOf(a.Args[0]))
					ai = i
					ctr = fieldVar(a.Addr)
				} else if a != nil && a.Op != "Load" {
					c.Viol("group-pair", fnName(fn), e.Pos, "the counter is overwritten", pa)
				}
				if isCall(e, "(*sync.WaitGroup).Add") {
					wDelta = append(wDelta, idOf(e.Args[0]))
					wi = i
				}
				if isCall(e, "(*sync.WaitGroup).Done") {
					wDelta = append(wDelta, "-1")
					wi = i
				}
			}
			want := "$1"
			if fn == done {
				want = "-1"
			}
			ok := len(aDelta) == 1 && len(wDelta) == 1 && aDelta[0] == want && wDelta[0] == want
			c.Expect(ok, "group-pair", fnName(fn), fn.Pos(), fmt.Sprintf("counter changes %v, WaitGroup changes %v, expected one change by %s each", aDelta, wDelta, want), pa)
			c.Expect(!ok || ai < wi, "group-pair", fnName(fn)+" order", fn.Pos(), "waiters are released before the counter is down", pa)
		}
	}
	gw := c.Walk(cnt, WalkOpts{})
	for _, pa := range gw.Paths {
		ok := false
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "Load" && fieldVar(a.Addr) == ctr && len(pa.Ret) == 1 && pa.is(pa.Ret[0], e.Res) {
				ok = true
			}
		}
		c.Expect(ok, "group-pair", fnName(cnt), cnt.Pos(), "Count does not report the counter", pa)
	}
	gw = c.Walk(wait, WalkOpts{})
	for _, pa := range gw.Paths {
		n := len(pa.Calls(func(e *Event) bool { return e.Name == "(*sync.WaitGroup).Wait" }))
		c.Expect(n == 1, "group-pair", fnName(wait), wait.Pos(), "Wait does not wait for the WaitGroup", pa)
	}
}

// ---------------------------------------------------------------- C03

func runC03(c *Check) {
	p := c.P
	c.Rule("single-consumer", "chains, timer callbacks and Pop are reached only from the goroutine Init starts, and synchronously")
	c.Rule("one-loop", "Init starts the consumer exactly once on every path and nothing else starts it")
	init, starts, w := c.runtimeLoop()
	if len(starts) == 0 {
		return
	}
	loops := map[*ssa.Function]bool{}
	for _, s := range starts {
		loops[s.GoFn] = true
	}
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		n := 0
		for _, e := range pa.Events {
			if e.Kind == EvGo && loops[e.GoFn] {
				n++
			}
		}
		c.Expect(n == 1, "one-loop", fnName(init), init.Pos(), fmt.Sprintf("Init starts the consumer %d times", n), pa)
	}
	for l := range loops {
		if l.Parent() != nil {
			continue
		}
		for _, cs := range p.callersOf()[l] {
			_, isgo := cs.Ins.(*ssa.Go)
			ok := isgo && contains(fnNames(p.Entries([]*ssa.Function{cs.Caller})), fnName(init))
			c.Expect(ok, "one-loop", fnName(cs.Caller)+" runs the consumer", cs.Ins.Pos(), "the consumer loop is run from elsewhere", nil)
		}
		for _, u := range p.valueUses()[l] {
			c.Viol("one-loop", fnName(u.Parent())+" takes the consumer as value", u.Pos(), "the consumer loop may be run from elsewhere", nil)
		}
	}
	// call sites
	chainT, timerT := p.Named(actorPkg, "DefaultChain"), p.Named(actorPkg, "TimerInfo")
	type tgt struct {
		what  string
		names []string
	}
	tgts := []tgt{
		{"event chain", []string{nChainEx, "(*core/actor.DefaultChain).Execute"}},
		{"timer callback", []string{nTimerEx, "(*core/actor.TimerInfo).Execute"}},
		{"mailbox Pop", []string{nPop}},
	}
	for _, n := range append(p.Implementers("core", "IChain"), p.Implementers("core", "ITimer")...) {
		for i := range tgts[:2] {
			nm := "(*" + strings.ReplaceAll(types.TypeString(n, nil), modPath+"/", "") + ").Execute"
			if !contains(tgts[i].names, nm) {
				tgts[i].names = append(tgts[i].names, nm)
			}
		}
	}
	for _, t := range tgts {
		sites := 0
		for _, fn := range p.FnsWith(func(in ssa.Instruction) bool { return insCalls(in, t.names...) }) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if !insCalls(in, t.names...) {
						continue
					}
					sites++
					con := t.what + " in " + fnName(fn)
					c.Ob("single-consumer", con, in.Pos())
					if _, isgo := in.(*ssa.Go); isgo {
						c.Viol("single-consumer", con, in.Pos(), t.what+" is run in a goroutine of its own", nil)
						continue
					}
					for _, en := range p.Entries([]*ssa.Function{fn}) {
						if !loops[en] {
							c.Viol("single-consumer", con, in.Pos(), t.what+" is also reached from "+fnName(en)+", outside the actor's loop", nil)
						}
					}
				}
			}
		}
		if sites == 0 {
			c.Viol("single-consumer", t.what, init.Pos(), "undecided: no call site of "+t.what+" found", nil)
		}
		// the methods may not be handed out as values either
		for f, us := range p.valueUses() {
			if f.Object() != nil && contains(t.names, calleeName(f.Object())) && f.Synthetic == "" {
				for _, u := range us {
					c.Viol("single-consumer", t.what+" value in "+fnName(u.Parent()), u.Pos(), t.what+" is passed on as a function value", nil)
				}
			}
		}
	}
	// callbacks stored in chains and timers are called by their Execute methods only
	for _, T := range []*types.Named{chainT, timerT} {
		st := structOf(T)
		if st == nil {
			c.Missing("DefaultChain/TimerInfo")
			continue
		}
		ex := p.MethodN(T, "Execute")
		for _, fn := range p.Fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
						continue
					}
					fv := funcFieldOf(ci.Common().Value)
					if fv == nil {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i) != fv {
							continue
						}
						con := T.Obj().Name() + "." + fv.Name() + " called in " + fnName(fn)
						_, isgo := in.(*ssa.Go)
						good := !isgo
						for _, en := range p.Entries([]*ssa.Function{fn}) {
							if en != ex && !loops[en] {
								good = false
							}
						}
						c.Expect(good, "single-consumer", con, in.Pos(), "the user's function is called outside "+T.Obj().Name()+".Execute and the loop", nil)
					}
				}
			}
		}
	}
}

func fnNames(fs []*ssa.Function) []string {
	var r []string
	for _, f := range fs {
		r = append(r, fnName(f))
	}
	return r
}

// funcFieldOf: the struct field a called function value was read from (through slices).
func funcFieldOf(v ssa.Value) *types.Var {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			return fieldOfAddr(x)
		case *ssa.Field:
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
				return st.Field(x.Field)
			}
			return nil
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Index:
			v = x.X
		default:
			return nil
		}
	}
}

// ---------------------------------------------------------------- C04

func runC04(c *Check) {
	p := c.P
	c.Rule("handler-contained", "a panicking chain is recovered inside the loop, the loop goes on, the message is released and the recovery function is called")
	c.Rule("timer-contained", "a panicking timer callback is recovered inside the loop, the loop goes on and the recovery function is called")
	c.Rule("future-contained", "a panicking future callback is recovered in the goroutine that runs it")
	_, starts, w := c.runtimeLoop()
	for _, g := range starts {
		lw := c.WalkGo(w, g, loopOpts(c))
		for _, pa := range lw.Paths {
			c.recovers("handler-contained", "consumer loop", pa)
			for i, e := range pa.Events {
				if !e.Panicked || e.Kind != EvCall {
					continue
				}
				rule := "handler-contained"
				if isCall(e, nTimerEx) {
					rule = "timer-contained"
				}
				con := "consumer loop: " + shortName(e.Name)
				c.Ob(rule, con, e.Pos)
				rec, told, goesOn, reenters := false, false, false, 0
				for _, x := range pa.Events[i+1:] {
					if x.Kind == EvRecover {
						rec = true
					}
					if x.Kind == EvCall && x.Dynamic && rec && len(x.Args) == 1 && x.Args[0].Mentions(recoveredID(pa, i)) {
						told = true
					}
					if isSelect(x) {
						goesOn = true
						break
					}
					_ = reenters
				}
				if pa.Outcome == Panicked && !goesOn {
					c.Viol(rule, con, e.Pos, "the panic leaves the actor's loop", pa)
					continue
				}
				if !rec {
					c.Viol(rule, con, e.Pos, "the panic is not recovered", pa)
					continue
				}
				if !told {
					c.Viol(rule, con, e.Pos, "the recovery function is not told about the panic", pa)
				}
				if !goesOn && pa.Outcome == Returned && !loopEndDecided(pa, i) {
					c.Viol(rule, con, e.Pos, "the loop ends after a panic", pa)
				}
				if isCall(e, nChainEx) {
					done := 0
					for _, x := range pa.Events[i+1:] {
						if isSelect(x) {
							break
						}
						if isCall(x, nWgDone) {
							done++
						}
					}
					if done != 1 && pa.Outcome != Cut {
						c.Viol(rule, con, e.Pos, "the message is not released after its handler panicked", pa)
					}
				}
			}
		}
	}
	c.Min("handler-contained", 1)
	c.Min("timer-contained", 1)
	// futures: every goroutine and closure of the future that runs a callback
	fT := p.Named(actorPkg, "Future")
	then, comp := p.MethodN(fT, "Then"), p.MethodN(fT, "Complete")
	if !c.Anchor(then, "Future.Then") || !c.Anchor(comp, "Future.Complete") {
		return
	}
	opt := WalkOpts{LoopBound: 2, MayPanic: func(e *Event) bool { return e.Dynamic && e.Kind == EvCall }}
	for _, fn := range []*ssa.Function{then, comp} {
		w := c.Walk(fn, opt)
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				if e.Kind == EvCall && e.Dynamic && fn == then && e.Panicked {
					c.Expect(pa.Outcome != Panicked, "future-contained", fnName(fn)+" synchronous", e.Pos, "a panic of the callback reaches the registering goroutine", pa)
				}
				if e.Kind == EvGo && e.Dynamic && fn == then {
					c.Viol("future-contained", fnName(fn)+" go", e.Pos, "the user's callback is started without protection", pa)
				}
			}
			// what Then queues must protect itself
			for _, e := range pa.Events {
				if e.Kind == EvStore && fn == then && e.Val != nil && e.Val.Op == "append" {
					el := e.Val.Args[1]
					for _, x := range el.Args {
						con := fnName(fn) + " queued callback"
						if x.Op != "closure" {
							c.Viol("future-contained", con, e.Pos, "the user's callback is queued without protection", pa)
							continue
						}
						ge := &Event{GoFn: x.Fn, Recv: x, Snap: pa.St, Fn: fn}
						gw := c.WalkGo(w, ge, opt)
						c.contained(gw, "future-contained", con)
					}
				}
			}
		}
		if fn == comp {
			continue // what it starts are the protected callbacks Then queued
		}
		for _, g := range w.Spawned() {
			gw := c.WalkGo(w, g, opt)
			c.contained(gw, "future-contained", fnName(fn)+" goroutine")
		}
	}
	c.Min("future-contained", 1)
}

func (c *Check) contained(gw *Walk, rule, con string) {
	n := 0
	for _, pa := range gw.Paths {
		for _, e := range pa.Events {
			if e.Kind == EvCall && e.Dynamic {
				n++
			}
		}
		c.Expect(pa.Outcome != Panicked, rule, con, gw.root.Pos(), "a panic of the callback is not recovered", pa)
		c.recovers(rule, con, pa)
	}
	if n == 0 {
		c.Viol(rule, con, gw.root.Pos(), "undecided: no callback is invoked here", nil)
	}
}

func recoveredID(pa *Path, from int) string {
	for _, x := range pa.Events[from+1:] {
		if x.Kind == EvRecover {
			return x.Val.ID()
		}
	}
	return "?"
}

// loopEndDecided: after index i the loop condition was evaluated (so the return is its decision).
func loopEndDecided(pa *Path, i int) bool {
	for _, x := range pa.Events[i+1:] {
		if a := atomicOp(x); a != nil && a.Op == "Load" {
			return true
		}
		if isCall(x, nCount) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C05

func runC05(c *Check) {
	p := c.P
	c.Rule("gate", "a message is pushed only while the gate lock is held and after the exiting flag was seen clear under it; otherwise an error is returned")
	c.Rule("flag-set", "the exiting flag is set only under the write lock of the gate")
	c.Rule("drain", "the loop ends only with the flag set and the queues seen empty, or after the forced timeout that starts with the shutdown signal")
	c.Rule("end-signal", "the loop's end signal is closed exactly once on every way out of the loop and by nobody else")
	c.Rule("exit-once", "the shutdown signal is closed under a once guard only")
	c.Rule("ends", "the loop can end as soon as its queues are empty, the shutdown signal is taken once, and the time to drain is positive")
	c.Rule("exit-waits", "Exit returns only after the end signal or a timeout, on every path, and cancels every timer afterwards")
	recv, exit := p.Method(actorPkg, "Runtime", "Received"), p.Method(actorPkg, "Runtime", "Exit")
	if !c.Anchor(recv, "Runtime.Received") || !c.Anchor(exit, "Runtime.Exit") {
		return
	}
	var flag *types.Var
	gates := map[string]bool{}
	var mailbox *types.Var
	for _, pa := range c.Walk(recv, WalkOpts{}).Paths {
		var seen *Event
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "Load" {
				seen = e
				if v := fieldVar(a.Addr); v != nil {
					flag = v
				}
			}
			if !isCall(e, nPush) {
				continue
			}
			mailbox = fieldVar(e.Recv)
			ok := false
			if seen != nil && pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{seen.Res, tInt(0)}}) == 1 {
				// same critical section: the lock instance held at both
				for _, h1 := range seen.Locks {
					for _, h2 := range e.Locks {
						if h1.Lock == h2.Lock && h1.Pos == h2.Pos {
							ok = true
							gates[strings.TrimPrefix(h1.Lock, "&$0")] = true
						}
					}
				}
			}
			c.Expect(ok, "gate", fnName(recv), e.Pos, "the message is pushed without having seen the actor open under the gate lock", pa)
		}
		if seen != nil && pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{seen.Res, tInt(0)}}) == 0 {
			c.Expect(pa.RetErr() == NonNil, "gate", fnName(recv)+" refused", recv.Pos(), "a message to an exiting actor is not refused with an error", pa)
		}
	}
	c.Min("gate", 2)
	init, starts, w := c.runtimeLoop()
	_ = init
	if init != nil {
		for _, pa := range c.Walk(init, WalkOpts{}).Paths {
			for _, e := range pa.Events {
				if a := atomicOp(e); a != nil && a.Op != "Load" && fieldVar(a.Addr) == flag && flag != nil {
					v, isc := constVal(a.Args[len(a.Args)-1])
					c.Expect(isc && v == 0, "flag-set", fnName(init)+" open", e.Pos, "the actor starts out as exiting", pa)
				}
			}
		}
	}
	endClosers := map[*ssa.Function]bool{}
	var endVar *types.Var
	var shutVar *types.Var
	xw := c.Walk(exit, WalkOpts{LoopBound: 2})
	for _, pa := range xw.Paths {
		for _, e := range pa.Events {
			if e.Kind == EvClose {
				shutVar = fieldVar(e.Recv)
			}
			if isCall(e, "time.After", "time.NewTimer") {
				c.Expect(c.positiveTime(pa, e.Args[0]), "ends", fnName(exit)+" time", e.Pos, "Exit does not leave the loop any time", pa)
			}
		}
	}
	for _, g := range starts {
		base := "?"
		lw := c.WalkGo(w, g, loopOpts(c))
		normal := false
		for _, pa := range lw.Paths {
			closes, shuts := 0, 0
			lastSel := -1
			var lastFlag *Event
			counts := map[string]*Event{}
			for i, e := range pa.Events {
				a := atomicOp(e)
				if a != nil && a.Op == "Load" && fieldVar(a.Addr) == flag {
					lastFlag = e
					base = a.Addr.Args[0].ID()
				}
				if a != nil && fieldVar(a.Addr) == flag && a.Op != "Load" {
					v, _ := constVal(a.Args[len(a.Args)-1])
					good := v == 1 || v == -1
					locked := false
					for _, h := range e.Locks {
						if !h.Read && gates["."+strings.TrimPrefix(h.Lock, "&"+a.Addr.Args[0].ID()+".")] {
							locked = true
						}
					}
					c.Expect(good && locked, "flag-set", fnName(e.Fn), e.Pos, "the exiting flag is changed outside the gate's write lock", pa)
				}
				if isCall(e, nCount) {
					if v := fieldVar(e.Recv); v != nil {
						counts[v.Name()] = e
					}
				}
				if isSelect(e) {
					lastSel = i
					if e.Case >= 0 && shutVar != nil && fieldVar(e.Cases[e.Case].Chan) == shutVar {
						shuts++
						c.Expect(shuts == 1, "ends", fnName(g.GoFn)+" signal", e.Pos, "the shutdown signal is taken again and again: the forced end is put off forever", pa)
					}
				}
				if isCall(e, "time.After", "time.NewTimer") {
					c.Expect(c.positiveTime(pa, e.Args[0]), "ends", fnName(g.GoFn)+" time", e.Pos, "the loop leaves itself no time to drain", pa)
				}
				if closes > 0 && (isSelect(e) || e.Kind == EvRecv || isCall(e, nPop, nChainEx, nTimerEx)) {
					c.Viol("end-signal", fnName(g.GoFn)+" early", e.Pos, "the end signal is closed while the loop still handles messages", pa)
				}
				if e.Kind == EvClose {
					closes++
					endVar = fieldVar(e.Recv)
					endClosers[e.Fn] = true
				}
			}
			if pa.Outcome == Returned || pa.Outcome == Panicked {
				c.Expect(closes == 1, "end-signal", fnName(g.GoFn), g.GoFn.Pos(), fmt.Sprintf("the end signal is closed %d times when the loop ends", closes), pa)
			}
			if pa.Outcome != Returned {
				continue
			}
			// by timeout?
			forced := false
			if lastSel >= 0 {
				s := pa.Events[lastSel]
				if s.Res != nil && timerChan(s.Recv) {
					forced = true
					c.Ob("drain", fnName(g.GoFn)+" forced", s.Pos)
					// armed by the shutdown signal, which also sets the flag
					armed := false
					set := false
					for _, e := range pa.Events[:lastSel] {
						if isCall(e, "time.After", "time.NewTimer") {
							armed = true
						}
						if a := atomicOp(e); a != nil && fieldVar(a.Addr) == flag && a.Op != "Load" && armedByShutdown(pa, e) {
							set = true
						}
					}
					if !armed || !set {
						c.Viol("drain", fnName(g.GoFn)+" forced", s.Pos, "the loop can be forced to end without a shutdown signal", pa)
					}
				}
			}
			if forced {
				continue
			}
			okFlag := lastFlag != nil && pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{lastFlag.Res, tInt(0)}}) == 0
			okQ, empty := true, true
			missing := ""
			for _, v := range queueFields(p) {
				ce := counts[v.Name()]
				if ce == nil || pa.St.Truth(&Term{Op: "bin", S: "<", Args: []*Term{tInt(0), ce.Res}}) != 0 {
					okQ = false
					missing = v.Name()
				}
				if ce != nil && pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{ce.Res, tInt(0)}}) == 0 {
					empty = false
				}
			}
			normal = normal || okFlag && empty
			c.Expect(okFlag && okQ, "drain", fnName(g.GoFn), g.GoFn.Pos(), "the loop ends although the actor is not exiting or messages may be left ("+missing+")", pa)
		}
		_ = base
		c.Expect(normal, "ends", fnName(g.GoFn)+" empty", g.GoFn.Pos(), "the loop does not end when the actor is exiting and its queues are empty", nil)
	}
	c.Min("drain", 2)
	c.Min("flag-set", 1)
	// the flag is changed nowhere else but at construction
	if flag != nil {
		for _, fn := range p.Fns {
			if c.within(fn, init) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fieldOfAddr(fa) != flag {
						continue
					}
					if atomicWrite(fa) {
						reach := false
						for _, en := range p.Entries([]*ssa.Function{fn}) {
							for _, g := range starts {
								if en == g.GoFn {
									reach = true
								}
							}
						}
						c.Expect(reach, "flag-set", "writer "+fnName(fn), fa.Pos(), "the exiting flag is changed outside the loop", nil)
					}
				}
			}
		}
	} else {
		c.Missing("exiting flag of Runtime")
	}
	// close sites of the end signal and the shutdown signal
	for _, pa := range xw.Paths {
		if pa.Outcome == Panicked {
			c.Viol("exit-waits", fnName(exit), exit.Pos(), "Exit panics", pa)
		}
		waited := -1
		once := -1
		for i, e := range pa.Events {
			if isCall(e, "(*sync.Once).Do") {
				once = i
			}
			if e.Kind == EvClose {
				shutVar = fieldVar(e.Recv)
				c.Expect(insideOnce(pa, i), "exit-once", fnName(exit), e.Pos, "the shutdown signal is closed outside a once guard", pa)
			}
			if isSelect(e) || e.Kind == EvRecv {
				waited = i
				end, to := false, false
				if e.Kind == EvRecv {
					continue
				}
				for _, cs := range e.Cases {
					if v := fieldVar(cs.Chan); v != nil && v == endVar {
						end = true
					}
					if timerChan(cs.Chan) {
						to = true
					}
				}
				if end {
					c.Expect(to, "exit-waits", fnName(exit), e.Pos, "waiting for the loop's end is not bounded", pa)
				} else {
					waited = -1
				}
			}
			if e.Kind == EvRecv && fieldVar(e.Recv) == endVar && endVar != nil {
				c.Viol("exit-waits", fnName(exit), e.Pos, "waiting for the loop's end is not bounded", pa)
			}
		}
		if pa.Outcome == Returned {
			c.Expect(once >= 0 && waited > once, "exit-waits", fnName(exit)+" order", exit.Pos(), "Exit does not signal the shutdown and then wait for the end of the loop", pa)
			// timers cancelled after the wait: iterate the timer set, stop each
			rng, stops := 0, 0
			for i, e := range pa.Events {
				if e.Kind == EvRange && e.Ok && i > waited && pa.nil(e.Res) != IsNil {
					rng++
				}
				if isCall(e, "(core.ITimer).Stop") && i > waited {
					stops++
				}
			}
			endRange := false
			for i, e := range pa.Events {
				if e.Kind == EvRange && !e.Ok && i > waited {
					endRange = true
				}
			}
			c.Expect(endRange && stops == rng, "exit-waits", fnName(exit)+" timers", exit.Pos(), fmt.Sprintf("%d timers seen but %d stopped after the loop ended", rng, stops), pa)
		}
	}
	c.Min("exit-once", 1)
	for _, fn := range p.Fns {
		if relPkg(fn) != actorPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := ci.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" {
					continue
				}
				v := loadedField(ci.Common().Args[0])
				if v != nil && v == endVar {
					ok := false
					for _, en := range p.Entries([]*ssa.Function{fn}) {
						for _, g := range starts {
							ok = ok || en == g.GoFn
						}
					}
					c.Expect(ok, "end-signal", "close in "+fnName(fn), in.Pos(), "the end signal is closed outside the loop", nil)
				}
				if v != nil && v == shutVar {
					c.Ob("exit-once", "close in "+fnName(fn), in.Pos())
					inExit := false
					for _, f := range xw.fns() {
						inExit = inExit || f == fn
					}
					if !inExit {
						c.Viol("exit-once", "close in "+fnName(fn), in.Pos(), "the shutdown signal is closed outside Exit's once guard", nil)
					}
				}
			}
		}
	}
	if mailbox == nil || endVar == nil {
		c.Missing("mailbox or end signal of Runtime")
	}
	c.Min("end-signal", 2)
}

// positiveTime: a duration known to be more than nothing.
func (c *Check) positiveTime(pa *Path, d *Term) bool {
	if k, ok := stripAll(d).IntConst(); ok {
		return k > 0
	}
	r := stripAll(d)
	for r.Op == "load" && len(r.Args) > 0 {
		r = r.Args[0]
	}
	if r.Op == "global" && r.Obj != nil {
		k, ok := c.P.globalInit(r.Obj).(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) > 0
	}
	return loEdge(pa, d) > 0
}

func (w *Walk) fns() []*ssa.Function {
	var r []*ssa.Function
	for f := range w.Fns {
		r = append(r, f)
	}
	return r
}

func queueFields(p *Prog) []*types.Var {
	st := structOf(p.Named(actorPkg, "Runtime"))
	var r []*types.Var
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if typeIs(st.Field(i).Type(), modPath+"/lib/mpsc.Queue") {
			r = append(r, st.Field(i))
		}
	}
	return r
}

// insideOnce: event i happens in the function given to a sync.Once on this path.
func insideOnce(pa *Path, i int) bool {
	d := pa.Events[i].Depth
	for j := i - 1; j >= 0; j-- {
		e := pa.Events[j]
		if isCall(e, "(*sync.Once).Do") && e.Depth < d {
			// the enter that follows belongs to it
			left := false
			for _, x := range pa.Events[j+1 : i] {
				if x.Kind == EvLeave && x.Depth <= e.Depth+1 {
					left = true
				}
			}
			return !left
		}
	}
	return false
}

// timerChan: the channel of a timer or of time.After.
func timerChan(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "call" && t.S == "time.After" {
		return true
	}
	return t.Any(func(x *Term) bool {
		return x.Op == "call" && (x.S == "time.NewTimer" || x.S == "time.NewTicker" || x.S == "time.After")
	})
}

// armedByShutdown: the event follows, in its loop iteration, a receive from a channel
// field that is not a timer (the shutdown signal).
func armedByShutdown(pa *Path, e *Event) bool {
	var last *Event
	for _, x := range pa.Events {
		if x == e {
			break
		}
		if isSelect(x) {
			last = x
		}
	}
	return last != nil && last.Recv != nil && !timerChan(last.Recv)
}

func atomicWrite(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if ok {
			if cal := ci.Common().StaticCallee(); cal != nil && cal.Object() != nil && !strings.HasPrefix(cal.Name(), "Load") {
				return true
			}
		}
		if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
			return true
		}
	}
	return false
}

func loadedField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldOfAddr(fa)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

func runC06(c *Check) {
	c.Rule("order", "before elements from 0 up, then the handler once, then after elements from 0 up, each with the message, and all of them before nil is returned")
	c.Rule("first-error", "after the first element that failed nothing runs and exactly its error is returned")
	ex := c.P.Method(actorPkg, "DefaultChain", "Execute")
	if !c.Anchor(ex, "DefaultChain.Execute") {
		return
	}
	w := c.Walk(ex, WalkOpts{LoopBound: c.LB(3)})
	for _, pa := range w.Paths {
		if pa.Outcome == Stuck || pa.Outcome == Panicked {
			c.Viol("order", fnName(ex), ex.Pos(), "Execute panics", pa)
			continue
		}
		stage, bi, ai, hn := 0, int64(0), int64(0), 0
		bad := ""
		var failed *Term
		ended := map[string]bool{}
		for _, e := range pa.Events {
			if e.Kind == EvBranch && !e.Ok && e.Val.Op == "bin" && e.Val.S == "<" {
				if l := e.Val.Args[1]; l.Op == "len" {
					if n, ok := e.Val.Args[0].IntConst(); ok {
						if l.Args[0].PathEnds("Before") && n == bi {
							ended["Before"] = true
						}
						if l.Args[0].PathEnds("After") && n == ai {
							ended["After"] = true
						}
					}
				}
			}
			if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "==" && e.Ok {
				// len(x) == n
				if l := e.Val.Args[0]; l.Op == "len" {
					if n, ok := e.Val.Args[1].IntConst(); ok {
						if l.Args[0].PathEnds("Before") && n == bi {
							ended["Before"] = true
						}
						if l.Args[0].PathEnds("After") && n == ai {
							ended["After"] = true
						}
					}
				}
			}
			if e.Kind == EvGo {
				bad = "an element is run in a goroutine"
			}
			if e.Kind != EvCall || !e.Dynamic {
				continue
			}
			if failed != nil {
				bad = "an element is run after another one failed"
			}
			if len(e.Args) != 1 || e.Args[0].ID() != "$1" {
				bad = "an element is not given the message"
			}
			f, idx := chainElem(e.Recv)
			switch f {
			case "Before":
				if stage > 0 {
					bad = "a before element runs after the handler"
				}
				if k, ok := idx.IntConst(); !ok || k != bi {
					bad = "before elements do not run in order"
				}
				bi++
			case "Handler":
				if stage != 0 || !ended["Before"] {
					bad = "the handler does not run exactly once after all before elements"
				}
				stage = 1
				hn++
			case "After":
				if stage != 1 {
					bad = "an after element runs before the handler"
				}
				if k, ok := idx.IntConst(); !ok || k != ai {
					bad = "after elements do not run in order"
				}
				ai++
			default:
				bad = "an unknown function is run: " + e.Recv.ID()
			}
			if pa.nil(e.Res) == NonNil {
				failed = e.Res
			} else if pa.nil(e.Res) == Unknown && pa.Outcome == Returned && pa.Ret[0].ID() != e.Res.ID() {
				bad = "the error of an element is not looked at"
			}
		}
		c.Expect(bad == "", "order", fnName(ex), ex.Pos(), bad, pa)
		if pa.Outcome != Returned {
			continue
		}
		if failed != nil {
			c.Expect(pa.Ret[0].ID() == failed.ID(), "first-error", fnName(ex), ex.Pos(), "the error returned is not the one of the failed element", pa)
			continue
		}
		full := hn == 1 && ended["Before"] && ended["After"]
		last := pa.Ret[0]
		nilRet := pa.nil(last) == IsNil || last.Op == "call"
		c.Expect(full && nilRet, "order", fnName(ex)+" complete", ex.Pos(), "the chain ends without an error although not every element ran, or with an error none returned", pa)
	}
	c.Min("first-error", 1)
	c.Min("order", 2)
}

func chainElem(t *Term) (string, *Term) {
	if t == nil {
		return "", nil
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op == "index" {
		_, path := t.Args[0].FieldPath()
		if len(path) > 0 {
			return path[len(path)-1], t.Args[1]
		}
		return "", t.Args[1]
	}
	if t.Op == "field" {
		return t.S, nil
	}
	return "", nil
}

// ---------------------------------------------------------------- C07

func chainsField(p *Prog) *types.Var {
	return FieldBy(p.Named(actorPkg, "Runtime"), "chains", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.TypeString(m.Elem(), nil) == modPath+"/core.IChain"
	})
}

func runC07(c *Check) {
	p := c.P
	c.Rule("no-duplicate", "a handler is stored only after a lookup of the same name in the same critical section found none; otherwise an error is returned")
	c.Rule("registered", "the chain the given function made is stored under the given name, and nil is returned exactly then")
	c.Rule("dispatch", "a message is handled by the chain found under exactly its event name, at most once, and only if one was found")
	c.Rule("skip", "an unknown event or an item that is not a message does not end or panic the loop")
	c.Rule("table-lock", "the handler table is only touched under its lock once the actor runs")
	on := p.Method(actorPkg, "Runtime", "OnEvent")
	tbl := chainsField(p)
	if !c.Anchor(on, "Runtime.OnEvent") {
		return
	}
	if tbl == nil {
		c.Missing("handler table of Runtime")
		return
	}
	for _, pa := range c.Walk(on, WalkOpts{}).Paths {
		sets := 0
		for i, e := range pa.Events {
			if e.Kind != EvMapSet || fieldVar(e.Recv) != tbl {
				continue
			}
			sets++
			ok := false
			for j := i - 1; j >= 0; j-- {
				l := pa.Events[j]
				if l.Kind == EvUnlock {
					break
				}
				if l.Kind == EvLookup && fieldVar(l.Recv) == tbl && l.Args[0].ID() == "$1" {
					ok = absent(pa, l)
					break
				}
			}
			c.Expect(ok, "no-duplicate", fnName(on), e.Pos, "a handler is stored without having looked for an existing one in the same critical section", pa)
			made := e.Val.Op == "call" && e.Val.R != nil && e.Val.R.ID() == "$2"
			c.Expect(e.Args[0].ID() == "$1" && made, "registered", fnName(on), e.Pos, "the handler stored is not the one given, or not under the given name", pa)
		}
		if pa.Outcome == Returned {
			want := IsNil
			if sets == 0 {
				want = NonNil
			}
			c.Expect(pa.RetErr() == want && sets <= 1, "registered", fnName(on)+" result", on.Pos(), fmt.Sprintf("%d handlers stored but the result is %v", sets, pa.Ret), pa)
		}
	}
	c.Min("registered", 2)
	// nothing else stores into the table
	for _, fn := range p.FnsWith(func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && loadedField(mu.Map) == tbl
	}) {
		for _, en := range p.Entries([]*ssa.Function{fn}) {
			ok := false
			w := c.Walk(en, WalkOpts{LoopBound: 2})
			for _, pa := range w.Paths {
				for i, e := range pa.Events {
					if e.Kind != EvMapSet || fieldVar(e.Recv) != tbl {
						continue
					}
					ok = false
					for j := i - 1; j >= 0; j-- {
						l := pa.Events[j]
						if l.Kind == EvUnlock {
							break
						}
						if l.Kind == EvLookup && fieldVar(l.Recv) == tbl && sameID(l.Args[0], e.Args[0]) {
							ok = absent(pa, l)
							break
						}
					}
					c.Expect(ok, "no-duplicate", fnName(en), e.Pos, "a handler is stored without having looked for an existing one in the same critical section", pa)
				}
			}
		}
	}
	// dispatch
	_, starts, w := c.runtimeLoop()
	for _, g := range starts {
		lw := c.WalkGo(w, g, loopOpts(c))
		for _, pa := range lw.Paths {
			for _, seg := range segments(pa.Events, isSelect) {
				var taken *Term
				n := 0
				for _, e := range seg {
					if isCall(e, nPop) {
						taken = e.Res
					}
					if !isCall(e, nChainEx) {
						continue
					}
					n++
					ok := false
					if taken != nil && e.Recv != nil && e.Recv.Op == "lookup" && fieldVar(e.Recv.Args[0]) == tbl {
						r, path := e.Recv.Args[1].FieldPath()
						ok = r.Strip().ID() == taken.ID() && strings.Join(path, ".") == "Req.Header.Event"
						has := &Term{Op: "has", Args: []*Term{e.Recv}}
						found := pa.St.Truth(has) == 1 || pa.nil(e.Recv) == NonNil
						if !found {
							c.Viol("dispatch", "consumer loop", e.Pos, "a chain is run that was not found", pa)
						}
					}
					c.Expect(ok, "dispatch", "consumer loop", e.Pos, "the chain run is not the one registered under the message's event name", pa)
					c.Expect(ok && len(e.Args) == 1 && sameID(e.Args[0], taken), "dispatch", "consumer loop, message", e.Pos, "the chain is not given the message taken", pa)
				}
				c.Expect(n <= 1, "dispatch", "consumer loop, once", g.GoFn.Pos(), "a message is handled twice", pa)
			}
			if pa.Outcome == Panicked {
				c.Viol("skip", "consumer loop", g.GoFn.Pos(), "the loop panics on an item of the mailbox", pa)
			}
			for _, e := range pa.Events {
				if e.Kind == EvAssert && e.Recv != nil && e.Recv.Op == "call" && e.Recv.S == nPop {
					c.Expect(e.CommaOk, "skip", "item type in "+fnName(e.Fn), e.Pos, "an item that is not a message panics the loop", pa)
				}
			}
			// a path that returns right after taking an item, without the loop condition
			if pa.Outcome == Returned {
				lastPop := -1
				for i, e := range pa.Events {
					if isCall(e, nPop) {
						lastPop = i
					}
				}
				lastSel := -1
				for i, e := range pa.Events {
					if isSelect(e) {
						lastSel = i
					}
				}
				if lastPop > lastSel && lastPop >= 0 {
					c.Expect(loopEndDecided(pa, lastPop), "skip", "consumer loop return", g.GoFn.Pos(), "the loop ends because of an item it took", pa)
				}
			}
		}
	}
	c.Min("dispatch", 3)
	c.Min("skip", 1)
	rt := p.Named(actorPkg, "Runtime")
	c.Guarded("table-lock", rt, tbl.Name(), func(v *types.Var) bool { return v == tbl }, func(fn *ssa.Function) bool { return fn.Name() == "Init" }, 4)
}

// absent: the path knows that the lookup found nothing.
func absent(pa *Path, l *Event) bool {
	if l.Res == nil {
		return false
	}
	if l.CommaOk && pa.St.Truth(&Term{Op: "has", Args: []*Term{l.Res}}) == 0 {
		return true
	}
	return pa.nil(l.Res) == IsNil
}
