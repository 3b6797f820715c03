package main

// Properties of the timer service (L02) and the span reporter (L09).

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L02", Run: runL02, Method: "typestate and lockset analysis of tasks, exceptional control-flow analysis of their goroutine",
		Expl:   "The states of a task are taken from the constants stored in its state field. For every state, all paths of start and stop are followed: a goroutine is started only from a state that is not the running one, in the critical section that enters it and with a quit channel of its own; the channel is closed only in the running state, in the critical section that leaves it. The goroutine and what it does on a tick are followed with the handler succeeding, failing and panicking. Every access to the task table is checked for its lock.",
		Assume: []string{"time.Ticker and time.Timer behave as documented"}})
	register(&Prop{ID: "L09", Run: runL09, Method: "path-sensitive blocking analysis and reference-count typestate",
		Expl:   "Every path of Report, Close and the worker is followed: Report never blocks and each span is retained exactly if it was queued, or counted as dropped; the worker releases each queued span exactly once, after its last use, and answers a close event after flushing, then ends; Close does its work once, waits for the answer and closes the sender after it.",
		Assume: []string{"jaeger.Span's Retain and Release count references as documented"}})
}

// ---------------------------------------------------------------- L02

// reaches: the function contains such an instruction, in itself, in what it calls directly or in its closures.
func (c *Check) reaches(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !c.P.inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if ci, ok := in.(ssa.CallInstruction); ok && visit(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if !startedOnly(f, a) && visit(a) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// startedOnly: the closure is only used as a goroutine of its parent.
func startedOnly(f, a *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == a || g.Call.Value == a {
					return true
				}
			}
		}
	}
	return false
}

func waitIns(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

func runL02(c *Check) {
	c.Rule("locked", "the task table is only touched under its lock")
	c.Rule("table", "tasks are found, added and removed under their own id, and only a found task is acted upon")
	c.Rule("start", "a task's goroutine is started exactly if the task may run and is not running, in the critical section that says so, with a quit channel of its own")
	c.Rule("stop", "a running task's quit channel is closed once, in the critical section that stops it, and no other is")
	c.Rule("waits", "the task's goroutine only waits together with its quit channel, and ends exactly when that is closed, its ticker stopped")
	c.Rule("single", "the handler runs once per tick, and first after the due time")
	c.Rule("reported", "a failing or panicking handler is reported to the exception handler once, and the task goes on")
	c.Rule("interval", "a task is only made with a positive interval, which is what its ticker uses")
	p := c.P
	svc, task := p.Named("lib/timer", "TimerService"), p.Named("lib/timer", "Timer")
	if svc == nil || task == nil {
		c.Missing("lib/timer.TimerService and Timer")
		return
	}
	it, ok := task.Underlying().(*types.Interface)
	if !ok {
		c.Missing("lib/timer.Timer's methods")
		return
	}
	table := FieldBy(svc, "", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), task)
	})
	if table == nil {
		c.Missing("the task table")
		return
	}
	c.Guarded("locked", svc, table.Name(), func(v *types.Var) bool { return v == table }, nil, 4)
	c.timerTable(svc, table, it)

	handlerT := p.Named("lib/timer", "TimerHandleFunc")
	excT := p.Named("lib/timer", "ExceptionHandleFunc")
	if handlerT == nil || excT == nil {
		c.Missing("the handler types of lib/timer")
		return
	}
	isExc := func(t *Term) bool {
		v := fieldVar(t)
		return v != nil && types.Identical(v.Type(), excT) && declares(svc, v)
	}
	isHandler := func(t *Term) bool {
		v := fieldVar(t)
		return v != nil && types.Identical(v.Type(), handlerT) && !declares(svc, v)
	}
	for _, impl := range p.Implementers("lib/timer", "Timer") {
		start, stop := c.timerOps(impl, it)
		if start == nil || stop == nil || len(start.Blocks) == 0 || start.Synthetic != "" {
			continue // abstract
		}
		c.timerTask(impl, start, stop, isHandler, isExc)
	}
	c.Min("start", 3)
	c.Min("stop", 2)
	c.Min("waits", 2)
	c.Min("reported", 2)
	c.Min("table", 4)
}

// plainMethod: neither takes nor returns anything.
func plainMethod(m *types.Func) bool {
	s := m.Type().(*types.Signature)
	return s.Params().Len() == 0 && s.Results().Len() == 0
}

// timerOps: the methods that start and stop a task: the one with a goroutine, and the other.
func (c *Check) timerOps(impl *types.Named, it *types.Interface) (start, stop *ssa.Function) {
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if !plainMethod(m) {
			continue
		}
		fn := c.P.MethodN(impl, m.Name())
		if fn == nil {
			continue
		}
		if c.reaches(fn, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok }) {
			start = fn
		} else {
			stop = fn
		}
	}
	return
}

func declares(n *types.Named, v *types.Var) bool {
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i) == v {
			return true
		}
	}
	return false
}

func (c *Check) timerTable(svc *types.Named, table *types.Var, it *types.Interface) {
	isTask := func(e *Event) bool {
		if e.Kind != EvCall || !e.Invoke || e.Obj == nil || e.Recv == nil {
			return false
		}
		m, _ := e.Obj.(*types.Func)
		return m != nil && isHelperMethod(it, m) && plainMethod(m)
	}
	for _, fn := range c.P.Fns {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || !isPtrTo(fn.Signature.Recv().Type(), svc) {
			continue
		}
		con := fnName(fn)
		// the text parameter that names a task
		key := ""
		nText := 0
		for i, q := range fn.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				key = "$" + strconv.Itoa(i)
				nText++
			}
		}
		w := c.Walk(fn, WalkOpts{LoopBound: c.LB(2), MaxPaths: 4000})
		for _, pa := range w.Paths {
			if pa.Outcome == Cut {
				continue
			}
			found := -1
			var entry *Term
			steps := map[string]int{} // tasks of a full range
			ranged := false
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvMapSet && fieldVar(e.Recv) == table:
					k := e.Args[0].Strip()
					own := false
					for _, x := range pa.Events {
						if x.Kind == EvCall && x.Obj != nil && x.Obj.Name() == "TimerID" && x.Recv != nil && sameID(x.Recv, e.Val) && sameID(x.Res, k) {
							own = true
						}
						if x.Kind == EvLeave && strings.HasSuffix(x.Name, ").TimerID") && len(x.Args) == 1 && sameID(x.Args[0], k) {
							own = true
						}
					}
					if k.Op == "getter" && len(k.Args) == 1 && sameID(k.Args[0], e.Val) && k.S == "TimerID" {
						own = true
					}
					c.Expect(own, "table", con+" add", e.Pos, "a task is filed under another id than its own", pa)
				case e.Kind == EvMapDel && fieldVar(e.Recv) == table:
					c.Expect(nText == 1 && e.Args[0].Strip().ID() == key, "table", con+" remove", e.Pos, "another task is removed than the one named", pa)
				case e.Kind == EvLookup && fieldVar(e.Recv) == table:
					c.Expect(nText == 1 && e.Args[0].Strip().ID() == key, "table", con+" key", e.Pos, "another task is looked up than the one named", pa)
					entry = e.Res
					found = hasEntry(pa, e)
				case e.Kind == EvRange && fieldVar(e.Recv) == table:
					ranged = true
					if e.Ok {
						steps[idOf(e.Val)] = 0
					}
				}
			}
			acted := 0
			for _, e := range pa.Events {
				if !isTask(e) {
					continue
				}
				acted++
				id := idOf(e.Recv)
				_, one := steps[id]
				if one {
					steps[id]++
				}
				ok := one || entry != nil && sameID(e.Recv, entry) && found == 1 && askedBefore(pa, e, entry)
				c.Expect(ok, "table", con, e.Pos, "a task is acted upon that was not found", pa)
			}
			if pa.Outcome != Returned {
				c.Expect(false, "table", con+" panic", fn.Pos(), "the service panics", pa)
				continue
			}
			if !c.reachesTask(fn, it) {
				continue
			}
			if ranged && entry == nil {
				for _, n := range steps {
					c.Expect(n == 1, "table", con+" all", fn.Pos(), "not every task is acted upon once", pa)
				}
				continue
			}
			c.Expect(found >= 0, "table", con+" decided", fn.Pos(), "undecided: whether the task was found", pa)
			c.Expect(acted == 1 == (found == 1) && acted < 2, "table", con+" once", fn.Pos(), "a found task is not acted upon exactly once", pa)
			if n := fn.Signature.Results().Len(); n > 0 && isErr(fn.Signature.Results().At(n-1).Type()) {
				e := pa.nil(pa.Ret[n-1])
				c.Expect(found == 1 && e == IsNil || found == 0 && e == NonNil, "table", con+" unknown", fn.Pos(), "an unknown task is not reported, or a known one is", pa)
			}
		}
	}
}

// hasEntry: whether the lookup found something: 1, 0 or -1 when the path did not ask.
func hasEntry(pa *Path, e *Event) int {
	for _, k := range sortedKeys(pa.St.assume) {
		t := pa.St.terms[k]
		if t == nil {
			continue
		}
		if t.Op == "has" && sameID(t.Args[0], e.Res) {
			return b2i(pa.St.assume[k])
		}
	}
	switch pa.nil(e.Res) {
	case NonNil:
		return 1
	case IsNil:
		return 0
	}
	return -1
}

// askedBefore: the path asked, before the event, whether the entry is there.
func askedBefore(pa *Path, at *Event, entry *Term) bool {
	for _, e := range pa.Events {
		if e == at {
			return false
		}
		if e.Kind == EvBranch && e.Val.Any(func(t *Term) bool { return t.ID() == entry.Strip().ID() }) {
			return true
		}
	}
	return false
}

func (c *Check) reachesTask(fn *ssa.Function, it *types.Interface) bool {
	return c.reaches(fn, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !ci.Common().IsInvoke() || !isHelperMethod(it, ci.Common().Method) {
			return false
		}
		return plainMethod(ci.Common().Method)
	})
}

// stateIs: whether the path's decisions agree with the state field holding the constant.
func stateIs(pa *Path, state *types.Var, val string) bool {
	for k, truth := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || t.S != "==" || len(t.Args) != 2 {
			continue
		}
		x, y := t.Args[0].Strip(), t.Args[1].Strip()
		if fieldVar(x) != state {
			x, y = y, x
		}
		if fieldVar(x) != state || y.Op != "const" {
			continue
		}
		if (y.ID() == val) != truth {
			return false
		}
	}
	return true
}

func (c *Check) timerTask(impl *types.Named, start, stop *ssa.Function, isHandler, isExc func(*Term) bool) {
	p := c.P
	con := impl.Obj().Pkg().Name() + "." + impl.Obj().Name()
	sw := c.Walk(start, WalkOpts{LoopBound: 2})
	tw := c.Walk(stop, WalkOpts{LoopBound: 2})
	// the state field and its constants; the quit field
	var state, quit *types.Var
	running := ""
	for _, pa := range sw.Paths {
		starts := false
		for _, e := range pa.Events {
			starts = starts || e.Kind == EvGo
		}
		if !starts {
			continue
		}
		for _, e := range pa.Events {
			if e.Kind != EvStore || e.Recv == nil {
				continue
			}
			v := fieldVar(e.Recv)
			if v == nil {
				continue
			}
			if e.Val.Strip().Op == "const" && !types.Identical(v.Type().Underlying(), types.Typ[types.Bool]) {
				state, running = v, e.Val.Strip().ID()
			} else if _, isChan := v.Type().Underlying().(*types.Chan); isChan {
				quit = v
			}
		}
	}
	if state == nil {
		c.Missing(con + "'s state, entered when its goroutine starts")
		return
	}
	if quit == nil {
		c.Missing(con + "'s quit channel, made when its goroutine starts")
		return
	}
	values := map[string]bool{}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOfAddr(fa) != state {
					continue
				}
				k, ok := st.Val.(*ssa.Const)
				if !ok {
					c.Expect(false, "start", fnName(fn)+" state", st.Pos(), "undecided: the state is set to something that is not a constant", nil)
					continue
				}
				values[tConst(k.Value, k.Type()).ID()] = true
				// only made, started and stopped
				inTask := p.freshBase(fa) || c.within(fn, start) || c.within(fn, stop)
				c.Expect(inTask, "start", fnName(fn)+" state", st.Pos(), "the state changes outside start and stop", nil)
			}
		}
	}
	// closing
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && relPkg(fn) == "lib/timer" {
					c.Expect(c.within(fn, stop), "stop", fnName(fn)+" close", in.Pos(), "a channel is closed outside stop", nil)
				}
			}
		}
	}
	var gos []*Event
	var gopa []*Path
	for val := range values {
		started := 0
		for _, pa := range sw.Paths {
			if pa.Outcome == Cut || !stateIs(pa, state, val) {
				continue
			}
			if pa.Outcome != Returned {
				c.Expect(false, "start", fnName(start)+" panic", start.Pos(), "starting a task panics", pa)
				continue
			}
			var g, mk, set, made *Event
			n, iset := 0, -1
			for i, e := range pa.Events {
				switch {
				case e.Kind == EvGo:
					g = e
					n++
				case e.Kind == EvStore && fieldVar(e.Recv) == state:
					set, iset = e, i
				case e.Kind == EvStore && fieldVar(e.Recv) == quit:
					mk = e
				case e.Kind == EvMakeChan:
					made = e
				}
			}
			if n == 0 {
				c.Expect(set == nil || set.Val.Strip().ID() != running, "start", fnName(start)+" state", start.Pos(), "a task is called running without a goroutine", pa)
				c.Expect(mk == nil, "start", fnName(start)+" kept", start.Pos(), "the quit channel of a running task is replaced", pa)
				continue
			}
			started++
			c.Expect(val != running && n == 1, "start", fnName(start)+" twice", g.Pos, "a task that is running is started again", pa)
			c.Expect(set != nil && set.Val.Strip().ID() == running, "start", fnName(start), g.Pos, "a started task is not marked as running", pa)
			c.Expect(mk != nil && made != nil && sameID(mk.Val, made.Res), "start", fnName(start)+" channel", g.Pos, "a started task has no quit channel of its own", pa)
			if set != nil {
				// decided and changed in one critical section, which covers the channel
				ok := false
				for i := iset - 1; i >= 0; i-- {
					e := pa.Events[i]
					if e.Kind == EvUnlock {
						break
					}
					if e.Kind == EvBranch && e.Val.Any(func(t *Term) bool { return fieldVar(t) == state }) {
						ok = sharedLock2(e, set) && (mk == nil || sharedLock2(mk, set))
						break
					}
				}
				c.Expect(ok, "start", fnName(start)+" atomic", set.Pos, "the state is not decided and changed in one critical section", pa)
			}
			gos, gopa = append(gos, g), append(gopa, pa)
		}
		if val != running {
			c.Expect(started > 0, "start", fnName(start)+" from "+val, start.Pos(), "a task in state "+val+" is never started", nil)
		}
		closed := 0
		for _, pa := range tw.Paths {
			if pa.Outcome == Cut || !stateIs(pa, state, val) {
				continue
			}
			if pa.Outcome != Returned {
				c.Expect(false, "stop", fnName(stop)+" panic", stop.Pos(), "stopping a task panics", pa)
				continue
			}
			var cl, set *Event
			n := 0
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvClose:
					cl = e
					n++
					c.Expect(fieldVar(e.Recv) == quit, "stop", fnName(stop)+" channel", e.Pos, "another channel is closed than the task's", pa)
				case e.Kind == EvStore && fieldVar(e.Recv) == state:
					set = e
				}
			}
			if n == 0 {
				c.Expect(set == nil || val != running, "stop", fnName(stop)+" state", stop.Pos(), "a task is called stopped while its goroutine goes on", pa)
				continue
			}
			closed++
			c.Expect(n == 1 && val == running, "stop", fnName(stop), cl.Pos, "the quit channel of a task that is not running is closed", pa)
			c.Expect(set != nil && set.Val.Strip().ID() != running && sharedLock2(cl, set) && noUnlock(pa, cl, set), "stop", fnName(stop)+" atomic", cl.Pos, "the channel is not closed and the state changed in one critical section", pa)
			decided := false
			for _, e := range pa.Events {
				if e == cl {
					break
				}
				if e.Kind == EvUnlock {
					decided = false
				}
				if e.Kind == EvBranch && e.Val.Any(func(t *Term) bool { return fieldVar(t) == state }) {
					decided = sharedLock2(e, cl)
				}
			}
			c.Expect(decided, "stop", fnName(stop)+" decided", cl.Pos, "the state is not decided in the critical section that closes the channel", pa)
		}
		if val == running {
			c.Expect(closed > 0, "stop", fnName(stop)+" running", stop.Pos(), "a running task is never stopped", nil)
		}
	}
	// the lock of start is the lock of stop
	for i, g := range gos {
		if i > 0 && g.GoFn == gos[0].GoFn {
			continue
		}
		c.timerLoop(sw, gopa[i], g, quit, isHandler, isExc)
	}
	// construction
	for _, fn := range p.Entries(p.FnsWith(func(in ssa.Instruction) bool { a, ok := in.(*ssa.Alloc); return ok && isPtrTo(a.Type(), impl) })) {
		c.timerMade(fn, impl, isHandler)
	}
}

func noUnlock(pa *Path, a, b *Event) bool {
	in := false
	for _, e := range pa.Events {
		if e == a || e == b {
			if in {
				return true
			}
			in = true
			continue
		}
		if in && e.Kind == EvUnlock {
			return false
		}
	}
	return false
}

func sharedLock2(a, b *Event) bool {
	for _, x := range a.Locks {
		for _, y := range b.Locks {
			if x.Lock == y.Lock && !x.Read && !y.Read {
				return true
			}
		}
	}
	return false
}

// within: the function is the other one or only called from it.
func (c *Check) within(fn, other *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if f == other {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return up(f.Parent())
		}
		cs := c.P.callersOf()[f]
		if len(cs) == 0 {
			return false
		}
		for _, x := range cs {
			if x.Caller == nil || !up(x.Caller) {
				return false
			}
		}
		return true
	}
	return up(fn)
}

// timerLoop decides the goroutine of a task.
func (c *Check) timerLoop(w *Walk, spa *Path, g *Event, quit *types.Var, isHandler, isExc func(*Term) bool) {
	con := goName(c, g.GoFn)
	callsHandler := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() {
			return false
		}
		u, ok := ci.Common().Value.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		v := fieldOfAddr(fa)
		return isHandler(&Term{Op: "field", Obj: v})
	}
	once := map[*ssa.Function]bool{}
	opaque := func(fn *ssa.Function) bool {
		if v, ok := once[fn]; ok {
			return v
		}
		once[fn] = fn != g.GoFn && c.reaches(fn, callsHandler) && !c.reaches(fn, waitIns)
		return once[fn]
	}
	lw := c.WalkGo(w, g, WalkOpts{LoopBound: c.LB(2), OpaqueFn: opaque, MayPanic: func(e *Event) bool { return e.Dynamic && isHandler(e.Recv) }})
	isRun := func(e *Event) bool {
		return e.Kind == EvCall && (e.GoFn != nil && once[e.GoFn] || e.Dynamic && e.Recv != nil && isHandler(e.Recv))
	}
	seen := map[*ssa.Function]bool{}
	for _, pa := range lw.Paths {
		var ticker *Event
		stopped, quitted := 0, false
		pendingTick, ran := false, false
		due := false
		for i, e := range pa.Events {
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "time.NewTicker"):
				c.Expect(ticker == nil, "single", con+" ticker", e.Pos, "a task has two tickers", pa)
				ticker = e
				c.Expect(scaled(e.Args[0], "Interval"), "interval", con+" ticker", e.Pos, "the ticker's period is not the task's interval in milliseconds", pa)
			case e.Kind == EvCall && e.Name == "(*time.Ticker).Stop" && ticker != nil && sameID(e.Recv, ticker.Res):
				stopped++
			case e.Kind == EvCall && (e.Name == "time.NewTimer" || e.Name == "time.After"):
				c.Expect(scaled(e.Args[0], "DueTime"), "interval", con+" due", e.Pos, "the first run is not due after the task's due time in milliseconds", pa)
			case e.Kind == EvCall && e.Name == "time.Sleep" || e.Kind == EvSend || e.Kind == EvRecv:
				c.Expect(false, "waits", con+" plain", e.Pos, "the task waits without its quit channel", pa)
			case e.Kind == EvSelect:
				has := false
				for _, k := range e.Cases {
					has = has || !k.Send && isQuit(spa, k.Chan, quit)
				}
				if e.Blocking {
					c.Expect(has, "waits", con, e.Pos, "the task waits without its own quit channel", pa)
				}
				if e.Case >= 0 && isQuit(spa, e.Recv, quit) {
					quitted = true
				} else if e.Case >= 0 && ticker != nil && e.Recv.Mentions(ticker.Res.ID()) {
					c.Expect(!pendingTick, "single", con+" tick", e.Pos, "a tick passes without the handler", pa)
					pendingTick = true
				} else if e.Case >= 0 && timerChan(e.Recv) {
					due = true
				}
			case isRun(e):
				c.Expect(!quitted, "waits", con+" after", e.Pos, "the handler runs after the task was stopped", pa)
				c.Expect(pendingTick || !ran, "single", con+" run", e.Pos, "the handler runs without a tick", pa)
				if !ran && !pendingTick {
					c.Expect(due || dueDecided(pa), "single", con+" first", e.Pos, "the handler runs before the task is due", pa)
				}
				ran, pendingTick = true, false
				if e.GoFn != nil && once[e.GoFn] && !seen[e.GoFn] {
					seen[e.GoFn] = true
					var ow *Walk
					opt := WalkOpts{LoopBound: 2, MayPanic: func(e *Event) bool { return e.Dynamic && isHandler(e.Recv) }}
					if e.Recv != nil && e.Recv.Op == "closure" {
						ow = c.WalkGo(lw, &Event{GoFn: e.GoFn, Recv: e.Recv, Snap: pa.St, Fn: lw.root, Args: e.Args}, opt)
					} else {
						ow = c.Walk(e.GoFn, opt)
					}
					for _, x := range ow.Paths {
						c.timerRun(goName(c, e.GoFn), e.GoFn.Pos(), x, 0, len(x.Events), isHandler, isExc)
					}
				} else if e.Dynamic {
					c.timerRun(con, e.Pos, pa, i, len(pa.Events), isHandler, isExc)
				}
			}
		}
		switch pa.Outcome {
		case Returned:
			c.Expect(quitted, "waits", con+" ends", g.GoFn.Pos(), "the task ends though it was not stopped", pa)
			c.Expect(ticker == nil || stopped > 0, "waits", con+" ticker", g.GoFn.Pos(), "the ticker of a stopped task goes on", pa)
		case Panicked:
			c.Expect(false, "reported", con+" panic", g.GoFn.Pos(), "a panicking handler ends the task", pa)
		case Cut:
			c.Expect(!quitted, "waits", con+" goes on", g.GoFn.Pos(), "a stopped task goes on", pa)
		}
	}
	c.Expect(len(seen) > 0, "reported", con+" handler", g.GoFn.Pos(), "undecided: where the handler runs", nil)
}

// scaled: the duration is the named field's number of milliseconds.
func scaled(t *Term, field string) bool {
	s := stripAll(t)
	if s.Op != "bin" || s.S != "*" || len(s.Args) != 2 {
		return false
	}
	a, b := stripAll(s.Args[0]), stripAll(s.Args[1])
	k, ok := b.IntConst()
	if !ok {
		a, b = b, a
		k, ok = b.IntConst()
	}
	v := fieldVar(a)
	return ok && k == 1000000 && v != nil && v.Name() == field
}

// dueDecided: the path found that there is no due time to wait for.
func dueDecided(pa *Path) bool {
	for k, truth := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		for i, a := range t.Args {
			if v := fieldVar(stripAll(a)); v != nil && v.Name() == "DueTime" {
				k, ok := t.Args[1-i].IntConst()
				// 0 < due is false, due <= 0 is true, due == 0 is true
				if ok && k == 0 && (t.S == "<" && i == 1 && !truth || t.S == "<=" && i == 0 && truth || t.S == "==" && truth) {
					return true
				}
				if ok && k == 1 && t.S == "<" && i == 0 && truth {
					return true
				}
			}
		}
	}
	return false
}

// isQuit: the channel is the one made for this run of the task, not one read from the task later.
func isQuit(spa *Path, ch *Term, quit *types.Var) bool {
	if ch == nil {
		return false
	}
	for _, e := range spa.Events {
		if e.Kind == EvStore && fieldVar(e.Recv) == quit && sameID(e.Val, ch) {
			return true
		}
	}
	return false
}

// timerRun decides what happens on one tick.
func (c *Check) timerRun(con string, pos token.Pos, pa *Path, from, to int, isHandler, isExc func(*Term) bool) {
	if pa.Outcome == Cut {
		return
	}
	if !c.Expect(pa.Outcome == Returned, "reported", con+" panic", pos, "a panicking handler ends the task", pa) {
		return
	}
	c.recovers("reported", con, pa)
	var run *Event
	reports := 0
	runs := 0
	for _, e := range pa.Events[from:to] {
		switch {
		case e.Kind == EvCall && e.Dynamic && e.Recv != nil && isHandler(e.Recv):
			runs++
			run = e
			c.Expect(runs == 1, "single", con, e.Pos, "the handler runs twice on one tick", pa)
			c.Expect(isContext(e), "single", con+" context", e.Pos, "the handler gets another context than the task's", pa)
		case e.Kind == EvCall && e.Dynamic && e.Recv != nil && isExc(e.Recv):
			reports++
			ok := run != nil && len(e.Args) == 2 && pa.nil(e.Args[1]) == NonNil && isContext(e)
			if ok && !run.Panicked {
				ok = sameID(e.Args[1], run.Res) || e.Args[1].Mentions(run.Res.ID())
			}
			c.Expect(ok, "reported", con+" error", e.Pos, "something else than the handler's failure is reported", pa)
		}
	}
	if run == nil {
		ended := false
		for k, truth := range pa.St.assume {
			if t := pa.St.terms[k]; t != nil && truth && t.Any(func(x *Term) bool { v := fieldVar(x); return v != nil && v.Name() == "IsEnd" }) {
				ended = true
			}
		}
		c.Expect(ended, "single", con+" skipped", pos, "the handler is not run though the task has not ended", pa)
		return
	}
	failed := run.Panicked || pa.nil(run.Res) == NonNil
	if !run.Panicked {
		c.Expect(pa.nil(run.Res) != Unknown, "reported", con+" seen", run.Pos, "the handler's error is not looked at", pa)
	}
	if !failed {
		return
	}
	none := false
	for k, truth := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || t.S != "==" || !truth {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		if a.IsNilConst() {
			a, b = b, a
		}
		if b.IsNilConst() && (isExc(a.Strip()) || fieldVar(a.Strip()) != nil && strings.HasSuffix(types.TypeString(fieldVar(a.Strip()).Type(), nil), "TimerService")) {
			none = true
		}
	}
	c.Expect(reports == 1 || none && reports == 0, "reported", con, run.Pos, "a failing handler is not reported once", pa)
}

func isContext(e *Event) bool {
	return len(e.Args) > 0 && fieldVar(stripAll(e.Args[0])) != nil && typeIs(fieldVar(stripAll(e.Args[0])).Type(), modPath+"/lib/timer.TimerContext")
}

// timerMade decides a constructor of tasks.
func (c *Check) timerMade(fn *ssa.Function, impl *types.Named, isHandler func(*Term) bool) {
	con := fnName(fn)
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		for _, e := range pa.Events {
			if e.Kind != EvStore || fieldVar(e.Recv) == nil || fieldVar(e.Recv).Name() != "Interval" {
				continue
			}
			ok := false
			for k, truth := range pa.St.assume {
				t := pa.St.terms[k]
				if t == nil || t.Op != "bin" || len(t.Args) != 2 {
					continue
				}
				x, y := t.Args[0], t.Args[1]
				cx, okx := x.IntConst()
				cy, oky := y.IntConst()
				// a constant that is at least 0 is less than the interval
				if okx && sameID(y, e.Val) && (t.S == "<" && truth && cx >= 0 || t.S == "<=" && truth && cx >= 1) {
					ok = true
				}
				if oky && sameID(x, e.Val) && (t.S == "<" && !truth && cy >= 1 || t.S == "<=" && !truth && cy >= 0) {
					ok = true
				}
			}
			if k, isc := e.Val.IntConst(); isc && k > 0 {
				ok = true
			}
			c.Expect(ok, "interval", con, e.Pos, "a task is made with an interval that may not be positive", pa)
		}
	}
}

// ---------------------------------------------------------------- L09

const jaegerLib = "github.com/uber/jaeger-client-go"

func runL09(c *Check) {
	c.Rule("nonblock", "reporting never blocks")
	c.Rule("count", "a reported span is retained once exactly if it was queued, and otherwise counted as dropped")
	c.Rule("release", "the worker releases every queued span once, after its last use")
	c.Rule("close", "the reporter is closed once: the worker is told and waited for before the sender is closed")
	c.Rule("worker", "one worker is started; it goes on until it is told to close, and then flushes, answers and ends")
	p := c.P
	var impl *types.Named
	for _, n := range p.namedIn("lib/tracer") {
		r, cl := p.MethodN(n, "Report"), p.MethodN(n, "Close")
		if r != nil && cl != nil && r.Signature.Params().Len() == 1 && ptrToPath(r.Signature.Params().At(0).Type(), jaegerLib+".Span") {
			impl = n
		}
	}
	if impl == nil {
		c.Missing("the span reporter of lib/tracer")
		return
	}
	report, closeFn := p.MethodN(impl, "Report"), p.MethodN(impl, "Close")
	queue := FieldBy(impl, "", func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok })
	if queue == nil {
		c.Missing("the reporter's queue")
		return
	}
	item, ok := queue.Type().Underlying().(*types.Chan).Elem().(*types.Named)
	if !ok || structOf(item) == nil {
		c.Missing("the type of the queue's items")
		return
	}
	spanF := FieldBy(item, "", func(v *types.Var) bool { return ptrToPath(v.Type(), jaegerLib+".Span") })
	kindF := FieldBy(item, "", func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	})
	wgF := FieldBy(item, "", func(v *types.Var) bool { return ptrToPath(v.Type(), "sync.WaitGroup") })
	if spanF == nil || kindF == nil || wgF == nil {
		c.Missing("the kind, span and wait group of queued items")
		return
	}
	isQueue := func(t *Term) bool {
		if t == nil {
			return false
		}
		if s := t.Strip(); s.Op == "makechan" && s.T != nil {
			ch, ok := s.T.Underlying().(*types.Chan)
			return ok && types.Identical(ch.Elem(), item)
		}
		return fieldVar(t) == queue
	}
	part := func(pa *Path, v *Term, f *types.Var) *Term {
		if m := structVals(pa, v); m[f.Name()] != nil {
			return m[f.Name()].Strip()
		}
		return &Term{Op: "load", Args: []*Term{{Op: "field", S: f.Name(), Obj: f, Args: []*Term{v.Strip()}}}}
	}
	kinds := map[string]string{} // constant: "span" or "close"
	con := fnName(report)
	for _, pa := range c.Walk(report, WalkOpts{LoopBound: 2, Extra: []string{"lib/tracer"}}).Paths {
		if pa.Outcome != Returned {
			c.Expect(pa.Outcome == Cut, "nonblock", con+" panic", report.Pos(), "reporting panics or hangs", pa)
			continue
		}
		queued, held, dropped := 0, 0, 0
		c.Ob("nonblock", con, report.Pos())
		for _, e := range pa.Events {
			switch {
			case e.Kind == EvSend, e.Kind == EvRecv, e.Kind == EvSelect && e.Blocking, isCall(e, "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait"):
				c.Expect(false, "nonblock", con, e.Pos, "reporting a span may block", pa)
				if e.Kind == EvSend && isQueue(e.Recv) {
					queued++
				}
			case e.Kind == EvSelect && e.Case >= 0 && isQueue(e.Recv):
				queued++
				s := part(pa, e.Val, spanF)
				ok := s.ID() == "$1"
				for _, x := range pa.Events {
					if spanOp(x, "Retain") && sameID(x.Res, s) && idOf(x.Recv) == "$1" {
						ok = true
					}
				}
				c.Expect(ok, "count", con+" span", e.Pos, "another span is queued than the one reported", pa)
				kinds[part(pa, e.Val, kindF).ID()] = "span"
			case spanOp(e, "Retain") && idOf(e.Recv) == "$1":
				held++
			case spanOp(e, "Release") && (idOf(e.Recv) == "$1" || retained(pa, e.Recv)):
				held--
			}
			if a := atomicOp(e); a != nil && a.Op == "Add" && len(a.Args) == 1 && fieldVar(a.Addr) != nil && strings.Contains(strings.ToLower(fieldVar(a.Addr).Name()), "drop") {
				k, _ := a.Args[0].IntConst()
				dropped += int(k)
			}
		}
		c.Expect(queued < 2, "count", con+" once", report.Pos(), "a span is queued twice", pa)
		if queued == 1 {
			c.Expect(held == 1, "count", con+" retained", report.Pos(), "a queued span is not retained exactly once", pa)
			c.Expect(dropped == 0, "count", con+" counted", report.Pos(), "a queued span is counted as dropped", pa)
		} else {
			c.Expect(held == 0, "count", con+" let go", report.Pos(), "a span that is not queued is kept retained", pa)
			c.Expect(dropped == 1, "count", con+" dropped", report.Pos(), "a dropped span is not counted once", pa)
		}
	}
	// closing
	con = fnName(closeFn)
	did := 0
	for _, pa := range c.Walk(closeFn, WalkOpts{LoopBound: 2, Extra: []string{"lib/tracer"}}).Paths {
		if pa.Outcome != Returned {
			c.Expect(pa.Outcome == Cut, "close", con+" panic", closeFn.Pos(), "closing panics or hangs", pa)
			continue
		}
		sent, waited, closed := -1, -1, -1
		n := 0
		for i, e := range pa.Events {
			switch {
			case (e.Kind == EvSend || e.Kind == EvSelect && e.Blocking) && isQueue(e.Recv):
				n++
				sent = i
				c.Expect(casBefore(pa, i) || insideOnce(pa, i) || onceBefore(pa, i), "close", con+" once", e.Pos, "closing twice tells the worker twice", pa)
				kinds[part(pa, e.Val, kindF).ID()] = "close"
				wg := part(pa, e.Val, wgF)
				raised := 0
				for _, x := range pa.Events[:i] {
					if isCall(x, "(*sync.WaitGroup).Add") && sameID(x.Recv, wg) {
						k, _ := x.Args[0].IntConst()
						raised += int(k)
					}
				}
				c.Expect(raised == 1, "close", con+" raised", e.Pos, "the worker's answer is not waited for", pa)
				for j, x := range pa.Events[i:] {
					if isCall(x, "(*sync.WaitGroup).Wait") && sameID(x.Recv, wg) {
						waited = i + j
					}
				}
				c.Expect(waited > i, "close", con+" waits", e.Pos, "the worker's answer is not waited for", pa)
			case e.Kind == EvSelect && !e.Blocking && e.Case < 0:
				for _, k := range e.Cases {
					if isQueue(k.Chan) {
						c.Expect(false, "close", con+" told", e.Pos, "the worker is not told if the queue is full", pa)
					}
				}
			case e.Kind == EvClose && isQueue(e.Recv):
				c.Expect(false, "close", con+" queue", e.Pos, "the queue is closed under callers that report", pa)
			case e.Kind == EvCall && e.Invoke && e.Obj != nil && e.Obj.Name() == "Close" && fieldVar(e.Recv) != nil && declares(impl, fieldVar(e.Recv)):
				closed = i
				c.Expect(sent >= 0 && waited >= 0 && i > waited, "close", con+" sender", e.Pos, "the sender is closed while the worker may use it", pa)
			}
		}
		if n > 0 {
			did++
			c.Expect(n == 1 && closed >= 0, "close", con+" complete", closeFn.Pos(), "closing does not tell the worker once and close the sender", pa)
		} else {
			skipped := false
			for i, e := range pa.Events {
				if a := atomicOp(e); a != nil {
					skipped = skipped || a.Op == "CompareAndSwap" && pa.St.Truth(e.Res) == 0 || a.Op == "Swap" && pa.True("==", e.Res, tInt(0)) == 0
				}
				_ = i
			}
			for k, v := range pa.St.assume {
				skipped = skipped || v && strings.HasPrefix(k, "oncedone#")
			}
			c.Expect(skipped, "close", con+" skipped", closeFn.Pos(), "the reporter is not closed though it was not closed before", pa)
		}
	}
	c.Expect(did > 0, "close", con+" told", closeFn.Pos(), "the worker is never told to end", nil)
	// the worker
	var spanK, closeK string
	for k, v := range kinds {
		if v == "span" {
			spanK = k
		} else {
			closeK = k
		}
	}
	c.Expect(len(kinds) == 2 && spanK != "" && closeK != "", "worker", "kinds of items", report.Pos(), "spans and the close event are not told apart", nil)
	workers := 0
	for _, fn := range p.Entries(p.FnsWith(func(in ssa.Instruction) bool { a, ok := in.(*ssa.Alloc); return ok && isPtrTo(a.Type(), impl) })) {
		w := c.Walk(fn, WalkOpts{LoopBound: 2, Opaque: []string{}})
		for _, pa := range w.Paths {
			if pa.Outcome != Returned || len(pa.Ret) == 0 {
				continue
			}
			made, gos := false, 0
			var capOK = false
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvStore && isQueue(e.Recv):
					made = true
					for _, x := range pa.Events {
						if x.Kind == EvMakeChan && sameID(x.Res, e.Val) && len(x.Args) == 1 {
							k, isc := x.Args[0].IntConst()
							capOK = isc && k > 0
						}
					}
				case e.Kind == EvGo:
					gos++
				}
			}
			if !made {
				continue
			}
			c.Expect(gos == 1, "worker", fnName(fn)+" once", fn.Pos(), "a reporter does not have exactly one worker", pa)
			c.Expect(capOK, "worker", fnName(fn)+" queue", fn.Pos(), "the queue does not hold anything", pa)
		}
		for _, g := range w.Spawned() {
			workers++
			c.spanWorker(w, g, isQueue, spanF, kindF, wgF, spanK, closeK)
		}
	}
	c.Expect(workers > 0, "worker", "worker", closeFn.Pos(), "undecided: no worker found", nil)
	c.Min("release", 1)
}

// onceBefore: the event follows a decision that only one caller takes.
func onceBefore(pa *Path, i int) bool {
	for k, v := range pa.St.assume {
		if !v && strings.HasPrefix(k, "oncedone#") {
			return true
		}
	}
	return false
}

func spanOp(e *Event, name string) bool {
	return e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == name && strings.Contains(e.Name, "jaeger-client-go.Span)") && e.Recv != nil
}

func retained(pa *Path, t *Term) bool {
	for _, x := range pa.Events {
		if spanOp(x, "Retain") && sameID(x.Res, t) && idOf(x.Recv) == "$1" {
			return true
		}
	}
	return false
}

func (c *Check) spanWorker(w *Walk, g *Event, isQueue func(*Term) bool, spanF, kindF, wgF *types.Var, spanK, closeK string) {
	con := goName(c, g.GoFn)
	if c.P.Fns == nil {
		return
	}
	name := fnName(g.GoFn)
	gw := c.WalkGo(w, g, WalkOpts{LoopBound: c.LB(2), Extra: []string{"lib/tracer"}, MaxPaths: 20000})
	_ = con
	for _, pa := range gw.Paths {
		type got struct {
			recv           *Term
			at             int
			kind           string
			released, done int
			flushed        bool
		}
		var items []*got
		for i, e := range pa.Events {
			switch {
			case e.Kind == EvSelect && e.Blocking:
				has := false
				for _, k := range e.Cases {
					has = has || !k.Send && isQueue(k.Chan)
				}
				c.Expect(has, "worker", name+" waits", e.Pos, "the worker waits without its queue", pa)
				if e.Case >= 0 && isQueue(e.Recv) && e.Res != nil {
					items = append(items, &got{recv: e.Res, at: i, kind: itemKind(pa, e.Res, kindF)})
				}
			case e.Kind == EvRecv && isQueue(e.Recv):
				items = append(items, &got{recv: e.Res, at: i, kind: itemKind(pa, e.Res, kindF)})
			case e.Kind == EvRecv || e.Kind == EvSend || isCall(e, "time.Sleep", "(*sync.WaitGroup).Wait"):
				c.Expect(false, "worker", name+" waits", e.Pos, "the worker waits without its queue", pa)
			case e.Kind == EvCall && e.Obj != nil && e.Invoke && e.Obj.Name() == "Flush":
				for _, it := range items {
					it.flushed = true
				}
			}
			if e.Kind == EvCall && e.Obj != nil {
				for _, it := range items {
					own := func(t *Term, f *types.Var) bool {
						b, _ := t.Strip().FieldPath()
						return t != nil && fieldVar(t.Strip()) == f && fromItem(b, it.recv)
					}
					if spanOp(e, "Release") && own(e.Recv, spanF) {
						it.released++
						continue
					}
					if isCall(e, "(*sync.WaitGroup).Done") && own(e.Recv, wgF) {
						c.Expect(it.flushed, "worker", name+" flush", e.Pos, "the close event is answered before what was queued is flushed", pa)
						it.done++
						continue
					}
					used := e.Recv != nil && own(e.Recv, spanF)
					for _, a := range e.Args {
						used = used || own(a, spanF)
					}
					if used && it.released > 0 {
						c.Expect(false, "release", name+" used", e.Pos, "a span is used after it was released", pa)
					}
				}
			}
		}
		for i, it := range items {
			last := i == len(items)-1
			if pa.Outcome == Cut && last && it.kind == "" {
				continue
			}
			switch it.kind {
			case spanK:
				c.Expect(it.released == 1 && it.done == 0, "release", name, g.GoFn.Pos(), "a queued span is not released exactly once", pa)
			case closeK:
				c.Expect(it.done == 1 && it.released == 0, "worker", name+" answers", g.GoFn.Pos(), "the close event is not answered once", pa)
				c.Expect(pa.Outcome == Returned && last, "worker", name+" ends", g.GoFn.Pos(), "the worker goes on after the close event", pa)
			}
		}
		switch pa.Outcome {
		case Returned:
			ok := len(items) > 0 && items[len(items)-1].kind == closeK
			c.Expect(ok, "worker", name+" goes on", g.GoFn.Pos(), "the worker ends though it was not told to", pa)
		case Panicked:
			c.Expect(false, "worker", name+" panic", g.GoFn.Pos(), "the worker panics", pa)
		}
	}
}

// fromItem: the term is the item or a copy of it.
func fromItem(b, recv *Term) bool {
	b = stripAll(b)
	for b.Op == "load" || b.Op == "field" || b.Op == "fieldval" {
		b = b.Args[0].Strip()
	}
	return b.Mentions(recv.ID()) || b.ID() == recv.ID() || strings.Contains(b.ID(), recv.ID())
}

// itemKind: the kind of an item the path decided on.
func itemKind(pa *Path, recv *Term, kindF *types.Var) string {
	for _, k := range sortedKeys(pa.St.assume) {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || t.S != "==" || !pa.St.assume[k] || len(t.Args) != 2 {
			continue
		}
		x, y := t.Args[0].Strip(), t.Args[1].Strip()
		if fieldVar(x) != kindF {
			x, y = y, x
		}
		if fieldVar(x) == kindF && y.Op == "const" {
			b, _ := x.FieldPath()
			if fromItem(b, recv) {
				return y.ID()
			}
		}
	}
	return ""
}

func (p *Prog) namedIn(rel string) []*types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	var out []*types.Named
	for _, n := range pk.Scope().Names() {
		if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}
