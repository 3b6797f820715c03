package main

import (
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const grpcPkg = "lib/grpc"

func init() {
	register(&Prop{ID: "R01", Run: runR01, Method: "path-sensitive typestate analysis of the slot channel, with panicking calls",
		Expl: "Every path of every function that touches the slot channel is followed, including the paths on which the call or the wait for it panics: a slot is taken before the remote call, in a wait that also ends with the caller's context, and given back exactly once; the capacity is decided to be the configured one."})
	register(&Prop{ID: "R02", Run: runR02, Method: "path-sensitive provenance and resource analysis",
		Expl: "On every path the connection a call is made on is decided to be the one stored or dialled for the address given, every dialled connection to be stored first or closed, and failures to be returned without anything being stored."})
	register(&Prop{ID: "R03", Run: runR03, Method: "path-sensitive provenance analysis of interceptor chains and pass-through of the interceptors",
		Expl: "The interceptor list of the server is decided to start with recovery and to be passed on whole and in order, as on the client; every path of the interceptors is decided to call the real handler once with the caller's values and to return its result."})
	register(&Prop{ID: "R04", Run: runR04, Method: "path-sensitive typestate analysis of spans, with panicking calls, and provenance of metadata",
		Expl: "On every path, panicking ones included, of every function that starts a span, the span is finished exactly once; what is written into metadata is decided to be a copy; failing trace calls are decided not to end the call."})
}

func isInvoke(e *Event) bool {
	return e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.ClientConn).Invoke")
}

func isWait(e *Event) bool {
	return isCall(e, "(*sync.WaitGroup).Wait") || e.Kind == EvCall && strings.HasSuffix(e.Name, "errgroup.Group).Wait")
}

// optionField: the configuration field an exported option stores its argument in.
func (c *Check) optionField(rel, name string) *types.Var {
	fn := c.P.Func(rel, name)
	if fn == nil {
		return nil
	}
	ex := WalkOpts{Extra: []string{relPkg(fn)}, NoIgnore: true}
	fw := c.P.Walk(fn, ex)
	for _, pa := range fw.Paths {
		if pa.Outcome != Returned || len(pa.Ret) != 1 {
			continue
		}
		w := c.walkValue(fw, pa, pa.Ret[0], ex)
		if w == nil {
			continue
		}
		for _, cp := range w.Paths {
			for _, e := range cp.Events {
				if e.Kind != EvStore {
					continue
				}
				if r, vs := fieldPathVars(e.Recv); r != nil && r.ID() == "$p0" && len(vs) > 0 {
					return vs[len(vs)-1]
				}
			}
		}
	}
	return nil
}

type rpcRoles struct {
	client *types.Named
	ctor   *ssa.Function
	slot   *types.Var
}

func (c *Check) rpcRoles() *rpcRoles {
	r := &rpcRoles{client: c.P.Named(grpcPkg, "Client"), ctor: c.P.Func(grpcPkg, "BuildClientWithOption")}
	if r.client == nil || !c.Anchor(r.ctor, "BuildClientWithOption") {
		c.Missing("grpc.Client")
		return nil
	}
	s := structOf(r.client)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
			r.slot = s.Field(i)
		}
	}
	return r
}

// ---------------------------------------------------------------- R01

func runR01(c *Check) {
	c.Rule("capacity", "the number of slots is the configured number of concurrent calls")
	c.Rule("held", "the remote call is made, and waited for, while a slot is held")
	c.Rule("returned", "a slot that was taken is given back exactly once, on every outcome including panics")
	c.Rule("context", "waiting for a slot ends with the caller's context, with an error and without a call")
	r := c.rpcRoles()
	if r == nil {
		return
	}
	if r.slot == nil {
		c.Missing("the slot channel")
		return
	}
	conf := c.optionField(grpcPkg, "WithMaxConcurrentCalls")
	if conf == nil {
		c.Missing("WithMaxConcurrentCalls")
		return
	}
	for _, pa := range c.Walk(r.ctor, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		ch := deepVal(pa, len(pa.Events), pa.Ret[0], r.slot.Name())
		ok := ch.Op == "makechan" && len(ch.Args) > 0 && fieldVar(ch.Args[0].Strip()) == conf
		if ok && dynamicCalls(pa) {
			// the configuration after the options ran, not the defaults
			ok = !ch.Args[0].Any(func(x *Term) bool { return x.Op == "global" })
		}
		if ch.Op == "makechan" && !ok && !dynamicCalls(pa) {
			ok = len(ch.Args) > 0 && ch.Args[0].Any(func(x *Term) bool { return x.Op == "global" || fieldVar(x) == conf })
		}
		c.Expect(ok, "capacity", fnName(r.ctor), r.ctor.Pos(), "the number of slots is not the configured one", pa)
	}
	c.immutable("capacity", r.slot)
	users := c.P.Entries(c.P.FnsWith(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && fieldOfAddr(fa) == r.slot
	}))
	limited := map[*ssa.Function]bool{}
	for _, fn := range users {
		if fn == r.ctor {
			continue
		}
		limited[fn] = true
		c.slotPaths(fn, r.slot)
	}
	if m := c.P.MethodN(r.client, "Call"); c.Anchor(m, "Client.Call") {
		c.Expect(limited[m], "held", fnName(m), m.Pos(), "the limited call takes no slot", nil)
	}
	c.Min("capacity", 1)
	c.Min("held", 1)
	c.Min("returned", 2)
	c.Min("context", 1)
}

func (c *Check) slotPaths(fn *ssa.Function, slot *types.Var) {
	con := fnName(fn)
	w := c.Walk(fn, WalkOpts{LoopBound: 2, MayPanic: func(e *Event) bool { return isInvoke(e) || isWait(e) }})
	is := func(t *Term) bool { return t != nil && fieldVar(t.Strip()) == slot }
	ctxDone := func(pa *Path, t *Term) bool {
		s := t.Strip()
		return s.Op == "call" && strings.HasSuffix(s.S, "context.Context).Done") && s.R != nil && fromCtx(pa, s.R, "$1")
	}
	invokes := map[*ssa.Function]bool{}
	for _, g := range w.SpawnedAll(1) {
		for _, gp := range c.WalkGo(w, g, WalkOpts{LoopBound: 2}).Paths {
			for _, e := range gp.Events {
				invokes[g.GoFn] = invokes[g.GoFn] || isInvoke(e)
			}
		}
	}
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		held, took, gone := 0, false, false
		running := 0 // goroutines making the call
		for _, e := range pa.Events {
			switch {
			case e.Kind == EvSend && is(e.Recv):
				c.Expect(false, "context", con, e.Pos, "waiting for a slot outlasts the caller's context", pa)
				held++
				took = true
			case e.Kind == EvSelect:
				sel := false
				done := false
				for _, k := range e.Cases {
					sel = sel || k.Send && is(k.Chan)
					done = done || !k.Send && ctxDone(pa, k.Chan)
				}
				if sel {
					c.Expect(done || !e.Blocking, "context", con, e.Pos, "waiting for a slot outlasts the caller's context", pa)
				}
				if e.Case >= 0 && is(e.Cases[e.Case].Chan) {
					if e.Cases[e.Case].Send {
						held++
						took = true
					} else {
						held--
					}
				} else if sel {
					gone = true
				}
			case e.Kind == EvRecv && is(e.Recv):
				c.Expect(running == 0, "held", con+" running", e.Pos, "the slot is given back while the call is still running", pa)
				held--
				c.Expect(held == 0, "returned", con+" once", e.Pos, "a slot is given back that is not held", pa)
			case isInvoke(e):
				c.Expect(held == 1, "held", con, e.Pos, "a call is made without a slot", pa)
			case e.Kind == EvGo && invokes[e.GoFn]:
				c.Expect(held == 1, "held", con, e.Pos, "a call is made without a slot", pa)
				running++
			case isWait(e):
				running = 0
			case e.Kind == EvRecv:
				running = 0
			}
		}
		if took || held != 0 {
			c.Expect(held == 0, "returned", con, fn.Pos(), "a slot is lost", pa)
		}
		if gone && !took {
			ok := pa.Outcome == Returned && len(pa.Ret) > 0 && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil
			c.Expect(ok, "context", con+" error", fn.Pos(), "a call that got no slot reports success", pa)
		}
	}
}

// dynamicCalls: a configured function, such as an option, ran on the path.
func dynamicCalls(pa *Path) bool {
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Dynamic {
			return true
		}
	}
	return false
}

// fromCtx: the context is the parameter, or derived from it.
func fromCtx(pa *Path, t *Term, id string) bool {
	for n := 0; n < 8 && t != nil; n++ {
		s := t.Strip()
		if s.ID() == id {
			return true
		}
		if s.Op == "extract" && s.N == 0 || s.Op == "extract" && strings.Contains(s.Args[0].Strip().S, "errgroup.WithContext") {
			s = s.Args[0].Strip()
		}
		if s.Op == "call" && (strings.HasPrefix(s.S, "context.With") || strings.Contains(s.S, "errgroup.WithContext") || strings.Contains(s.S, "metadata.") || strings.Contains(s.S, "opentracing.ContextWithSpan")) && len(s.Args) > 0 {
			t = s.Args[0]
			continue
		}
		if s.Op == "call" {
			// arguments are kept with the event
			var next *Term
			for _, e := range pa.Events {
				if e.Kind == EvCall && sameID(e.Res, s) && len(e.Args) > 0 && (strings.HasPrefix(e.Name, "context.With") || strings.Contains(e.Name, "errgroup.WithContext") || strings.Contains(e.Name, "metadata.NewOutgoingContext") || strings.Contains(e.Name, "ContextWithSpan")) {
					next = e.Args[0]
				}
			}
			t = next
			continue
		}
		return false
	}
	return false
}

// ---------------------------------------------------------------- R02

// mapKeyed: the event reads or fills the connection table; its key and value.
type connOp struct {
	op       string // load, store, loadorstore, delete
	key, val *Term
	res      *Term
	e        *Event
}

func connOps(pa *Path, client *types.Named) []connOp {
	var r []connOp
	for _, e := range pa.Events {
		switch {
		case e.Kind == EvCall && strings.HasPrefix(e.Name, "(*sync.Map).") && ownerIs(fieldVar(e.Recv), client):
			o := connOp{op: strings.ToLower(e.Name[len("(*sync.Map)."):]), e: e, res: e.Res}
			if len(e.Args) > 0 {
				o.key = stripAll(e.Args[0])
			}
			if len(e.Args) > 1 {
				o.val = stripAll(e.Args[1])
			}
			r = append(r, o)
		case e.Kind == EvLookup && ownerIs(fieldVar(e.Recv), client):
			r = append(r, connOp{op: "load", key: stripAll(e.Args[0]), e: e, res: e.Res})
		case e.Kind == EvMapSet && ownerIs(fieldVar(e.Recv), client):
			r = append(r, connOp{op: "set", key: stripAll(e.Args[0]), val: stripAll(e.Val), e: e})
		case e.Kind == EvMapDel && ownerIs(fieldVar(e.Recv), client):
			r = append(r, connOp{op: "delete", key: stripAll(e.Args[0]), e: e})
		}
	}
	return r
}

func isDial(e *Event) bool {
	return e.Kind == EvCall && (e.Name == "google.golang.org/grpc.DialContext" || e.Name == "google.golang.org/grpc.Dial" || e.Name == "google.golang.org/grpc.NewClient")
}

// connTerm: the connection without assertions.
func connTerm(t *Term) *Term {
	t = stripAll(t)
	for t.Op == "assert" {
		t = stripAll(t.Args[0])
	}
	return t
}

func runR02(c *Check) {
	c.Rule("address", "a call is made on the connection stored or dialled for its address")
	c.Rule("kept", "a dialled connection is stored if it is the first for its address, and closed otherwise")
	c.Rule("dial-failure", "a failed dial is reported and stores nothing")
	c.Rule("dial-bounded", "dialling is bounded in time")
	c.Rule("call", "the call passes method, arguments, reply, context and options on and returns its error")
	c.Rule("options", "an unusable call option is reported and no call is made")
	c.Rule("revived", "a stored connection that is found failed is made to reconnect at once, and no other")
	r := c.rpcRoles()
	if r == nil {
		return
	}
	n := 0
	for i := 0; i < r.client.NumMethods(); i++ {
		m := c.P.MethodN(r.client, r.client.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || !r.client.Method(i).Exported() {
			continue
		}
		w := c.Walk(m, WalkOpts{LoopBound: 2})
		makes := false
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				makes = makes || isInvoke(e) || e.Kind == EvGo
			}
		}
		for _, pa := range w.Paths {
			if pa.Outcome == Cut {
				continue
			}
			n += c.connPath(r, m, w, pa, makes)
		}
	}
	if n == 0 {
		c.Missing("a remote call")
	}
	c.Min("address", 2)
	c.Min("kept", 2)
	c.Min("dial-failure", 1)
	c.Min("call", 4)
	c.Min("options", 1)
}

// closes: the event closes the connection, or starts a goroutine that does.
func (c *Check) closes(w *Walk, e *Event, conn *Term, depth int) bool {
	const closer = "grpc.ClientConn).Close"
	if e.Kind == EvCall {
		return strings.HasSuffix(e.Name, closer) && sameID(connTerm(e.Recv), conn)
	}
	if e.Kind != EvGo || e.GoFn == nil || depth == 0 {
		return false
	}
	if strings.HasSuffix(e.GoFn.String(), closer) {
		return e.Recv != nil && sameID(connTerm(e.Recv), conn) || len(e.Args) > 0 && sameID(connTerm(e.Args[0]), conn)
	}
	if len(e.GoFn.Blocks) == 0 {
		return false
	}
	gw := c.WalkGo(w, e, WalkOpts{LoopBound: 2})
	for _, gp := range gw.Paths {
		if gp.Outcome == Cut {
			continue
		}
		ok := false
		for _, ge := range gp.Events {
			ok = ok || c.closes(gw, ge, conn, depth-1)
		}
		if !ok {
			return false
		}
	}
	return len(gw.Paths) > 0
}

func (c *Check) connPath(r *rpcRoles, m *ssa.Function, w *Walk, pa *Path, makes bool) int {
	con := fnName(m)
	ops := connOps(pa, r.client)
	end := len(pa.Events)
	closedAt := func(conn *Term) int {
		for i, e := range pa.Events {
			if c.closes(w, e, conn, 3) {
				return i
			}
		}
		return end
	}
	const n0 = 0
	for _, o := range ops {
		if o.val != nil {
			c.Expect(!connTerm(o.val).IsNilConst(), "dial-failure", con+" nothing", o.e.Pos, "no connection is stored as one", pa)
		}
	}
	missed := func(upto *Event) bool {
		for _, o := range ops {
			if o.e == upto || o.op != "load" || o.res == nil {
				continue
			}
			if pa.St.Truth(extract(o.res, 1)) == 0 || absent(pa, o.e) {
				return true
			}
			for k, v := range pa.St.assume {
				if t := pa.St.terms[k]; t != nil && t.Op == "is" && !v && t.Mentions(o.res.ID()) {
					return true
				}
			}
		}
		return false
	}
	// dialled connections
	for _, e := range pa.Events {
		if !isDial(e) {
			continue
		}
		if makes {
			c.Expect(missed(e), "kept", con+" reused", e.Pos, "a connection is dialled although there may be one", pa)
		}
		conn := extract(e.Res, 0).Strip()
		err := extract(e.Res, 1)
		addr := e.Args[0]
		if e.Name == "google.golang.org/grpc.DialContext" {
			addr = e.Args[1]
			ctx := e.Args[0].Strip()
			if ctx.Op == "extract" {
				ctx = ctx.Args[0].Strip()
			}
			ok := false
			for _, x := range pa.Events {
				if x == e {
					break
				}
				if sameID(x.Res, ctx) && (isCall(x, "context.WithTimeout") || isCall(x, "context.WithDeadline")) {
					ok = true
					if k, isC := x.Args[1].IntConst(); isC {
						c.Expect(k >= int64(time.Millisecond), "dial-bounded", con+" time", x.Pos, "dialling is given no time", pa)
					}
				}
				if x.Kind == EvCall && x.Dynamic && x.Recv != nil && sameID(stripAll(x.Recv), extract(ctx, 1)) {
					c.Expect(false, "dial-bounded", con+" cancelled", x.Pos, "dialling is given up before it begins", pa)
				}
			}
			c.Expect(ok, "dial-bounded", con, e.Pos, "dialling may take for ever", pa)
		} else {
			c.Ob("dial-bounded", con, e.Pos)
		}
		var stores []connOp
		for _, o := range ops {
			if o.val != nil && sameID(connTerm(o.val), conn) {
				stores = append(stores, o)
			}
		}
		if pa.nil(err) == Unknown && len(stores) > 0 {
			c.Expect(false, "dial-failure", con+" stored", e.Pos, "a dial that may have failed is stored", pa)
			continue
		}
		if pa.nil(err) == NonNil {
			c.Expect(len(stores) == 0, "dial-failure", con+" stored", e.Pos, "a failed dial is stored", pa)
			if makes {
				c.Expect(pa.Outcome == Returned && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil, "dial-failure", con, e.Pos, "a failed dial is not reported", pa)
			}
			continue
		}
		kept, overwritten := false, false
		for _, o := range stores {
			c.Expect(sameID(stripAll(addr), o.key), "address", con+" stored", o.e.Pos, "a connection is stored under another address", pa)
			switch o.op {
			case "loadorstore":
				switch pa.St.Truth(extract(o.res, 1)) {
				case 0:
					kept = true
				case -1:
					// or the stored one is compared with the new one
					switch pa.True("==", connTerm(extract(o.res, 0)), conn) {
					case 1:
						kept = true
					case -1:
						c.Expect(false, "kept", con+" undecided", e.Pos, "whether the dialled connection was stored is not looked at", pa)
						return n0
					}
				}
			case "set":
				// looked up in the same critical section
				ok := false
				for _, l := range ops {
					if l.op == "load" && l.e.Kind == EvLookup && absent(pa, l.e) && sameID(l.key, o.key) && sharedLock(l.e, o.e) {
						ok = true
					}
				}
				kept = true
				overwritten = !ok
			case "compareandswap":
				kept = pa.St.Truth(o.res) == 1
			default:
				kept, overwritten = true, true
			}
		}
		c.Expect(!overwritten, "kept", con+" race", e.Pos, "a connection another caller stored meanwhile is lost", pa)
		at := closedAt(conn)
		if kept {
			c.Expect(at == end, "kept", con+" closed", e.Pos, "a stored connection is closed", pa)
		} else {
			c.Expect(at < end, "kept", con, e.Pos, "a dialled connection is neither stored nor closed", pa)
		}
	}
	// states
	asked := map[string]bool{}
	for i, e := range pa.Events {
		if e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.ClientConn).ResetConnectBackoff") {
			c.Expect(asked[connTerm(e.Recv).ID()], "revived", con+" unasked", e.Pos, "a connection is reset whose state was not asked", pa)
		}
		if e.Kind != EvCall || !strings.HasSuffix(e.Name, "grpc.ClientConn).GetState") {
			continue
		}
		reset := false
		for _, x := range pa.Events[i:] {
			reset = reset || x.Kind == EvCall && strings.HasSuffix(x.Name, "grpc.ClientConn).ResetConnectBackoff") && sameID(connTerm(x.Recv), connTerm(e.Recv))
		}
		const transientFailure = 3
		asked[connTerm(e.Recv).ID()] = true
		if pa.True("==", e.Res, tInt(transientFailure)) == 1 {
			c.Expect(reset, "revived", con, e.Pos, "a connection found failed is not made to reconnect", pa)
		} else {
			c.Expect(!reset, "revived", con+" healthy", e.Pos, "a connection is reset that was not found failed", pa)
		}
	}
	// the call
	n := 0
	check := func(x *Event, xp *Path, addr string) {
		n++
		conn := connTerm(x.Recv)
		ok := false
		for _, e := range pa.Events {
			if isDial(e) && sameID(extract(e.Res, 0), conn) {
				a := e.Args[0]
				if e.Name == "google.golang.org/grpc.DialContext" {
					a = e.Args[1]
				}
				ok = stripAll(a).ID() == addr && closedAt(conn) == end
			}
		}
		for _, o := range ops {
			if o.res == nil || o.key == nil || o.key.ID() != addr {
				continue
			}
			if sameID(extract(o.res, 0), conn) || sameID(o.res, conn) {
				ok = o.op == "load" || o.op == "loadorstore"
				if o.op == "load" {
					c.Expect(asked[conn.ID()], "revived", con+" state", x.Pos, "a stored connection is used without asking whether it failed", pa)
				}
			}
		}
		c.Expect(ok, "address", con, x.Pos, "the call is made on another connection than the one for its address", pa)
		if len(x.Args) < 5 {
			c.Expect(false, "call", con, x.Pos, "the call's arguments are unknown", pa)
			return
		}
		c.Expect(x.Args[1].Strip().ID() == "$3" && stripAll(x.Args[2]).ID() == "$4" && stripAll(x.Args[3]).ID() == "$5", "call", con+" arguments", x.Pos, "another method, argument or reply is passed on", pa)
		c.Expect(fromCtx(pa, x.Args[0], "$1"), "call", con+" context", x.Pos, "the caller's context is not passed on", pa)
		// all options, in order
		els, known := w.elements(xp.St, x.Args[4])
		good := known
		for i, el := range els {
			t := stripAll(el)
			for t.Op == "assert" || t.Op == "extract" {
				if t.Op == "assert" {
					good = good && (pa.assertHeld(x, t) || xp.assertHeld(x, t))
				}
				t = stripAll(t.Args[0])
			}
			if t.Op == "load" {
				t = t.Args[0]
			}
			if t.Op != "index" && t.Op != "indexval" {
				good = false
				continue
			}
			k, isC := t.Args[1].IntConst()
			good = good && t.Args[0].Strip().ID() == "$6" && isC && int(k) == i
		}
		if known {
			good = good && endOf(pa, tParam(m, 6), len(els))
		}
		c.Expect(good, "options", con+" passed", x.Pos, "the call options are not all passed on", pa)
	}
	for _, e := range pa.Events {
		if isInvoke(e) {
			check(e, pa, "$2")
			good := false
			if pa.Outcome == Returned {
				ret := pa.Ret[len(pa.Ret)-1]
				good = sameID(ret, e.Res) || pa.nil(e.Res) == pa.nil(ret) && (pa.nil(e.Res) == IsNil || pa.nil(e.Res) == NonNil)
			}
			c.Expect(good, "call", con+" result", e.Pos, "the error of the call is not returned", pa)
		}
		if e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 {
			for _, gp := range c.WalkGo(w, e, WalkOpts{LoopBound: 2}).Paths {
				for _, x := range gp.Events {
					if !isInvoke(x) {
						continue
					}
					check(x, gp, "$2")
					good := gp.Outcome == Returned && len(gp.Ret) > 0 && (gp.is(gp.Ret[0], x.Res) || gp.nil(x.Res) == gp.nil(gp.Ret[0]) && (gp.nil(x.Res) == IsNil || gp.nil(x.Res) == NonNil))
					if gp.Outcome == Returned && len(gp.Ret) == 0 {
						good = false
						for _, s := range gp.Events {
							good = good || s.Kind == EvSend && sameID(s.Val, x.Res) || s.Kind == EvStore && sameID(s.Val, x.Res)
						}
					}
					c.Expect(good, "call", con+" result", x.Pos, "the error of the call is lost", gp)
				}
			}
			waited := false
			for _, x := range pa.Events {
				if isWait(x) && pa.Outcome == Returned && len(pa.Ret) > 0 {
					waited = waited || pa.is(pa.Ret[len(pa.Ret)-1], x.Res) || x.Res != nil && pa.nil(x.Res) == pa.nil(pa.Ret[len(pa.Ret)-1]) && (pa.nil(x.Res) == IsNil || pa.nil(x.Res) == NonNil)
				}
				if x.Kind == EvRecv && pa.Outcome == Returned && len(pa.Ret) > 0 {
					waited = waited || pa.is(pa.Ret[len(pa.Ret)-1], x.Res)
				}
			}
			if callsInvoke(e.GoFn) {
				c.Expect(waited, "call", con+" result", e.Pos, "the error of the call is not returned", pa)
			}
		}
	}
	// options
	bad := false
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t != nil && !v && t.Op == "is" {
			x := stripAll(t.Args[0])
			if x.Op == "load" {
				x = x.Args[0]
			}
			if (x.Op == "index" || x.Op == "indexval") && x.Args[0].Strip().ID() == "$6" {
				bad = true
			}
		}
	}
	// every answer has its reason
	if rs := m.Signature.Results(); makes && n == 0 && pa.Outcome == Returned && rs.Len() > 0 && isErr(rs.At(rs.Len()-1).Type()) {
		ret := pa.Ret[len(pa.Ret)-1]
		c.Expect(pa.nil(ret) == NonNil, "call", con+" answer", m.Pos(), "success is answered although no call was made", pa)
		why := bad
		for _, e := range pa.Events {
			switch {
			case isDial(e):
				why = why || pa.nil(extract(e.Res, 1)) == NonNil
			case e.Kind == EvSelect && e.Recv != nil && !isDial(e):
				why = why || strings.Contains(e.Recv.ID(), ".Done")
			case e.Kind == EvRecv && e.Recv != nil:
				why = why || strings.Contains(e.Recv.ID(), ".Done")
			}
		}
		for _, o := range ops {
			if o.op == "load" && o.res != nil && (pa.St.Truth(extract(o.res, 1)) == 0 || absent(pa, o.e)) {
				why = true
			}
		}
		for k, v := range pa.St.assume {
			if t := pa.St.terms[k]; t != nil && (t.Op == "is" && !v || t.Op == "bin" && t.S == "==" && strings.Contains(k, ".Err#") && !v) {
				why = true
			}
		}
		c.Expect(why, "call", con+" refused", m.Pos(), "a call is refused without a reason", pa)
	}
	if bad {
		c.Expect(n == 0 && pa.Outcome == Returned && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil, "options", con, m.Pos(), "an unusable call option is not reported", pa)
	}
	return n
}

func callsInvoke(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if insCalls(in, "(*google.golang.org/grpc.ClientConn).Invoke") {
				return true
			}
		}
	}
	return false
}

func tParam(fn *ssa.Function, i int) *Term {
	t := &Term{Op: "param", S: "$" + strconv.Itoa(i), N: i}
	if i < len(fn.Params) {
		t.T = fn.Params[i].Type()
	}
	return t
}

// walkValue follows a function value at the end of a path. Its parameters are named $p0, $p1, ...
func (c *Check) walkValue(w *Walk, pa *Path, f *Term, opt WalkOpts) *Walk {
	f = stripAll(f)
	if f.Fn == nil || len(f.Fn.Blocks) == 0 {
		return nil
	}
	var args []*Term
	for i, p := range f.Fn.Params {
		args = append(args, &Term{Op: "param", S: "$p" + strconv.Itoa(i), N: i, T: p.Type()})
	}
	return c.WalkGo(w, &Event{GoFn: f.Fn, Recv: f, Snap: pa.St, Fn: w.root, Args: args}, opt)
}

// ---------------------------------------------------------------- R03

func runR03(c *Check) {
	p := c.P
	c.Rule("recovery", "the server's first interceptor recovers panics and turns them into an error")
	c.Rule("chain", "the configured unary interceptors are installed all together, in the order given, and nothing else is")
	c.Rule("pass-through", "a tracing interceptor calls the real handler exactly once with the caller's values and returns its result")
	acc := p.Func("core/node", "NewAcceptor")
	if !c.Anchor(acc, "NewAcceptor") {
		return
	}
	con := fnName(acc)
	app := p.Func(grpcPkg, "ServerAppendUnaryInterceptors")
	if !c.Anchor(app, "ServerAppendUnaryInterceptors") {
		return
	}
	w := c.Walk(acc, WalkOpts{LoopBound: 2, Opaque: []string{app.String(), p.Func(grpcPkg, "BuildServerWithOption").String()}})
	for _, pa := range w.Paths {
		if pa.Outcome != Returned || pa.nil(pa.Ret[0]) == IsNil {
			continue
		}
		var given []*Term
		for _, e := range pa.Events {
			if e.Kind != EvCall || !strings.HasSuffix(e.Name, "grpc.ServerAppendUnaryInterceptors") {
				continue
			}
			els, ok := w.elements(pa.St, e.Args[0])
			if !ok {
				c.Expect(false, "recovery", con, e.Pos, "the interceptors are unknown", pa)
				continue
			}
			given = append(given, els...)
		}
		ok := len(given) > 0 && isRecovery(pa, given[0])
		c.Expect(ok, "recovery", con, acc.Pos(), "recovery is not the outermost interceptor of the server", pa)
		for _, g := range given {
			for _, e := range pa.Events {
				if e.Kind == EvCall && sameID(e.Res, g) && strings.Contains(e.Name, "recovery.UnaryServerInterceptor") {
					c.recoveryHandler(w, pa, e, con)
				}
			}
		}
		// handed to the server that is built
		var ids []string
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.ServerAppendUnaryInterceptors") {
				ids = append(ids, e.Res.Strip().ID())
			}
		}
		used := false
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.BuildServerWithOption") {
				els, ok := w.elements(pa.St, e.Args[0])
				n := 0
				for _, el := range els {
					if contains(ids, el.Strip().ID()) {
						n++
					}
				}
				used = ok && n == len(ids)
			}
		}
		c.Expect(used, "chain", con+" used", acc.Pos(), "interceptors are not handed to the server", pa)
		// tracing takes part if there is a tracer
		for _, e := range pa.Events {
			if !isCall(e, "(lib/tracer.ITracer).GetTracing") || pa.nil(e.Res) != NonNil {
				continue
			}
			traced := false
			for _, g := range given {
				traced = traced || isResult(pa, g, "lib/span.ServerInterceptor")
			}
			c.Expect(traced, "chain", con+" tracing", acc.Pos(), "the server does not take part in tracing", pa)
		}
	}
	// the server and client builders
	c.chained("BuildServerWithOption", p.Func(grpcPkg, "BuildServerWithOption"), "ServerAppendUnaryInterceptors", "google.golang.org/grpc.UnaryInterceptor", "ChainUnaryServer", "google.golang.org/grpc.ChainUnaryInterceptor")
	client := p.Named(grpcPkg, "Client")
	n := 0
	if client != nil {
		for _, fn := range p.Entries(p.FnsWith(func(in ssa.Instruction) bool {
			return insCalls(in, "google.golang.org/grpc.DialContext", "google.golang.org/grpc.Dial", "google.golang.org/grpc.NewClient")
		})) {
			n++
			c.chained("the client's dial", fn, "ClientAppendUnaryInterceptors", "google.golang.org/grpc.WithUnaryInterceptor", "ChainUnaryClient", "google.golang.org/grpc.WithChainUnaryInterceptor")
		}
	}
	if n == 0 {
		c.Missing("the client's dial")
	}
	// the options
	for _, name := range []string{"ServerAppendUnaryInterceptors", "ClientAppendUnaryInterceptors"} {
		fn := p.Func(grpcPkg, name)
		if !c.Anchor(fn, name) {
			continue
		}
		fw := c.Walk(fn, WalkOpts{})
		for _, pa := range fw.Paths {
			if pa.Outcome != Returned {
				continue
			}
			ow := c.walkValue(fw, pa, pa.Ret[0], WalkOpts{})
			if ow == nil {
				c.Expect(false, "chain", fnName(fn), fn.Pos(), "the option cannot be followed", pa)
				continue
			}
			for _, op := range ow.Paths {
				if op.Outcome == Cut {
					continue
				}
				ok := appendsGiven(ow, op)
				c.Expect(ok, "chain", fnName(fn), fn.Pos(), "the interceptors given are not added after the ones configured before", op)
			}
		}
	}
	c.passThrough("ServerInterceptor", []int{1}, 3, 0)
	c.passThrough("ClientInterceptor", []int{1, 2, 3, 4, 6}, 5, 0)
	c.Min("recovery", 1)
	c.Min("chain", 4)
	c.Min("pass-through", 2)
}

func isRecovery(pa *Path, t *Term) bool {
	for _, e := range pa.Events {
		if e.Kind == EvCall && sameID(e.Res, t) {
			return strings.Contains(e.Name, "recovery.UnaryServerInterceptor")
		}
	}
	return strings.Contains(t.Strip().S, "recovery.UnaryServerInterceptor")
}

// recoveryHandler: a handler given to the recovery interceptor returns an error.
// appendsGiven: the option adds exactly its arguments, in order, after what the field held.
func appendsGiven(w *Walk, pa *Path) bool {
	var f *types.Var
	var last *Term
	n := 0 // arguments added one by one
	whole := false
	for _, e := range pa.Events {
		if e.Kind != EvStore || e.Recv.Op != "field" {
			continue
		}
		if f == nil {
			f = fieldVar(e.Recv)
		}
		if f == nil || fieldVar(e.Recv) != f || whole {
			return false
		}
		v := e.Val
		if v.Op != "append" || len(v.Args) != 2 {
			return false
		}
		if b := v.Args[0].Strip(); !(fieldVar(b) == f || last != nil && b.ID() == last.ID()) {
			return false
		}
		last = v.Strip()
		if v.Args[1].Strip().ID() == "$0" {
			whole = n == 0
			if !whole {
				return false
			}
			continue
		}
		els, known := w.elements(pa.St, v.Args[1])
		if !known {
			return false
		}
		for _, el := range els {
			switch id := el.Strip().ID(); {
			case id == "$0" && len(els) == 1:
				whole = true
			case id == "$0["+strconv.Itoa(n)+"]":
				n++
			default:
				return false
			}
		}
	}
	if whole {
		return true
	}
	return endOf(pa, &Term{Op: "param", S: "$0"}, n)
}

func (c *Check) recoveryHandler(w *Walk, pa *Path, e *Event, con string) {
	if len(e.Args) == 0 {
		c.Ob("recovery", con+" handler", e.Pos)
		return
	}
	els, ok := w.elements(pa.St, e.Args[0])
	if !ok {
		c.Ob("recovery", con+" handler", e.Pos)
		return
	}
	for _, o := range els {
		for _, x := range pa.Events {
			if x.Kind != EvCall || !sameID(x.Res, o) || !strings.Contains(x.Name, "WithRecoveryHandler") {
				continue
			}
			h := x.Args[0].Strip()
			var fn *ssa.Function
			if h.Fn != nil {
				fn = h.Fn
			}
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			for _, hp := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
				if hp.Outcome != Returned {
					if hp.Outcome != Cut {
						c.Expect(false, "recovery", con+" handler", fn.Pos(), "the recovery handler panics", hp)
					}
					continue
				}
				for _, x := range hp.Events {
					c.Expect(!mayFail(hp, x), "recovery", con+" handler", x.Pos, "the recovery handler panics", hp)
				}
				c.Expect(hp.nil(hp.Ret[0]) == NonNil, "recovery", con+" handler", fn.Pos(), "a panic is reported as success", hp)
			}
		}
	}
}

// chained: the builder installs exactly the configured list.
func (c *Check) chained(what string, fn *ssa.Function, option, single, mw, chain string) {
	c.chainedIn("chain", what, fn, option, single, mw, chain)
}

func (c *Check) chainedIn(rule, what string, fn *ssa.Function, option, single, mw, chain string) {
	if !c.Anchor(fn, what) {
		return
	}
	f := c.optionField(grpcPkg, option)
	if f == nil {
		c.Missing(option)
		return
	}
	con := fnName(fn)
	w := c.Walk(fn, WalkOpts{LoopBound: 2})
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		built := false
		inst := 0
		builtAt := 0
		for i, e := range pa.Events {
			if e.Kind != EvCall {
				continue
			}
			if !built && (isDial(e) || e.Name == "google.golang.org/grpc.NewServer") {
				built, builtAt = true, i
			}
			switch {
			case e.Name == single:
				inst++
				a := e.Args[0].Strip()
				ok := false
				for _, x := range pa.Events {
					if x.Kind == EvCall && sameID(x.Res, a) && strings.HasSuffix(x.Name, "."+mw) && len(x.Args) == 1 {
						ok = fieldVar(x.Args[0].Strip()) == f
					}
				}
				c.Expect(ok, rule, con, e.Pos, "not exactly the configured interceptors are installed", pa)
			case e.Name == chain:
				inst++
				c.Expect(len(e.Args) == 1 && (fieldVar(e.Args[0].Strip()) == f || e.Args[0].IsNilConst() && !dynamicCalls(pa)), rule, con, e.Pos, "not exactly the configured interceptors are installed", pa)
			}
		}
		if built {
			if inst == 0 {
				ok := lenZeroAt(pa, builtAt, f) == 1 || !dynamicCalls(pa)
				c.Expect(ok, rule, con+" none", fn.Pos(), "configured interceptors are not installed", pa)
			} else {
				given := false
				for _, e := range pa.Events {
					if e.Kind == EvCall && (isDial(e) || e.Name == "google.golang.org/grpc.NewServer") {
						for _, x := range pa.Events {
							if x.Kind == EvCall && (x.Name == single || x.Name == chain) && e.Args[len(e.Args)-1].Mentions(x.Res.Strip().ID()) {
								given = true
							}
						}
					}
				}
				c.Expect(given, rule, con+" given", fn.Pos(), "the interceptors are not handed over", pa)
				c.Expect(inst == 1, rule, con+" once", fn.Pos(), "interceptors are installed more than once, and only the last take part", pa)
			}
		}
	}
}

// passThrough decides the closure an interceptor factory returns. args are the positions of
// the closure's parameters that must be passed on, at h is the handler, ctx the context.
func (c *Check) passThrough(name string, args []int, h, ctx int) {
	fn := c.P.Func("lib/span", name)
	if !c.Anchor(fn, name) {
		return
	}
	con := fnName(fn)
	fw := c.Walk(fn, WalkOpts{})
	for _, pa := range fw.Paths {
		if pa.Outcome != Returned {
			continue
		}
		w := c.walkValue(fw, pa, pa.Ret[0], WalkOpts{LoopBound: 2})
		if w == nil {
			c.Expect(false, "pass-through", con, fn.Pos(), "the interceptor cannot be followed", pa)
			continue
		}
		var ps []string
		for i := range w.root.Params {
			ps = append(ps, "$p"+strconv.Itoa(i))
		}
		if h >= len(ps) {
			c.Missing(name + "'s handler")
			return
		}
		for _, cp := range w.Paths {
			if cp.Outcome == Cut {
				continue
			}
			if cp.Outcome != Returned {
				c.Expect(false, "pass-through", con+" panic", fn.Pos(), "the interceptor panics", cp)
				continue
			}
			n := 0
			for _, e := range cp.Events {
				if e.Kind != EvCall || !e.Dynamic || e.Recv == nil || e.Recv.Strip().ID() != ps[h] {
					continue
				}
				n++
				ok := len(e.Args) > 1
				var got []string
				for _, a := range e.Args {
					got = append(got, stripAll(a).ID())
				}
				j := 1
				for _, a := range args {
					ok = ok && j < len(got) && got[j] == ps[a]
					j++
				}
				c.Expect(ok, "pass-through", con+" arguments", e.Pos, "the handler gets other values than the caller gave", cp)
				c.Expect(fromCtx(cp, e.Args[0], ps[ctx]), "pass-through", con+" context", e.Pos, "the handler does not get the caller's context", cp)
				same := len(cp.Ret) > 0
				if len(cp.Ret) == 1 {
					same = cp.is(cp.Ret[0], e.Res)
				} else {
					for i, r := range cp.Ret {
						same = same && cp.is(r, extract(e.Res, i))
					}
				}
				c.Expect(same, "pass-through", con+" result", e.Pos, "the handler's result is changed", cp)
			}
			c.Expect(n == 1, "pass-through", con, fn.Pos(), "the handler is not called exactly once", cp)
		}
	}
}

// ---------------------------------------------------------------- R04

func isSpanCall(e *Event) bool {
	return e.Kind == EvCall && (strings.HasPrefix(e.Name, "(lib/tracer.") || strings.Contains(e.Name, "opentracing-go"))
}

func isStart(e *Event) bool {
	return isCall(e, "(lib/tracer.ISpan).Begin") || e.Kind == EvCall && (strings.HasSuffix(e.Name, "opentracing-go.Tracer).StartSpan") || strings.HasSuffix(e.Name, "opentracing-go.StartSpan"))
}

func isEnd(e *Event) bool {
	return isCall(e, "(lib/tracer.ISpan).End") || e.Kind == EvCall && (strings.HasSuffix(e.Name, "opentracing-go.Span).Finish") || strings.HasSuffix(e.Name, "opentracing-go.Span).FinishWithOptions"))
}

func startedSpan(e *Event) *Term {
	if isCall(e, "(lib/tracer.ISpan).Begin") {
		return e.Recv
	}
	return e.Res
}

func runR04(c *Check) {
	p := c.P
	c.Rule("finished", "a span that was started is finished exactly once, after the work it covers, on every path including panics")
	c.Rule("paired", "a span object keeps the span it started and finishes that one, exactly if it was started")
	c.Rule("metadata", "trace data is only written into a copy of the caller's metadata")
	c.Rule("no-failure", "a failing trace operation neither fails nor crashes the call")
	impls := p.Implementers("lib/tracer", "ISpan")
	isImpl := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		r := fn.Signature.Recv()
		if r == nil {
			return false
		}
		for _, n := range impls {
			if pt, ok := r.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) || types.Identical(r.Type(), n) {
				return true
			}
		}
		return false
	}
	starts := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		m := ci.Common().Method
		if m == nil {
			return insCalls(in, "github.com/opentracing/opentracing-go.StartSpan")
		}
		n := m.FullName()
		return strings.HasSuffix(n, "lib/tracer.ISpan).Begin") || strings.HasSuffix(n, "opentracing-go.Tracer).StartSpan")
	}
	n := 0
	for _, fn := range p.Entries(p.FnsWith(starts)) {
		if isImpl(fn) {
			continue
		}
		n++
		c.spanPaths(fn)
	}
	if n == 0 {
		c.Missing("a function that starts a span")
	}
	for _, n := range impls {
		c.spanImpl(n)
	}
	if len(impls) == 0 {
		c.Missing("a span implementation")
	}
	c.Min("finished", 4)
	c.Min("paired", 2)
	c.Min("metadata", 1)
	c.Min("no-failure", 2)
}

func (c *Check) spanPaths(fn *ssa.Function) {
	con := goName(c, fn)
	opt := WalkOpts{LoopBound: 2, MayPanic: func(e *Event) bool {
		return !isSpanCall(e) && (e.Dynamic || e.Invoke && !isCall(e, "(error).Error")) && e.Fn != nil && relPkg(e.Fn) == relPkg(fn)
	}}
	for _, pa := range c.Walk(fn, opt).Paths {
		if pa.Outcome == Cut {
			continue
		}
		for i, e := range pa.Events {
			if isStart(e) && !e.Panicked {
				s := startedSpan(e)
				ends, at := 0, -1
				for j := i + 1; j < len(pa.Events); j++ {
					x := pa.Events[j]
					if isEnd(x) && sameID(x.Recv, s) {
						ends++
						if at < 0 {
							at = j
						}
					}
				}
				if ends == 0 && pa.Outcome == Returned {
					handed := false
					for _, r := range pa.Ret {
						handed = handed || sameID(stripAll(r), s)
					}
					if handed {
						continue
					}
				}
				c.Expect(ends == 1, "finished", con, e.Pos, "a span that was started is not finished exactly once", pa)
				if at >= 0 {
					late := false
					for _, x := range pa.Events[at+1:] {
						late = late || x.Kind == EvCall && !isSpanCall(x) && (x.Dynamic || x.Invoke || takesContext(x)) && !isCall(x, "(error).Error")
					}
					c.Expect(!late, "finished", con+" early", e.Pos, "the span is finished before the work it covers", pa)
				}
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "opentracing-go.Tracer).Inject") && len(e.Args) == 3 {
				c.Expect(copiedMD(pa, e.Args[2]), "metadata", con, e.Pos, "trace data is written into the caller's metadata", pa)
			}
			if e.Kind == EvMapSet && typeIs(termType(e.Recv), "google.golang.org/grpc/metadata.MD") {
				c.Expect(copiedMD(pa, e.Recv), "metadata", con, e.Pos, "the caller's metadata is changed", pa)
			}
			// failing trace operations
			if isSpanCall(e) {
				if err := errResult(e); err != nil && pa.nil(err) == NonNil {
					ok := pa.Outcome != Panicked || panicsElsewhere(pa)
					if pa.Outcome == Returned && !returnsSpan(fn) {
						for _, r := range pa.Ret {
							ok = ok && !r.Mentions(err.ID())
						}
					}
					c.Expect(ok, "no-failure", con, e.Pos, "a failing trace operation fails the call", pa)
				}
			}
			if mayFail(pa, e) && spanData(e.Recv) {
				c.Expect(false, "no-failure", con+" assertion", e.Pos, "unusable trace data crashes the call", pa)
			}
		}
	}
}

func termType(t *Term) types.Type {
	if t == nil || t.Strip().T == nil {
		return types.Typ[types.Invalid]
	}
	return t.Strip().T
}

// mayFail: an assertion without a check, of a value that need not have the type.
func mayFail(pa *Path, e *Event) bool {
	if ta, ok := e.Instr.(*ssa.TypeAssert); ok && types.Identical(ta.X.Type(), ta.AssertedType) {
		return false // the nil check of a method value
	}
	return e.Kind == EvAssert && !e.Ok && !e.CommaOk && pa.St.Truth(&Term{Op: "is", S: e.Name, Args: []*Term{e.Recv}}) != 1
}

// recovers: what handles a recovered panic does not panic itself on the value it got.
func (c *Check) recovers(rule, con string, pa *Path) {
	var got *Term
	for _, e := range pa.Events {
		switch {
		case e.Kind == EvRecover:
			got = e.Val
		case e.Kind == EvAssert && got != nil && e.Recv.Mentions(got.ID()) && mayFail(pa, e):
			c.Expect(false, rule, con+" recovered", e.Pos, "handling the recovered value panics unless it has one type", pa)
		}
	}
}

func returnsSpan(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if strings.HasSuffix(r.At(i).Type().String(), "lib/tracer.ISpan") {
			return true
		}
	}
	return false
}

func panicsElsewhere(pa *Path) bool {
	for _, e := range pa.Events {
		if e.Panicked {
			return true
		}
	}
	return false
}

func spanData(t *Term) bool {
	return t.Any(func(x *Term) bool {
		return x.Op == "call" && (strings.Contains(x.S, "opentracing") || strings.Contains(x.S, "tracer.I"))
	})
}

// takesContext: a call of another package that gets a context, such as a driver's command.
func takesContext(e *Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || strings.HasPrefix(e.Name, "context.") || strings.Contains(e.Name, "metadata.") {
		return false
	}
	for _, a := range ci.Common().Args {
		if a.Type().String() == "context.Context" {
			return true
		}
	}
	return false
}

// copiedMD: the metadata written to was made for this call.
func copiedMD(pa *Path, t *Term) bool {
	t = stripAll(t)
	for n := 0; n < 6; n++ {
		switch t.Op {
		case "struct":
			if len(t.Args) == 1 {
				t = stripAll(t.Args[0])
				continue
			}
		case "extract":
			t = stripAll(t.Args[0])
			continue
		case "alloc":
			v := deepVal(pa, len(pa.Events), t, "MD")
			if v.Op != "load" {
				t = stripAll(v)
				continue
			}
		case "load":
			if len(t.Args) == 1 && t.Args[0].Op == "field" && t.Args[0].Args[0].Op == "alloc" {
				v := deepVal(pa, len(pa.Events), t.Args[0].Args[0], t.Args[0].S)
				if v.Op != "load" {
					t = stripAll(v)
					continue
				}
			}
		}
		break
	}
	switch t.Op {
	case "makemap":
		return true
	case "call":
		for _, f := range []string{"metadata.New", "metadata.MD).Copy", "metadata.Join", "metadata.Pairs", "metadata.FromOutgoingContext", "metadata.FromIncomingContext"} {
			if strings.HasSuffix(t.S, f) {
				return true
			}
		}
		return strings.HasSuffix(t.S, "maps.Clone")
	}
	return false
}

// spanImpl decides Begin and End of a span object.
func (c *Check) spanImpl(n *types.Named) {
	p := c.P
	begin, end := p.MethodN(n, "Begin"), p.MethodN(n, "End")
	if !c.Anchor(begin, n.Obj().Name()+".Begin") || !c.Anchor(end, n.Obj().Name()+".End") {
		return
	}
	// the fields set when a span was started
	var span *types.Var
	var marks []*types.Var
	markVal := map[*types.Var]string{}
	for _, pa := range c.Walk(begin, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		if !c.Expect(pa.Outcome == Returned, "no-failure", fnName(begin), begin.Pos(), "starting a span crashes", pa) {
			continue
		}
		k := 0
		for i, e := range pa.Events {
			if !isStart(e) {
				continue
			}
			k++
			kept := false
			for _, x := range pa.Events[i:] {
				if x.Kind == EvStore && sameID(x.Val, e.Res) && ownerIs(fieldVar(x.Recv), n) {
					kept = true
					span = fieldVar(x.Recv)
				}
			}
			c.Expect(kept, "paired", fnName(begin), e.Pos, "the span started is not kept", pa)
		}
		c.Expect(k <= 1, "paired", fnName(begin)+" once", begin.Pos(), "more than one span is started", pa)
		c.Expect(pa.nil(pa.Ret[0]) != IsNil, "no-failure", fnName(begin)+" context", begin.Pos(), "no context is returned", pa)
		for _, e := range pa.Events {
			if e.Kind == EvStore && ownerIs(fieldVar(e.Recv), n) && e.Val.Strip().Op == "const" {
				f := fieldVar(e.Recv)
				if k == 1 {
					marks = append(marks, f)
					markVal[f] = e.Val.ID()
				}
			}
		}
	}
	if span == nil {
		return
	}
	for _, pa := range c.Walk(end, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		con := fnName(end)
		fin := 0
		for _, e := range pa.Events {
			if isEnd(e) {
				fin++
				c.Expect(fieldVar(e.Recv.Strip()) == span, "paired", con, e.Pos, "another span is finished than the one started", pa)
			}
		}
		c.Expect(fin <= 1, "paired", con+" once", end.Pos(), "a span is finished more than once", pa)
		if fin == 0 {
			// only if none was started
			none := false
			for k, v := range pa.St.assume {
				t := pa.St.terms[k]
				if t == nil {
					continue
				}
				if t.Op == "bin" && t.S == "==" && v && (fieldVar(t.Args[0]) == span && t.Args[1].IsNilConst() || fieldVar(t.Args[1]) == span && t.Args[0].IsNilConst()) {
					none = true
				}
				for _, m := range marks {
					if fieldVar(t) == m {
						none = none || v != (markVal[m] == "true")
					}
				}
			}
			c.Expect(none, "paired", con+" finished", end.Pos(), "a span that was started is not finished", pa)
		}
	}
	// no method touches a span that does not exist
	for i := 0; i < n.NumMethods(); i++ {
		m := p.MethodN(n, n.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || !n.Method(i).Exported() {
			continue
		}
		for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2}).Paths {
			for i, e := range pa.Events {
				c.Expect(!mayFail(pa, e), "no-failure", fnName(m)+" assertion", e.Pos, "an unexpected value crashes the call", pa)
				if e.Kind == EvCall && e.Invoke && e.Recv != nil && fieldVar(e.Recv.Strip()) == span {
					ok := decidedNonNil(pa, e, e.Recv)
					for _, x := range pa.Events[:i] {
						ok = ok || x.Kind == EvStore && fieldVar(x.Recv) == span
					}
					if !ok && m == end {
						ok = len(marks) > 0 // started implies kept
						for _, k := range marks {
							seen := false
							for a, v := range pa.St.assume {
								if t := pa.St.terms[a]; t != nil && fieldVar(t) == k && v == (markVal[k] == "true") {
									seen = true
								}
							}
							ok = ok && seen
						}
					}
					c.Expect(ok, "no-failure", fnName(m), e.Pos, "a span that was never started is used", pa)
				}
			}
		}
	}
}

// isResult: the value is the result of a call of the named function.
func isResult(pa *Path, t *Term, name string) bool {
	for _, e := range pa.Events {
		if isCall(e, name) && sameID(stripAll(e.Res), stripAll(t)) {
			return true
		}
	}
	return false
}
