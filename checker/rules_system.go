package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nodePkg = "core/node"

const (
	nReceived = "(core.IActor).Received"
	nExit     = "(core.IActor).Exit"
	nInit     = "(core.IActor).Init"
	nCallWait = "(*lib/grpc.Client).CallWait"
	nFactory  = "(core.IActorFactory).Get"
	nRegister = "Register"
)

func init() {
	register(&Prop{ID: "S01", Run: runS01, Method: "lockset analysis and check-then-act typestate over SSA paths",
		Expl: "Every access to the system's actor table in every function is decided to happen under the system's lock, in write mode for changes. On every path of Register the id is claimed in the critical section that looked it up, under write lock, and a claim is given back on every outcome. No call other than property reads happens while the lock is held."})
	register(&Prop{ID: "S02", Run: runS02, Method: "path-sensitive dataflow of routing decisions",
		Expl: "All paths of Call and Send are followed for every kind of target: who receives the message, which lookup decided it, which address is dialled, what the request carries and what the header says before delivery; the same for the remote entry."})
	register(&Prop{ID: "S03", Run: runS03, Method: "path-sensitive error-propagation analysis",
		Expl: "On every path of Call, Send, the remote entry and the client's call, a nil result requires exactly one delivery whose own error is nil or returned, and a taken-over response for remote calls."})
	register(&Prop{ID: "S04", Run: runS04, Method: "wait-graph analysis over SSA paths and goroutines",
		Expl: "Every wait of a top-level local call and of the goroutines it starts is classified: it includes the caller's context and a bound by the call timeout, its signal is given exactly once on every path of the goroutine that gives it, and waiting for completion starts only after the actor has been offered the message."})
	register(&Prop{ID: "S05", Run: runS05, Method: "path-sensitive ordering and validation analysis",
		Expl: "On every path of Register, publishing the address requires every validation to have been decided in favour, construction requires the publication to have succeeded, and only a constructed and initialised actor is made reachable; every other path returns an error and publishes no local actor."})
	register(&Prop{ID: "S06", Run: runS06, Method: "path-sensitive ordering analysis",
		Expl: "On every path of Unregister the type is known before anything is changed, an actor found is ended before it is removed, and the address record is always withdrawn with the weight of that type."})
	register(&Prop{ID: "S07", Run: runS07, Method: "wait-group pairing and loop-coverage analysis over SSA paths and goroutines",
		Expl: "On every path of Exit each listed actor is counted before its goroutine starts, ended in it and released on every outcome, the acceptor is closed, the address book cleared and no path returns before; the process shutdown waits for the group or its bounded context."})
	register(&Prop{ID: "S08", Run: runS08, Method: "path-sensitive nil analysis of lookup results",
		Expl: "Every use of the result of a lookup that can come back empty, in every function of the module, is decided to be preceded by a check on its path."})
}

func abCall(e *Event, names ...string) bool {
	if e.Kind != EvCall || !(strings.Contains(e.Name, "addressbook.AddressBook)") || strings.Contains(e.Name, "core.IAddressBook)")) {
		return false
	}
	for _, n := range names {
		if strings.HasSuffix(e.Name, ")."+n) {
			return true
		}
	}
	return false
}

func systemType(c *Check) *types.Named {
	n := c.P.Named(nodePkg, "NormalSystem")
	if n == nil {
		for _, x := range c.P.Implementers("core", "ISystem") {
			if x.Obj().Pkg().Path() == modPath+"/"+nodePkg {
				n = x
			}
		}
	}
	if n == nil {
		c.Missing("the system type")
	}
	return n
}

// actorTable is the field holding the live actors by id.
func actorTable(c *Check, n *types.Named) *types.Var {
	f := FieldBy(n, "actoridmap", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.TypeString(m.Elem(), nil) == modPath+"/core.IActor"
	})
	if f == nil {
		c.Missing("the system's actor table")
	}
	return f
}

func mapFields(n *types.Named) []*types.Var {
	st := structOf(n)
	var r []*types.Var
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			r = append(r, st.Field(i))
		}
	}
	return r
}

// lookupOf: a value read from the map field f under that key.
func lookupOf(t *Term, f *types.Var) (*Term, bool) {
	t = t.Strip()
	if t.Op == "lookup" && fieldVar(t.Args[0]) == f {
		return t.Args[1], true
	}
	return nil, false
}

func gstr(s string) *Term { return tConst(constant.MakeString(s), types.Typ[types.String]) }

func present(pa *Path, t *Term) bool {
	return pa.St.Truth(&Term{Op: "has", Args: []*Term{t}}) == 1 || pa.nil(t) == NonNil
}

func writeHeld(e *Event) []Held {
	var r []Held
	for _, h := range e.Locks {
		if !h.Read {
			r = append(r, h)
		}
	}
	return r
}

func sameSection(a, b *Event) bool { return sharedLock(a, b) }

// ---------------------------------------------------------------- S01

func runS01(c *Check) {
	p := c.P
	c.Rule("table-lock", "every read, iteration or change of a table of the system happens under the system's lock, changes under the write lock")
	c.Rule("claim", "an id is claimed under the write lock in the critical section that found it neither live nor claimed")
	c.Rule("claim-given-back", "a claim ends on every outcome of the registration, and only after the actor is reachable")
	c.Rule("repeat", "a registration that finds its id taken returns the repeat error")
	c.Rule("no-call-under-lock", "no actor, address book, network or waiting operation happens while the system's lock is held")
	n := systemType(c)
	if n == nil {
		return
	}
	tbl := actorTable(c, n)
	if tbl == nil {
		return
	}
	maps := mapFields(n)
	for _, f := range maps {
		f := f
		c.Guarded("table-lock", n, f.Name(), func(v *types.Var) bool { return v == f }, nil, 2)
	}
	// the claim
	reg := p.MethodN(n, "Register")
	if !c.Anchor(reg, "system Register") {
		return
	}
	for _, pa := range c.Walk(reg, WalkOpts{LoopBound: 2}).Paths {
		con := fnName(reg)
		var pub, claim *Event
		pubI, claimI := -1, -1
		for i, e := range pa.Events {
			if e.Kind == EvMapSet && contains2(maps, fieldVar(e.Recv)) {
				if fieldVar(e.Recv) == tbl {
					pub, pubI = e, i
				}
				if claim == nil {
					claim, claimI = e, i
				}
			}
		}
		if claim == nil {
			// refused: if an entry was found, the repeat error
			for _, e := range pa.Events {
				if e.Kind == EvLookup && contains2(maps, fieldVar(e.Recv)) && present(pa, e.Res) && pa.Outcome == Returned {
					ok := len(pa.Ret) == 2 && pa.Ret[1].Any(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.S, ".ErrActorRegisterRepeat") })
					c.Expect(ok, "repeat", con, e.Pos, "a taken id is not reported with the repeat error", pa)
				}
			}
			continue
		}
		key := claim.Args[0]
		f := fieldVar(claim.Recv)
		need := map[*types.Var]bool{tbl: true, f: true}
		for g := range need {
			ok := false
			for _, e := range pa.Events[:claimI] {
				if e.Kind == EvLookup && fieldVar(e.Recv) == g && sameID(e.Args[0], key) && sameSection(e, claim) && absent(pa, e) {
					ok = true
				}
			}
			c.Expect(ok, "claim", con+" against "+roleOf(g, tbl), claim.Pos, "the id is claimed without having been found free in the same critical section", pa)
		}
		c.Expect(len(writeHeld(claim)) > 0, "claim", con+" write lock", claim.Pos, "the id is claimed without the write lock", pa)
		if pub != nil {
			c.Expect(sameID(pub.Args[0], key), "claim", con+" same id", pub.Pos, "the id made reachable is not the id that was claimed", pa)
		}
		if f != tbl && pa.Outcome == Returned {
			del := -1
			for i, e := range pa.Events {
				if e.Kind == EvMapDel && fieldVar(e.Recv) == f && sameID(e.Args[0], key) && i > claimI {
					del = i
				}
			}
			c.Expect(del >= 0, "claim-given-back", con, claim.Pos, "the claim is kept after the registration ended", pa)
			c.Expect(pubI < 0 || del < 0 || firstDel(pa, f, claimI) > pubI, "claim-given-back", con+" order", claim.Pos, "the claim ends before the actor is reachable", pa)
		}
		if f == tbl && pa.Outcome == Returned && len(pa.Ret) == 2 && pa.nil(pa.Ret[1]) == NonNil {
			del := false
			for _, e := range pa.Events[claimI:] {
				del = del || e.Kind == EvMapDel && fieldVar(e.Recv) == f && sameID(e.Args[0], key)
			}
			c.Expect(del, "claim-given-back", con, claim.Pos, "the claim is kept after the registration failed", pa)
		}
	}
	c.Min("claim", 2)
	c.Min("repeat", 1)
	// calls under the lock
	fns := p.FnsWith(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok || lockOwner(fa) != n.Obj() {
			return false
		}
		return typeIs(fa.Type(), "sync.Mutex") || typeIs(fa.Type(), "sync.RWMutex")
	})
	for _, fn := range p.Entries(fns) {
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 1}).Paths {
			for _, e := range pa.Events {
				if len(e.Locks) == 0 || e.Deferred && e.Kind == EvUnlock {
					continue
				}
				blocking := false
				switch e.Kind {
				case EvCall:
					blocking = !harmless(p, e)
				case EvSelect:
					blocking = e.Blocking
				case EvSend, EvRecv:
					blocking = true
				default:
					continue
				}
				c.Expect(!blocking, "no-call-under-lock", site(e), e.Pos, e.Name+" is called while the system's lock is held", pa)
			}
			c.balanced("no-call-under-lock", fnName(fn), pa)
		}
	}
	c.Min("no-call-under-lock", 3)
}

func contains2(vs []*types.Var, v *types.Var) bool {
	for _, x := range vs {
		if x == v {
			return v != nil
		}
	}
	return false
}

func roleOf(f, tbl *types.Var) string {
	if f == tbl {
		return "the live actors"
	}
	return "the claims"
}

func firstDel(pa *Path, f *types.Var, from int) int {
	for i, e := range pa.Events {
		if i > from && e.Kind == EvMapDel && fieldVar(e.Recv) == f {
			return i
		}
	}
	return -1
}

// lockOwner is the named struct type whose (embedded or named) mutex field is locked.
func lockOwner(v ssa.Value) *types.TypeName {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	t := fa.X.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

// harmless: calls allowed under a lock: property reads, pure functions, logging, locks
// themselves, map and time helpers, and closing over them.
func harmless(p *Prog, e *Event) bool {
	if e.Obj != nil && isGetter(e.Obj) {
		return true
	}
	if e.Obj != nil && p.isPure(e.Obj, e.GoFn) {
		return true
	}
	if e.Obj != nil && e.Obj.Pkg() != nil {
		switch e.Obj.Pkg().Path() {
		case "sync/atomic", "strings", "strconv", "fmt", "errors", "time":
			return e.Obj.Name() != "Sleep"
		case "context":
			return true
		}
		if e.Obj.Name() == "Error" && e.Invoke {
			return true
		}
	}
	return false
}

// balanced: when a function ends, no lock it took is still held.
func (c *Check) balanced(rule, con string, pa *Path) {
	if pa.Outcome != Returned && pa.Outcome != Panicked {
		return
	}
	c.Ob(rule, con+" unlocks", 0)
	for _, h := range pa.St.locks {
		c.Viol(rule, con+" unlocks", h.Pos, "the lock "+h.Lock+" is still held when the function ends", pa)
	}
}

// ---------------------------------------------------------------- S02, S03

// target kinds of a call
var targetKinds = []string{"empty", "wildcard", "local-first", "concrete"}

func (c *Check) symbols() (wild, local *Term) {
	pk := c.P.Pkg("def")
	if pk == nil {
		c.Missing("package def")
		return nil, nil
	}
	get := func(name string) *Term {
		k, ok := pk.Scope().Lookup(name).(*types.Const)
		if !ok {
			c.Missing("def." + name)
			return nil
		}
		return tConst(k.Val(), types.Typ[types.String])
	}
	return get("SymbolWildcard"), get("SymbolLocalFirst")
}

// possible kinds of the target on a path.
func kindsOf(pa *Path, id *Term, wild, local *Term) map[string]bool {
	r := map[string]bool{}
	te, tw, tl := pa.True("==", id, gstr("")), pa.True("==", id, wild), pa.True("==", id, local)
	if te == 0 {
		// nothing
	}
	for _, b := range pa.Events {
		// len(id) == 0
		if b.Kind == EvBranch && b.Val.Op == "bin" {
			x, y := b.Val.Args[0], b.Val.Args[1]
			if x.Op == "len" && x.Args[0].ID() == id.ID() && b.Val.S == "==" {
				if n, ok := y.IntConst(); ok && n == 0 {
					te = 0
					if b.Ok {
						te = 1
					}
				}
			}
			if y.Op == "len" && y.Args[0].ID() == id.ID() && b.Val.S == "<" {
				if n, ok := x.IntConst(); ok && n == 0 {
					te = 1
					if b.Ok {
						te = 0
					}
				}
			}
		}
	}
	switch {
	case te == 1:
		r["empty"] = true
	case tw == 1:
		r["wildcard"] = true
	case tl == 1:
		r["local-first"] = true
	default:
		if te != 0 {
			r["empty"] = true
		}
		if tw != 0 {
			r["wildcard"] = true
		}
		if tl != 0 {
			r["local-first"] = true
		}
		r["concrete"] = true
	}
	return r
}

type delivery struct {
	e     *Event
	at    int
	local bool
}

func deliveries(pa *Path) []delivery {
	var r []delivery
	for i, e := range pa.Events {
		if isCall(e, nReceived) {
			r = append(r, delivery{e, i, true})
		}
		if isCall(e, nCallWait) {
			r = append(r, delivery{e, i, false})
		}
	}
	return r
}

func (c *Check) callEntries(n *types.Named) []*ssa.Function {
	var r []*ssa.Function
	for _, m := range []string{"Call", "Send"} {
		fn := c.P.MethodN(n, m)
		if c.Anchor(fn, "system "+m) {
			r = append(r, fn)
		}
	}
	return r
}

// lastStore is the value last stored to the field path of the root before event i.
func lastStore(pa *Path, upto int, root string, path string) *Term {
	var v *Term
	for _, e := range pa.Events[:upto] {
		if e.Kind == EvStore {
			r, f := e.Recv.FieldPath()
			if r.ID() == root && strings.Join(f, ".") == path {
				v = e.Val
			}
		}
	}
	return v
}

func runS02(c *Check) {
	c.Rule("header", "before delivery the header carries the requested event, target id and target type")
	c.Rule("local", "a message is delivered locally only to the actor the target means: registered under that id, of that type, or picked by the address book and living here")
	c.Rule("remote", "a message leaves the node only when the target does not live here, to the address the address book gave for exactly this target, which is not this node")
	c.Rule("found", "a message whose target's address was found is delivered, unless that address is this node's own in every part")
	c.Rule("stale", "routing removes the record of an address that is this node's own, and only if no actor of that id runs or is being registered here")
	c.Rule("request", "the remote request is the routing call with the message's request under the caller's context")
	c.Rule("coverage", "every kind of target has a delivering path, locally and remotely")
	c.Rule("remote-entry", "the remote side calls by exactly the received target id, type and event, with the received request")
	n := systemType(c)
	wild, local := c.symbols()
	if n == nil || wild == nil || local == nil {
		return
	}
	tbl := actorTable(c, n)
	if tbl == nil {
		return
	}
	for _, fn := range c.callEntries(n) {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			kinds := kindsOf(pa, &Term{Op: "param", S: "$1"}, wild, local)
			c.staleRecord(fn, pa, n, tbl)
			if pa.Outcome == Returned && len(deliveries(pa)) == 0 {
				for _, e := range pa.Events {
					if !abCall(e, "GetByID") && !abCall(e, "GetWildcardActor") || pa.nil(&Term{Op: "extract", Args: []*Term{e.Res}, N: 1}) != IsNil {
						continue
					}
					c.Expect(thisNode(pa, e.Res), "found", con, e.Pos, "a target whose address was found gets nothing although the address was not seen to be this node's own", pa)
				}
			}
			for _, d := range deliveries(pa) {
				e := d.e
				// header
				ok := true
				for f, want := range map[string]string{"Event": "$3", "TargetActorID": "$1", "TargetActorType": "$2"} {
					v := lastStore(pa, d.at, "$4", "Req.Header."+f)
					ok = ok && v != nil && v.ID() == want
				}
				c.Expect(ok, "header", con, e.Pos, "the header does not carry the requested event, target id and target type when the message is delivered", pa)
				if d.local {
					c.Expect(len(e.Args) == 1 && e.Args[0].ID() == "$4", "local", con+" message", e.Pos, "another message is delivered", pa)
				} else {
					c.remoteRequest(pa, d, con)
				}
				for _, k := range targetKinds {
					if !kinds[k] {
						continue
					}
					if d.local {
						c.Expect(c.rightActor(pa, e, k, tbl), "local", con+" "+k, e.Pos, "a "+k+" target is delivered to an actor it does not mean", pa)
						c.Ob("coverage", con+" "+k+" locally", e.Pos)
					} else {
						why := c.rightAddress(pa, d, k, tbl, n)
						c.Expect(why == "", "remote", con+" "+k, e.Pos, "a "+k+" target: "+why, pa)
						c.Ob("coverage", con+" "+k+" remotely", e.Pos)
					}
				}
			}
		}
	}
	c.Min("coverage", 12)
	// remote entry
	fn := routingEntry(c)
	if fn == nil {
		return
	}
	ncall := 0
	for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		for i, e := range pa.Events {
			if !isCall(e, nSysCall, "(core.ISystem).Send") {
				continue
			}
			ncall++
			con := fnName(fn)
			ok := len(e.Args) == 4
			for k, f := range []string{"TargetActorID", "TargetActorType", "Event"} {
				ok = ok && fromRequest(pa, i, e.Args[k], e.Args[3], f)
			}
			c.Expect(ok, "remote-entry", con, e.Pos, "the remote side does not dispatch by the received header", pa)
			v := lastStore(pa, i, e.Args[3].ID(), "Req")
			c.Expect(v != nil && rootIs(v, "$2") && v.PathEnds("Msg"), "remote-entry", con+" request", e.Pos, "the remote side does not hand over the request it received", pa)
			// the request's content is not replaced
			for _, x := range pa.Events[:i] {
				if x.Kind == EvStore {
					_, f := x.Recv.FieldPath()
					if len(f) > 0 && contains([]string{"Event", "TargetActorID", "TargetActorType", "Body", "Custom", "Header"}, f[len(f)-1]) && rootIs(x.Recv, "$2") {
						c.Viol("remote-entry", con+" unchanged", x.Pos, "the received request is changed before it is dispatched", pa)
					}
				}
			}
		}
	}
	if ncall == 0 {
		c.Viol("remote-entry", fnName(fn), fn.Pos(), "undecided: no dispatch found", nil)
	}
}

// staleRecord: what routing does about a record that names this node.
func (c *Check) staleRecord(fn *ssa.Function, pa *Path, n *types.Named, tbl *types.Var) {
	con := fnName(fn)
	var removed *Event
	for i, e := range pa.Events {
		if !abCall(e, "Unregister") || len(e.Args) != 3 {
			continue
		}
		removed = e
		id := e.Args[1].Strip()
		var call *Term
		if k, f := addrOf(id); f == "ActorId" {
			call = k
		}
		c.Expect(call != nil && thisNode(pa, call), "stale", con+" own", e.Pos, "a record is removed although its address was not seen to be this node's own", pa)
		for _, m := range mapFields(n) {
			if k, ok := m.Type().Underlying().(*types.Map); !ok || typeStr2(k.Key()) != "string" {
				continue
			}
			gone := false
			after := 0
			for j, x := range pa.Events[:i] {
				if call != nil && x.Kind == EvCall && sameID(x.Res, call) {
					after = j
				}
			}
			for _, x := range pa.Events[after:i] {
				if x.Kind == EvLookup && fieldVar(x.Recv) == m && sameID(x.Args[0], id) && absent(pa, x) {
					gone = true
				}
			}
			c.Expect(gone, "stale", con+" "+m.Name(), e.Pos, "the record of an actor that may be in "+m.Name()+" is removed", pa)
		}
		w := stripAll(e.Args[2])
		ok := w.PathEnds("Weight") && w.Root().Op == "call" && strings.HasSuffix(w.Root().S, "IActorFactory).Get") && len(w.Root().Args) > 0 && sameID(w.Root().Args[len(w.Root().Args)-1], &Term{Op: "param", S: "$2"})
		c.Expect(ok, "stale", con+" weight", e.Pos, "the record is removed with another weight than that of its type", pa)
	}
	if pa.Outcome != Returned || removed != nil {
		return
	}
	for _, e := range pa.Events {
		if !abCall(e, "GetByID") && !abCall(e, "GetWildcardActor") || pa.nil(extract(e.Res, 1)) != IsNil || !thisNode(pa, e.Res) || len(deliveries(pa)) > 0 {
			continue
		}
		why := false
		for _, x := range pa.Events {
			if x.Kind == EvLookup && !absent(pa, x) && fieldVar(x.Recv) != nil && contains2(mapFields(n), fieldVar(x.Recv)) {
				if k, f := addrOf(x.Args[0]); f == "ActorId" && k != nil && sameID(k, e.Res) {
					why = true
				}
			}
			if x.Kind == EvCall && strings.HasSuffix(x.Name, "IActorFactory).Get") && pa.nil(x.Res) == IsNil {
				why = true
			}
		}
		c.Expect(why, "stale", con+" kept", e.Pos, "a record that names this node for an actor that is not here is kept: the type keeps being routed to nowhere", pa)
	}
}

func rootIs(t *Term, id string) bool {
	r, _ := t.FieldPath()
	return r.ID() == id
}

// fromRequest: the value is the header field of the received request.
func fromRequest(pa *Path, i int, v, mw *Term, f string) bool {
	if v == nil {
		return false
	}
	v = v.Strip()
	if v.Op == "call" && strings.HasSuffix(v.S, ".Get"+f) && v.R != nil {
		return rootIs(v.R.Strip(), "$2") || strings.Contains(v.R.ID(), "$2")
	}
	root, path := v.FieldPath()
	return len(path) >= 2 && path[len(path)-1] == f && path[len(path)-2] == "Header" && (root.ID() == "$2" || root.ID() == mw.ID() || strings.Contains(root.ID(), "$2"))
}

func routingEntry(c *Check) *ssa.Function {
	p := c.P
	for _, fn := range p.Fns {
		if relPkg(fn) == nodePkg && fn.Name() == "Routing" && fn.Signature.Recv() != nil {
			return fn
		}
	}
	c.Missing("the remote entry Routing")
	return nil
}

// rightActor: does the actor receiving the message belong to the target?
func (c *Check) rightActor(pa *Path, e *Event, kind string, tbl *types.Var) bool {
	recv := e.Recv.Strip()
	id, typ := &Term{Op: "param", S: "$1"}, &Term{Op: "param", S: "$2"}
	key, isLookup := lookupOf(recv, tbl)
	switch kind {
	case "concrete":
		return isLookup && sameID(key, id) && present(pa, recv)
	case "local-first":
		return pa.True("==", getterTerm(recv, "Type"), typ) == 1 || isElemKeyed(pa, recv, key, tbl, typ)
	case "wildcard":
		if !isLookup || !present(pa, recv) {
			return false
		}
		call, f := addrOf(key)
		return call != nil && f == "ActorId" && c.pickCall(pa, call, "GetWildcardActor", typ)
	}
	return false
}

func isElemKeyed(pa *Path, recv, key *Term, tbl *types.Var, typ *Term) bool {
	return key != nil && present(pa, recv) && pa.True("==", getterTerm(recv, "Type"), typ) == 1
}

func getterTerm(recv *Term, name string) *Term {
	return &Term{Op: "getter", S: name, Args: []*Term{recv.Strip()}}
}

// addrOf: a field of an address answered by a call.
func addrOf(t *Term) (call *Term, field string) {
	root, path := t.Strip().FieldPath()
	if root.Op == "extract" && root.N == 0 && len(path) == 1 {
		return root.Args[0], path[0]
	}
	return nil, ""
}

// pickCall: the call term is the address book's answer for exactly this type or id.
func (c *Check) pickCall(pa *Path, call *Term, name string, arg *Term) bool {
	for _, e := range pa.Events {
		if abCall(e, name) && e.Res.ID() == call.ID() {
			return len(e.Args) == 2 && sameID(e.Args[1], arg)
		}
	}
	return false
}

// rightAddress: may the message leave the node, and is it sent to the right address?
func (c *Check) rightAddress(pa *Path, d delivery, kind string, tbl *types.Var, n *types.Named) string {
	id, typ := &Term{Op: "param", S: "$1"}, &Term{Op: "param", S: "$2"}
	e := d.e
	if len(e.Args) < 5 {
		return "unknown form of remote call"
	}
	call := dialled(e.Args[1])
	if call == nil {
		return "the address is not built from the ip and port the address book answered"
	}
	switch kind {
	case "empty":
		return "an empty target leaves the node"
	case "concrete":
		if !c.pickCall(pa, call, "GetByID", id) {
			return "the address is not the one recorded for this id"
		}
		if !lookedAbsent(pa, d.at, tbl, id) {
			return "the message leaves the node although the actor was not found missing here"
		}
	case "wildcard":
		if !c.pickCall(pa, call, "GetWildcardActor", typ) {
			return "the address is not the one picked for this type"
		}
		if !lookedAbsent(pa, d.at, tbl, &Term{Op: "fieldval", S: "ActorId", Args: []*Term{{Op: "extract", Args: []*Term{call}, N: 0}}}) {
			return "the message leaves the node although the picked actor was not found missing here"
		}
	case "local-first":
		if !c.pickCall(pa, call, "GetWildcardActor", typ) {
			return "the address is not the one picked for this type"
		}
		done := false
		for _, x := range pa.Events[:d.at] {
			if x.Kind == EvRange && fieldVar(x.Recv) == tbl {
				if !x.Ok {
					done = true
				} else if pa.True("==", getterTerm(x.Val, "Type"), typ) != 0 {
					return "the message leaves the node although a local actor of the type may exist"
				}
			}
		}
		if !done {
			return "the message leaves the node without looking at every local actor"
		}
	}
	// the address book's answer was good and is not this node
	errT := &Term{Op: "extract", Args: []*Term{call}, N: 1}
	if pa.nil(errT) != IsNil {
		return "the message leaves the node although the address book's answer was not seen to be good"
	}
	if !notThisNode(pa, call, n) {
		return "the message leaves the node although the address may be this node's own"
	}
	return ""
}

// thisNode: the path decided that the answered address is the node's own.
func thisNode(pa *Path, call *Term) bool {
	got := map[string]bool{}
	for _, b := range pa.Events {
		if b.Kind != EvBranch || b.Val.Op != "bin" || b.Val.S != "==" || !b.Ok {
			continue
		}
		x, y := b.Val.Args[0].Strip(), b.Val.Args[1].Strip()
		for i := 0; i < 2; i++ {
			cl, f := addrOf(x)
			if cl != nil && cl.ID() == call.ID() && rootIs(y, "$0") {
				got[f] = true
			}
			x, y = y, x
		}
	}
	return got["Node"] || got["Ip"] && got["Port"]
}

// notThisNode: the path decided that the answered address differs from the node's own.
func notThisNode(pa *Path, call *Term, n *types.Named) bool {
	for _, b := range pa.Events {
		if b.Kind != EvBranch || b.Val.Op != "bin" || b.Val.S != "==" || b.Ok {
			continue
		}
		x, y := b.Val.Args[0].Strip(), b.Val.Args[1].Strip()
		for i := 0; i < 2; i++ {
			cl, f := addrOf(x)
			if cl != nil && cl.ID() == call.ID() && (f == "Ip" || f == "Port" || f == "Node") && rootIs(y, "$0") {
				return true
			}
			x, y = y, x
		}
	}
	return false
}

func lookedAbsent(pa *Path, upto int, tbl *types.Var, key *Term) bool {
	for _, e := range pa.Events[:upto] {
		if e.Kind == EvLookup && fieldVar(e.Recv) == tbl && e.Args[0].Strip().ID() == key.ID() && absent(pa, e) {
			return true
		}
	}
	return false
}

// dialled: "ip:port" of one answer of the address book.
func dialled(t *Term) *Term {
	t = t.Strip()
	if t.Op != "tmpl" || len(t.Args) != 3 {
		return nil
	}
	a, f := addrOf(t.Args[0])
	b, g := addrOf(t.Args[2])
	s, ok := t.Args[1].StrConst()
	if a == nil || b == nil || f != "Ip" || g != "Port" || !ok || s != ":" || a.ID() != b.ID() {
		return nil
	}
	return a
}

func (c *Check) remoteRequest(pa *Path, d delivery, con string) {
	e := d.e
	if len(e.Args) < 5 {
		c.Expect(false, "request", con, e.Pos, "unknown form of remote call", pa)
		return
	}
	ctx := e.Args[0].Strip()
	okCtx := rootIs(ctx, "$4") && ctx.PathEnds("Ctx")
	if v := lastStore(pa, d.at, "$4", "Ctx"); v != nil && sameID(v, ctx) {
		okCtx = true
	}
	c.Expect(okCtx, "request", con+" context", e.Pos, "the remote call does not run under the message's context", pa)
	m, ok := e.Args[2].StrConst()
	c.Expect(ok && m == "/router.Acceptor/routing", "request", con+" method", e.Pos, "another remote method is called", pa)
	req, rep := e.Args[3].Strip(), e.Args[4].Strip()
	okReq := false
	for _, s := range storedTo(pa.Events[:d.at], req.ID(), "Msg") {
		okReq = rootIs(s.Val, "$4") && s.Val.PathEnds("Req")
	}
	c.Expect(okReq, "request", con+" message", e.Pos, "the remote request is not the message's request", pa)
	c.Expect(rep.Op == "alloc" && strings.HasSuffix(typeStr(rep), "router.RouteRes"), "request", con+" reply", e.Pos, "there is nothing to take the remote answer into", pa)
}

func typeStr(t *Term) string {
	if t.T == nil {
		return ""
	}
	return types.TypeString(t.T, nil)
}

func runS03(c *Check) {
	p := c.P
	c.Rule("delivered", "a nil result requires exactly one delivery, whose error is nil or is the result")
	c.Rule("refused", "an error of a delivery or of the routing is returned")
	c.Rule("response", "a successful remote call takes over the response")
	c.Rule("remote-entry", "the remote side returns the error of the call and the message's response")
	c.Rule("client", "the client's call returns nil only after an invocation without error, with the caller's context, method, request and reply")
	n := systemType(c)
	if n == nil {
		return
	}
	for _, fn := range c.callEntries(n) {
		con := fnName(fn)
		isCallM := fn.Name() == "Call"
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome != Returned || len(pa.Ret) != 1 {
				continue
			}
			ret := pa.Ret[0]
			rn := pa.nil(ret)
			ds := deliveries(pa)
			c.Ob("delivered", fmt.Sprintf("%s with %d deliveries", con, len(ds)), fn.Pos())
			if len(ds) == 0 {
				c.Expect(rn == NonNil, "delivered", con+" undelivered", fn.Pos(), "a message that was not delivered is not reported", pa)
				continue
			}
			if len(ds) > 1 {
				c.Viol("delivered", con+" twice", ds[1].e.Pos, "the message is delivered twice", pa)
			}
			for _, d := range ds {
				er := errResult(d.e)
				if er == nil {
					c.Viol("refused", con, d.e.Pos, "undecided: delivery without error", pa)
					continue
				}
				what := "local"
				if !d.local {
					what = "remote"
				}
				switch pa.nil(er) {
				case NonNil:
					c.Expect(rn == NonNil || sameID(ret, er), "refused", con+" "+what, d.e.Pos, "the failure of a "+what+" delivery is not returned", pa)
				case Unknown:
					c.Expect(sameID(ret, er), "refused", con+" "+what, d.e.Pos, "the outcome of a "+what+" delivery is not returned", pa)
				}
				if !d.local && isCallM && pa.nil(er) != NonNil && len(d.e.Args) >= 5 {
					v := lastStore(pa, len(pa.Events), "$4", "Res")
					rep := d.e.Args[4].Strip()
					ok := v != nil && v.PathEnds("Msg") && sameID(v.Root(), rep)
					if v != nil && v.Op == "call" && strings.HasSuffix(v.S, ".GetMsg") && sameID(v.R, rep) {
						ok = true
					}
					c.Expect(ok, "response", con, d.e.Pos, "the response of a successful remote call is not taken over", pa)
				}
			}
		}
	}
	c.Min("refused", 4)
	c.Min("response", 1)
	if fn := routingEntry(c); fn != nil {
		con := fnName(fn)
		k := 0
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned || len(pa.Ret) != 2 {
				continue
			}
			for i, e := range pa.Events {
				if !isCall(e, nSysCall) {
					continue
				}
				k++
				er := errResult(e)
				rn := pa.nil(pa.Ret[1])
				switch pa.nil(er) {
				case NonNil:
					c.Expect(rn == NonNil || pa.is(pa.Ret[1], er), "remote-entry", con+" error", e.Pos, "the failure of the call is not returned to the remote caller", pa)
				case Unknown:
					c.Expect(pa.is(pa.Ret[1], er), "remote-entry", con+" error", e.Pos, "the outcome of the call is not returned to the remote caller", pa)
				}
				if pa.nil(er) != NonNil {
					ok := false
					res := pa.Ret[0].Strip()
					for _, s := range storedTo(pa.Events, res.ID(), "Msg") {
						j := indexOf(pa.Events, s)
						v := s.Val
						ok = j > i && v.PathEnds("Res") && sameID(v.Root(), e.Args[3]) || j > i && v.Op == "call" && strings.HasSuffix(v.S, ".GetRes") && sameID(v.R, e.Args[3])
					}
					c.Expect(ok, "remote-entry", con+" response", e.Pos, "the remote caller does not get the message's response", pa)
				}
			}
		}
		if k == 0 {
			c.Viol("remote-entry", con, fn.Pos(), "undecided: no call found", nil)
		}
	}
	// client
	cw := p.Method("lib/grpc", "Client", "CallWait")
	if !c.Anchor(cw, "grpc Client.CallWait") {
		return
	}
	for _, pa := range c.Walk(cw, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome != Returned || len(pa.Ret) != 1 {
			continue
		}
		ret := pa.Ret[0]
		rn := pa.nil(ret)
		con := fnName(cw)
		inv := pa.Calls(func(e *Event) bool { return methodCall(e, "Invoke") && strings.Contains(e.Name, "grpc") })
		if rn != NonNil {
			ok := len(inv) == 1 && (sameID(ret, errResult(inv[0])) || pa.nil(errResult(inv[0])) == IsNil)
			c.Expect(ok, "client", con, cw.Pos(), "success is reported without one invocation that succeeded", pa)
		}
		for _, e := range inv {
			er := errResult(e)
			if pa.nil(er) != IsNil {
				c.Expect(rn == NonNil || sameID(ret, er), "client", con+" error", e.Pos, "the error of the invocation is not returned", pa)
			}
			ok := len(e.Args) >= 4 && e.Args[0].ID() == "$1" && e.Args[1].ID() == "$3" && e.Args[2].ID() == "$4" && e.Args[3].ID() == "$5"
			c.Expect(ok, "client", con+" arguments", e.Pos, "the invocation does not use the caller's context, method, request and reply", pa)
		}
		for _, e := range pa.Events {
			if e.Kind != EvCall || len(inv) > 0 {
				continue
			}
			if er := errResult(e); er != nil && pa.nil(er) == NonNil {
				c.Expect(rn == NonNil || sameID(ret, er), "client", con+" setup", e.Pos, "a failure before the invocation is not returned", pa)
			}
		}
	}
	c.Min("client", 3)
}

// ---------------------------------------------------------------- S04

// callTimeoutTerm: a duration configured on the system.
func boundedBySystem(t *Term) bool {
	return t != nil && t.Any(func(x *Term) bool {
		if x.Op != "call" || !(x.S == "time.After" || x.S == "time.NewTimer" || x.S == "context.WithTimeout") {
			return false
		}
		for _, a := range x.Args {
			v := fieldVar(a)
			if v != nil && types.TypeString(v.Type(), nil) == "time.Duration" {
				return true
			}
		}
		return false
	})
}

func isCtxDone(t *Term) bool {
	return t != nil && t.Op == "call" && t.S == "(context.Context).Done"
}

func runS04(c *Check) {
	c.Rule("bounded-wait", "a top-level call waits only together with the caller's context, and what it waits for is given within the call timeout")
	c.Rule("signal", "the signal the call waits for is given exactly once on every path of the goroutine giving it")
	c.Rule("after-offer", "waiting for completion starts only after the actor was offered the message")
	c.Rule("reported", "giving up on the timeout or the caller's context is reported as an error")
	c.Rule("released", "every signal a started goroutine waits for is given on every path, also when the actor refuses")
	c.Rule("nested", "a call that belongs to an exchange does not wait for completion")
	n := systemType(c)
	if n == nil {
		return
	}
	fn := c.P.MethodN(n, "Call")
	if !c.Anchor(fn, "system Call") {
		return
	}
	w := c.Walk(fn, WalkOpts{LoopBound: 1})
	type gkey struct{ k string }
	gcache := map[string]*Walk{}
	goWalk := func(w *Walk, g *Event) *Walk {
		k := fmt.Sprint(g.GoFn.String(), "@", g.Pos, termIDs(g.Args), idOf(g.Recv))
		if x, ok := gcache[k]; ok {
			return x
		}
		x := c.WalkGo(w, g, WalkOpts{LoopBound: 1})
		gcache[k] = x
		return x
	}
	roots, nested := 0, 0
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		var d *Event
		di := -1
		for i, e := range pa.Events {
			if isCall(e, nReceived) {
				d, di = e, i
			}
		}
		if d == nil {
			continue
		}
		con := fnName(fn)
		root := -1
		for _, b := range pa.Events {
			if b.Kind == EvBranch && b.Val.Any(func(t *Term) bool { return t.Op == "call" && t.S == nWgCount }) {
				b.Val.Any(func(t *Term) bool {
					if t.Op == "call" && t.S == nWgCount {
						switch zero := pa.True("==", t, tInt(0)); {
						case zero >= 0:
							root = zero
						case pa.True("<", tInt(0), t) == 0:
							root = 1
						}
					}
					return false
				})
			}
		}
		var waits []*Event
		for _, e := range pa.Events {
			if (e.Kind == EvSelect && e.Blocking) || e.Kind == EvRecv || isCall(e, nWgWait) || isCall(e, "time.Sleep") {
				waits = append(waits, e)
			}
		}
		if root != 1 {
			if root == 0 {
				nested++
			} else {
				nested++
			}
			c.Expect(root == 0 && len(waits) == 0, "nested", con, d.Pos, "a call made while handling another message blocks, or the decision does not look at the exchange's pending work", pa)
			continue
		}
		roots++
		er := errResult(d)
		// goroutines of this path, with signals
		type sig struct {
			g  *Event
			gw *Walk
			gi int
		}
		var gs []sig
		for i, e := range pa.Events {
			if e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 {
				gs = append(gs, sig{e, goWalk(w, e), i})
			}
		}
		// signals the goroutines wait for
		for _, g := range gs {
			c.s04goroutine(pa, g.g, g.gw, goWalk, di, con)
		}
		if pa.nil(er) == NonNil {
			continue // refused: returned at once
		}
		if !c.Expect(len(waits) > 0, "bounded-wait", con+" waits", d.Pos, "a top-level call does not wait for completion", pa) {
			continue
		}
		for _, e := range waits {
			if e.Kind != EvSelect {
				c.Expect(false, "bounded-wait", con, e.Pos, "the call waits without looking at the caller's context", pa)
				continue
			}
			ctx, timer := false, false
			var sigs []*Term
			for _, k := range e.Cases {
				switch {
				case k.Send:
				case isCtxDone(k.Chan) && !boundedBySystem(k.Chan):
					r := k.Chan.R.Strip()
					v := lastStore(pa, len(pa.Events), "$4", "Ctx")
					ctx = ctx || rootIs(r, "$4") && r.PathEnds("Ctx") || v != nil && sameID(v, r)
				case boundedBySystem(k.Chan):
					timer = true
				default:
					sigs = append(sigs, k.Chan)
				}
			}
			c.Expect(ctx, "bounded-wait", con+" context", e.Pos, "the call waits without looking at the caller's context", pa)
			c.Expect(len(sigs) == 1, "bounded-wait", con+" signal", e.Pos, "the call does not wait for the completion signal", pa)
			for _, s := range sigs {
				made := s.Strip()
				if r, f := made.FieldPath(); made.Op != "makechan" && len(f) > 0 {
					if v := lastStore(pa, indexOf(pa.Events, e), r.ID(), strings.Join(f, ".")); v != nil {
						made = v.Strip()
					}
				}
				c.Expect(made.Op == "makechan", "signal", con+" made", e.Pos, "the completion signal is not made for this call", pa)
			}
			ret := pa.Ret
			chosen := e.Recv
			switch {
			case chosen == nil || len(ret) != 1:
			case isCtxDone(chosen) || boundedBySystem(chosen):
				c.Expect(pa.nil(ret[0]) == NonNil, "reported", con+" giving up", e.Pos, "giving up on the context or the timeout is not reported", pa)
			}
			for _, s := range sigs {
				given := false
				for _, g := range gs {
					tot := map[int]bool{}
					any := false
					for _, gp := range g.gw.Paths {
						if gp.Outcome == Cut {
							continue
						}
						k := 0
						for _, x := range gp.Events {
							if (x.Kind == EvClose || x.Kind == EvSend) && sameID(x.Recv, s) {
								k++
							}
						}
						tot[k] = true
						any = any || k > 0
					}
					if !any {
						continue
					}
					given = true
					c.Expect(len(tot) == 1 && tot[1], "signal", con, g.g.Pos, "the completion signal is not given exactly once on every path", pa)
					// what the goroutine waited for, and what it reports
					for _, gp := range g.gw.Paths {
						if gp.Outcome == Cut {
							continue
						}
						c.s04completion(pa, gp, g.g, s, timer, chosen, con)
					}
				}
				c.Expect(given, "signal", con+" given", e.Pos, "nobody gives the completion signal", pa)
			}
		}
	}
	if roots == 0 || nested == 0 {
		c.Viol("nested", fnName(fn), fn.Pos(), fmt.Sprintf("undecided: %d top-level and %d nested deliveries found", roots, nested), nil)
	}
	c.Min("bounded-wait", 2)
	c.Min("signal", 2)
	c.Min("after-offer", 1)
	c.Min("reported", 2)
}

func termIDs(ts []*Term) string {
	var r []string
	for _, t := range ts {
		r = append(r, t.ID())
	}
	return strings.Join(r, ",")
}

// s04goroutine: waits of a goroutine started by the call, and waiting only after the offer.
func (c *Check) s04goroutine(pa *Path, g *Event, gw *Walk, goWalk func(w *Walk, g *Event) *Walk, di int, con string) {
	gi := indexOf(pa.Events, g)
	for _, gp := range gw.Paths {
		offered := gi > di
		for i, x := range gp.Events {
			switch {
			case x.Kind == EvRecv || x.Kind == EvSelect && x.Blocking:
				// which signals of the caller?
				chans := []*Term{x.Recv}
				if x.Kind == EvSelect {
					chans = nil
					for _, k := range x.Cases {
						chans = append(chans, k.Chan)
					}
				}
				bounded := false
				for _, ch := range chans {
					if ch == nil {
						continue
					}
					if timerChan(ch) || isCtxDone(ch) {
						bounded = true
						continue
					}
					at := -1
					for j, e := range pa.Events {
						if (e.Kind == EvClose || e.Kind == EvSend) && sameID(e.Recv, ch) && j > gi {
							at = j
						}
					}
					own := false
					for _, y := range gp.Events[:i] {
						if y.Kind == EvGo && y.GoFn != nil && len(y.GoFn.Blocks) > 0 {
							for _, ip := range goWalk(gw, y).Paths {
								for _, z := range ip.Events {
									own = own || z.Kind == EvClose && sameID(z.Recv, ch) || z.Kind == EvSend && sameID(z.Recv, ch)
								}
							}
						}
					}
					if at >= 0 {
						if at > di {
							if len(chans) == 1 || sameID(x.Recv, ch) {
								offered = true
							}
						}
						bounded = true
					} else if !own && pa.Outcome == Returned {
						c.Expect(bounded, "released", con, x.Pos, "a goroutine of the call waits for a signal that is not given on this path", pa)
					}
				}
				c.Ob("released", con+" "+site(x), x.Pos)
			case isCall(x, nWgWait):
				c.Expect(offered, "after-offer", con, x.Pos, "completion is awaited before the actor was offered the message", pa)
			case x.Kind == EvGo && x.GoFn != nil && len(x.GoFn.Blocks) > 0:
				for _, ip := range goWalk(gw, x).Paths {
					for _, z := range ip.Events {
						if isCall(z, nWgWait) {
							c.Expect(offered, "after-offer", con, z.Pos, "completion is awaited before the actor was offered the message", pa)
						}
					}
				}
			}
		}
	}
}

// s04completion: a path of the goroutine that gives the signal s.
func (c *Check) s04completion(pa, gp *Path, g *Event, s *Term, timer bool, chosen *Term, con string) {
	at := -1
	for i, x := range gp.Events {
		if (x.Kind == EvClose || x.Kind == EvSend) && sameID(x.Recv, s) {
			at = i
		}
	}
	if at < 0 {
		return
	}
	timedOut, waited, blocked := false, false, false
	for _, x := range gp.Events[:at] {
		if isCall(x, nWgWait) {
			waited, blocked = true, true
		}
		if x.Kind == EvSelect && x.Blocking {
			has := false
			for _, k := range x.Cases {
				has = has || boundedBySystem(k.Chan)
			}
			if boundedBySystem(x.Recv) {
				timedOut = true
			} else if has {
				waited = true
			}
		}
	}
	if !timer {
		c.Expect(!blocked, "bounded-wait", con+" timeout", g.Pos, "completion is awaited without the call timeout", pa)
		c.Expect(timedOut || waited, "signal", con+" completion", g.Pos, "the signal is given without waiting for completion", pa)
	} else {
		c.Expect(timedOut || waited, "signal", con+" completion", g.Pos, "the signal is given without waiting for completion", pa)
	}
	if timedOut && sameID(chosen, s) && len(pa.Ret) == 1 {
		ret := pa.orDecided(pa.Ret[0])
		ok := pa.nil(ret) == NonNil
		for _, x := range gp.Events[:at+1] {
			if x.Kind == EvStore && ret.Op == "load" && sameID(x.Recv, ret.Args[0]) && gp.nil(x.Val) == NonNil {
				ok = true
			}
			if x.Kind == EvStore && ret.Addr() == nil && ret.Op == "alloc" && sameID(x.Recv, ret) {
				ok = true
			}
			if x.Kind == EvSend && sameID(x.Recv, s) && gp.nil(x.Val) == NonNil && ret.Mentions(s.ID()) {
				ok = true
			}
		}
		if ret.Op == "load" && !ok {
			// already set before
			for _, b := range gp.Events[:at] {
				if b.Kind == EvBranch && b.Val.Op == "bin" && b.Val.S == "==" && !b.Ok && b.Val.Args[1].IsNilConst() && b.Val.Args[0].Addr() != nil && sameID(b.Val.Args[0].Addr(), ret.Args[0]) {
					ok = true
				}
			}
		}
		c.Expect(ok, "reported", con+" timeout", g.Pos, "a call that ran into the call timeout is not reported as failed", pa)
	}
}

// ---------------------------------------------------------------- S05

func builderGet(name string) *Term {
	return &Term{Op: "getter", S: name, Args: []*Term{{Op: "param", S: "$2"}}}
}

func runS05(c *Check) {
	p := c.P
	c.Rule("validated", "the address is published only after id, type, constructor, node uniqueness and the global quantity were decided in favour")
	c.Rule("order", "construction and initialisation happen once, after the address was published without error; the actor is made reachable after that, under its id")
	c.Rule("failure", "a registration that fails returns an error and makes no actor reachable")
	c.Rule("refused", "a registration is refused only for an empty id or type, an id in use, a unique type present, a limit reached, a missing constructor, or a failing address book")
	c.Rule("success", "a registration that reports success returns the actor that was made reachable")
	n := systemType(c)
	if n == nil {
		return
	}
	tbl := actorTable(c, n)
	fn := p.MethodN(n, "Register")
	if tbl == nil || !c.Anchor(fn, "system Register") {
		return
	}
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome != Returned || len(pa.Ret) != 2 {
			continue
		}
		con := fnName(fn)
		var ab, ctor, ini, pub *Event
		at := map[*Event]int{}
		cnt := map[string]int{}
		for i, e := range pa.Events {
			at[e] = i
			switch {
			case abCall(e, "Register"):
				ab = e
				cnt["ab"]++
			case e.Kind == EvCall && e.Dynamic && e.Recv.Strip().ID() == builderGet("GetConstructor").ID():
				ctor = e
				cnt["ctor"]++
			case isCall(e, nInit):
				ini = e
				cnt["init"]++
			case e.Kind == EvMapSet && fieldVar(e.Recv) == tbl:
				pub = e
				cnt["pub"]++
			}
		}
		id, ty := builderGet("GetID"), builderGet("GetType")
		success := pa.nil(pa.Ret[1]) != NonNil
		if ab != nil {
			// validations decided before publication
			before := pa.Events[:at[ab]]
			c.Expect(nonEmpty(pa, before, id) && nonEmpty(pa, before, ty), "validated", con+" id and type", ab.Pos, "the address is published without the id and the type having been seen to be non-empty", pa)
			c.Expect(decidedBefore(before, func(t *Term) bool { return t.ID() == builderGet("GetConstructor").ID() }) && pa.nil(builderGet("GetConstructor")) == NonNil,
				"validated", con+" constructor", ab.Pos, "the address is published for an actor without constructor", pa)
			// global quantity
			lim := builderGet("GetGlobalQuantityLimit")
			zero := zeroDecision(pa, lim)
			if zero != 1 {
				ok := false
				for _, e := range before {
					if abCall(e, "GetActorTypeCount") && len(e.Args) == 2 && sameID(e.Args[1], ty) && pa.nil(errResult(e)) == IsNil {
						ok = belowLimit(pa, extract(e.Res, 0), lim)
					}
				}
				c.Expect(ok, "validated", con+" global quantity", ab.Pos, "the address is published without the number of actors of the type having been seen to be below its limit", pa)
			}
			// node uniqueness
			if pa.St.Truth(builderGet("GetNodeUnique")) != 0 {
				done, clash := false, false
				for _, e := range before {
					if e.Kind == EvRange && fieldVar(e.Recv) == tbl {
						if !e.Ok {
							done = true
						} else if pa.True("==", getterTerm(e.Val, "Type"), ty) != 0 {
							clash = true
						}
					}
				}
				for _, m := range mapFields(n) {
					if m == tbl || !reserves(before, m, id) {
						continue
					}
					end, other := false, true
					for _, e := range before {
						if e.Kind == EvRange && fieldVar(e.Recv) == m {
							if !e.Ok {
								end = true
							} else if pa.True("==", e.Val, ty) != 0 {
								other = false
							}
						}
						if e.Kind == EvLookup && fieldVar(e.Recv) != nil && contains2(mapFields(n), fieldVar(e.Recv)) && sameID(e.Args[0], ty) && absent(pa, e) {
							end = true // kept by type
						}
					}
					c.Expect(end && other, "validated", con+" uniqueness in progress", ab.Pos, "the address of a node-unique type is published although another registration of that type may be in progress", pa)
				}
				c.Expect(done && !clash, "validated", con+" node uniqueness", ab.Pos, "the address of a node-unique type is published although an actor of that type may live here", pa)
			}
			okArgs := len(ab.Args) == 4 && sameID(ab.Args[1], ty) && sameID(ab.Args[2], id) && sameID(ab.Args[3], builderGet("GetWeight"))
			c.Expect(okArgs && cnt["ab"] == 1, "order", con+" address", ab.Pos, "what is published is not the builder's type, id and weight, once", pa)
		}
		if ctor != nil {
			c.Expect(ab != nil && at[ab] < at[ctor] && pa.nil(errResult(ab)) == IsNil, "order", con+" published first", ctor.Pos, "the actor is constructed before its address was published without error", pa)
			c.Expect(len(ctor.Args) == 1 && ctor.Args[0].Strip().ID() == "$2" && cnt["ctor"] == 1, "order", con+" construction", ctor.Pos, "the actor is not constructed once from its builder", pa)
		}
		if ini != nil {
			c.Expect(ctor != nil && sameID(ini.Recv, ctor.Res) && cnt["init"] == 1 && len(ini.Args) == 1 && ini.Args[0].Strip().ID() == "$1", "order", con+" initialisation", ini.Pos, "the constructed actor is not initialised once with the caller's context", pa)
		}
		if pub != nil {
			c.Expect(ini != nil && at[ini] < at[pub] && sameID(pub.Val, ctor.Res) && sameID(pub.Args[0], id) && cnt["pub"] == 1, "order", con+" reachable", pub.Pos, "what is made reachable is not the constructed and initialised actor under its id", pa)
		}
		if success {
			c.Expect(pub != nil && ab != nil && ini != nil, "success", con, fn.Pos(), "success is reported without a published, initialised and reachable actor", pa)
			c.Expect(ctor != nil && pa.is(pa.Ret[0], ctor.Res), "success", con+" actor", fn.Pos(), "the actor returned is not the one registered", pa)
		} else {
			c.Expect(refusedFor(pa, n, id, ty), "refused", con, fn.Pos(), "a registration is refused although nothing about it was found to be wrong", pa)
			c.Expect(pub == nil || undone(pa, tbl, at[pub]), "failure", con, fn.Pos(), "a failed registration leaves a reachable actor", pa)
			c.Expect(pa.nil(pa.Ret[0]) == IsNil || ctor != nil, "failure", con+" actor", fn.Pos(), "a failed registration returns an actor", pa)
		}
		// failing steps are reported
		for _, e := range pa.Events {
			if er := errResult(e); er != nil && e.Kind == EvCall && abCall(e, "Register", "GetActorTypeCount") && pa.nil(er) == NonNil {
				c.Expect(!success, "failure", con+" "+e.Name, e.Pos, "a failing step of the registration is not reported", pa)
			}
		}
	}
	c.Min("validated", 4)
	c.Min("order", 4)
	c.Min("failure", 2)
	// the builder's properties are the configured ones
	for _, bt := range p.Implementers("core", "IActorBuilder") {
		for m, f := range map[string]string{"GetID": "ID", "GetType": "Name", "GetWeight": "Weight", "GetGlobalQuantityLimit": "GlobalQuantityLimit", "GetNodeUnique": "NodeUnique", "GetConstructor": "Constructor"} {
			g := p.MethodN(bt, m)
			if g == nil || len(g.Blocks) == 0 {
				continue
			}
			c.Rule("builder", "the builder's properties are those of the actor's constructor entry")
			for _, pa := range c.Walk(g, WalkOpts{}).Paths {
				c.Expect(pa.Outcome == Returned && len(pa.Ret) == 1 && rootIs(pa.orDecided(pa.Ret[0]), "$0") && pa.orDecided(pa.Ret[0]).PathEnds(f), "builder", fnName(g), g.Pos(), m+" does not answer the configured "+f, pa)
			}
		}
	}
}

// reserves: the id was put into the table before.
func reserves(evs []*Event, m *types.Var, id *Term) bool {
	for _, e := range evs {
		if e.Kind == EvMapSet && fieldVar(e.Recv) == m && sameID(e.Args[0], id) {
			return true
		}
	}
	return false
}

// refusedFor: the path found a reason to refuse the registration.
func refusedFor(pa *Path, n *types.Named, id, ty *Term) bool {
	empty := gstr("")
	if pa.True("==", id, empty) == 1 || pa.True("==", ty, empty) == 1 || pa.nil(builderGet("GetConstructor")) == IsNil {
		return true
	}
	unique := pa.St.Truth(builderGet("GetNodeUnique")) == 1
	lim := builderGet("GetGlobalQuantityLimit")
	for _, e := range pa.Events {
		switch {
		case e.Kind == EvLookup && fieldVar(e.Recv) != nil && contains2(mapFields(n), fieldVar(e.Recv)):
			if (sameID(e.Args[0], id) || unique && sameID(e.Args[0], ty)) && !absent(pa, e) {
				return true
			}
		case e.Kind == EvRange && e.Ok && unique:
			if e.Val != nil && (pa.True("==", getterTerm(e.Val, "Type"), ty) == 1 || pa.True("==", e.Val, ty) == 1) {
				return true
			}
		case e.Kind == EvCall && e.Res != nil && errResult(e) != nil && pa.nil(errResult(e)) == NonNil:
			return true
		case abCall(e, "GetActorTypeCount"):
			if zeroDecision(pa, lim) == 0 && !belowLimit(pa, extract(e.Res, 0), lim) {
				return true
			}
		}
	}
	return false
}

func undone(pa *Path, tbl *types.Var, from int) bool {
	for _, e := range pa.Events[from:] {
		if e.Kind == EvMapDel && fieldVar(e.Recv) == tbl {
			return true
		}
	}
	return false
}

// nonEmpty: the string was decided to be non-empty among these events.
func nonEmpty(pa *Path, evs []*Event, t *Term) bool {
	for _, b := range evs {
		if b.Kind != EvBranch || b.Val.Op != "bin" {
			continue
		}
		x, y := b.Val.Args[0], b.Val.Args[1]
		switch b.Val.S {
		case "==":
			if s, ok := y.StrConst(); ok && s == "" && x.Strip().ID() == t.ID() && !b.Ok {
				return true
			}
			if s, ok := x.StrConst(); ok && s == "" && y.Strip().ID() == t.ID() && !b.Ok {
				return true
			}
			if n, ok := y.IntConst(); ok && n == 0 && x.Op == "len" && x.Args[0].Strip().ID() == t.ID() && !b.Ok {
				return true
			}
		case "<":
			if n, ok := x.IntConst(); ok && n == 0 && y.Op == "len" && y.Args[0].Strip().ID() == t.ID() && b.Ok {
				return true
			}
			if n, ok := y.IntConst(); ok && n == 1 && x.Op == "len" && x.Args[0].Strip().ID() == t.ID() && !b.Ok {
				return true
			}
		}
	}
	return false
}

func decidedBefore(evs []*Event, pred func(t *Term) bool) bool {
	for _, b := range evs {
		if b.Kind == EvBranch && b.Val.Any(pred) {
			return true
		}
	}
	return false
}

// zeroDecision: was the value decided to be zero (1), not zero (0) or not looked at (-1)?
func zeroDecision(pa *Path, t *Term) int {
	if r := pa.True("==", t, tInt(0)); r >= 0 {
		return r
	}
	if pa.True("<", tInt(0), t) == 1 {
		return 0
	}
	if pa.True("<", tInt(0), t) == 0 {
		return 1 // a limit that is not positive limits nothing
	}
	return -1
}

// belowLimit: the path decided count < limit.
func belowLimit(pa *Path, cnt, lim *Term) bool {
	for _, b := range pa.Events {
		if b.Kind != EvBranch || b.Val.Op != "bin" || b.Val.S != "<" {
			continue
		}
		x, y := b.Val.Args[0].Strip(), b.Val.Args[1].Strip()
		if x.ID() == cnt.ID() && y.ID() == lim.ID() && b.Ok {
			return true
		}
		// !(limit-1 < count) or limit <= count decided false
	}
	return pa.True("<", cnt, lim) == 1
}

// ---------------------------------------------------------------- S06

func runS06(c *Check) {
	p := c.P
	c.Rule("known-type", "nothing is changed unless the type is known; an unknown type is an error")
	c.Rule("order", "an actor found is ended once, and only then removed under its id; an actor not found is neither")
	c.Rule("withdrawn", "the address record of the id is withdrawn with the weight of its type on every path that does not return an error, whether or not the actor lived here")
	n := systemType(c)
	if n == nil {
		return
	}
	tbl := actorTable(c, n)
	fn := p.MethodN(n, "Unregister")
	if tbl == nil || !c.Anchor(fn, "system Unregister") {
		return
	}
	con := fnName(fn)
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 1}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		var get, exit, del, ab *Event
		at := map[*Event]int{}
		nexit, nab := 0, 0
		for i, e := range pa.Events {
			at[e] = i
			switch {
			case isCall(e, nFactory):
				get = e
			case isCall(e, nExit):
				exit = e
				nexit++
			case e.Kind == EvGo && strings.HasSuffix(e.Name, ".Exit"):
				c.Viol("order", con+" asynchronous", e.Pos, "the actor is removed without waiting for its end", pa)
			case e.Kind == EvMapDel && fieldVar(e.Recv) == tbl:
				del = e
			case abCall(e, "Unregister"):
				ab = e
				nab++
			}
		}
		known := get != nil && len(get.Args) == 1 && get.Args[0].ID() == "$2"
		kn := Unknown
		if known {
			kn = pa.nil(get.Res)
		}
		for _, e := range []*Event{exit, del, ab} {
			if e != nil {
				c.Expect(kn == NonNil && at[get] < at[e], "known-type", con+" "+kindNames[e.Kind], e.Pos, "something is changed before the type was found known", pa)
			}
		}
		if kn == IsNil {
			c.Expect(pa.Outcome == Returned && len(pa.Ret) == 1 && pa.nil(pa.Ret[0]) == NonNil, "known-type", con+" error", fn.Pos(), "an unknown type is not reported", pa)
			continue
		}
		if pa.Outcome != Returned || len(pa.Ret) != 1 {
			continue
		}
		// found here?
		found := -1
		for _, e := range pa.Events {
			if e.Kind == EvLookup && fieldVar(e.Recv) == tbl && e.Args[0].Strip().ID() == "$1" && found < 0 {
				if present(pa, e.Res) {
					found = 1
				} else if absent(pa, e) {
					found = 0
				}
			}
		}
		if found == 1 {
			key, ok := (*Term)(nil), false
			if exit != nil {
				key, ok = lookupOf(exit.Recv, tbl)
			}
			c.Expect(exit != nil && nexit == 1 && ok && key.Strip().ID() == "$1", "order", con+" ended", fn.Pos(), "an actor found on the node is not ended once", pa)
			c.Expect(del != nil && del.Args[0].Strip().ID() == "$1" && exit != nil && at[exit] < at[del], "order", con+" removed", fn.Pos(), "an actor found on the node is not removed after it ended", pa)
		} else {
			c.Expect(found == 0 && exit == nil, "order", con+" absent", fn.Pos(), "an actor is ended without having been found on the node", pa)
		}
		if pa.nil(pa.Ret[0]) != NonNil {
			ok := ab != nil && nab == 1 && len(ab.Args) == 3 && ab.Args[1].ID() == "$1" && get != nil && ab.Args[2].Strip().PathEnds("Weight") && sameID(ab.Args[2].Strip().Root(), get.Res)
			c.Expect(ok, "withdrawn", con, fn.Pos(), "the address record is not withdrawn once with the id and the weight of its type", pa)
		}
	}
	c.Min("known-type", 3)
	c.Min("order", 3)
	c.Min("withdrawn", 1)
}

// ---------------------------------------------------------------- S07

func runS07(c *Check) {
	p := c.P
	c.Rule("every-actor", "every actor in the node's table gets its own goroutine in which it is asked to exit, once")
	c.Rule("counted", "each exit is counted on the given group before its goroutine starts and released exactly once on every outcome of it; other counts are balanced before returning")
	c.Rule("acceptor", "a node accepting remote calls stops doing so, before its actors are ended")
	c.Rule("withdrawn", "the node's address book entries are cleared on every path")
	c.Rule("process", "process shutdown starts on a termination signal, ends the system, and waits for the group but not longer than a bounded context")
	n := systemType(c)
	if n == nil {
		return
	}
	tbl := actorTable(c, n)
	fn := p.MethodN(n, "Exit")
	if tbl == nil || !c.Anchor(fn, "system Exit") {
		return
	}
	port := FieldBy(n, "nodePort", func(v *types.Var) bool {
		b, ok := v.Type().(*types.Basic)
		return ok && b.Kind() == types.Int
	})
	acceptor := FieldBy(n, "acceptor", func(v *types.Var) bool { return typeIs(v.Type(), modPath+"/core/node.Acceptor") })
	if port == nil || acceptor == nil {
		c.Missing("the system's port and acceptor")
		return
	}
	con := fnName(fn)
	w := c.Walk(fn, WalkOpts{LoopBound: c.LB(3)})
	full := false
	for _, pa := range w.Paths {
		if pa.Outcome != Returned {
			continue
		}
		elems, keyOf := map[string]bool{}, map[string]string{}
		for _, e := range pa.Events {
			if e.Kind == EvRange && e.Ok && fieldVar(e.Recv) == tbl {
				elems[e.Val.ID()] = false
				keyOf[e.Res.ID()] = e.Val.ID()
			}
		}
		pend := 0 // counted, not yet handed to a goroutine
		cleared, closed, firstExit := -1, -1, -1
		for i, e := range pa.Events {
			switch {
			case isCall(e, "(*sync.WaitGroup).Add") && e.Recv.ID() == "$1":
				k, ok := constVal(e.Args[0])
				c.Expect(ok, "counted", con+" amount", e.Pos, "undecided: unknown amount", pa)
				pend += int(k)
			case isCall(e, "(*sync.WaitGroup).Done") && e.Recv.ID() == "$1":
				pend--
			case isCall(e, nExit):
				c.Expect(false, "every-actor", con+" concurrently", e.Pos, "an actor is ended on the shutting down goroutine, one hanging actor holds up all others", pa)
			case abCall(e, "Clear"):
				cleared = i
			case methodCall(e, "Close") && strings.Contains(e.Name, "lib/grpc.Server"):
				closed = i
			case e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0:
				gw := c.WalkGo(w, e, WalkOpts{LoopBound: 1, MayPanic: func(x *Event) bool { return isCall(x, nExit) }})
				isExit := false
				var who *Term
				for _, gp := range gw.Paths {
					ne, nd := 0, 0
					for _, x := range gp.Events {
						if isCall(x, nExit) {
							isExit = true
							who = x.Recv
							ne++
						}
						if isCall(x, "(*sync.WaitGroup).Done") && x.Recv.ID() == "$1" {
							nd++
							if ne == 0 {
								c.Viol("counted", con+" early", x.Pos, "an exit is released before it ended", gp)
							}
						}
						if isCall(x, "(*sync.WaitGroup).Add") && x.Recv.ID() == "$1" {
							c.Viol("counted", con+" late", x.Pos, "an exit is counted by its own goroutine, the group can be seen empty before", gp)
						}
					}
					if isExit {
						c.Expect(ne == 1, "every-actor", con+" once", e.Pos, "an actor is not asked to exit exactly once on some path of its goroutine", gp)
						c.Expect(nd == 1, "counted", con+" released", e.Pos, "the exit of an actor is not released exactly once", gp)
					}
				}
				if isExit {
					if firstExit < 0 {
						firstExit = i
					}
					if e.Name == "(*sync.WaitGroup).Go" {
						continue
					}
					pend--
					c.Expect(pend >= 0, "counted", con+" before start", e.Pos, "the goroutine ending an actor starts before its exit is counted", pa)
					if who != nil {
						id := who.Strip().ID()
						if key, ok := lookupOf(who, tbl); ok {
							id = keyOf[key.Strip().ID()]
						}
						if done, known := elems[id]; known {
							c.Expect(!done, "every-actor", con+" twice", e.Pos, "an actor is asked to exit twice", pa)
							elems[id] = true
						} else {
							c.Expect(false, "every-actor", con+" target", e.Pos, "what is ended is not an actor of the node's table", pa)
						}
					}
				}
			}
		}
		if len(elems) >= 2 {
			full = true
		}
		for _, done := range elems {
			c.Expect(done, "every-actor", con, fn.Pos(), "an actor of the node's table is not asked to exit", pa)
		}
		rangeDone := false
		for _, e := range pa.Events {
			rangeDone = rangeDone || e.Kind == EvRange && !e.Ok && fieldVar(e.Recv) == tbl
		}
		c.Expect(rangeDone, "every-actor", con+" all", fn.Pos(), "the node's table is not gone through to its end", pa)
		c.Expect(pend == 0, "counted", con+" balanced", fn.Pos(), "the group's count does not match the exits that were started", pa)
		c.Expect(cleared >= 0, "withdrawn", con, fn.Pos(), "the node's address book entries are not cleared", pa)
		// an acceptor present is closed
		port0 := pa.St.Truth(&Term{Op: "bin", S: "==", Args: []*Term{fieldTermOf("$0", port.Name()), tInt(0)}})
		acc := pa.nil(fieldTermOf("$0", acceptor.Name()))
		if port0 != 1 && acc != IsNil {
			c.Expect(closed >= 0, "acceptor", con, fn.Pos(), "the node keeps accepting remote calls", pa)
			c.Expect(closed < 0 || firstExit < 0 || closed < firstExit, "acceptor", con+" order", fn.Pos(), "actors are ended while remote calls are still accepted", pa)
		}
	}
	c.Expect(full, "every-actor", con+" loop", fn.Pos(), "undecided: no path with several actors", nil)
	// process
	for _, pn := range p.Implementers("core", "INode") {
		wc := p.MethodN(pn, "WaitClose")
		if wc == nil || len(wc.Blocks) == 0 {
			continue
		}
		pcon := fnName(wc)
		w := c.Walk(wc, WalkOpts{LoopBound: 1})
		for _, pa := range w.Paths {
			if pa.Outcome == Stuck {
				c.Expect(false, "process", pcon+" bounded", wc.Pos(), "the shutdown waits without bound", pa)
			}
			if pa.Outcome != Returned {
				continue
			}
			sig, end := -1, -1
			var grp *Term
			for i, e := range pa.Events {
				if isCall(e, "(core.ISystem).Exit") {
					end = i
					grp = e.Args[0].Strip()
				}
				if (e.Kind == EvRecv || e.Kind == EvSelect && e.Blocking) && end < 0 {
					sig = i
				}
			}
			if !c.Expect(sig >= 0 && end > sig, "process", pcon+" signal", wc.Pos(), "the system is not ended after a termination signal", pa) {
				continue
			}
			notified := false
			for _, e := range pa.Events[:sig] {
				if isCall(e, "os/signal.Notify") && sameID(e.Args[0], pa.Events[sig].Recv) {
					notified = true
				}
			}
			for _, e := range pa.Events[:sig] {
				if isCall(e, "os/signal.NotifyContext") {
					notified = true
				}
			}
			c.Expect(notified, "process", pcon+" subscribed", wc.Pos(), "the channel waited on is not subscribed to signals", pa)
			// the time it has
			for i, e := range pa.Events {
				if isCall(e, "context.WithTimeout", "context.WithDeadline") {
					c.Expect(someTime(pa, e), "process", pcon+" time", e.Pos, "the shutdown leaves the actors no time", pa)
				}
				if isCall(e, "time.After", "time.NewTimer") {
					c.Expect(c.positiveTime(pa, e.Args[0]), "process", pcon+" time", e.Pos, "the shutdown leaves the actors no time", pa)
				}
				if e.Kind == EvCall && e.Dynamic && i > 0 {
					f := stripAll(e.Recv)
					if f.Op == "extract" && f.N == 1 && f.Args[0].Op == "call" && strings.HasPrefix(f.Args[0].S, "context.With") {
						for _, x := range pa.Events[i:] {
							early := false
							for _, k := range x.Cases {
								early = early || x.Kind == EvSelect && k.Chan.R != nil && sameID(k.Chan.R, extract(f.Args[0], 0))
							}
							c.Expect(!early, "process", pcon+" released", e.Pos, "the context that bounds the shutdown is cancelled before it is waited for", pa)
						}
					}
				}
			}
			// waits after: bounded and for the group
			waited := false
			for i, e := range pa.Events[end:] {
				_ = i
				if isCall(e, "(*sync.WaitGroup).Wait") {
					c.Expect(false, "process", pcon+" bounded", e.Pos, "the shutdown waits without bound", pa)
				}
				if e.Kind == EvRecv {
					c.Expect(boundedChan(e.Recv), "process", pcon+" bounded", e.Pos, "the shutdown waits without bound", pa)
				}
				if e.Kind == EvSelect && e.Blocking {
					b := false
					for _, k := range e.Cases {
						if boundedChan(k.Chan) {
							b = true
						} else {
							// closed after the group's wait
							for _, g := range pa.Events {
								if g.Kind == EvGo && g.GoFn != nil && len(g.GoFn.Blocks) > 0 {
									for _, gp := range c.WalkGo(w, g, WalkOpts{LoopBound: 1}).Paths {
										wt := false
										for _, x := range gp.Events {
											if isCall(x, "(*sync.WaitGroup).Wait") && sameID(x.Recv, grp) {
												wt = true
											}
											if (x.Kind == EvClose || x.Kind == EvSend) && sameID(x.Recv, k.Chan) {
												c.Expect(wt, "process", pcon+" group", x.Pos, "the shutdown does not wait for the group", pa)
												waited = waited || wt
											}
										}
									}
								}
							}
						}
					}
					c.Expect(b, "process", pcon+" bounded", e.Pos, "the shutdown waits without bound", pa)
				}
			}
			c.Expect(waited, "process", pcon+" waits", wc.Pos(), "the shutdown does not wait for the actors", pa)
		}
	}
	c.Min("process", 4)
	c.Min("counted", 3)
}

func fieldTermOf(root, f string) *Term {
	return &Term{Op: "load", Args: []*Term{{Op: "field", S: f, Args: []*Term{{Op: "param", S: root}}}}}
}

// boundedChan: a timer's channel or the done channel of a context with a timeout.
func boundedChan(t *Term) bool {
	return t != nil && (timerChan(t) || isCtxDone(t) && t.R != nil && t.R.Any(func(x *Term) bool {
		return x.Op == "call" && (x.S == "context.WithTimeout" || x.S == "context.WithDeadline")
	}))
}

// ---------------------------------------------------------------- S08

func runS08(c *Check) {
	p := c.P
	c.Rule("checked", "the result of a lookup that can come back empty is used only after it was found on the path")
	// lookups: the factory, and every function of the module that answers one pointer or
	// interface and can answer nil without an error beside it
	mayNil := map[types.Object]bool{}
	for _, fn := range p.Fns {
		sig := fn.Signature
		if fn.Object() == nil || sig.Results().Len() != 1 || !isNilable(sig.Results().At(0).Type()) || isErr(sig.Results().At(0).Type()) || fn.Parent() != nil {
			continue
		}
		switch sig.Results().At(0).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			continue
		}
		if isPb(p, fn) || sig.Params().Len() == 0 {
			continue // field access, not a lookup
		}
		w := c.Walk(fn, WalkOpts{LoopBound: 1})
		for _, pa := range w.Paths {
			if pa.Outcome == Returned && len(pa.Ret) == 1 {
				r := pa.Ret[0].Strip()
				if pa.nil(r) == IsNil || r.Op == "lookup" && !present(pa, r) && !(r.T != nil && !isNilable(r.T)) {
					mayNil[fn.Object()] = true
				}
			}
		}
	}
	if pk := p.Pkg("core"); pk != nil {
		if tn, ok := pk.Scope().Lookup("IActorFactory").(*types.TypeName); ok {
			it := tn.Type().Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Get" {
					mayNil[it.Method(i)] = true
				}
			}
		}
	}
	isLookup := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if ci.Common().IsInvoke() {
			return mayNil[ci.Common().Method]
		}
		cal := ci.Common().StaticCallee()
		return cal != nil && cal.Object() != nil && mayNil[cal.Object()]
	}
	var names []string
	for o := range mayNil {
		names = append(names, calleeName(o))
	}
	for _, fn := range p.Entries(p.FnsWith(isLookup)) {
		w := c.Walk(fn, WalkOpts{LoopBound: 1, Derefs: true, Opaque: names})
		walks := []*Walk{w}
		for _, g := range w.Spawned() {
			if p.inModule(g.GoFn) {
				walks = append(walks, c.WalkGo(w, g, WalkOpts{LoopBound: 1, Derefs: true, Opaque: names}))
			}
		}
		for _, w := range walks {
			for _, pa := range w.Paths {
				for i, e := range pa.Events {
					if e.Recv == nil || e.Kind != EvDeref && e.Kind != EvCall {
						continue
					}
					r := e.Recv.Strip()
					if r.Op != "call" || !contains(names, r.S) || e.Kind == EvCall && e.Dynamic {
						continue
					}
					ok := pa.nil(r) == NonNil && decidedBefore(pa.Events[:i], func(t *Term) bool { return t.ID() == r.ID() })
					c.Expect(ok, "checked", fnName(e.Fn)+" uses "+r.S, e.Pos, "the result of "+r.S+" is used without having been found", pa)
				}
			}
		}
	}
	c.Rule("find", "looking up an actor by id answers the actor registered under it, or an error if there is none")
	if n := systemType(c); n != nil {
		tbl := actorTable(c, n)
		if fn := p.MethodN(n, "FindActor"); c.Anchor(fn, "system FindActor") && tbl != nil {
			for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
				if pa.Outcome != Returned || len(pa.Ret) != 2 {
					continue
				}
				var l *Event
				for _, e := range pa.Events {
					if e.Kind == EvLookup && fieldVar(e.Recv) == tbl && e.Args[0].Strip().ID() == "$2" {
						l = e
						if absent(pa, e) {
							break
						}
					}
				}
				if !c.Expect(l != nil, "find", fnName(fn)+" id", fn.Pos(), "the id asked for is not looked up", pa) {
					continue
				}
				r := pa.orDecided(pa.Ret[0]).Strip()
				key, ok := lookupOf(r, tbl)
				found := ok && key.Strip().ID() == "$2"
				switch pa.nil(pa.Ret[1]) {
				case IsNil:
					c.Expect(found && !absent(pa, l) && decidedFound(pa, l, r), "find", fnName(fn), fn.Pos(), "success without the actor of that id having been found", pa)
				case NonNil:
					c.Expect(absent(pa, l), "find", fnName(fn)+" error", fn.Pos(), "an error although the actor may be there", pa)
				default:
					c.Viol("find", fnName(fn)+" result", fn.Pos(), "undecided: error or not", pa)
				}
			}
		}
	}
	c.Rule("topics", "publishing and subscribing use a topic that exists or is created")
	for _, m := range []string{"Pub", "Sub"} {
		n := systemType(c)
		if n == nil {
			return
		}
		fn := p.MethodN(n, m)
		if !c.Anchor(fn, "system "+m) {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{Opaque: names}).Paths {
			used := pa.Calls(func(e *Event) bool { return isCall(e, "(*lib/pubsub.Topic)."+m) })
			ok := len(used) == 1
			for _, e := range used {
				r := e.Recv.Strip()
				if r.Op == "call" && contains(names, r.S) {
					ok = ok && pa.nil(r) == NonNil
				}
			}
			c.Expect(ok || pa.Outcome == Returned && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil, "topics", fnName(fn), fn.Pos(), "an unknown topic is neither created nor reported", pa)
		}
	}
	c.Min("checked", 2)
}

// decidedFound: the path decided that the lookup found something.
func decidedFound(pa *Path, l *Event, r *Term) bool {
	return present(pa, l.Res) || pa.St.Truth(extract(l.Res, 1)) == 1 || pa.nil(r) == NonNil || !absent(pa, l) && pa.St.Truth(l.Res) == 1
}

func isPb(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, ".pb.go")
}
