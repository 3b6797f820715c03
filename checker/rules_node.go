package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "S09", Run: runS09, Method: "path-sensitive provenance analysis of the node's construction",
		Expl:   "Every path of building a node is followed through the construction of its system and acceptor, with the options' effects left open: every table of the system is made, and its address, loader, factory, tracer and timeout, the address book's address and the acceptor's port are decided to be the ones the node was given; a node without loader or factory and a node whose acceptor cannot listen are decided not to be built; an acceptor is made exactly if a port is given, hands calls to this system, and runs before the node is answered. The function answering recovered panics is decided to answer an error naming the panic on every path, with a stack buffer that grows until it fits.",
		Assume: []string{"The options only set the parameters of the node (L05); what servers do with their options is decided by R03 and L05"}})
}

// ---------------------------------------------------------------- S09

func runS09(c *Check) {
	p := c.P
	c.Rule("parts", "the system of a node has every table, its client, its pub/sub, and a positive call timeout")
	c.Rule("given", "the system, its address book and the node itself have the id, address, loader, factory and tracer the node was given")
	c.Rule("refused", "a node without loader or factory, or whose acceptor cannot start, is not built")
	c.Rule("acceptor", "a node with a port, and only such a node, listens on it, dispatches to its own system, and runs before it is answered")
	c.Rule("tracing", "a node with a tracer traces its outgoing calls with that tracer, one without is built too")
	c.Rule("recovered", "what answers a recovered panic is an error naming the panic, and ends")
	fn := p.Func(nodePkg, "BuildProcessWithOption")
	n := systemType(c)
	if n == nil || !c.Anchor(fn, "BuildProcessWithOption") {
		return
	}
	con := fnName(fn)
	w := c.Walk(fn, WalkOpts{LoopBound: 2})
	withPort, without, traced, untraced := 0, 0, 0, 0
	parm := map[string]string{"IActorLoader": "Loader", "IActorFactory": "Factory", "ITracer": "Tracer"}
	fromParm := func(t *Term, f string) bool {
		t = stripAll(t)
		r, path := t.FieldPath()
		return len(path) == 1 && path[0] == f && (typeIs(r.T, modPath+"/core.NodeParm") || r.T != nil && strings.HasSuffix(typeStr2(r.T), "core.NodeParm"))
	}
	for _, pa := range w.Paths {
		opts := false
		for _, e := range pa.Events {
			opts = opts || e.Kind == EvCall && e.Dynamic
		}
		if !opts || pa.Outcome == Cut || pa.Outcome == Stuck {
			continue // without options there is no loader
		}
		// the system
		obj := ""
		vals := map[string]*Term{}
		fieldT := map[string]types.Type{}
		for _, e := range pa.Events {
			if e.Kind != EvStore {
				continue
			}
			r, path := e.Recv.FieldPath()
			if len(path) == 1 && r.Op == "alloc" && isPtrTo(r.T, n) {
				obj = r.ID()
				vals[path[0]] = e.Val
				if v := fieldVar(e.Recv); v != nil {
					fieldT[path[0]] = v.Type()
				}
			}
		}
		if pa.Outcome == Panicked {
			why := false
			for _, e := range pa.Events {
				if isCall(e, "(*lib/grpc.Server).Init") && pa.nil(e.Res) == NonNil {
					why = true
				}
				if e.Kind == EvBranch && e.Ok && e.Val.Op == "bin" && e.Val.S == "==" && e.Val.Args[1].IsNilConst() && (fromParm(e.Val.Args[0], "Loader") || fromParm(e.Val.Args[0], "Factory")) {
					why = true
				}
			}
			c.Expect(why, "refused", con+" panic", fn.Pos(), "a node that could be built is refused", pa)
		}
		if pa.Outcome != Returned {
			continue
		}
		if !c.Expect(obj != "", "parts", con+" system", fn.Pos(), "undecided: no system is made for the node", pa) {
			continue
		}
		for _, m := range mapFields(n) {
			v := vals[m.Name()]
			c.Expect(v != nil && v.Strip().Op == "makemap", "parts", con+" "+m.Name(), fn.Pos(), "the system's table "+m.Name()+" is not made", pa)
		}
		st := n.Underlying().(*types.Struct)
		var loader, factory, trac *Term
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := vals[f.Name()]
			low := strings.ToLower(f.Name())
			switch ts := typeStr2(f.Type()); {
			case ts == "time.Duration":
				k, ok := int64(0), false
				if v != nil {
					k, ok = stripAll(v).IntConst()
				}
				c.Expect(ok && k > 0, "parts", con+" "+f.Name(), fn.Pos(), "the system gives its calls no time", pa)
			case ts == "string" || ts == "int":
				want := ""
				for _, k := range []string{"IP", "Port", "ID"} {
					if strings.HasSuffix(low, strings.ToLower(k)) {
						want = k
					}
				}
				if want == "IP" {
					want = "Ip"
				}
				if want != "" {
					c.Expect(v != nil && fromParm(v, want), "given", con+" "+f.Name(), fn.Pos(), "the system's "+f.Name()+" is not the node's "+want, pa)
				}
			case strings.HasSuffix(ts, "lib/grpc.Client"):
				c.Expect(v != nil && isResult(pa, v, "lib/grpc.BuildClientWithOption"), "parts", con+" client", fn.Pos(), "the system has no client", pa)
			case strings.HasSuffix(ts, "lib/pubsub.Pubsub"):
				c.Expect(v != nil && isResult(pa, v, "lib/pubsub.BuildWithOption"), "parts", con+" pubsub", fn.Pos(), "the system has no pub/sub", pa)
			case strings.HasSuffix(ts, "addressbook.AddressBook") || strings.HasSuffix(ts, "core.IAddressBook"):
				ok := false
				for _, e := range pa.Events {
					if v != nil && e.Kind == EvCall && e.Name == abPkg+".New" && sameID(e.Res, stripAll(v)) {
						s := structVals(pa, e.Args[0])
						ok = fromParm(orNil(s["Node"]), "ID") && fromParm(orNil(s["Ip"]), "Ip") && fromParm(orNil(s["Port"]), "Port")
					}
				}
				c.Expect(ok, "given", con+" addressbook", fn.Pos(), "the system's address book is not made for the node's own address", pa)
			default:
				for k, f2 := range parm {
					if !strings.HasSuffix(ts, "."+k) {
						continue
					}
					c.Expect(v != nil && fromParm(v, f2), "given", con+" "+f.Name(), fn.Pos(), "the system's "+f.Name()+" is not the one the node was given", pa)
					switch f2 {
					case "Loader":
						loader = v
					case "Factory":
						factory = v
					case "Tracer":
						trac = v
					}
				}
			}
		}
		c.Expect(loader != nil && factory != nil && decidedNil(pa, loader) == NonNil && decidedNil(pa, factory) == NonNil, "refused", con, fn.Pos(), "a node is built without its loader and factory having been seen to be there", pa)
		// what is answered
		nd := pa.Ret[0].Strip()
		hasSys, hasParm := false, false
		for _, e := range pa.Events {
			if e.Kind != EvStore {
				continue
			}
			r, path := e.Recv.FieldPath()
			if r.ID() == nd.ID() && len(path) == 1 {
				hasSys = hasSys || stripAll(e.Val).ID() == obj
				hasParm = hasParm || typeStr2(e.Val.T) == "core.NodeParm"
			}
		}
		c.Expect(hasSys && hasParm, "given", con+" node", fn.Pos(), "the node answered does not have its system and parameters", pa)
		// acceptor
		var port *Term
		for _, v := range vals {
			if fromParm(v, "Port") {
				port = stripAll(v)
			}
		}
		var accs, inits, runs, listens []*Event
		at := map[*Event]int{}
		for i, e := range pa.Events {
			at[e] = i
			switch {
			case isCall(e, "lib/grpc.BuildServerWithOption"):
				accs = append(accs, e)
			case isCall(e, "(*lib/grpc.Server).Init"):
				inits = append(inits, e)
			case isCall(e, "(*lib/grpc.Server).Run"):
				runs = append(runs, e)
			case isCall(e, "lib/grpc.WithServerListen"):
				listens = append(listens, e)
			}
		}
		z := -1
		if port != nil {
			z = zeroDecision(pa, port)
		}
		switch {
		case !c.Expect(z >= 0, "acceptor", con+" port", fn.Pos(), "a node is built without looking at its port", pa):
		case z == 1:
			without++
			c.Expect(len(accs) == 0 && len(runs) == 0, "acceptor", con+" none", fn.Pos(), "a node without port listens", pa)
		default:
			withPort++
			if !c.Expect(len(accs) == 1 && len(inits) == 1 && len(runs) == 1 && len(listens) == 1, "acceptor", con+" server", fn.Pos(), "a node with a port does not make, initialise and run one server", pa) {
				break
			}
			srv := accs[0].Res
			ok := sameID(inits[0].Recv, srv) && sameID(runs[0].Recv, srv) && at[inits[0]] < at[runs[0]]
			c.Expect(ok, "acceptor", con+" runs", runs[0].Pos, "the server made is not initialised and then run", pa)
			c.Expect(pa.nil(inits[0].Res) == IsNil, "refused", con+" listen", inits[0].Pos, "a node whose acceptor cannot start is built", pa)
			c.Expect(listens[0].Args[0].Any(func(t *Term) bool { return t.ID() == port.ID() }), "acceptor", con+" listens", listens[0].Pos, "the node does not listen on its port", pa)
			// what it dispatches to
			own := false
			for _, e := range pa.Events {
				if !isCall(e, "lib/grpc.ServerRegisterHandler") {
					continue
				}
				used := accs[0].Args[0].Any(func(t *Term) bool { return sameID(t, e.Res) })
				for _, a := range e.Args {
					for _, f := range append([]*Term{a}, a.Args...) {
						hw := c.walkValue(w, pa, f, WalkOpts{LoopBound: 2})
						if hw == nil {
							continue
						}
						for _, hp := range hw.Paths {
							reg := false
							for _, x := range hp.Events {
								if isCall(x, "router.RegisterAcceptorServer") && x.Args[0].Strip().ID() == "$p0" {
									h := x.Args[1].Strip()
									for _, s := range hp.Events {
										if s.Kind == EvStore {
											r, path := s.Recv.FieldPath()
											if r.ID() == h.ID() && len(path) == 1 && stripAll(s.Val).ID() == obj {
												reg = true
											}
										}
									}
								}
							}
							c.Expect(reg, "acceptor", con+" dispatches", e.Pos, "what the acceptor dispatches to is not the node's own system", hp)
							own = own || reg && used
						}
					}
				}
			}
			c.Expect(own, "acceptor", con+" handler", accs[0].Pos, "the acceptor has no handler", pa)
			kept := false
			for f, v := range vals {
				if strings.HasSuffix(typeStr2(fieldT[f]), "Acceptor") && pa.nil(v) == NonNil {
					kept = true
				}
			}
			c.Expect(kept, "acceptor", con+" kept", accs[0].Pos, "the system does not keep its acceptor: it cannot be closed", pa)
		}
		// tracing
		if trac != nil {
			there := decidedNil(pa, trac) == NonNil
			has := there
			for _, e := range pa.Events {
				if strings.HasSuffix(e.Name, "ITracer).GetTracing") {
					c.Expect(there && decidedNonNil(pa, e, e.Recv), "tracing", con+" asked", e.Pos, "the tracer is used without having been seen to be there", pa)
					if decidedNil(pa, e.Res) == IsNil {
						has = false
					}
				}
				if e.Kind == EvAssert && e.Recv != nil && stripAll(e.Recv).Op == "call" && strings.HasSuffix(stripAll(e.Recv).S, "ITracer).GetTracing") {
					c.Expect(decidedNil(pa, e.Recv) == NonNil, "tracing", con+" asserted", e.Pos, "a tracer without tracing crashes the node", pa)
				}
			}
			icpt := false
			for _, e := range pa.Events {
				if !isCall(e, "lib/span.ClientInterceptor") || e.Args[0] == nil {
					continue
				}
				same := e.Args[0].Any(func(t *Term) bool { return t.ID() == stripAll(trac).ID() }) || stripAll(e.Args[0]).R != nil && sameID(stripAll(e.Args[0]).R, trac)
				for _, b := range pa.Events {
					if isCall(b, "lib/grpc.BuildClientWithOption") {
						for _, o := range pa.Events {
							if o.Kind == EvCall && o.Name == "lib/grpc.ClientAppendUnaryInterceptors" && b.Args[0].Any(func(t *Term) bool { return sameID(t, o.Res) }) && o.Args[0].Any(func(t *Term) bool { return sameID(t, e.Res) }) {
								icpt = same
							}
						}
					}
				}
			}
			if len(accs) == 1 {
				sicpt := false
				for _, e := range pa.Events {
					if isCall(e, "lib/span.ServerInterceptor") {
						for _, o := range pa.Events {
							if o.Kind == EvCall && o.Name == "lib/grpc.ServerAppendUnaryInterceptors" && accs[0].Args[0].Any(func(t *Term) bool { return sameID(t, o.Res) }) && o.Args[0].Any(func(t *Term) bool { return sameID(t, e.Res) }) {
								sicpt = true
							}
						}
					}
				}
				c.Expect(sicpt == has, "tracing", con+" server", accs[0].Pos, "incoming calls are not traced exactly if there is a tracer", pa)
			}
			if has {
				traced++
				c.Expect(icpt, "tracing", con+" client", fn.Pos(), "outgoing calls are not traced although there is a tracer", pa)
			} else {
				if decidedNil(pa, trac) == IsNil {
					untraced++
				}
				c.Expect(!icpt, "tracing", con+" none", fn.Pos(), "outgoing calls are traced without tracer", pa)
			}
		}
	}
	for _, k := range []struct {
		n int
		s string
	}{{withPort, "a port"}, {without, "no port"}, {traced, "a tracer"}, {untraced, "no tracer"}} {
		c.Expect(k.n > 0, "given", con+" "+k.s, fn.Pos(), "no node with "+k.s+" can be built", nil)
	}
	c.Min("parts", 4)
	c.Min("acceptor", 4)
	c.recoveredPanics()
}

// recoveredPanics: the functions of the node package that answer recovered panics.
func (c *Check) recoveredPanics() {
	p := c.P
	for _, fn := range p.Fns {
		if relPkg(fn) != nodePkg || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		used := false
		for _, u := range p.valueUses()[fn] {
			const with = "github.com/grpc-ecosystem/go-grpc-middleware/recovery.WithRecoveryHandler"
			used = used || insCalls(u, with)
			if ct, ok := u.(*ssa.ChangeType); ok {
				for _, r := range *ct.Referrers() {
					used = used || insCalls(r, with)
				}
			}
		}
		if !used {
			continue
		}
		con := fnName(fn)
		w := c.Walk(fn, WalkOpts{LoopBound: 3})
		ends := 0
		for _, pa := range w.Paths {
			if pa.Outcome == Panicked {
				c.Expect(false, "recovered", con+" panics", fn.Pos(), "answering a panic panics", pa)
			}
			var prev *Term
			for _, e := range pa.Events {
				if !isCall(e, "runtime.Stack") {
					continue
				}
				if prev != nil {
					c.Expect(grown(pa, prev, e.Args[0]), "recovered", con+" ends", e.Pos, "the buffer for the stack does not grow: answering a panic with a long stack never ends", pa)
				}
				prev = e.Args[0]
			}
			if pa.Outcome != Returned {
				continue
			}
			ends++
			r := pa.Ret[len(pa.Ret)-1]
			c.Expect(pa.nil(r) == NonNil, "recovered", con, fn.Pos(), "a recovered panic is not answered with an error", pa)
			c.Expect(r.Any(func(t *Term) bool { return t.ID() == "$0" }), "recovered", con+" cause", fn.Pos(), "the error does not name the panic", pa)
		}
		c.Expect(ends > 0, "recovered", con+" returns", fn.Pos(), "answering a panic never ends", nil)
	}
	c.Min("recovered", 2)
}

// grown: the second buffer is made larger than the first.
func grown(pa *Path, a, b *Term) bool {
	size := func(t *Term) *Term {
		t = stripAll(t)
		if t.Op == "slice" && len(t.Args) > 0 {
			t = stripAll(t.Args[0])
		}
		if t.Op == "makeslice" && len(t.Args) > 0 {
			return t.Args[0]
		}
		return nil
	}
	sb := size(b)
	if sb == nil {
		return false
	}
	if x, ok := stripAll(sb).IntConst(); ok {
		if sa := size(a); sa != nil {
			if y, ok := stripAll(sa).IntConst(); ok {
				return x > y
			}
		}
	}
	s := stripAll(sb)
	if s.Op != "bin" || len(s.Args) != 2 {
		return false
	}
	isLen := func(t *Term) bool {
		t = stripAll(t)
		return t.Op == "len" && sameID(t.Args[0], a) || size(a) != nil && sameID(t, size(a))
	}
	for i := 0; i < 2; i++ {
		k, ok := stripAll(s.Args[i]).IntConst()
		if ok && isLen(s.Args[1-i]) && (s.S == "*" && k > 1 || s.S == "+" && k > 0 || s.S == "<<" && i == 1 && k > 0) {
			return true
		}
	}
	return s.S == "+" && isLen(s.Args[0]) && isLen(s.Args[1])
}

// decidedNil: what the path decided about a value being nil, without assumptions.
func decidedNil(pa *Path, t *Term) Nilness {
	t = stripAll(t)
	for _, e := range pa.Events {
		if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "==" && len(e.Val.Args) == 2 {
			for i := 0; i < 2; i++ {
				if e.Val.Args[i].IsNilConst() && stripAll(e.Val.Args[1-i]).ID() == t.ID() {
					if e.Ok {
						return IsNil
					}
					return NonNil
				}
			}
		}
	}
	return pa.nil(t)
}

func orNil(t *Term) *Term {
	if t == nil {
		return &Term{Op: "const"}
	}
	return t
}

func typeStr2(t types.Type) string {
	if t == nil {
		return ""
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := types.TypeString(t, func(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPath+"/") })
	return s
}
