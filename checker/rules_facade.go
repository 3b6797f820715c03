package main

// Facades: actor context, actor builder, node and system accessors (F01).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "F01", Run: runF01, Method: "value-flow on all paths of every facade method",
		Expl:   "Every method of the actor context, the actor builder, the actor's and the node's accessors is followed on all its paths. A forwarding method must call the operation it is named after, once, on the object it stands for, with the arguments it was given, and return that operation's results. An accessor must return its own field; a With method must set its own field and nothing else. The identity given to a node must reach its system and address book, and an actor's loop must start only after everything it uses was set up.",
		Assume: []string{"contexts keep their values as the standard library documents"}})
}

func runF01(c *Check) {
	c.Rule("context", "the actor context forwards every operation to its own actor or system, unchanged")
	c.Rule("identity", "an actor's context holds that actor and its system, and is complete before the actor's loop starts")
	c.Rule("accessor", "an accessor returns what the object was given under that name")
	c.Rule("builder", "a With method of the builder sets what it is named after, and only that; registering and picking hand over the builder itself")
	c.Rule("node", "a node's system and address book have the node's id, address and port, its loader and its factory")
	p := c.P
	c.contextFacade()
	c.builderFacade()
	c.nodeFacade()
	// the actor's own accessors
	for _, x := range []struct{ m, f string }{{"ID", "Id"}, {"Type", "Ty"}} {
		c.accessor(p.Method(actorPkg, "Runtime", x.m), x.f)
	}
	if fn := p.Method(actorPkg, "Runtime", "Context"); c.Anchor(fn, "Runtime.Context") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			ok := pa.Outcome == Returned && len(pa.Ret) == 1
			if ok {
				root, path := pa.Ret[0].Strip().FieldPath()
				f := FieldBy(p.Named(actorPkg, "Runtime"), "", func(v *types.Var) bool { return ptrToPath(v.Type(), modPath+"/"+actorPkg+".actorContext") })
				ok = root.ID() == "$0" && len(path) == 1 && (f == nil || path[0] == f.Name())
			}
			c.Expect(ok, "accessor", fnName(fn), fn.Pos(), "the actor does not give its own context", pa)
		}
	}
	c.Min("accessor", 10)
	c.Min("context", 10)
	c.Min("builder", 5)
}

// accessor decides that a method returns the named field of its receiver, whatever happens.
func (c *Check) accessor(fn *ssa.Function, field ...string) {
	if !c.Anchor(fn, "accessor of "+strings.Join(field, ".")) {
		return
	}
	for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
		ok := pa.Outcome == Returned && len(pa.Ret) == 1
		if ok {
			root, path := pa.orDecided(pa.Ret[0]).Strip().FieldPath()
			ok = root.ID() == "$0" && len(path) >= len(field) && strings.Join(path[len(path)-len(field):], ".") == strings.Join(field, ".")
		}
		c.Expect(ok, "accessor", fnName(fn), fn.Pos(), "the method does not return the "+strings.Join(field, ".")+" of its object", pa)
		for _, e := range pa.Events {
			c.Expect(e.Kind != EvStore || e.Recv.Root().Op == "alloc", "accessor", fnName(fn)+" changes nothing", e.Pos, "an accessor changes its object", pa)
		}
	}
}

// ctxKey: the key of a context value as a type name, "" if it is none of the package's own key types.
func ctxKey(t *Term) string {
	t = t.Strip()
	if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil && structOf(n) != nil {
		return n.Obj().Name()
	}
	return ""
}

func (c *Check) contextFacade() {
	p := c.P
	var ac *types.Named
	for _, n := range p.Implementers("core", "ActorContext") {
		if structOf(n) != nil {
			ac = n
		}
	}
	ctxI := p.Named("core", "ActorContext")
	if ac == nil || ctxI == nil {
		c.Missing("actor context")
		return
	}
	// what Init puts into it
	holds := map[string]string{} // key -> "actor" or "system"
	ini := p.Method(actorPkg, "Runtime", "Init")
	if c.Anchor(ini, "Runtime.Init") {
		con := fnName(ini)
		for _, pa := range c.Walk(ini, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				c.Expect(false, "identity", con, ini.Pos(), "setting up an actor does not end", pa)
				continue
			}
			started := false
			var ctx *Term
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvGo:
					started = true
				case e.Kind == EvStore:
					if e.Recv.Root().ID() == "$0" {
						c.Expect(!started, "identity", con+" set up before it starts", e.Pos, "part of the actor is set up after its loop was started", pa)
					}
					if v := fieldVar(e.Recv); v != nil && typeIs(v.Type(), "context.Context") {
						ctx = e.Val
						c.Expect(!started, "identity", con+" set up before it starts", e.Pos, "the context is completed after the loop was started", pa)
					}
				}
			}
			if !c.Expect(ctx != nil, "identity", con, ini.Pos(), "the actor gets no context", pa) {
				continue
			}
			seen := map[string]string{}
			t := ctx
			for n := 0; n < 12 && t != nil; n++ {
				s := t.Strip()
				var made *Event
				for _, e := range pa.Events {
					if e.Kind == EvCall && e.Res != nil && e.Res.ID() == s.ID() {
						made = e
					}
				}
				if made == nil {
					break
				}
				if isCall(made, "context.WithValue") {
					if k := ctxKey(made.Args[1]); k != "" && seen[k] == "" {
						v := stripAll(made.Args[2])
						root, path := v.FieldPath()
						switch {
						case v.ID() == "$0":
							seen[k] = "actor"
						case root.ID() == "$0" && len(path) == 1 && typeIs(v.T, modPath+"/core.ISystem"):
							seen[k] = "system"
						default:
							seen[k] = "something else"
						}
					}
				}
				if len(made.Args) == 0 {
					break
				}
				t = made.Args[0]
			}
			c.Expect(t != nil && t.Strip().ID() == "$1", "identity", con+" derived", ini.Pos(), "the actor's context is not made from the one it was initialised with", pa)
			a, s := "", ""
			for k, v := range seen {
				holds[k] = v
				if v == "actor" {
					a = k
				}
				if v == "system" {
					s = k
				}
			}
			c.Expect(a != "" && s != "", "identity", con+" holds", ini.Pos(), "the actor's context lacks the actor or its system", pa)
		}
	}
	actorDoes := map[string]bool{}
	if ai := p.Named("core", "IActor"); ai != nil {
		if it, ok := ai.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				actorDoes[it.Method(i).Name()] = true
			}
		}
	}
	it := ctxI.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		fn := p.MethodN(ac, m.Name())
		if !c.Anchor(fn, "actor context "+m.Name()) {
			continue
		}
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			c.Ob("context", con, fn.Pos())
			if pa.Outcome == Panicked {
				absent := false
				for _, e := range pa.Events {
					if e.Kind == EvBranch && !e.Ok && strings.HasPrefix(e.Val.ID(), "is:") {
						absent = true
					}
					if e.Kind == EvBranch && e.Ok && e.Val.Op == "bin" && e.Val.S == "==" {
						absent = true
					}
					if e.Kind == EvAssert && !e.CommaOk {
						absent = true
					}
				}
				c.Expect(absent, "context", con, fn.Pos(), "the method panics although the context is complete", pa)
				continue
			}
			var ops, looks, with []*Event
			for _, e := range pa.Events {
				switch {
				case isCall(e, "(context.Context).Value"):
					looks = append(looks, e)
				case isCall(e, "context.WithValue"):
					with = append(with, e)
				case e.Kind == EvCall && e.Invoke && moduleObj(e.Obj):
					ops = append(ops, e)
				}
			}
			own := func(t *Term) bool {
				root, path := t.Strip().FieldPath()
				return root.ID() == "$0" && len(path) == 1
			}
			switch m.Name() {
			case "GetValue":
				ok := len(looks) == 1 && len(ops) == 0 && own(looks[0].Recv) && stripAll(looks[0].Args[0]).ID() == "$1" && pa.Outcome == Returned && pa.is(pa.Ret[0], looks[0].Res)
				c.Expect(ok, "context", con, fn.Pos(), "not the value stored under the given key is returned", pa)
				continue
			case "WithValue":
				ok := len(with) == 1 && own(with[0].Args[0]) && stripAll(with[0].Args[1]).ID() == "$1" && stripAll(with[0].Args[2]).ID() == "$2"
				if ok {
					st := false
					for _, e := range pa.Events {
						if e.Kind == EvStore && e.Recv.Root().ID() == "$0" {
							st = sameID(e.Val, with[0].Res)
						}
					}
					ok = st
				}
				c.Expect(ok, "context", con, fn.Pos(), "the value is not added to the context under its key", pa)
				continue
			}
			// whom the value of a key stands for
			who := func(t *Term) string {
				t = t.Strip()
				for t.Op == "assert" {
					t = t.Args[0].Strip()
				}
				for _, e := range looks {
					if e.Res != nil && e.Res.ID() == t.ID() && own(e.Recv) {
						return holds[ctxKey(e.Args[0])]
					}
				}
				return ""
			}
			if m.Name() == "System" {
				c.Expect(len(ops) == 0 && pa.Outcome == Returned && who(pa.Ret[0]) == "system", "context", con, fn.Pos(), "the actor's system is not returned", pa)
				continue
			}
			ok := len(ops) == 1 && pa.Outcome == Returned
			if ok {
				e := ops[0]
				kind := "system"
				if strings.HasPrefix(e.Name, "(core.IActor).") {
					kind = "actor"
				}
				// what an actor does itself, such as calling in its own name, is not done by its system
				ok = kind == "actor" || !actorDoes[m.Name()]
				ok = ok && strings.HasSuffix(e.Name, ")."+m.Name()) && who(e.Recv) == kind && len(e.Args) == fn.Signature.Params().Len()
				for i, a := range e.Args {
					ok = ok && stripAll(a).ID() == fmt.Sprintf("$%d", i+1)
				}
				ok = ok && c.returnsAll(pa, e)
			}
			c.Expect(ok, "context", con, fn.Pos(), "the operation is not passed on unchanged, once, to the context's own actor or system, with its answer returned", pa)
		}
	}
}

func moduleObj(o types.Object) bool {
	return o != nil && o.Pkg() != nil && inScope(o.Pkg().Path())
}

// returnsAll: what the call returned is what the path returns.
func (c *Check) returnsAll(pa *Path, e *Event) bool {
	if len(pa.Ret) == 1 {
		return pa.is(pa.Ret[0], e.Res)
	}
	for i, r := range pa.Ret {
		if !pa.is(r, extract(e.Res, i)) {
			return false
		}
	}
	return true
}

func (c *Check) builderFacade() {
	p := c.P
	var b *types.Named
	for _, n := range p.Implementers("core", "IActorBuilder") {
		if structOf(n) != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/"+actorPkg) {
			b = n
		}
	}
	if b == nil {
		c.Missing("actor builder")
		return
	}
	for _, x := range []struct{ m, f string }{{"GetID", "ID"}, {"GetType", "Name"}, {"GetWeight", "Weight"}, {"GetGlobalQuantityLimit", "GlobalQuantityLimit"}, {"GetNodeUnique", "NodeUnique"}, {"GetConstructor", "Constructor"}, {"GetSystem", "ISystem"}, {"GetLoader", "IActorLoader"}} {
		c.accessor(p.MethodN(b, x.m), x.f)
	}
	for _, x := range []struct{ m, f string }{{"WithID", "ID"}, {"WithType", "Name"}} {
		fn := p.MethodN(b, x.m)
		if !c.Anchor(fn, "builder "+x.m) {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome == Panicked {
				c.Expect(emptyText(pa, func(t *Term) bool { return t.ID() == "$1" }) == 1, "builder", fnName(fn), fn.Pos(), "a name that is not empty is refused", pa)
				continue
			}
			n := 0
			for _, e := range pa.Events {
				if e.Kind == EvStore && e.Recv.Root().ID() == "$0" {
					_, path := e.Recv.FieldPath()
					n++
					c.Expect(path[len(path)-1] == x.f && e.Val.Strip().ID() == "$1", "builder", fnName(fn), e.Pos, "another field or value is set", pa)
				}
			}
			c.Expect(n == 1 && pa.Outcome == Returned && stripAll(pa.Ret[0]).ID() == "$0", "builder", fnName(fn), fn.Pos(), "the builder does not set its "+x.f+" and return itself", pa)
		}
	}
	opts := func(t *Term) bool {
		root, path := t.Strip().FieldPath()
		return root.ID() == "$0" && len(path) > 0 && path[len(path)-1] == "Options"
	}
	if fn := p.MethodN(b, "WithOpt"); c.Anchor(fn, "builder WithOpt") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			n := 0
			var made *Term
			for _, e := range pa.Events {
				switch e.Kind {
				case EvStore:
					if e.Recv.Root().ID() == "$0" {
						_, path := e.Recv.FieldPath()
						ok := path[len(path)-1] == "Options" && e.Val.Strip().Op == "makemap" && decidedAbsentMap(pa, e, opts)
						made = e.Val.Strip()
						c.Expect(ok, "builder", fnName(fn), e.Pos, "setting an option replaces other settings", pa)
					}
				case EvMapSet:
					n++
					ok := (opts(e.Recv) || made != nil && e.Recv.Strip().ID() == made.ID()) && e.Args[0].Strip().ID() == "$1" && e.Val.Strip().ID() == "$2"
					c.Expect(ok, "builder", fnName(fn), e.Pos, "another option or value is set", pa)
				case EvMapDel:
					c.Expect(false, "builder", fnName(fn), e.Pos, "an option is removed", pa)
				}
			}
			c.Expect(n == 1 && pa.Outcome == Returned && stripAll(pa.Ret[0]).ID() == "$0", "builder", fnName(fn), fn.Pos(), "the option is not set, or the builder not returned", pa)
		}
	}
	if fn := p.MethodN(b, "GetOpt"); c.Anchor(fn, "builder GetOpt") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			ok := pa.Outcome == Returned
			if ok {
				found := false
				for _, e := range pa.Events {
					if e.Kind == EvLookup && opts(e.Recv) && e.Args[0].Strip().ID() == "$1" {
						found = e.Res != nil && e.Res.ID() == pa.Ret[0].Strip().ID() || pa.True("has", e.Recv, e.Args[0]) < 0
						found = found || pa.Ret[0].Strip().Op == "const" && pa.St.Truth(&Term{Op: "has", Args: []*Term{e.Recv, e.Args[0]}}) < 0
					}
				}
				s, empty := pa.Ret[0].StrConst()
				ok = found || empty && s == "" && emptyMapAt(pa, opts)
			}
			c.Expect(ok, "accessor", fnName(fn), fn.Pos(), "not the option of that name is returned", pa)
		}
	}
	if fn := p.MethodN(b, "GetOptions"); c.Anchor(fn, "builder GetOptions") {
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			ret := pa.Ret[0].Strip()
			c.Expect(!opts(ret), "accessor", fnName(fn)+" copy", fn.Pos(), "the builder's own option table is given away", pa)
			if isCall2(pa, ret, "maps.Clone", opts) {
				c.Ob("accessor", fnName(fn), fn.Pos())
				continue
			}
			want := map[string]string{}
			ended := false
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvRange && opts(e.Recv) && e.Ok:
					want[e.Res.ID()] = e.Val.ID()
				case e.Kind == EvRange && opts(e.Recv):
					ended = true
				case e.Kind == EvMapSet && e.Recv.Strip().ID() == ret.ID():
					if want[e.Args[0].Strip().ID()] == e.Val.Strip().ID() {
						delete(want, e.Args[0].Strip().ID())
					} else {
						c.Expect(false, "accessor", fnName(fn), e.Pos, "an option is copied under another name or value", pa)
					}
				}
			}
			c.Expect(len(want) == 0 && (ended || emptyMapAt(pa, opts)), "accessor", fnName(fn), fn.Pos(), "not all options are returned", pa)
		}
	}
	for _, x := range []struct{ m, field, op string }{{"Register", "ISystem", "(core.ISystem).Register"}, {"Picker", "IActorLoader", "(core.IActorLoader).Pick"}} {
		fn := p.MethodN(b, x.m)
		if !c.Anchor(fn, "builder "+x.m) {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			calls := pa.Calls(func(e *Event) bool { return e.Invoke && moduleObj(e.Obj) })
			ok := len(calls) == 1 && pa.Outcome == Returned
			if ok {
				e := calls[0]
				_, path := e.Recv.Strip().FieldPath()
				ok = e.Name == x.op && len(path) == 1 && path[0] == x.field && e.Recv.Strip().Root().ID() == "$0" && len(e.Args) == 2 && e.Args[0].Strip().ID() == "$1" && stripAll(e.Args[1]).ID() == "$0" && c.returnsAll(pa, e)
			}
			c.Expect(ok, "builder", fnName(fn), fn.Pos(), "the builder itself is not handed over once, with the caller's context, and the answer returned", pa)
		}
	}
}

// decidedAbsentMap: the path decided before that the table was nil.
func decidedAbsentMap(pa *Path, at *Event, is func(*Term) bool) bool {
	for _, e := range pa.Events {
		if e == at {
			return false
		}
		if e.Kind == EvBranch && e.Val.Op == "bin" && e.Val.S == "==" && e.Ok && (is(e.Val.Args[0]) && e.Val.Args[1].IsNilConst() || is(e.Val.Args[1]) && e.Val.Args[0].IsNilConst()) {
			return true
		}
	}
	return false
}

// emptyMapAt: the path decided that the table is nil or empty.
func emptyMapAt(pa *Path, is func(*Term) bool) bool {
	for _, e := range pa.Events {
		if e.Kind != EvBranch || e.Val.Op != "bin" || !e.Ok || e.Val.S != "==" {
			continue
		}
		for i, a := range e.Val.Args {
			if is(a) && e.Val.Args[1-i].IsNilConst() {
				return true
			}
			if a.Op == "len" && is(a.Args[0]) {
				if n, ok := e.Val.Args[1-i].IntConst(); ok && n == 0 {
					return true
				}
			}
		}
	}
	return false
}

// isCall2: the term is the result of that call on such an argument.
func isCall2(pa *Path, t *Term, name string, arg func(*Term) bool) bool {
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Res != nil && e.Res.ID() == t.ID() && strings.HasPrefix(e.Name, name) && len(e.Args) > 0 && arg(e.Args[0]) {
			return true
		}
	}
	return false
}

func (c *Check) nodeFacade() {
	p := c.P
	var node *types.Named
	for _, n := range p.Implementers("core", "INode") {
		if structOf(n) != nil {
			node = n
		}
	}
	sys := systemType(c)
	if node == nil || sys == nil {
		c.Missing("node or system")
		return
	}
	c.accessor(p.MethodN(node, "ID"), "ID")
	if fn := p.MethodN(node, "System"); c.Anchor(fn, "node System") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			ok := pa.Outcome == Returned
			if ok {
				root, path := pa.Ret[0].Strip().FieldPath()
				ok = root.ID() == "$0" && len(path) == 1
			}
			c.Expect(ok, "accessor", fnName(fn), fn.Pos(), "the node does not give its own system", pa)
		}
	}
	// the system's own accessors
	if fn := p.MethodN(sys, "AddressBook"); c.Anchor(fn, "system AddressBook") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			ok := pa.Outcome == Returned
			if ok {
				root, path := stripAll(pa.Ret[0]).FieldPath()
				ok = root.ID() == "$0" && len(path) == 1
			}
			c.Expect(ok, "accessor", fnName(fn), fn.Pos(), "the system does not give its own address book", pa)
		}
	}
	if fn := p.MethodN(sys, "Loader"); c.Anchor(fn, "system Loader") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			calls := pa.Calls(func(e *Event) bool { return isCall(e, "(core.IActorLoader).Builder") })
			ok := len(calls) == 1 && pa.Outcome == Returned
			if ok {
				e := calls[0]
				ok = e.Recv.Strip().Root().ID() == "$0" && len(e.Args) == 2 && e.Args[0].Strip().ID() == "$1" && stripAll(e.Args[1]).ID() == "$0" && pa.is(pa.Ret[0], e.Res)
			}
			c.Expect(ok, "node", fnName(fn), fn.Pos(), "the loader's builder for that type and this system is not returned", pa)
		}
	}
	// building a node
	build := p.Func("core/node", "BuildProcessWithOption")
	if !c.Anchor(build, "BuildProcessWithOption") {
		return
	}
	con := fnName(build)
	get := p.Func("core/node", "Get")
	kept := ""
	if c.Anchor(get, "node.Get") {
		for _, pa := range c.Walk(get, WalkOpts{}).Paths {
			if pa.Outcome == Returned {
				kept = stripAll(pa.Ret[0]).ID()
			}
		}
	}
	n := 0
	for _, pa := range c.Walk(build, WalkOpts{LoopBound: 2, MaxPaths: 20000, Opaque: []string{"core/node.NewAcceptor", "lib/grpc.BuildClientWithOption", "core/addressbook.New"}}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		n++
		c.Ob("node", con, build.Pos())
		ret := stripAll(pa.Ret[0])
		// what Get will give is what was built
		same := false
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Recv.Op == "addr" && strings.TrimPrefix(e.Recv.ID(), "&") == kept || e.Kind == EvStore && strings.TrimPrefix(e.Recv.ID(), "&") == kept {
				same = stripAll(e.Val).ID() == ret.ID()
			}
		}
		c.Expect(same, "node", con+" kept", build.Pos(), "the node built is not the one kept for Get", pa)
		// the address book is made for this node
		for _, e := range pa.Events {
			if !isCall(e, "core/addressbook.New") {
				continue
			}
			sv := structVals(pa, e.Args[0])
			for f, want := range map[string]string{"Node": "ID", "Ip": "Ip", "Port": "Port"} {
				v := sv[f]
				ok := v != nil
				if ok {
					_, path := v.Strip().FieldPath()
					ok = len(path) > 0 && path[len(path)-1] == want || v.Strip().Op == "const" && isDefault(v, want)
				}
				c.Expect(ok, "node", con+" address "+f, e.Pos, "the address book is made with another "+f, pa)
			}
		}
		made := pa.Calls(func(e *Event) bool { return isCall(e, "core/addressbook.New") })
		c.Expect(len(made) == 1, "node", con+" address book", build.Pos(), "the node does not get one address book", pa)
		for _, e := range pa.Events {
			if e.Kind != EvStore {
				continue
			}
			v := fieldVar(e.Recv)
			if v == nil || !ownerIs(v, sys) {
				continue
			}
			want := map[string]string{"nodeID": "ID", "nodeIP": "Ip", "nodePort": "Port", "loader": "Loader", "factory": "Factory", "trac": "Tracer"}[v.Name()]
			if want == "" {
				continue
			}
			_, path := e.Val.Strip().FieldPath()
			c.Expect(len(path) > 0 && path[len(path)-1] == want || e.Val.Strip().Op == "const" && isDefault(e.Val, want), "node", con+" "+v.Name(), e.Pos, "the system's "+v.Name()+" is not the node's "+want, pa)
		}
	}
	c.Expect(n > 0, "node", con, token.NoPos, "undecided: building a node was not followed to its end", nil)
}

func isDefault(t *Term, field string) bool {
	if s, ok := t.StrConst(); ok {
		return field == "Ip" && s == "127.0.0.1" || field == "ID" && s == ""
	}
	if n, ok := t.IntConst(); ok {
		return field == "Port" && n == 0
	}
	return t.IsNilConst()
}
