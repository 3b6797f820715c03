package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "T01", Run: runT01, Method: "path-sensitive provenance analysis of spans, their parents and the contexts that carry them",
		Expl:   "Every path of the tracer's construction and of its span lookup is decided to register and answer exactly the strategies it was given with its own tracer, or an error; every path that starts a span is decided to make it a child of the span its context or its incoming metadata carries, and to hand on a context or metadata that carries the new span; the metadata carrier is decided to write under lower-case keys and to read out every pair; every path of a system call or send with a tracer is decided to begin the span before the message is handed over and to hand it over with the span's context.",
		Assume: []string{"The tracing library's own functions (ChildOf, ContextWithSpan, Inject, Extract) do what they are named after"}})
}

func isOT(e *Event, name string) bool {
	return e != nil && e.Kind == EvCall && strings.HasSuffix(e.Name, "opentracing-go."+name)
}

// made finds the call whose result a value is.
func callOf(pa *Path, t *Term, is func(e *Event) bool) *Event {
	t = stripAll(t)
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Res != nil && is(e) && sameID(stripAll(e.Res), t) {
			return e
		}
	}
	return nil
}

func runT01(c *Check) {
	c.Rule("strategy", "a strategy registered with the tracer answers the span its factory makes of this tracer, or the factory's error; an unknown one answers an error")
	c.Rule("registered", "the tracer is built with every strategy it was given under its own name, the first of a name winning")
	c.Rule("built", "a tracer reports to the configured collector under the configured name and sampling, and one that cannot be made is not answered")
	c.Rule("factory", "a span factory makes a span of the tracer it is given with its options in effect, and refuses what is no tracer")
	c.Rule("id", "a started span answers its trace id, and one without a trace answers none")
	c.Rule("parent", "a span is the child of the span its context or incoming metadata carries, and a root only without one")
	c.Rule("continued", "the context handed on carries the span that was started, and outgoing metadata carries it and everything it carried before")
	c.Rule("carrier", "the metadata carrier writes each pair under a lower-case key beside those there, and hands out every pair it holds")
	c.Rule("system", "with a tracer every call and send runs in a span begun from the message's context before the message is handed over")
	c.Rule("accessor", "an accessor of the tracer answers what it is named after")
	c.traceStrategies()
	c.traceParents()
	c.traceCarrier()
	c.traceSystem()
	c.Min("strategy", 3)
	c.Min("registered", 2)
	c.Min("built", 4)
	c.Min("factory", 4)
	c.Min("id", 3)
	c.Min("parent", 5)
	c.Min("continued", 4)
	c.Min("carrier", 3)
	c.Min("system", 4)
}

func (c *Check) traceStrategies() {
	p := c.P
	impls := p.Implementers("lib/tracer", "ITracer")
	if len(impls) == 0 {
		c.Missing("a tracer implementation")
	}
	for _, n := range impls {
		get := p.MethodN(n, "GetSpan")
		if !c.Anchor(get, n.Obj().Name()+".GetSpan") {
			continue
		}
		key, own := tParam(get, 1), tParam(get, 0)
		var table, tracing *types.Var
		for _, pa := range c.Walk(get, WalkOpts{LoopBound: 2, Extra: []string{"lib/tracer"}}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			con := fnName(get)
			if !c.Expect(pa.Outcome == Returned && len(pa.Ret) == 2, "strategy", con+" end", get.Pos(), "looking up a strategy crashes", pa) {
				continue
			}
			var look *Term
			var call *Event
			n := 0
			for _, e := range pa.Events {
				if e.Kind == EvLookup {
					look = e.Res
					if look != nil && fieldVar(stripAll(e.Recv)) != nil {
						table = fieldVar(stripAll(e.Recv))
					}
					c.Expect(len(e.Args) > 0 && sameID(e.Args[0], key), "strategy", con+" key", e.Pos, "another strategy is looked up than the one asked for", pa)
				}
				if e.Kind == EvCall && e.Dynamic {
					call = e
					n++
				}
			}
			if call == nil {
				none := look != nil && (pa.St.Truth(&Term{Op: "has", Args: []*Term{look}}) == 0 || pa.nil(look) == IsNil)
				c.Expect(none, "strategy", con+" unknown", get.Pos(), "a registered strategy is not used", pa)
				c.Expect(pa.RetErr() == NonNil || decidedErr(pa), "strategy", con+" unknown error", get.Pos(), "an unknown strategy is not reported as an error", pa)
				continue
			}
			ok := look != nil && sameID(call.Recv, look) && n == 1 && len(call.Args) == 1
			c.Expect(ok, "strategy", con+" factory", call.Pos, "the span is not made by the factory registered for the strategy", pa)
			if !ok {
				continue
			}
			c.Expect(present(pa, look), "strategy", con+" present", call.Pos, "the factory is used without having been found", pa)
			f := fieldVar(stripAll(call.Args[0]))
			root, _ := stripAll(call.Args[0]).FieldPath()
			c.Expect(f != nil && root.ID() == own.ID(), "strategy", con+" tracer", call.Pos, "the span is not made of this tracer", pa)
			tracing = f
			err := extract(call.Res, 1)
			switch pa.nil(err) {
			case NonNil:
				c.Expect(pa.RetErr() == NonNil, "strategy", con+" failed", call.Pos, "a failing factory is not reported as an error", pa)
			default:
				c.Expect(pa.is(pa.Ret[0], extract(call.Res, 0)) && (pa.is(pa.Ret[1], err) || pa.nil(pa.Ret[1]) == IsNil && pa.nil(err) == IsNil), "strategy", con+" span", call.Pos, "the factory's span is not answered", pa)
			}
		}
		if tracing == nil || table == nil {
			c.Missing("span factories of " + n.Obj().Name())
			continue
		}
		c.accessor(p.MethodN(n, "GetTracing"), tracing.Name())
		c.traceBuilt(n, table, tracing)
	}
}

// decidedErr: the last result is one of the module's error variables.
func decidedErr(pa *Path) bool {
	if pa.Outcome != Returned || len(pa.Ret) == 0 {
		return false
	}
	t := pa.Ret[len(pa.Ret)-1].Strip()
	if t.Op == "load" {
		t = t.Args[0]
	}
	return t.Op == "global" && pa.nil(pa.Ret[len(pa.Ret)-1]) != IsNil
}

func (c *Check) traceBuilt(n *types.Named, table, tracing *types.Var) {
	p := c.P
	var closer *types.Var
	makers := p.Entries(p.FnsWith(func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fieldOfAddr(fa) == tracing
	}))
	if len(makers) == 0 {
		c.Missing("construction of " + n.Obj().Name())
	}
	settings := map[string]*types.Var{}
	for _, fn := range makers {
		con := fnName(fn)
		w := c.Walk(fn, WalkOpts{LoopBound: 2, Extra: []string{"lib/tracer"}})
		for _, pa := range w.Paths {
			if pa.Outcome != Returned {
				continue
			}
			obj := stripAll(pa.Ret[0])
			var tr *Event
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, "Configuration).NewTracer") {
					tr = e
				}
			}
			if !c.Expect(tr != nil && obj.Op == "alloc", "built", con, fn.Pos(), "a tracer is answered that was not made", pa) {
				continue
			}
			c.Expect(pa.nil(extract(tr.Res, 2)) == IsNil, "built", con+" failed", tr.Pos, "a tracer that could not be made is answered", pa)
			var got *Term
			for _, e := range storedTo(pa.Events, obj.ID(), tracing.Name()) {
				got = e.Val
			}
			c.Expect(got != nil && sameID(got, extract(tr.Res, 0)), "built", con+" tracing", tr.Pos, "the tracer made is not the one used", pa)
			for _, e := range pa.Events {
				if e.Kind == EvStore && sameID(e.Val, extract(tr.Res, 1)) && e.Recv.Op == "field" && sameID(e.Recv.Args[0], obj) {
					closer = fieldVar(e.Recv)
				}
			}
			asked := false // without options the settings are the defaults
			for _, e := range pa.Events {
				asked = asked || e.Kind == EvCall && e.Dynamic && p.isOptionCall(e)
			}
			if !asked {
				continue
			}
			// what it reports to
			cfg := structVals(pa, tr.Recv)
			par := func(t *Term, names ...string) bool {
				v := fieldVar(stripAll(orNil(t)))
				if v == nil {
					return false
				}
				for _, o := range names {
					if _, ok := settings[o]; !ok {
						settings[o] = c.optionField("lib/tracer", o)
					}
					if settings[o] == v {
						return true
					}
				}
				return false
			}
			c.Expect(par(cfg["ServiceName"], "WithServiceName"), "built", con+" name", tr.Pos, "the tracer does not have the configured name", pa)
			smp := structVals(pa, orNil(stripAll(orNil(cfg["Sampler"]))))
			c.Expect(par(smp["Type"], "WithSamplerType") && par(smp["Param"], "WithProbabilistic"), "built", con+" sampling", tr.Pos, "the tracer does not sample as configured", pa)
			// the reporter sends to the collector
			var send *Event
			for _, e := range pa.Events {
				if e.Kind == EvCall && (strings.HasSuffix(e.Name, "NewHTTPTransport") || strings.HasSuffix(e.Name, "NewUDPTransport") || strings.HasSuffix(e.Name, "NewUDPTransportWithParams")) {
					send = e
				}
			}
			if c.Expect(send != nil && len(send.Args) > 0, "built", con+" collector", tr.Pos, "the tracer reports nowhere", pa) {
				http := strings.HasSuffix(send.Name, "NewHTTPTransport")
				want := "WithUDP"
				if http {
					want = "WithHTTP"
				}
				c.Expect(par(send.Args[0], want), "built", con+" address", send.Pos, "the spans are not sent to the configured address", pa)
				set := -1
				for k, v := range pa.St.assume {
					t := pa.St.terms[k]
					if t != nil && t.Op == "bin" && t.S == "==" && par(t.Args[0], "WithHTTP") {
						set = 1
						if v {
							set = 0
						}
					}
				}
				c.Expect(set >= 0 && http == (set == 1), "built", con+" transport", send.Pos, "spans go to the collector although none is configured, or the other way round", pa)
				if err := errResult(send); err != nil {
					c.Expect(pa.nil(err) == IsNil, "built", con+" unreachable", send.Pos, "a tracer whose transport failed is answered", pa)
				}
				used := false
				var opts []*Term
				if len(tr.Args) > 0 {
					opts, _ = w.elements(pa.St, tr.Args[0])
				}
				for _, o := range opts {
					r := callOf(pa, o, func(e *Event) bool { return strings.HasSuffix(e.Name, "config.Reporter") })
					if r == nil || len(r.Args) == 0 {
						continue
					}
					rep := stripAll(r.Args[0])
					for _, e := range pa.Events {
						if e.Kind == EvStore && e.Recv.Op == "field" && sameID(e.Recv.Args[0], rep) {
							v := stripAll(e.Val)
							used = used || sameID(v, stripAll(send.Res)) || sameID(v, extract(send.Res, 0))
						}
						if e.Kind == EvCall && sameID(stripAll(orNil(e.Res)), rep) {
							for _, a := range e.Args {
								used = used || sameID(stripAll(a), stripAll(send.Res)) || sameID(stripAll(a), extract(send.Res, 0))
							}
						}
					}
				}
				c.Expect(used, "built", con+" reporter", tr.Pos, "the tracer's spans are not reported over the transport made", pa)
			}
			// the strategies
			var made *Term
			for _, e := range storedTo(pa.Events, obj.ID(), table.Name()) {
				made = e.Val
			}
			if !c.Expect(made != nil && stripAll(made).Op == "makemap", "registered", con+" table", fn.Pos(), "the table of strategies is not made", pa) {
				continue
			}
			c.strategiesSet(pa, con, fn, made, par)
		}
	}
	cl := p.MethodN(n, "Close")
	if c.Anchor(cl, n.Obj().Name()+".Close") && c.Expect(closer != nil, "built", fnName(cl)+" kept", cl.Pos(), "what closes the tracer is not kept", nil) {
		for _, pa := range c.Walk(cl, WalkOpts{Extra: []string{"lib/tracer"}}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			k, none := 0, false
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, ".Close") && fieldVar(stripAll(orNil(e.Recv))) == closer {
					k++
				}
				if e.Kind == EvBranch && e.Ok && e.Val.Op == "bin" && e.Val.S == "==" && e.Val.Args[1].IsNilConst() && fieldVar(stripAll(e.Val.Args[0])) == closer {
					none = true
				}
			}
			c.Expect(k == 1 || none && k == 0, "built", fnName(cl), cl.Pos(), "closing the tracer does not close it once", pa)
		}
	}
}

// strategiesSet: every strategy given is in the table.
func (c *Check) strategiesSet(pa *Path, con string, fn *ssa.Function, made *Term, par func(*Term, ...string) bool) {
	var elems []*Term // the addresses or values of the elements read
	given := func(t *Term) bool { return par(t, "WithSpanFactory") }
	elem := func(t *Term) *Term {
		t = stripAll(t)
		for i := 0; i < 6 && t != nil; i++ {
			if (t.Op == "index" || t.Op == "indexval") && given(t.Args[0]) {
				return t
			}
			if len(t.Args) == 0 {
				return nil
			}
			t = stripAll(t.Args[0])
		}
		return nil
	}
	bound := 0
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if v && t != nil && t.Op == "bin" && t.S == "<" && t.Args[1].Op == "len" && given(t.Args[1].Args[0]) {
			if i, ok := t.Args[0].IntConst(); ok && int(i)+1 > bound {
				bound = int(i) + 1
			}
		}
	}
	for i, e := range pa.Events {
		if e.Kind != EvMapSet || !sameID(e.Recv, made) {
			continue
		}
		k, v := elem(e.Args[0]), elem(e.Val)
		ok := k != nil && v != nil && k.Strip().ID() == v.Strip().ID() && isStringT(e.Args[0].T) && !isStringT(e.Val.T)
		c.Expect(ok, "registered", con+" under its name", e.Pos, "a strategy is not registered under its own name", pa)
		if ok {
			elems = append(elems, k)
			first := false
			for _, x := range pa.Events[:i] {
				first = first || x.Kind == EvLookup && sameID(x.Recv, made) && sameID(x.Args[0], e.Args[0]) && absent(pa, x)
			}
			c.Expect(first, "registered", con+" first wins", e.Pos, "a later strategy replaces the first of its name", pa)
		}
	}
	for k := 0; k < bound; k++ {
		done := false
		for _, e := range elems {
			if n, ok := e.Args[1].IntConst(); ok && int(n) == k {
				done = true
			}
		}
		for _, e := range pa.Events {
			if e.Kind == EvLookup && sameID(e.Recv, made) && present(pa, e.Res) {
				if x := elem(e.Args[0]); x != nil {
					if n, ok := x.Args[1].IntConst(); ok && int(n) == k {
						done = true
					}
				}
			}
		}
		c.Expect(done, "registered", con+" all", fn.Pos(), "strategy "+strconv.Itoa(k+1)+" of those given is not registered", pa)
	}
	c.Expect(strategiesEnd(pa, given, bound), "registered", con+" end", fn.Pos(), "the strategies after one are not registered", pa)
}

// strategiesEnd: the list is decided to have no more than n elements.
func strategiesEnd(pa *Path, list func(*Term) bool, n int) bool {
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || t.S != "<" || v {
			continue
		}
		if t.Args[1].Op == "len" && list(t.Args[1].Args[0]) {
			if i, ok := t.Args[0].IntConst(); ok && int(i) == n {
				return true
			}
		}
	}
	return false
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *Check) traceParents() {
	p := c.P
	c.spanFactories()
	for _, n := range p.Implementers("lib/tracer", "ISpan") {
		fn := p.MethodN(n, "Begin")
		if !c.Anchor(fn, n.Obj().Name()+".Begin") {
			continue
		}
		w := c.Walk(fn, WalkOpts{LoopBound: 2})
		for _, pa := range w.Paths {
			if pa.Outcome == Cut {
				continue
			}
			arg := tParam(fn, 1)
			isCtx := pa.St.Truth(&Term{Op: "is", S: "context.Context", Args: []*Term{arg}})
			for _, e := range pa.Events {
				if isStart(e) {
					c.Expect(isCtx == 1 || types.TypeString(fn.Params[1].Type(), nil) == "context.Context", "parent", fnName(fn)+" context", e.Pos, "a span is started from something that need not be a context", pa)
				}
			}
			c.traced(w, pa, fnName(fn), fn, func(t *Term) bool { return sameID(stripAll(t), arg) }, 0, isCtx == 0, nil)
		}
	}
	for _, it := range []struct {
		name string
		kind int
	}{{"ClientInterceptor", 1}, {"ServerInterceptor", 2}} {
		fn := p.Func("lib/span", it.name)
		if !c.Anchor(fn, it.name) {
			continue
		}
		fw := c.Walk(fn, WalkOpts{})
		for _, fp := range fw.Paths {
			if fp.Outcome != Returned {
				continue
			}
			w := c.walkValue(fw, fp, fp.Ret[0], WalkOpts{LoopBound: 2})
			if !c.Expect(w != nil, "parent", fnName(fn), fn.Pos(), "the interceptor cannot be followed", fp) {
				continue
			}
			h := -1
			for i, q := range w.root.Params {
				if _, ok := q.Type().Underlying().(*types.Signature); ok && h < 0 {
					h = i
				}
			}
			for _, pa := range w.Paths {
				if pa.Outcome == Cut {
					continue
				}
				var hand *Event
				for _, e := range pa.Events {
					if e.Kind == EvCall && e.Dynamic && e.Recv != nil && e.Recv.Strip().ID() == "$p"+strconv.Itoa(h) {
						hand = e
					}
				}
				if !c.Expect(hand != nil && len(hand.Args) > 0, "continued", fnName(fn), fn.Pos(), "the call is not continued", pa) {
					continue
				}
				c.traced(w, pa, fnName(fn), fn, func(t *Term) bool { return stripAll(t).ID() == "$p0" }, it.kind, false, hand)
			}
		}
	}
}

// spanFactories: what the span factories make.
func (c *Check) spanFactories() {
	p := c.P
	n := 0
	for _, fn := range p.Fns {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 || relPkg(fn) != "lib/span" {
			continue
		}
		if !typeIs(fn.Signature.Results().At(0).Type(), modPath+"/lib/tracer.SpanFactory") {
			continue
		}
		n++
		con := fnName(fn)
		fw := c.Walk(fn, WalkOpts{})
		for _, fp := range fw.Paths {
			if fp.Outcome != Returned {
				continue
			}
			w := c.walkValue(fw, fp, fp.Ret[0], WalkOpts{LoopBound: 2})
			if !c.Expect(w != nil, "factory", con, fn.Pos(), "the factory cannot be followed", fp) {
				continue
			}
			for _, pa := range w.Paths {
				if pa.Outcome == Cut {
					continue
				}
				if !c.Expect(pa.Outcome == Returned && len(pa.Ret) == 2, "factory", con+" end", fn.Pos(), "making a span crashes", pa) {
					continue
				}
				given := func(t *Term) bool { return stripAll(t).ID() == "$p0" }
				is := pa.St.Truth(&Term{Op: "is", S: "opentracing.Tracer", Args: []*Term{{Op: "param", S: "$p0"}}})
				c.Expect(is >= 0, "factory", con+" decided", fn.Pos(), "a span is made of something that need not be a tracer", pa)
				if is != 1 {
					c.Expect(pa.RetErr() == NonNil, "factory", con+" refused", fn.Pos(), "something that is no tracer is not refused", pa)
					continue
				}
				c.Expect(pa.RetErr() == IsNil, "factory", con+" good", fn.Pos(), "an error is answered although there is a tracer", pa)
				obj := stripAll(pa.Ret[0])
				own := false
				last := -1
				var target *Term
				kept := false
				for i, e := range pa.Events {
					if e.Kind == EvCall && e.Dynamic && p.isOptionCall(e) {
						last = i
						if len(e.Args) == 1 {
							target = stripAll(e.Args[0])
						}
					}
				}
				for i, e := range pa.Events {
					if e.Kind != EvStore || e.Recv.Op != "field" || !sameID(e.Recv.Args[0], obj) {
						continue
					}
					own = own || given(e.Val)
					kept = kept || target != nil && e.Val.Mentions(target.ID())
					if v := stripAll(e.Val); target != nil && v.Op == "load" {
						kept = kept || sameID(v.Args[0], target)
					}
					if fv := fieldVar(e.Recv); fv != nil && structOfT(fv.Type()) {
						c.Expect(i > last, "factory", con+" settings", e.Pos, "the span is made before its options took effect", pa)
					}
				}
				c.Expect(target == nil || kept, "factory", con+" options", fn.Pos(), "the span is made without what its options set", pa)
				c.Expect(own, "factory", con+" tracer", fn.Pos(), "the span is not made of the tracer given", pa)
			}
		}
	}
	if n == 0 {
		c.Missing("a span factory")
	}
	// ids
	for _, nm := range p.Implementers("lib/tracer", "ISpan") {
		fn := p.MethodN(nm, "GetID")
		if !c.Anchor(fn, nm.Obj().Name()+".GetID") {
			continue
		}
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "id", fnName(fn)+" end", fn.Pos(), "asking for the trace id crashes", pa) {
				continue
			}
			var asked *Event
			for _, e := range pa.Events {
				if e.Kind == EvAssert && e.Recv != nil && strings.HasSuffix(e.Name, "jaeger.SpanContext") {
					asked = e
				}
			}
			if asked != nil && pa.St.Truth(&Term{Op: "is", S: asked.Name, Args: []*Term{asked.Recv}}) == 1 {
				x := callOf(pa, pa.Ret[0], func(e *Event) bool { return strings.HasSuffix(e.Name, "TraceID).String") })
				c.Expect(x != nil, "id", fnName(fn), fn.Pos(), "the trace id of a span is not answered", pa)
				continue
			}
			if asked == nil {
				none := false
				for k, v := range pa.St.assume {
					t := pa.St.terms[k]
					none = none || v && t != nil && t.Op == "bin" && t.S == "==" && t.Args[1].IsNilConst() && fieldVar(stripAll(t.Args[0])) != nil
				}
				c.Expect(none, "id", fnName(fn)+" asked", fn.Pos(), "a span's trace id is not asked for", pa)
			}
			if asked != nil {
				c.Expect(pa.St.Truth(&Term{Op: "is", S: asked.Name, Args: []*Term{asked.Recv}}) == 0, "id", fnName(fn)+" decided", fn.Pos(), "a span's trace id is not answered", pa)
			}
			s, ok := pa.Ret[0].StrConst()
			c.Expect(ok && s == "", "id", fnName(fn)+" none", fn.Pos(), "an id is answered without a trace", pa)
		}
	}
}

func structOfT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// traced decides one path of a function that starts a span: kind 0 a span object, 1 a client, 2 a server interceptor.
func (c *Check) traced(w *Walk, pa *Path, con string, fn *ssa.Function, ctx func(*Term) bool, kind int, noCtx bool, hand *Event) {
	var start, from, extr *Event
	at := -1
	for i, e := range pa.Events {
		switch {
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "opentracing-go.Tracer).StartSpan"):
			start, at = e, i
		case isOT(e, "SpanFromContext") && len(e.Args) == 1 && ctx(e.Args[0]):
			from = e
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "opentracing-go.Tracer).Extract"):
			extr = e
		}
	}
	if start == nil {
		ok := noCtx
		if kind == 2 && extr != nil {
			err := errResult(extr)
			unset := false
			for k, v := range pa.St.assume {
				t := pa.St.terms[k]
				if !v && t != nil && t.Op == "bin" && t.S == "==" && (sameID(t.Args[0], err) || sameID(t.Args[1], err)) && (t.Any(func(x *Term) bool { return strings.Contains(x.S, "ErrSpanContextNotFound") })) {
					unset = true
				}
			}
			ok = pa.nil(err) == NonNil && unset
			c.Expect(hand == nil || ctx(hand.Args[0]), "continued", con+" without", hand.Pos, "the call is not continued with its own context", pa)
		}
		c.Expect(ok, "parent", con+" started", fn.Pos(), "no span is started", pa)
		return
	}
	opts, known := w.elements(pa.St, start.Args[len(start.Args)-1])
	if !known && len(start.Args) < 2 {
		return
	}
	refs := 0
	right := false
	for _, o := range opts {
		r := callOf(pa, o, func(e *Event) bool { return isOT(e, "ChildOf") || isOT(e, "FollowsFrom") || isOT(e, "ext.RPCServerOption") || strings.HasSuffix(e.Name, "ext.RPCServerOption") })
		if r == nil || len(r.Args) == 0 {
			continue
		}
		sc := stripAll(r.Args[0])
		if sc.IsNilConst() {
			continue
		}
		refs++
		switch {
		case kind == 2:
			right = extr != nil && sameID(sc, extract(extr.Res, 0))
		default:
			x := callOf(pa, sc, func(e *Event) bool { return strings.HasSuffix(e.Name, "opentracing-go.Span).Context") })
			right = x != nil && from != nil && sameID(stripAll(x.Recv), stripAll(from.Res)) && isOT(r, "ChildOf")
			c.Expect(!right || decidedNonNil(pa, x, from.Res), "parent", con+" found", start.Pos, "a span is used as the parent without having been found", pa)
		}
	}
	switch kind {
	case 2:
		c.Expect(refs == 1 && right, "parent", con+" child", start.Pos, "the span is not the child of the caller's span", pa)
		// read from the call's own metadata
		if extr != nil && len(extr.Args) == 2 {
			md := extr.Args[1]
			ok := false
			for _, e := range pa.Events {
				if isCall(e, "google.golang.org/grpc/metadata.FromIncomingContext") && ctx(e.Args[0]) {
					has := extract(e.Res, 1)
					switch pa.St.Truth(has) {
					case 0:
						ok = true
					default:
						ok = ok || wraps(pa, md, extract(e.Res, 0))
					}
				}
			}
			c.Expect(ok, "parent", con+" metadata", extr.Pos, "the caller's span is not read from the call's metadata", pa)
		}
	default:
		if !c.Expect(from != nil, "parent", con+" asked", start.Pos, "the span of the context is not asked for", pa) {
			return
		}
		switch pa.nil(from.Res) {
		case NonNil:
			c.Expect(refs == 1 && right, "parent", con+" child", start.Pos, "the span is not the child of its context's span", pa)
		case IsNil:
			c.Expect(refs == 0, "parent", con+" root", start.Pos, "a root span has a parent", pa)
		default:
			c.Expect(false, "parent", con+" decided", start.Pos, "a span is used as the parent without having been found", pa)
		}
	}
	// continued
	carries := func(t *Term) bool {
		e := callOf(pa, t, func(e *Event) bool { return isOT(e, "ContextWithSpan") })
		return e != nil && len(e.Args) == 2 && ctx(e.Args[0]) && sameID(stripAll(e.Args[1]), stripAll(start.Res))
	}
	switch kind {
	case 0:
		c.Expect(pa.Outcome == Returned && carries(pa.Ret[0]), "continued", con+" context", start.Pos, "the context answered does not carry the span started", pa)
	case 2:
		c.Expect(carries(hand.Args[0]), "continued", con+" context", hand.Pos, "the handler's context does not carry the span started", pa)
	case 1:
		var inj *Event
		for _, e := range pa.Events[at:] {
			if e == hand {
				break
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "opentracing-go.Tracer).Inject") && len(e.Args) == 3 {
				x := callOf(pa, e.Args[0], func(e *Event) bool { return strings.HasSuffix(e.Name, "opentracing-go.Span).Context") })
				if x != nil && sameID(stripAll(x.Recv), stripAll(start.Res)) {
					inj = e
				}
			}
		}
		if !c.Expect(inj != nil, "continued", con+" injected", hand.Pos, "the span started is not written into the call's metadata", pa) {
			return
		}
		out := callOf(pa, hand.Args[0], func(e *Event) bool { return isCall(e, "google.golang.org/grpc/metadata.NewOutgoingContext") })
		if !c.Expect(out != nil && len(out.Args) == 2, "continued", con+" outgoing", hand.Pos, "the call does not go out with the metadata written", pa) {
			return
		}
		md := stripAll(out.Args[1])
		c.Expect(wraps(pa, inj.Args[2], md), "continued", con+" same", out.Pos, "the metadata written is not the one that goes out", pa)
		kept := false
		for _, e := range pa.Events {
			if isCall(e, "google.golang.org/grpc/metadata.FromOutgoingContext") && ctx(e.Args[0]) {
				old := extract(e.Res, 0)
				switch pa.St.Truth(extract(e.Res, 1)) {
				case 0:
					kept = true
					c.Expect(!sameID(md, old), "continued", con+" made", inj.Pos, "trace data is written into metadata that was not made", pa)
				default:
					kept = kept || sameID(md, old) || md.Mentions(old.ID())
					cp := callOf(pa, md, func(x *Event) bool { return true })
					if cp != nil {
						kept = kept || cp.Recv != nil && cp.Recv.Mentions(old.ID())
						for _, a := range cp.Args {
							kept = kept || a.Mentions(old.ID())
						}
					}
				}
			}
		}
		c.Expect(kept, "continued", con+" kept", out.Pos, "the metadata the caller gave is not sent", pa)
	}
}

// wraps: a carrier built around this metadata.
func wraps(pa *Path, t, md *Term) bool {
	t = stripAll(t)
	if sameID(t, md) || t.Mentions(stripAll(md).ID()) {
		return true
	}
	for _, v := range structVals(pa, t) {
		if sameID(stripAll(v), stripAll(md)) {
			return true
		}
	}
	return false
}

func (c *Check) traceCarrier() {
	p := c.P
	n := 0
	for _, nm := range p.namedIn("lib/span") {
		set, each := p.MethodN(nm, "Set"), p.MethodN(nm, "ForeachKey")
		if set == nil || each == nil || len(set.Params) != 3 || len(each.Params) != 2 {
			continue
		}
		n++
		key, val := tParam(set, 1), tParam(set, 2)
		for _, pa := range c.Walk(set, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			k := 0
			ok := false
			for _, e := range pa.Events {
				if e.Kind == EvMapSet {
					k++
					lower := callOf(pa, e.Args[0], func(x *Event) bool { return isCall(x, "strings.ToLower") })
					lk := stripAll(e.Args[0])
					low := lower != nil && sameID(lower.Args[0], key) || lk.Op == "call" && strings.Contains(lk.S, "strings.ToLower") && lk.Mentions(key.ID())
					c.Expect(low, "carrier", fnName(set)+" key", e.Pos, "a pair is not written under its lower-case key", pa)
					v := e.Val.Strip()
					ok = low && v.Op == "append" && v.Mentions(val.ID()) && v.Args[0].Any(func(x *Term) bool { return x.Op == "lookup" && sameID(x.Args[0], e.Recv) && sameID(x.Args[1], e.Args[0]) })
				}
				if e.Kind == EvCall && (strings.HasSuffix(e.Name, "metadata.MD).Append") || strings.HasSuffix(e.Name, "metadata.MD).Set")) && len(e.Args) >= 2 {
					k++
					ok = sameID(e.Args[0], key) && e.Args[1].Mentions(val.ID())
				}
			}
			c.Expect(pa.Outcome == Returned && k == 1 && ok, "carrier", fnName(set), set.Pos(), "a pair is not added to those under its key", pa)
		}
		h := tParam(each, 1)
		for _, pa := range c.Walk(each, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			failed := false
			for i, e := range pa.Events {
				if e.Kind != EvCall || !e.Dynamic || !sameID(e.Recv, h) || len(e.Args) != 2 {
					continue
				}
				var rg *Event
				for _, x := range pa.Events[:i] {
					if x.Kind == EvRange && x.Ok && x.Res != nil && sameID(x.Res, e.Args[0]) {
						rg = x
					}
				}
				good := rg != nil && rg.Val != nil && e.Args[1].Mentions(rg.Val.Strip().ID())
				c.Expect(good, "carrier", fnName(each)+" pair", e.Pos, "something else than a key and one of its values is handed out", pa)
				if pa.nil(e.Res) != IsNil {
					failed = true
					c.Expect(pa.Outcome == Returned && pa.RetErr() == NonNil, "carrier", fnName(each)+" error", e.Pos, "the reader's error is not answered", pa)
				}
			}
			if failed {
				continue
			}
			c.Expect(pa.Outcome == Returned && pa.RetErr() == IsNil, "carrier", fnName(each)+" good", each.Pos(), "an error is answered although none was met", pa)
			// every pair
			end := false
			for i, e := range pa.Events {
				if e.Kind != EvRange {
					continue
				}
				end = !e.Ok
				if !e.Ok || e.Val == nil {
					continue
				}
				vals := e.Val.Strip()
				more := -1
				got := 0
				for _, x := range pa.Events[i+1:] {
					if x.Kind == EvRange {
						break
					}
					if x.Kind == EvCall && x.Dynamic && sameID(x.Recv, h) {
						got++
					}
				}
				for k, v := range pa.St.assume {
					t := pa.St.terms[k]
					if t != nil && t.Op == "bin" && t.S == "<" && t.Args[1].Op == "len" && sameID(t.Args[1].Args[0], vals) && !v {
						if a, ok := t.Args[0].IntConst(); ok {
							more = int(a)
						}
					}
				}
				c.Expect(more == got, "carrier", fnName(each)+" all", e.Pos, "not every value of a key is handed out", pa)
			}
			c.Expect(end, "carrier", fnName(each)+" end", each.Pos(), "the pairs after one are not handed out", pa)
		}
	}
	if n == 0 {
		c.Missing("the metadata carrier")
	}
}

func (c *Check) traceSystem() {
	n := systemType(c)
	if n == nil {
		return
	}
	for _, fn := range c.callEntries(n) {
		msg := ""
		for i, q := range fn.Params {
			if strings.HasSuffix(q.Type().String(), "router/msg.Wrapper") {
				msg = "$" + strconv.Itoa(i)
			}
		}
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			con := fnName(fn)
			var get, begin *Event
			at := -1
			for i, e := range pa.Events {
				if isCall(e, "(lib/tracer.ITracer).GetSpan") {
					get = e
					c.Expect(decidedNonNil(pa, e, e.Recv), "system", con+" tracer", e.Pos, "a tracer is used that need not be there", pa)
				}
				if isCall(e, "(lib/tracer.ISpan).Begin") {
					begin, at = e, i
				}
			}
			for _, d := range deliveries(pa) {
				if get == nil {
					none := false
					for k, v := range pa.St.assume {
						t := pa.St.terms[k]
						if v && t != nil && t.Op == "bin" && t.S == "==" && t.Args[1].IsNilConst() && typeIs(termType(t.Args[0]), "github.com/pojol/braid/lib/tracer.ITracer") {
							none = true
						}
					}
					c.Expect(none, "system", con+" traced", d.e.Pos, "a message is handed over without a span although there is a tracer", pa)
					continue
				}
				if pa.nil(errResult(get)) != IsNil {
					c.Expect(pa.nil(errResult(get)) == NonNil, "system", con+" decided", d.e.Pos, "whether there is a span is not decided", pa)
					continue
				}
				if !c.Expect(begin != nil && at < d.at && sameID(stripAll(begin.Recv), extract(get.Res, 0)), "system", con+" begun", d.e.Pos, "the span is not begun before the message is handed over", pa) {
					continue
				}
				r, f := stripAll(begin.Args[0]).FieldPath()
				c.Expect(r.ID() == msg && strings.Join(f, ".") == "Ctx", "system", con+" context", begin.Pos, "the span is not begun from the message's context", pa)
				v := lastStore(pa, d.at, msg, "Ctx")
				c.Expect(v != nil && fromCtx(pa, v, stripAll(begin.Res).ID()), "system", con+" continued", d.e.Pos, "the message is handed over without the context of its span", pa)
			}
		}
	}
}
