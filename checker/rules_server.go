package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R05: the rpc server listens where it was told, serves what it listens on,
// and stops the way it was configured to.

func init() {
	register(&Prop{ID: "R05", Run: runR05, Method: "path-sensitive provenance and typestate analysis of the rpc server",
		Expl: "On every path the address listened on is decided to be the configured one and the listener to be kept exactly if there is one; the handler to be given this server's own rpc before it serves, on its own listener and beside the caller; the stop to be graceful exactly if configured; a built server to have a handler, its settings after every option, and an rpc of its own."})
}

type serverRoles struct {
	server           *types.Named
	rpc, listen, set string // field names
	addr, handler    string // setting names
	graceful         string
}

func (c *Check) serverRoles() *serverRoles {
	r := &serverRoles{server: c.P.Named(grpcPkg, "Server")}
	if r.server == nil {
		c.Missing("grpc.Server")
		return nil
	}
	s := structOf(r.server)
	var set *types.Struct
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type().String(); {
		case t == "*google.golang.org/grpc.Server":
			r.rpc = f.Name()
		case t == "net.Listener":
			r.listen = f.Name()
		default:
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Name() == "ServerParm" {
				r.set = f.Name()
				set, _ = n.Underlying().(*types.Struct)
			}
		}
	}
	if r.rpc == "" || r.listen == "" || set == nil {
		c.Missing("grpc.Server: rpc, listener, settings")
		return nil
	}
	for i := 0; i < set.NumFields(); i++ {
		f := set.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Signature:
			r.handler = f.Name()
		case *types.Basic:
			if f.Name() == "ListenAddr" {
				r.addr = f.Name()
			}
			if f.Name() == "GracefulStop" {
				r.graceful = f.Name()
			}
		}
	}
	if r.addr == "" || r.handler == "" || r.graceful == "" {
		c.Missing("grpc.ServerParm: ListenAddr, GracefulStop, handler")
		return nil
	}
	return r
}

func runR05(c *Check) {
	c.Rule("listen", "the server listens on the configured address, keeps its listener exactly if there is one, and reports a failure")
	c.Rule("serve", "the handler is given the server's own rpc, which then serves the server's own listener, once and beside the caller")
	c.Rule("stop", "the server stops gracefully exactly if it was configured to")
	c.Rule("build", "a built server has a handler, an rpc of its own and its settings after every option; one without a handler is refused")
	r := c.serverRoles()
	if r == nil {
		return
	}
	rpcIs := func(e *Event, what string) bool {
		return e.Kind == EvCall && e.Name == "(*google.golang.org/grpc.Server)."+what
	}
	for _, fn := range c.P.Fns {
		if relPkg(fn) != grpcPkg || fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || len(fn.Blocks) == 0 {
			continue // reached from the functions a user calls
		}
		opt := WalkOpts{}
		w := c.Walk(fn, opt)
		con := fnName(fn)
		// which of the four a function is, is decided over all its paths
		var lis, srv, stp, bld bool
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				lis = lis || isListen(e)
				stp = stp || rpcIs(e, "Stop") || rpcIs(e, "GracefulStop")
				bld = bld || isCall(e, "google.golang.org/grpc.NewServer")
				srv = srv || rpcIs(e, "Serve")
				if e.Kind == EvGo && e.GoFn != nil {
					for _, xp := range c.WalkGo(w, e, opt).Paths {
						for _, x := range xp.Events {
							srv = srv || rpcIs(x, "Serve")
						}
					}
				}
			}
		}
		for _, pa := range w.Paths {
			if pa.Outcome == Cut {
				continue
			}
			if lis {
				c.listenPath(r, fn, pa, con)
			}
			if srv {
				c.servePath(r, fn, w, pa, con, opt, rpcIs)
			}
			if stp {
				c.stopPath(r, fn, pa, con, rpcIs)
			}
			if bld {
				c.buildPath(r, fn, pa, con)
			}
		}
	}
	c.Min("listen", 2)
	c.Min("serve", 1)
	c.Min("stop", 2)
	c.Min("build", 2)
}

func isListen(e *Event) bool {
	return isCall(e, "net.Listen") || e.Kind == EvCall && e.Name == "(*net.ListenConfig).Listen"
}

func serverField(t *Term, names ...string) bool {
	t = stripAll(t)
	return t.ID() == "$0."+strings.Join(names, ".")
}

func (c *Check) listenPath(r *serverRoles, fn *ssa.Function, pa *Path, con string) {
	var call *Event
	n := 0
	for _, e := range pa.Events {
		if isListen(e) {
			call = e
			n++
			a := e.Args[len(e.Args)-1]
			c.Expect(serverField(a, r.set, r.addr), "listen", con, e.Pos, "the server listens on another address than the configured one", pa)
			k := stripAll(e.Args[len(e.Args)-2])
			c.Expect(k.Op == "const" && slices.Contains([]string{"tcp", "tcp4", "tcp6"}, strings.Trim(k.ID(), "\"")), "listen", con+" network", e.Pos, "the server does not listen on tcp", pa)
		}
	}
	c.Expect(n == 1, "listen", con+" once", fn.Pos(), "the server listens never or more than once", pa)
	if n != 1 {
		return
	}
	kept := false
	for _, e := range pa.Events {
		if e.Kind == EvStore && strings.TrimPrefix(e.Recv.ID(), "&") == "$0."+r.listen {
			kept = sameID(stripAll(e.Val), extract(call.Res, 0))
		}
	}
	switch pa.nil(extract(call.Res, 1)) {
	case NonNil:
		c.Expect(!kept, "listen", con+" failed", call.Pos, "a listener that could not be had is kept", pa)
		if pa.Outcome == Returned {
			c.Expect(len(pa.Ret) > 0 && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil, "listen", con+" reported", call.Pos, "that the server cannot listen is not reported", pa)
		}
	case IsNil:
		c.Expect(kept, "listen", con+" kept", call.Pos, "the listener is not kept", pa)
		c.Expect(pa.Outcome == Returned && len(pa.Ret) > 0 && pa.nil(pa.Ret[len(pa.Ret)-1]) == IsNil, "listen", con+" success", call.Pos, "a server that listens is reported as failed", pa)
	default:
		// the error itself may be passed on undecided, with the listener kept
		ok := pa.Outcome == Returned && len(pa.Ret) > 0 && sameID(stripAll(pa.Ret[len(pa.Ret)-1]), extract(call.Res, 1))
		c.Expect(ok, "listen", con+" decided", call.Pos, "whether the server could listen is not decided", pa)
	}
}

func (c *Check) servePath(r *serverRoles, fn *ssa.Function, w *Walk, pa *Path, con string, opt WalkOpts, rpcIs func(*Event, string) bool) {
	handed := false
	n := 0
	for _, e := range pa.Events {
		switch {
		case e.Kind == EvCall && e.Dynamic && e.Recv != nil && serverField(e.Recv, r.set, r.handler):
			ok := len(e.Args) == 1 && serverField(e.Args[0], r.rpc)
			c.Expect(ok, "serve", con+" handler", e.Pos, "the handler is given another rpc than the server's own", pa)
			c.Expect(!handed, "serve", con+" handler once", e.Pos, "the handler is given the rpc twice", pa)
			handed = true
		case rpcIs(e, "Serve"):
			c.Expect(false, "serve", con+" beside", e.Pos, "serving keeps the caller", pa)
			n++
		case e.Kind == EvGo:
			direct := strings.HasSuffix(e.Name, "grpc.Server).Serve")
			if e.GoFn == nil || len(e.GoFn.Blocks) == 0 || direct {
				if direct {
					n++
					c.Expect(handed, "serve", con+" order", e.Pos, "the server serves before its handler has the rpc", pa)
					c.Expect(e.Recv != nil && serverField(e.Recv, r.rpc) && len(e.Args) > 0 && serverField(e.Args[len(e.Args)-1], r.listen), "serve", con, e.Pos, "the server serves another listener than its own", pa)
				}
				continue
			}
			each := -1
			for _, xp := range c.WalkGo(w, e, opt).Paths {
				m := 0
				for _, x := range xp.Events {
					if !rpcIs(x, "Serve") {
						continue
					}
					m++
					c.Expect(handed, "serve", con+" order", x.Pos, "the server serves before its handler has the rpc", pa)
					c.Expect(w.resolves(pa, x.Recv, r.rpc), "serve", con+" rpc", x.Pos, "another rpc serves than the server's own", pa)
					c.Expect(len(x.Args) > 0 && w.resolves(pa, x.Args[len(x.Args)-1], r.listen), "serve", con, x.Pos, "the server serves another listener than its own", pa)
				}
				if each >= 0 && m != each {
					c.Expect(false, "serve", con+" always", e.Pos, "the server does not always serve", pa)
				}
				each = m
			}
			if each > 0 {
				n += each
			}
		}
	}
	if pa.Outcome == Returned {
		c.Expect(handed, "serve", con+" handed", fn.Pos(), "the handler is not given the rpc", pa)
		c.Expect(n == 1, "serve", con+" once", fn.Pos(), "the server serves never or more than once", pa)
	}
}

// resolves tells whether a term met in a goroutine is the server's own field.
func (w *Walk) resolves(pa *Path, t *Term, field string) bool {
	t = stripAll(t)
	return strings.HasSuffix(t.ID(), "."+field) || t.ID() == "$0."+field
}

func (c *Check) stopPath(r *serverRoles, fn *ssa.Function, pa *Path, con string, rpcIs func(*Event, string) bool) {
	graceful, hard := 0, 0
	pos := fn.Pos()
	for _, e := range pa.Events {
		if rpcIs(e, "GracefulStop") || rpcIs(e, "Stop") {
			pos = e.Pos
			c.Expect(serverField(e.Recv, r.rpc), "stop", con+" rpc", e.Pos, "another rpc is stopped than the server's own", pa)
			if rpcIs(e, "GracefulStop") {
				graceful++
			} else {
				hard++
			}
		}
	}
	set := -1
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t != nil && stripAll(t).ID() == "$0."+r.set+"."+r.graceful {
			set = 0
			if v {
				set = 1
			}
		}
	}
	switch set {
	case 1:
		c.Expect(graceful > 0, "stop", con+" graceful", pos, "the server is not stopped gracefully although it was configured to", pa)
		c.Expect(hard == 0, "stop", con+" cut", pos, "calls are cut off although the server was to stop gracefully", pa)
	case 0:
		c.Expect(hard > 0 && graceful == 0, "stop", con+" hard", pos, "the server is not stopped at once although it was not to wait", pa)
	default:
		c.Expect(false, "stop", con+" configured", pos, "how the server stops does not depend on its settings", pa)
	}
}

func (c *Check) buildPath(r *serverRoles, fn *ssa.Function, pa *Path, con string) {
	var set *Term // the settings the options were applied to
	last := -1
	for i, e := range pa.Events {
		if e.Kind == EvCall && e.Dynamic && len(e.Args) == 1 && strings.HasPrefix(e.Recv.ID(), "$0[") {
			if set == nil {
				set = e.Args[0]
			}
			c.Expect(sameID(set, e.Args[0]), "build", con+" settings", e.Pos, "options are applied to different settings", pa)
			last = i
		}
	}
	var rpc *Term
	for i, e := range pa.Events {
		if isCall(e, "google.golang.org/grpc.NewServer") {
			rpc = e.Res
			c.Expect(i > last, "build", con+" options", e.Pos, "an option is applied after the rpc was made", pa)
		}
	}
	without := false
	decided := false
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t != nil && t.Op == "bin" && t.S == "==" && len(t.Args) == 2 {
			for i := range t.Args {
				if strings.HasSuffix(trimVersion(stripAll(t.Args[i]).ID()), "."+r.handler) && t.Args[1-i].IsNilConst() {
					decided = true
					without = v
				}
			}
		}
	}
	if pa.Outcome == Panicked {
		c.Expect(without || set == nil || rpc != nil && pa.nil(rpc) == IsNil, "build", con+" refused", fn.Pos(), "a server is refused although it has a handler", pa)
	}
	if pa.Outcome != Returned {
		return
	}
	c.Expect(decided && !without, "build", con+" handler", fn.Pos(), "a server without a handler is built", pa)
	if len(pa.Ret) == 0 {
		return
	}
	vals := structVals(pa, pa.Ret[0])
	c.Expect(rpc != nil && vals[r.rpc] != nil && sameID(stripAll(vals[r.rpc]), rpc), "build", con+" rpc", fn.Pos(), "a built server has no rpc of its own", pa)
	v := vals[r.set]
	if !c.Expect(v != nil && !v.IsNilConst(), "build", con+" kept", fn.Pos(), "a built server does not keep its settings", pa) {
		return
	}
	if set != nil {
		base := strings.TrimPrefix(set.Strip().ID(), "&")
		c.Expect(strings.HasPrefix(trimVersion(strings.TrimPrefix(v.Strip().ID(), "&")), base), "build", con+" kept", fn.Pos(), "a built server keeps other settings than those its options were applied to", pa)
	}
}

func trimVersion(s string) string {
	if i := strings.LastIndex(s, "@"); i > 0 && strings.Trim(s[i+1:], "0123456789") == "" {
		return s[:i]
	}
	return s
}
