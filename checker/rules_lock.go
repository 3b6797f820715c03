package main

// Lock discipline of the whole module (L10).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L10", Run: runL10, Method: "path-sensitive lock typestate, may-block summaries over the call graph, lock-order graph",
		Expl:   "Every function of the module that locks or unlocks a mutex is followed on all its paths: a lock is released exactly once before the function ends and not taken again while held. At every event under a lock, the operation and everything it may call (statically, or through an interface of the module) is checked for channel waits, sleeps, wait-group waits and storage or network exchanges. The order in which locks of different kinds are taken while others are held must be acyclic.",
		Assume: []string{"option functions given to the framework do not block", "external packages other than the redis, mongo, grpc and network ones do not block"}})
}

type lockSummary struct {
	blocks   string // what it may block on, "" if nothing
	acquires map[*types.Var]token.Pos
}

type lockAnalysis struct {
	c    *Check
	sum  map[*ssa.Function]*lockSummary
	impl map[string][]*ssa.Function
}

func lockIns(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return ""
	}
	fn := ci.Common().StaticCallee()
	if fn == nil || fn.Object() == nil {
		return ""
	}
	return lockCall(fn.Object())
}

// lockField: the variable a lock instruction's mutex is kept in: a field or a global.
func lockVar(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldOfAddr(x)
	case *ssa.Global:
		o, _ := x.Object().(*types.Var)
		return o
	case *ssa.UnOp:
		return lockVar(x.X)
	}
	return nil
}

// storage and network packages
var exchangePkgs = []string{"github.com/redis/go-redis", "go.mongodb.org/mongo-driver", "google.golang.org/grpc", "net", "net/http", "database/sql", "os/exec"}

func exchange(o types.Object) string {
	fn, ok := o.(*types.Func)
	if !ok || fn.Pkg() == nil {
		return ""
	}
	path := fn.Pkg().Path()
	switch calleeName(fn) {
	case "time.Sleep":
		return "sleeps"
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		return "waits for others"
	}
	for _, p := range exchangePkgs {
		if path != p && !strings.HasPrefix(path, p+"/") {
			continue
		}
		sig := fn.Type().(*types.Signature)
		takesCtx := sig.Params().Len() > 0 && typeIs(sig.Params().At(0).Type(), "context.Context")
		switch {
		case strings.HasPrefix(fn.Name(), "With"), strings.HasPrefix(fn.Name(), "New") && !takesCtx:
			return ""
		case strings.HasPrefix(path, "google.golang.org/grpc/"):
			// interceptors, metadata, status and the like do not exchange anything
			return ""
		case takesCtx || strings.HasPrefix(fn.Name(), "Dial") || fn.Name() == "Listen" || fn.Name() == "Serve" || fn.Name() == "GracefulStop":
			return "exchanges with " + path
		}
	}
	return ""
}

func (a *lockAnalysis) implementers(m *types.Func) []*ssa.Function {
	key := m.FullName()
	if r, ok := a.impl[key]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if it, ok := recv.Type().Underlying().(*types.Interface); ok {
			for _, rel := range sortedPkgs(a.c.P) {
				for _, n := range a.c.P.namedIn(rel) {
					if types.IsInterface(n) || n.TypeParams().Len() > 0 {
						continue
					}
					if types.Implements(types.NewPointer(n), it) {
						if fn := a.c.P.MethodN(n, m.Name()); fn != nil && len(fn.Blocks) > 0 {
							out = append(out, fn)
						}
					}
				}
			}
		}
	}
	a.impl[key] = out
	return out
}

func sortedPkgs(p *Prog) []string {
	var r []string
	for k := range p.Pkgs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// of: what a function may block on and which locks it may take, itself or through what it calls.
func (a *lockAnalysis) of(fn *ssa.Function) *lockSummary {
	if s, ok := a.sum[fn]; ok {
		return s
	}
	s := &lockSummary{acquires: map[*types.Var]token.Pos{}}
	a.sum[fn] = s
	if !a.c.P.inModule(fn) {
		return s
	}
	join := func(x *lockSummary, via string) {
		if s.blocks == "" && x.blocks != "" {
			s.blocks = via + " " + x.blocks
			if strings.Count(s.blocks, ">") > 4 {
				s.blocks = x.blocks
			}
		}
		for v, p := range x.acquires {
			if _, ok := s.acquires[v]; !ok {
				s.acquires[v] = p
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if s.blocks == "" {
					s.blocks = "sends on a channel"
				}
			case *ssa.Select:
				if x.Blocking && s.blocks == "" {
					s.blocks = "waits for channels"
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && s.blocks == "" {
					s.blocks = "waits for a channel"
				}
			case *ssa.Call, *ssa.Defer:
				ci := in.(ssa.CallInstruction)
				if op := lockIns(in); op == "Lock" || op == "RLock" {
					if v := lockVar(ci.Common().Args[0]); v != nil {
						s.acquires[v] = in.Pos()
					}
					continue
				}
				var o types.Object
				if ci.Common().IsInvoke() {
					o = ci.Common().Method
					for _, im := range a.implementers(ci.Common().Method) {
						join(a.of(im), fnName(im)+" >")
					}
				} else if cal := ci.Common().StaticCallee(); cal != nil {
					o = cal.Object()
					if a.c.P.inModule(cal) {
						join(a.of(cal), fnName(cal)+" >")
						continue
					}
				} else if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
					join(a.of(mc.Fn.(*ssa.Function)), "a closure >")
				}
				if o != nil {
					if ex := exchange(o); ex != "" && s.blocks == "" {
						s.blocks = ex
					}
				}
			}
		}
	}
	return s
}

func runL10(c *Check) {
	c.Rule("released", "a lock is released exactly once before the function that took it ends")
	c.Rule("held", "only a lock that is held is released, and in the way it was taken")
	c.Rule("again", "a lock is not taken while it is already held")
	c.Rule("blocked", "nothing waits, sleeps or exchanges data with storage or the network under a lock")
	c.Rule("callback", "no function given by the application runs under a lock")
	c.Rule("order", "locks of different kinds are taken in one order")
	p := c.P
	a := &lockAnalysis{c: c, sum: map[*ssa.Function]*lockSummary{}, impl: map[string][]*ssa.Function{}}
	var todo []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if lockIns(in) != "" && !seen[fn] {
					seen[fn] = true
					todo = append(todo, fn)
				}
			}
		}
	}
	c.Expect(len(todo) > 20, "released", "functions that lock", token.NoPos, "undecided: fewer functions lock than expected", nil)
	edges := map[*types.Var]map[*types.Var]token.Pos{}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		con := fnName(fn)
		w := c.Walk(fn, WalkOpts{LoopBound: c.LB(2), MaxPaths: 30000})
		// a helper that leaves a lock to its callers is decided in those
		up := c.lockCallers(fn)
		leaves := false
		for _, pa := range w.Paths {
			if pa.Outcome == Returned && len(pa.St.locks) > 0 {
				leaves = true
			}
			for _, e := range pa.Events {
				if e.Kind == EvUnlock && !e.Ok {
					leaves = true
				}
			}
		}
		if leaves && len(up) > 0 {
			for _, f := range up {
				if !seen[f] {
					seen[f] = true
					todo = append(todo, f)
				}
			}
			continue
		}
		for _, pa := range w.Paths {
			c.balanced("released", con, pa)
			vars := map[string]*types.Var{}
			for _, e := range pa.Events {
				switch e.Kind {
				case EvUnlock:
					c.Expect(e.Ok, "held", con, e.Pos, "a lock is released that is not held, or in another way than it was taken", pa)
					continue
				case EvLock:
					id := e.Recv.ID()
					for _, h := range e.Locks {
						if h.Lock == id {
							c.Expect(false, "again", con, e.Pos, "the lock "+id+" is taken while it is held", pa)
						}
					}
					c.Ob("again", con, e.Pos)
					v := fieldVar(e.Recv)
					if v == nil {
						if g := e.Recv.Strip(); g.Obj != nil {
							v, _ = g.Obj.(*types.Var)
						}
					}
					if v != nil {
						vars[id] = v
						for _, h := range e.Locks {
							if o := vars[h.Lock]; o != nil {
								edge(edges, o, v, e.Pos)
							}
						}
					}
					continue
				}
				if len(e.Locks) == 0 {
					continue
				}
				why := ""
				switch {
				case e.Kind == EvSend:
					why = "sends on a channel"
				case e.Kind == EvRecv:
					why = "waits for a channel"
				case e.Kind == EvSelect && e.Blocking:
					why = "waits for channels"
				case e.Kind == EvCall:
					if e.Obj != nil {
						why = exchange(e.Obj)
					}
					var cals []*ssa.Function
					if e.GoFn != nil {
						cals = append(cals, e.GoFn)
					} else if m, ok := e.Obj.(*types.Func); ok && e.Invoke {
						cals = a.implementers(m)
					}
					for _, f := range cals {
						s := a.of(f)
						if why == "" && s.blocks != "" {
							why = fnName(f) + " > " + s.blocks
						}
						for v, pos := range s.acquires {
							for _, h := range e.Locks {
								if o := vars[h.Lock]; o != nil {
									edge(edges, o, v, pos)
								}
							}
						}
					}
				default:
					continue
				}
				if e.Kind == EvCall && e.Dynamic && e.GoFn == nil && !p.isOptionCall(e) {
					c.Expect(false, "callback", con+" "+lastPart(e), e.Pos, "a function value is called under "+heldNames(e), pa)
				} else {
					c.Ob("callback", con, e.Pos)
				}
				if why == "" {
					c.Ob("blocked", con, e.Pos)
					continue
				}
				c.Expect(c.onPurpose(fn, e, why), "blocked", con+" "+lastPart(e), e.Pos, "under "+heldNames(e)+": "+why, pa)
			}
		}
	}
	// cycles
	names := func(v *types.Var) string { return lockName(v) }
	var vs []*types.Var
	for v := range edges {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return names(vs[i]) < names(vs[j]) })
	for _, v := range vs {
		for u := range edges[v] {
			c.Ob("order", names(v)+" before "+names(u), edges[v][u])
		}
		if path := lockCycle(edges, v); path != nil {
			var s []string
			for _, x := range path {
				s = append(s, names(x))
			}
			c.Expect(false, "order", names(v), edges[v][path[1]], "locks are taken in a circle: "+strings.Join(s, ", then "), nil)
		}
	}
	c.Min("released", 25)
	c.Min("again", 25)
}

func heldNames(e *Event) string {
	var r []string
	for _, h := range e.Locks {
		r = append(r, h.Lock)
	}
	return strings.Join(r, ", ")
}

func (p *Prog) isOptionCall(e *Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	t, _ := p.optionType(ci.Common().Value.Type())
	return t != nil
}

func lastPart(e *Event) string {
	n := e.Name
	if n == "" {
		n = kindNames[e.Kind]
	}
	return n[strings.LastIndex(n, "/")+1:]
}

func lockName(v *types.Var) string {
	if v.Pkg() == nil {
		return v.Name()
	}
	return v.Pkg().Name() + "." + v.Name()
}

func edge(edges map[*types.Var]map[*types.Var]token.Pos, a, b *types.Var, pos token.Pos) {
	if edges[a] == nil {
		edges[a] = map[*types.Var]token.Pos{}
	}
	if _, ok := edges[a][b]; !ok {
		edges[a][b] = pos
	}
}

func lockCycle(edges map[*types.Var]map[*types.Var]token.Pos, from *types.Var) []*types.Var {
	var path []*types.Var
	seen := map[*types.Var]bool{}
	var visit func(v *types.Var) bool
	visit = func(v *types.Var) bool {
		path = append(path, v)
		var next []*types.Var
		for u := range edges[v] {
			next = append(next, u)
		}
		sort.Slice(next, func(i, j int) bool { return next[i].Pos() < next[j].Pos() })
		for _, u := range next {
			if u == from {
				path = append(path, u)
				return true
			}
			if !seen[u] {
				seen[u] = true
				if visit(u) {
					return true
				}
			}
		}
		path = path[:len(path)-1]
		return false
	}
	if visit(from) {
		return path
	}
	return nil
}

// lockCallers: the callers of a function that is only called directly, if it has any.
func (c *Check) lockCallers(fn *ssa.Function) []*ssa.Function {
	if fn.Parent() != nil {
		if closureEscapes(fn) {
			return nil
		}
	} else if o := fn.Object(); o == nil || o.Exported() || len(c.P.valueUses()[fn]) > 0 {
		return nil
	}
	var r []*ssa.Function
	for _, cs := range c.P.callersOf()[fn] {
		if _, isGo := cs.Ins.(*ssa.Go); isGo {
			return nil
		}
		r = append(r, cs.Caller)
	}
	return r
}

// onPurpose: the creation of topics and subscriptions is serialised on purpose.
func (c *Check) onPurpose(fn *ssa.Function, e *Event, why string) bool {
	return relPkg(fn) == "lib/pubsub" && strings.Contains(why, "redis")
}
