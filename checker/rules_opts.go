package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L05", Run: runL05, Method: "path-sensitive provenance analysis from every option function to the place its setting takes effect",
		Expl: "Every exported option is followed: its value is decided to be stored in one setting that no other option uses, every constructor that takes options to run all of them in order on a configuration of its own, and the setting to reach the library call, branch or field it configures. Settings that nothing reads are reported."})
}

// option is an exported function that returns a configuration function.
type option struct {
	fn   *ssa.Function
	typ  *types.Named // the configuration function's type
	conf *types.Named // what it configures
	flds []*types.Var // settings stored, outermost last
	path []string     // path of the first setting
}

func (o *option) name() string { return fnName(o.fn) }

// optionType: a named function type that takes a pointer to a struct of the module.
func (p *Prog) optionType(t types.Type) (*types.Named, *types.Named) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inScope(n.Obj().Pkg().Path()) {
		return nil, nil
	}
	sig, ok := n.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() > 1 || sig.Results().Len() == 1 && !isErr(sig.Results().At(0).Type()) {
		return nil, nil
	}
	ptr, ok := sig.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	c, ok := ptr.Elem().(*types.Named)
	if !ok || structOf(c) == nil || !inScope(c.Obj().Pkg().Path()) {
		return nil, nil
	}
	return n, c
}

func (p *Prog) options() []*option {
	var out []*option
	for _, fn := range p.Fns {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || len(fn.Blocks) == 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 {
			continue
		}
		if t, conf := p.optionType(rs.At(0).Type()); t != nil {
			out = append(out, &option{fn: fn, typ: t, conf: conf})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name() < out[j].name() })
	return out
}

// fieldPathVars: the fields of an access path, outermost first.
func fieldPathVars(t *Term) (root *Term, vs []*types.Var) {
	for t != nil {
		s := t.Strip()
		switch {
		case (s.Op == "field" || s.Op == "fieldval") && len(s.Args) > 0:
			vs = append([]*types.Var{fieldVar(s)}, vs...)
			t = s.Args[0]
		case s.Op == "load" && len(s.Args) > 0:
			t = s.Args[0]
		default:
			return s, vs
		}
	}
	return nil, vs
}

func runL05(c *Check) {
	c.Rule("stores", "an option stores the values given, unchanged, on every path")
	c.Rule("adds", "an option of a list adds to what was configured before")
	c.Rule("own", "no two options store the same setting")
	c.Rule("read", "a setting is read by the component it configures")
	c.Rule("applied", "a function that takes options runs all of them, in the order given")
	c.Rule("defaults", "options are run on a configuration of the instance's own")
	c.Rule("effect", "a setting reaches the call, branch or field it configures")
	opts := c.P.options()
	byName := map[string]*option{}
	for _, o := range opts {
		c.optionStores(o)
		byName[o.name()] = o
	}
	// own
	users := map[string][]*option{}
	for _, o := range opts {
		if len(o.flds) == 1 && len(o.fn.Params) <= 1 {
			k := o.typ.String() + " " + strings.Join(o.path, ".")
			users[k] = append(users[k], o)
		}
	}
	for _, os := range users {
		for i, o := range os {
			c.Expect(i == 0, "own", o.name(), o.fn.Pos(), "another option stores the same setting", nil)
		}
	}
	reads := c.settingReads()
	for _, o := range opts {
		for _, f := range o.flds {
			if inScopeObj(f) {
				c.Expect(reads[f], "read", o.name(), o.fn.Pos(), "nothing reads the setting, the option has no effect", nil)
			}
		}
	}
	// constructors
	for _, fn := range c.P.Fns {
		if c.P.takesOptions(fn) {
			c.applied(fn)
		}
	}
	c.effects(byName)
	c.Min("stores", 30)
	c.Min("applied", 8)
	c.Min("read", 25)
	c.Min("effect", 30)
}

// keepsList: the list stored starts with what the setting held, unless it was found to be empty.
func keepsList(pa *Path, e *Event) bool {
	f := fieldVar(e.Recv)
	v := e.Val.Strip()
	for v.Op == "append" && len(v.Args) > 0 {
		v = v.Args[0].Strip()
	}
	if v.Op == "load" && fieldVar(v) == f {
		return true
	}
	return lenZero(pa, f) == 1
}

// takesOptions: the function's last parameter is a list of options.
func (p *Prog) takesOptions(fn *ssa.Function) bool {
	if fn.Object() == nil || len(fn.Blocks) == 0 || !fn.Signature.Variadic() || fn.Parent() != nil {
		return false
	}
	sl, ok := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().(*types.Slice)
	if !ok {
		return false
	}
	if t, _ := p.optionType(sl.Elem()); t != nil {
		return true
	}
	// among other things
	if i, ok := sl.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		return p.sorts(fn, map[*ssa.Function]bool{})
	}
	return false
}

// sorts: the function, or a part of it, tells options from other values.
func (p *Prog) sorts(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.TypeAssert); ok {
				if t, _ := p.optionType(a.AssertedType); t != nil {
					return true
				}
			}
			if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && p.private(ci.Call.StaticCallee()) && p.sorts(ci.Call.StaticCallee(), seen) {
				return true
			}
		}
	}
	return false
}

// notOption: the path found the n-th value given to be something else than an option.
func notOption(pa *Path, opts *Term, n int) bool {
	for k, v := range pa.St.assume {
		if t := pa.St.terms[k]; !v && t != nil && strings.HasPrefix(k, "is:") && len(t.Args) > 0 {
			if i, ok := indexIn(t.Args[0], opts); ok && i == n {
				return true
			}
		}
	}
	return false
}

// indexIn: the position of an element of the list.
func indexIn(t, list *Term) (int, bool) {
	if t == nil {
		return 0, false
	}
	r := t.Strip()
	for r.Op == "load" {
		r = r.Args[0].Strip()
	}
	if r.Op != "index" && r.Op != "indexval" || r.Args[0].Strip().ID() != list.ID() {
		return 0, false
	}
	k, ok := r.Args[1].IntConst()
	if !ok {
		return -1, true
	}
	return int(k), true
}

// optionStores decides the configuration function of one option and finds its settings.
func (c *Check) optionStores(o *option) {
	con := o.name()
	ex := []string{relPkg(o.fn)}
	fw := c.Walk(o.fn, WalkOpts{Extra: ex, NoIgnore: true})
	for _, pa := range fw.Paths {
		if pa.Outcome != Returned {
			continue
		}
		w := c.walkValue(fw, pa, pa.Ret[0], WalkOpts{LoopBound: 3, Extra: ex, NoIgnore: true})
		if w == nil {
			c.Expect(false, "stores", con, o.fn.Pos(), "the option cannot be followed", pa)
			continue
		}
		conf := "$p0"
		var params []*Term
		for i := range o.fn.Params {
			params = append(params, tParam(o.fn, i))
		}
		seen := map[*types.Var]bool{}
		for _, cp := range w.Paths {
			if cp.Outcome != Returned {
				continue
			}
			used := map[string]bool{}
			n := 0
			for i, e := range cp.Events {
				if e.Kind != EvStore {
					continue
				}
				r, vs := fieldPathVars(e.Recv)
				if r == nil || r.ID() != conf {
					continue
				}
				n++
				if len(vs) > 0 {
					f := vs[len(vs)-1]
					if !seen[f] {
						seen[f] = true
						o.flds = append(o.flds, f)
						if o.path == nil {
							for _, v := range vs {
								o.path = append(o.path, v.Name())
							}
						}
					}
				}
				ok := faithful(w, cp, i, e.Val, e.Recv, params, used)
				c.Expect(ok, "stores", con, e.Pos, "another value is stored than the one given", cp)
				if f := fieldVar(e.Recv); ok && f != nil {
					if _, list := f.Type().Underlying().(*types.Slice); list {
						c.Expect(keepsList(cp, e), "adds", con, e.Pos, "what was configured before is dropped", cp)
					}
				}
			}
			if n == 0 {
				c.Expect(existing(cp, params) || emptyGiven(cp, params), "stores", con+" dropped", o.fn.Pos(), "the value given is dropped", cp)
				continue
			}
			for _, p := range params {
				c.Expect(used[p.ID()], "stores", con+" unused", o.fn.Pos(), "a value given is not stored", cp)
			}
		}
		c.Expect(len(o.flds) > 0, "stores", con+" none", o.fn.Pos(), "the option stores nothing", pa)
	}
}

// faithful: the value stored is what was given: the parameter, converted or scaled, appended, or parsed whole.
func faithful(w *Walk, pa *Path, at int, v, cell *Term, params []*Term, used map[string]bool) bool {
	s := stripAll(v)
	for _, p := range params {
		if s.ID() == p.ID() {
			used[p.ID()] = true
			return true
		}
	}
	switch s.Op {
	case "const":
		return len(params) == 0
	case "bin":
		if s.S != "*" || len(s.Args) != 2 {
			return false
		}
		for i, a := range s.Args {
			if n, ok := stripAll(s.Args[1-i]).IntConst(); ok && n > 0 {
				return faithful(w, pa, at, a, cell, params, used)
			}
		}
		return false
	case "append":
		if len(s.Args) < 2 {
			return false
		}
		// onto what is there
		if b := s.Args[0].Strip(); b.Op != "append" && (b.Op != "load" && fieldVar(b) == nil || fieldVar(b) != fieldVar(cell)) {
			return false
		} else if b.Op == "append" && !faithful(w, pa, at, b, cell, params, used) {
			return false
		}
		for _, a := range s.Args[1:] {
			x := a.Strip()
			if x.Op == "list" {
				for _, y := range x.Args {
					if !faithful(w, pa, at, y, cell, params, used) {
						return false
					}
				}
				continue
			}
			if !faithful(w, pa, at, x, cell, params, used) {
				return false
			}
		}
		return true
	case "index", "indexval":
		// the elements of a list, up to its end
		if k, ok := s.Args[1].IntConst(); ok && !endOf(pa, s.Args[0], int(k)+1) {
			if !moreRead(pa, s.Args[0], int(k)+1) {
				return false
			}
		}
		return faithful(w, pa, at, s.Args[0], cell, params, used)
	}
	// parsed: the result of a call on the parameter
	for _, e := range pa.Events[:at] {
		if e.Kind == EvCall && e.Res != nil && !e.Dynamic && s.Mentions(e.Res.ID()) {
			for _, a := range e.Args {
				if faithful(w, pa, at, a, cell, params, used) {
					return true
				}
			}
		}
	}
	if strings.HasPrefix(s.Op, "load") && len(s.Args) > 0 {
		return faithful(w, pa, at, s.Args[0], cell, params, used)
	}
	return false
}

// moreRead: the path goes on to read the list's next element.
func moreRead(pa *Path, list *Term, n int) bool {
	id := stripAll(list).ID()
	for _, e := range pa.Events {
		if e.Kind == EvIndex && e.Recv != nil && stripAll(e.Recv).ID() == id {
			if k, ok := e.Args[0].IntConst(); ok && int(k) == n {
				return true
			}
		}
	}
	return false
}

// wholeList: a list setting is used whole, or all its elements are.
func wholeList(pa *Path, t *Term, f *types.Var) bool {
	if _, ok := f.Type().Underlying().(*types.Slice); !ok {
		return true
	}
	whole := false
	max := -1
	var list *Term
	var look func(x *Term, within bool)
	look = func(x *Term, within bool) {
		if x == nil {
			return
		}
		if fieldVar(x) == f {
			whole = whole || !within
			if within {
				list = x
			}
			return
		}
		for i, a := range x.Args {
			in := within || (x.Op == "index" || x.Op == "indexval" || x.Op == "slice") && i == 0
			if in && fieldVar(a) == f && len(x.Args) > 1 {
				if k, ok := x.Args[1].IntConst(); ok && int(k) > max && x.Op != "slice" {
					max = int(k)
				}
			}
			look(a, in)
		}
	}
	look(t, false)
	return whole || list != nil && max >= 0 && endOf(pa, list, max+1)
}

// existing: the path decided that the value given is there already, as a whole.
func existing(pa *Path, params []*Term) bool {
	for _, e := range pa.Events {
		if e.Kind != EvBranch || !e.Ok || e.Val.Op != "bin" || e.Val.S != "==" {
			continue
		}
		for _, p := range params {
			for i, a := range e.Val.Args {
				if stripAll(a).ID() == p.ID() && e.Val.Args[1-i].Strip().Op != "const" {
					return true
				}
			}
		}
	}
	return false
}

// emptyGiven: no values were given.
func emptyGiven(pa *Path, params []*Term) bool {
	for _, p := range params {
		if endOf(pa, p, 0) {
			return true
		}
	}
	return false
}

// settingReads: struct fields of the module that are read somewhere other than by option functions.
func (c *Check) settingReads() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	isOpt := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
			if rs := fn.Signature.Results(); rs.Len() == 1 {
				if t, _ := c.P.optionType(rs.At(0).Type()); t != nil {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range c.P.Fns {
		if isOpt(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Field:
					if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
						out[s.Field(x.Field)] = true
					}
				case *ssa.FieldAddr:
					for _, r := range *x.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == x {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						out[fieldOfAddr(x)] = true
					}
				}
			}
		}
	}
	return out
}

// applied decides a function that takes options.
// roleName: what a function is known as outside its package.
func (c *Check) roleName(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil {
		return fnName(fn)
	}
	t := fn.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Exported() {
		return fnName(fn)
	}
	for _, rel := range sortedPkgs(c.P) {
		pkg := c.P.Pkg(rel)
		if pkg == nil {
			continue
		}
		for _, name := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || !tn.Exported() {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(types.NewPointer(n), it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() {
					return "the " + rel + "." + name + " of " + relPkg(fn) + ", " + fn.Name()
				}
			}
		}
	}
	return fnName(fn)
}

func (c *Check) applied(fn *ssa.Function) {
	con := c.roleName(fn)
	if es := c.P.Entries([]*ssa.Function{fn}); c.P.private(fn) && len(es) == 1 && c.P.takesOptions(es[0]) {
		con = c.roleName(es[0]) // a part of it
	}
	n := len(fn.Params) - 1
	opts := &Term{Op: "param", S: "$" + strconv.Itoa(n)}
	w := c.Walk(fn, WalkOpts{LoopBound: 3, Extra: []string{relPkg(fn)}, NoIgnore: true, MaxPaths: 3000})
	var follow func(w *Walk, pa *Path, depth int) bool
	done := func(pa *Path) (bool, bool) {
		i := 0
		var cell string
		ran := false
		for _, e := range pa.Events {
			if e.Kind != EvCall && e.Kind != EvEnter {
				continue
			}
			if e.Dynamic && e.Recv != nil {
				if k, ok := indexIn(e.Recv, opts); ok {
					ran = true
					for k > i && notOption(pa, opts, i) {
						i++
					}
					if k != i {
						return false, true
					}
					i++
					if len(e.Args) != 1 {
						return false, true
					}
					a := e.Args[0].Strip()
					if cell != "" && cell != a.ID() {
						return false, true
					}
					cell = a.ID()
					root, _ := a.FieldPath()
					root = stripAll(root)
					c.Expect(root.Op != "global" && !strings.HasPrefix(root.ID(), "&") || localCell(root), "defaults", con, e.Pos, "options are run on a configuration shared with other instances", pa)
				}
				continue
			}
			for _, a := range e.Args {
				// all of them are handed on
				if a.Strip().ID() == opts.ID() {
					return true, true
				}
			}
		}
		for notOption(pa, opts, i) {
			i++
		}
		return endOf(pa, opts, i), ran
	}
	follow = func(w *Walk, pa *Path, depth int) bool {
		if pa.Outcome == Returned && len(pa.Ret) > 0 && isErr(fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type()) && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil {
			return true // refused
		}
		if ok, ran := done(pa); ok || ran {
			return ok
		}
		if depth > 1 {
			return false
		}
		// by the function that is returned
		for _, r := range pa.Ret {
			if _, isFn := r.T.(*types.Signature); r.T != nil && !isFn {
				if _, isFn = r.T.Underlying().(*types.Signature); !isFn {
					continue
				}
			}
			gw := c.walkValue(w, pa, r, WalkOpts{LoopBound: 3})
			if gw == nil {
				continue
			}
			good := len(gw.Paths) > 0
			for _, gp := range gw.Paths {
				if gp.Outcome == Cut {
					continue
				}
				last := len(gp.Ret) - 1
				if last >= 0 && gp.nil(gp.Ret[last]) == NonNil && isErr(gw.root.Signature.Results().At(last).Type()) {
					continue
				}
				good = good && follow(gw, gp, depth+1)
			}
			return good
		}
		return false
	}
	for _, pa := range w.Paths {
		if pa.Outcome != Returned {
			continue
		}
		for _, e := range pa.Events {
			if _, ok := indexIn(e.Recv, opts); ok && e.Kind == EvCall && e.Dynamic && e.Res != nil && e.Res.T != nil && isErr(e.Res.T) && pa.nil(e.Res) != IsNil {
				last := pa.Ret[len(pa.Ret)-1]
				c.Expect(isErr(last.T) && pa.nil(last) == NonNil || last.Strip().ID() == e.Res.Strip().ID(), "applied", con+" error", e.Pos, "an option's error is swallowed", pa)
			}
		}
		// something that is done only once, or only if it is not there yet
		if !dynamicCalls(pa) && skipped(pa) {
			continue
		}
		c.Expect(follow(w, pa, 0), "applied", con, fn.Pos(), "options given are not applied, all of them and in order", pa)
	}
}

// skipped: the path found that there is nothing to configure: done before, or already there.
func skipped(pa *Path) bool {
	for k, v := range pa.St.assume {
		if v && strings.Contains(k, "oncedone#") {
			return true
		}
		if t := pa.St.terms[k]; v && t != nil && t.Op == "has" {
			return true
		}
	}
	for _, e := range pa.Events {
		if e.Kind == EvLookup && e.Res != nil && pa.nil(e.Res) == NonNil {
			return true
		}
	}
	return false
}

func localCell(t *Term) bool {
	return t.Op == "alloc" || t.Op == "addr" && len(t.Args) > 0 && t.Args[0].Op == "alloc" || t.Op == "param" || strings.Contains(t.ID(), "@")
}

// ---------------------------------------------------------------- effects

// A sink is a call the value of a setting has to reach.
type sink struct {
	opt    string // option, package-relative
	entry  string // function or Type.Method the call is made from
	callee string // suffix of the callee's name
	arg    int    // -1: the receiver
	how    string // "is": the argument is the setting; "in": it is part of it, or is made of its elements
}

func (c *Check) effects(by map[string]*option) {
	sinks := []sink{
		{"lib/grpc.WithClientConns", "Client.Init", "", 1, "dial"},
		{"lib/grpc.WithDialOptions", "Client.Init", "", 2, "dial all"},
		{"lib/grpc.WithDialOptions", "Client.CallWait", "", 2, "dial all"},
		{"lib/grpc.WithServerListen", "Server.Init", "net.Listen", 1, "is"},
		{"lib/pubsub.WithReadMode", "Topic.Sub", "3rd/redis.XGroupCreate", 3, "is"},
		{"lib/pubsub.WithTTL", "Pubsub.CreateTopic", "3rd/redis.Expire", 2, "is"},
		{"lib/log.WithLevel", "NewLogger", "zapcore.NewCore", 2, "is"},
		{"lib/log.WithEncoderConf", "NewLogger", "zapcore.NewJSONEncoder", 0, "is"},
		{"lib/log.WithCallerSkip", "NewLogger", "zap.AddCallerSkip", 0, "is"},
		{"lib/log.WithGlobPattern", "NewLogger", "file-rotatelogs.New", 0, "is"},
		{"lib/log.WithLinkName", "NewLogger", "file-rotatelogs.WithLinkName", 0, "is"},
		{"lib/log.WithRotationSize", "NewLogger", "file-rotatelogs.WithRotationSize", 0, "is"},
		{"lib/log.WithRotationTime", "NewLogger", "file-rotatelogs.WithRotationTime", 0, "is"},
		{"lib/log.WithMaxAge", "NewLogger", "file-rotatelogs.WithMaxAge", 0, "is"},
		{"lib/log.WithRotationCount", "NewLogger", "file-rotatelogs.WithRotationCount", 0, "is"},
		{"lib/tracer.WithHTTP", "BuildWithOption", "transport.NewHTTPTransport", 0, "is"},
		{"lib/tracer.WithUDP", "BuildWithOption", "jaeger-client-go.NewUDPTransport", 0, "is"},
		{"3rd/mgo.WithConnTimeout", "Build", "ClientOptions).SetConnectTimeout", 0, "is"},
		{"3rd/mgo.WithConnPoolSize", "Build", "ClientOptions).SetMaxPoolSize", 0, "is"},
		{"3rd/mgo.AppendConn", "Build", "ClientOptions).ApplyURI", 0, "in"},
		{"core.NodeWithLoader", "core/node:process.Init", "IActorLoader).AssignToNode", -1, "is"},
	}
	walks := map[string]*Walk{}
	walk := func(fn *ssa.Function) *Walk {
		if w := walks[fn.String()]; w != nil {
			return w
		}
		bound := 2
		if c.P.takesOptions(fn) {
			bound = 3
		}
		w := c.Walk(fn, WalkOpts{LoopBound: bound, Extra: []string{relPkg(fn)}, NoIgnore: true, MaxPaths: 3000})
		walks[fn.String()] = w
		return w
	}
	entry := func(rel, name string) *ssa.Function {
		if i := strings.Index(name, ":"); i >= 0 {
			rel, name = name[:i], name[i+1:]
		}
		if i := strings.Index(name, "."); i >= 0 {
			if name[:i] == "process" {
				for _, n := range c.P.Implementers("core", "INode") {
					return c.P.MethodN(n, name[i+1:])
				}
			}
			return c.P.Method(rel, name[:i], name[i+1:])
		}
		return c.P.Func(rel, name)
	}
	setting := func(name string) *types.Var {
		o := by[name]
		if o == nil || len(o.flds) == 0 {
			c.Missing("option " + name)
			return nil
		}
		return o.flds[0]
	}
	for _, s := range sinks {
		f := setting(s.opt)
		rel := s.opt[:strings.LastIndex(s.opt, ".")]
		fn := entry(rel, s.entry)
		if f == nil || !c.Anchor(fn, s.entry) {
			continue
		}
		takes := c.P.takesOptions(fn)
		n := 0
		if takes {
			takes = false
			for _, pa := range walk(fn).Paths {
				takes = takes || dynamicCalls(pa)
			}
		}
		for _, pa := range walk(fn).Paths {
			if pa.Outcome == Cut {
				continue
			}
			// without options the defaults hold
			if takes && !dynamicCalls(pa) {
				continue
			}
			for ei, e := range pa.Events {
				if e.Kind != EvCall || e.Dynamic {
					continue
				}
				if strings.HasPrefix(s.how, "dial") && !isDial(e) || !strings.HasPrefix(s.how, "dial") && !strings.HasSuffix(e.Name, s.callee) {
					continue
				}
				var a *Term
				if s.arg < 0 {
					a = e.Recv
				} else if s.arg < len(e.Args) {
					a = e.Args[s.arg]
				}
				if a == nil {
					continue
				}
				n++
				has := a.Any(func(x *Term) bool { return fieldVar(x) == f })
				var ok bool
				switch {
				case s.how == "is":
					t := a.Strip()
					for _, x := range pa.Events[:ei] {
						// an adjustable level starts at the one given
						if x.Kind == EvCall && strings.HasSuffix(x.Name, "zap.NewAtomicLevelAt") && len(x.Args) == 1 && t.Mentions(x.Res.ID()) {
							t = x.Args[0].Strip()
						}
					}
					for t.Op == "conv" || t.Op == "iface" {
						t = t.Args[0].Strip()
					}
					ok = fieldVar(t) == f || t.Op == "load" && fieldVar(t.Args[0].Strip()) == f || copiedSetting(pa, ei, t, f) || c.builtFrom(pa, e, t, f)
				default:
					ok = has && (s.how != "dial all" || wholeList(pa, a, f)) || lenZeroAt(pa, ei, f) == 1
				}
				c.Expect(ok, "effect", s.opt, e.Pos, "the setting does not reach "+e.Name, pa)
			}
		}
		c.Expect(n > 0, "effect", s.opt+" used", fn.Pos(), "the setting is never put to use", nil)
	}
	c.serverEffects(setting)
	c.nodeEffects(setting, walk)
	c.logEffects(setting, walk)
	c.tracerEffects(setting, walk)
	c.redisEffects(by, walk)
	c.mongoEffects(setting, walk)
	c.spanEffects(setting)
	// stream interceptors, as R03 for the others
	c.chainedIn("effect", "BuildServerWithOption", c.P.Func(grpcPkg, "BuildServerWithOption"), "ServerAppendStreamInterceptors", "google.golang.org/grpc.StreamInterceptor", "ChainStreamServer", "google.golang.org/grpc.ChainStreamInterceptor")
	for _, fn := range c.P.Entries(c.P.FnsWith(func(in ssa.Instruction) bool {
		return insCalls(in, "google.golang.org/grpc.DialContext", "google.golang.org/grpc.Dial", "google.golang.org/grpc.NewClient")
	})) {
		if relPkg(fn) == grpcPkg {
			c.chainedIn("effect", fnName(fn), fn, "ClientAppendStreamInterceptors", "google.golang.org/grpc.WithStreamInterceptor", "ChainStreamClient", "google.golang.org/grpc.WithChainStreamInterceptor")
		}
	}
}

// builtFrom: the struct passed is a copy of the setting with fields replaced.
func (c *Check) builtFrom(pa *Path, at *Event, t *Term, f *types.Var) bool {
	r, _ := t.FieldPath()
	r = stripAll(r)
	for i, e := range pa.Events {
		if e == at {
			break
		}
		if e.Kind == EvStore && e.Recv.Strip().ID() == r.ID() {
			v := stripAll(e.Val)
			if fieldVar(v) == f || v.Op == "load" && fieldVar(v.Args[0].Strip()) == f {
				return true
			}
		}
		_ = i
	}
	return false
}

func (c *Check) serverEffects(setting func(string) *types.Var) {
	if f, fn := setting("lib/grpc.WithServerGracefulStop"), c.P.Method(grpcPkg, "Server", "Close"); f != nil && c.Anchor(fn, "Server.Close") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			stop, graceful := 0, 0
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.Server).GracefulStop") {
					graceful++
				} else if e.Kind == EvCall && strings.HasSuffix(e.Name, "grpc.Server).Stop") {
					stop++
				}
			}
			on := settingTruth(pa, f)
			c.Expect(on == 1 && graceful == 1 && stop == 0 || on == 0 && stop > 0, "effect", "lib/grpc.WithServerGracefulStop", fn.Pos(), "the server is not stopped the way configured", pa)
		}
	}
	if f, fn := setting("lib/grpc.ServerRegisterHandler"), c.P.Method(grpcPkg, "Server", "Run"); f != nil && c.Anchor(fn, "Server.Run") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			n := 0
			for _, e := range pa.Events {
				if e.Kind == EvCall && e.Dynamic && e.Recv != nil && fieldVar(e.Recv.Strip()) == f {
					n++
				}
				if e.Kind == EvGo {
					c.Expect(n == 1, "effect", "lib/grpc.ServerRegisterHandler", e.Pos, "the server serves without the handler registered", pa)
				}
			}
			c.Expect(n == 1, "effect", "lib/grpc.ServerRegisterHandler", fn.Pos(), "the handler is not registered exactly once", pa)
		}
	}
}

// settingTruth: what the path decided about a boolean setting.
func settingTruth(pa *Path, f *types.Var) int {
	for k, v := range pa.St.assume {
		if t := pa.St.terms[k]; t != nil && fieldVar(t.Strip()) == f {
			return b2i(v)
		}
	}
	return -1
}

func (c *Check) nodeEffects(setting func(string) *types.Var, walk func(*ssa.Function) *Walk) {
	fn := c.P.Func("core/node", "BuildProcessWithOption")
	if !c.Anchor(fn, "BuildProcessWithOption") {
		return
	}
	id, ip, port := setting("core.NodeWithID"), setting("core.NodeWithIP"), setting("core.NodeWithPort")
	load, fac, trac := setting("core.NodeWithLoader"), setting("core.NodeWithFactory"), setting("core.NodeWithTracer")
	if id == nil || ip == nil || port == nil || load == nil || fac == nil || trac == nil {
		return
	}
	info := c.P.Named("core", "AddressInfo")
	sys := c.P.Named("core/node", "NormalSystem")
	if info == nil || sys == nil {
		c.Missing("AddressInfo, NormalSystem")
		return
	}
	byType := func(v *types.Var) *types.Var {
		var f *types.Var
		s := structOf(sys)
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), v.Type()) {
				if _, named := v.Type().(*types.Named); named {
					f = s.Field(i)
				}
			}
		}
		return f
	}
	n := 0
	for _, pa := range walk(fn).Paths {
		if pa.Outcome != Returned || !dynamicCalls(pa) {
			continue
		}
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "addressbook.New") && len(e.Args) == 1 {
				n++
				m := structVals(pa, e.Args[0])
				for name, f := range map[string]*types.Var{"Node": id, "Ip": ip, "Port": port} {
					v := m[name]
					c.Expect(v != nil && fieldVar(stripAll(v)) == f, "effect", "core.Node"+name, e.Pos, "the node is not registered with its configured "+name, pa)
				}
			}
		}
		// the system keeps the loader, factory and tracer
		for _, f := range []*types.Var{load, fac, trac} {
			sf := byType(f)
			if sf == nil {
				c.Missing("NormalSystem's " + f.Name())
				continue
			}
			ok := false
			for _, e := range pa.Events {
				if e.Kind == EvStore && e.Recv.Op == "field" && fieldVar(e.Recv) == sf {
					ok = fieldVar(stripAll(e.Val)) == f
				}
			}
			c.Expect(ok, "effect", "core "+f.Name(), fn.Pos(), "the system does not get the configured "+f.Name(), pa)
		}
	}
	c.Expect(n > 0, "effect", "core.NodeWithID used", fn.Pos(), "no address book is made", nil)
	for _, impl := range c.P.Implementers("core", "INode") {
		m := c.P.MethodN(impl, "ID")
		if !c.Anchor(m, "ID") {
			continue
		}
		for _, pa := range c.Walk(m, WalkOpts{}).Paths {
			c.Expect(len(pa.Ret) == 1 && fieldVar(stripAll(pa.Ret[0])) == id, "effect", "core.NodeWithID", m.Pos(), "the node has another identifier than the configured one", pa)
		}
	}
}

func (c *Check) logEffects(setting func(string) *types.Var, walk func(*ssa.Function) *Walk) {
	fn := c.P.Func("lib/log", "NewLogger")
	std, pat, caller, cfn := setting("lib/log.WithOutStd"), setting("lib/log.WithGlobPattern"), setting("lib/log.WithCaller"), setting("lib/log.WithCallerFunc")
	if !c.Anchor(fn, "NewLogger") || std == nil || pat == nil || caller == nil || cfn == nil {
		return
	}
	for _, pa := range walk(fn).Paths {
		if pa.Outcome != Returned || !dynamicCalls(pa) || pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil {
			continue
		}
		var rotation, core, encoder *Event
		var enc int
		for i, e := range pa.Events {
			switch {
			case e.Kind != EvCall:
			case strings.HasSuffix(e.Name, "file-rotatelogs.New"):
				rotation = e
			case strings.HasSuffix(e.Name, "zapcore.NewCore"):
				core = e
			case strings.HasSuffix(e.Name, "zapcore.NewJSONEncoder"):
				encoder, enc = e, i
			}
		}
		if core == nil || encoder == nil || len(core.Args) != 3 {
			c.Expect(false, "effect", "lib/log.NewLogger core", fn.Pos(), "the logger has no output", pa)
			continue
		}
		// where it writes to
		toStd, toFile := false, false
		var sources func(t *Term, depth int)
		sources = func(t *Term, depth int) {
			s := stripAll(t)
			if depth > 6 {
				return
			}
			if s.Any(func(x *Term) bool { return x.Op == "global" && x.Obj != nil && x.Obj.Name() == "Stdout" }) {
				toStd = true
			}
			if rotation != nil && s.Mentions(rotation.Res.ID()) {
				toFile = true
			}
			for _, e := range pa.Events {
				if e.Kind == EvCall && e.Res != nil && strings.Contains(e.Name, "zapcore.") && s.Mentions(e.Res.ID()) && e != core {
					for _, a := range e.Args {
						if els, ok := (&Walk{}).elements(pa.St, a); ok {
							for _, x := range els {
								sources(x, depth+1)
							}
						}
						sources(a, depth+1)
					}
				}
			}
		}
		sources(core.Args[1], 0)
		named := emptyStrField(pa, pat)
		c.Expect(named == 1 && !toFile && rotation == nil && toStd || named == 0 && toFile, "effect", "lib/log.WithGlobPattern", core.Pos, "the log is not written to the configured file, and to the console if there is none", pa)
		if named == 0 {
			on := settingTruth(pa, std)
			c.Expect(on == 1 && toStd || on == 0 && !toStd, "effect", "lib/log.WithOutStd", core.Pos, "the console gets the log, or not, against the configuration", pa)
		}
		// callers
		adds := false
		for i, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "zap.AddCaller") {
				adds = true
			}
			if e.Kind == EvStore && i > enc && e.Recv.Op == "field" && typeIs(e.Recv.Args[0].T, "go.uber.org/zap/zapcore.EncoderConfig") {
				c.Expect(false, "effect", "lib/log.NewLogger encoder", e.Pos, "the encoder's configuration is changed after the encoder took its copy", pa)
			}
		}
		on := settingTruth(pa, caller)
		c.Expect(on == 1 && adds || on == 0 && !adds, "effect", "lib/log.WithCaller", core.Pos, "callers are logged, or not, against the configuration", pa)
		if on != 1 {
			continue
		}
		var format *Term
		for i, e := range pa.Events {
			if e.Kind == EvStore && i < enc && e.Recv.Op == "field" && e.Recv.S == "EncodeCaller" {
				format = e.Val
			}
		}
		with := 0
		if format != nil {
			if gw := c.walkValue(walk(fn), pa, format, WalkOpts{LoopBound: 3, Extra: []string{relPkg(fn)}, NoIgnore: true}); gw != nil {
				for _, gp := range gw.Paths {
					for _, e := range gp.Events {
						for _, a := range e.Args {
							if a.Any(func(x *Term) bool {
								return x.Op == "field" && x.S == "Function" || x.Op == "fieldval" && x.S == "Function"
							}) {
								with = 1
							}
						}
					}
				}
			}
		}
		c.Expect(settingTruth(pa, cfn) == with, "effect", "lib/log.WithCallerFunc", core.Pos, "functions are logged, or not, against the configuration", pa)
	}
}

// emptyStrField: whether the path decided that a string setting is empty.
func emptyStrField(pa *Path, f *types.Var) int {
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || t.S != "==" || len(t.Args) != 2 {
			continue
		}
		for i, a := range t.Args {
			if s, ok := t.Args[1-i].StrConst(); ok && s == "" && fieldVar(a.Strip()) == f {
				return b2i(v)
			}
		}
	}
	if n := lenZero(pa, f); n >= 0 {
		return n
	}
	return -1
}

func (c *Check) tracerEffects(setting func(string) *types.Var, walk func(*ssa.Function) *Walk) {
	fn := c.P.Func("lib/tracer", "BuildWithOption")
	name, prob, typ, facs := setting("lib/tracer.WithServiceName"), setting("lib/tracer.WithProbabilistic"), setting("lib/tracer.WithSamplerType"), setting("lib/tracer.WithSpanFactory")
	if !c.Anchor(fn, "tracer.BuildWithOption") || name == nil || prob == nil || typ == nil || facs == nil {
		return
	}
	is := func(t *Term, f *types.Var) bool { return t != nil && fieldVar(stripAll(t)) == f }
	for _, pa := range walk(fn).Paths {
		if pa.Outcome != Returned || !dynamicCalls(pa) {
			continue
		}
		n := 0
		for i, e := range pa.Events {
			if e.Kind != EvCall || !strings.HasSuffix(e.Name, "Configuration).NewTracer") || e.Recv == nil {
				continue
			}
			n++
			m := structVals(pa, e.Recv)
			c.Expect(is(m["ServiceName"], name), "effect", "lib/tracer.WithServiceName", e.Pos, "the tracer has another service name", pa)
			sam := m["Sampler"]
			ok := sam != nil && is(deepVal(pa, i, sam, "Type"), typ)
			c.Expect(ok, "effect", "lib/tracer.WithSamplerType", e.Pos, "the tracer has another sampler", pa)
			ok = sam != nil && is(deepVal(pa, i, sam, "Param"), prob)
			c.Expect(ok, "effect", "lib/tracer.WithProbabilistic", e.Pos, "the tracer samples at another rate", pa)
		}
		c.Expect(n == 1, "effect", "lib/tracer.BuildWithOption", fn.Pos(), "not exactly one tracer is built", pa)
		// the reporter's own sampler
		first := true
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "NewProbabilisticSampler") {
				if first {
					c.Expect(len(e.Args) == 1 && is(e.Args[0], prob), "effect", "lib/tracer.WithProbabilistic reporter", e.Pos, "the reporter samples at another rate", pa)
				}
				first = false
			}
		}
		// factories: each by its name, the first of a name
		i := 0
		for {
			item := elementOf(pa, facs, i)
			if item == nil {
				break
			}
			set := false
			dup := false
			for _, e := range pa.Events {
				if e.Kind == EvMapSet && hasElem(e.Args[0], facs, i) {
					set = hasElem(e.Val, facs, i)
				}
				if e.Kind == EvLookup && len(e.Args) > 0 && hasElem(e.Args[0], facs, i) {
					for k, v := range pa.St.assume {
						if t := pa.St.terms[k]; v && t != nil && t.Op == "has" && hasElem(t.Args[len(t.Args)-1], facs, i) {
							dup = true
						}
					}
				}
			}
			c.Expect(set || dup, "effect", "lib/tracer.WithSpanFactory", fn.Pos(), "a span factory is not registered", pa)
			i++
		}
	}
}

// elementOf: the n-th element of a list setting, if the path got to it.
func elementOf(pa *Path, f *types.Var, n int) *Term {
	for _, e := range pa.Events {
		if e.Kind == EvIndex && e.Recv != nil && fieldVar(e.Recv.Strip()) == f && len(e.Args) > 0 {
			if k, ok := e.Args[0].IntConst(); ok && int(k) == n {
				return e.Recv
			}
		}
	}
	return nil
}

func hasElem(t *Term, f *types.Var, n int) bool {
	return t != nil && t.Any(func(x *Term) bool {
		if x.Op != "index" || len(x.Args) < 2 || fieldVar(x.Args[0].Strip()) != f {
			return false
		}
		k, ok := x.Args[1].IntConst()
		return ok && int(k) == n
	})
}

func (c *Check) redisEffects(by map[string]*option, walk func(*ssa.Function) *Walk) {
	table := map[string]string{"WithDomain": "Addr", "WithUsername": "Username", "WithPassword": "Password", "WithReadTimeOut": "ReadTimeout", "WithWriteTimeOut": "WriteTimeout",
		"WithConnectTimeOut": "DialTimeout", "WithIdleTimeout": "ConnMaxIdleTime", "WithMaxIdle": "MaxIdleConns", "WithMinIdle": "MinIdleConns", "WithPoolSize": "PoolSize", "WithPoolTimeout": "PoolTimeout"}
	var conf *types.Var
	for n, want := range table {
		o := by["3rd/redis."+n]
		if o == nil || len(o.path) == 0 {
			c.Missing("option 3rd/redis." + n)
			continue
		}
		c.Expect(len(o.flds) == 1 && o.path[len(o.path)-1] == want, "effect", o.name(), o.fn.Pos(), "the option does not set "+want, nil)
	}
	o := by["3rd/redis.WithAddr"]
	if o == nil || len(o.flds) == 0 {
		c.Missing("option 3rd/redis.WithAddr")
		return
	}
	conf = o.flds[0]
	// an address is one setting among others
	c.Expect(!isOptionsStruct(conf), "own", o.name(), o.fn.Pos(), "the option replaces every other setting, the defaults and what was given before it", nil)
	fn := c.P.Func("3rd/redis", "BuildClientWithOption")
	if !c.Anchor(fn, "BuildClientWithOption") {
		return
	}
	for _, pa := range walk(fn).Paths {
		if pa.Outcome == Cut || !dynamicCalls(pa) {
			continue
		}
		var cell string
		n := 0
		for _, e := range pa.Events {
			if e.Kind == EvCall && e.Dynamic && len(e.Args) == 1 {
				cell = e.Args[0].Strip().ID()
			}
			if isCall(e, redisLib+".NewClient") && len(e.Args) == 1 {
				n++
				r, p := e.Args[0].Strip().FieldPath()
				ok := len(p) == 1 && isOptionsStruct(fieldVar(e.Args[0].Strip())) && stripAll(r).ID() == strings.TrimPrefix(cell, "") || strings.Contains(e.Args[0].ID(), strings.TrimPrefix(cell, "&"))
				c.Expect(ok, "effect", fnName(fn), e.Pos, "the client is made with another configuration than the one the options were run on", pa)
			}
		}
		c.Expect(n == 1, "effect", fnName(fn)+" client", fn.Pos(), "not exactly one client is made", pa)
	}
}

func isOptionsStruct(f *types.Var) bool { return f != nil && typeIs(f.Type(), redisLib+".Options") }

func (c *Check) mongoEffects(setting func(string) *types.Var, walk func(*ssa.Function) *Walk) {
	fn := c.P.Func("3rd/mgo", "Build")
	conns, trc := setting("3rd/mgo.AppendConn"), setting("3rd/mgo.WithTracer")
	if !c.Anchor(fn, "mgo.Build") || conns == nil || trc == nil {
		return
	}
	n := 0
	for _, pa := range walk(fn).Paths {
		if pa.Outcome != Returned || !dynamicCalls(pa) || skipped(pa) {
			continue
		}
		for i := 0; elementOf(pa, conns, i) != nil; i++ {

			n++
			var uri, set *Event
			var cli *Term
			for _, e := range pa.Events {
				switch {
				case e.Kind == EvCall && strings.HasSuffix(e.Name, "ClientOptions).ApplyURI") && hasElem(e.Args[0], conns, i):
					uri = e
				case e.Kind == EvCall && strings.HasSuffix(e.Name, "mongo.Connect") && uri != nil && cli == nil && len(e.Args) > 1 && e.Args[1].Mentions(uri.Recv.ID()):
					cli = extract(e.Res, 0)
				case e.Kind == EvMapSet && hasElem(e.Args[0], conns, i):
					set = e
				}
			}
			ok := uri != nil && lastField(uri.Args[0]) == "Addr"
			c.Expect(ok, "effect", "3rd/mgo.AppendConn address", fn.Pos(), "a connection is not made to its address", pa)
			ok = set != nil && lastField(set.Args[0]) == "Name" && cli != nil
			if ok {
				ok = holds(pa, set.Val, cli)
			}
			c.Expect(ok, "effect", "3rd/mgo.AppendConn", fn.Pos(), "a connection is not kept under its name", pa)
		}
	}
	c.Expect(n > 0, "effect", "3rd/mgo.AppendConn used", fn.Pos(), "connections are not made", nil)
	// tracer: into the manager, and from there into the collections
	span := trc.Type()
	var mgr *types.Var
	for _, pa := range walk(fn).Paths {
		if pa.Outcome != Returned || !dynamicCalls(pa) || skipped(pa) {
			continue
		}
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Recv.Op == "field" && fieldVar(stripAll(e.Val)) == trc {
				mgr = fieldVar(e.Recv)
			}
		}
	}
	col := c.P.Func("3rd/mgo", "Collection")
	lc := c.P.Named("3rd/mgo", "LCollection")
	if !c.Anchor(col, "Collection") || lc == nil {
		return
	}
	tf := FieldBy(lc, "", func(v *types.Var) bool { return types.Identical(v.Type(), span) })
	if tf == nil {
		c.Missing("LCollection's tracer")
		return
	}
	for _, pa := range c.Walk(col, WalkOpts{}).Paths {
		if pa.Outcome != Returned {
			continue
		}
		v := deepVal(pa, len(pa.Events), pa.Ret[0], tf.Name())
		c.Expect(mgr != nil && fieldVar(stripAll(v)) == mgr, "effect", "3rd/mgo.WithTracer", col.Pos(), "collections do not get the configured tracer", pa)
	}
}

// holds: the object's fields hold the value.
func holds(pa *Path, obj, v *Term) bool {
	o := stripAll(obj)
	if o.ID() == stripAll(v).ID() {
		return true
	}
	for _, e := range pa.Events {
		if e.Kind == EvStore && e.Recv.Op == "field" && e.Recv.Args[0].Strip().ID() == o.ID() && stripAll(e.Val).ID() == stripAll(v).ID() {
			return true
		}
	}
	return false
}

// copiedSetting: t is a copy of the struct the setting f holds, in which only fields another setting decides were changed.
func copiedSetting(pa *Path, at int, t *Term, f *types.Var) bool {
	if t.Op != "struct" || t.T == nil {
		return false
	}
	stt, ok := t.T.Underlying().(*types.Struct)
	if !ok || stt.NumFields() != len(t.Args) {
		return false
	}
	kept := 0
	for i, a := range t.Args {
		x := stripAll(a)
		if x.Op == "load" && x.Args[0].Op == "field" {
			x = x.Args[0]
		}
		if (x.Op == "field" || x.Op == "fieldval") && fieldVar(x) == stt.Field(i) && fieldVar(stripAll(x.Args[0])) == f {
			kept++
			continue
		}
		// changed: another setting asked for it
		asked := false
		for _, e := range pa.Events[:at] {
			if e.Kind == EvBranch && e.Ok && e.Val.Any(func(y *Term) bool {
				v := fieldVar(y)
				return v != nil && v != f && v.Pkg() == f.Pkg()
			}) {
				asked = true
			}
			if e.Kind == EvStore && fieldVar(e.Recv) == stt.Field(i) && stripAll(e.Val).ID() == stripAll(a).ID() && !asked {
				return false
			}
		}
		if !asked {
			return false
		}
	}
	return kept > 0
}

func lastField(t *Term) string {
	_, p := stripAll(t).FieldPath()
	if len(p) == 0 {
		return ""
	}
	return p[len(p)-1]
}

func (c *Check) spanEffects(setting func(string) *types.Var) {
	f := setting("lib/span.WithNodeID")
	if f == nil {
		return
	}
	n := 0
	for _, impl := range c.P.Implementers("lib/tracer", "ISpan") {
		m := c.P.MethodN(impl, "Begin")
		if !c.Anchor(m, "Begin") {
			continue
		}
		for _, pa := range c.Walk(m, WalkOpts{}).Paths {
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, "Span).SetTag") && len(e.Args) == 2 {
					if s, ok := stripAll(e.Args[0]).StrConst(); ok && s == "node" {
						n++
						c.Expect(fieldVar(stripAll(e.Args[1])) == f, "effect", "lib/span.WithNodeID", e.Pos, "the span is tagged with another node", pa)
					}
				}
			}
		}
	}
	c.Expect(n > 0, "effect", "lib/span.WithNodeID used", token.NoPos, "spans are not tagged with their node", nil)
}
