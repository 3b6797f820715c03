package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "L03", Run: runL03, Method: "path-sensitive pass-through analysis of every redis helper",
		Expl: "On every path of every exported helper, tracing succeeding or failing, the one call into the redis client is decided to be the command the helper is named after, on the shared client, with the helper's parameters in order, and its reply and error to be what the helper returns."})
	register(&Prop{ID: "L04", Run: runL04, Method: "path-sensitive pass-through analysis of every mongo collection helper",
		Expl: "On every path of every exported collection helper, tracing succeeding or failing, the one operation on the collection is decided to be the one the helper is named after, on its own collection, with the helper's parameters in order, and its results to be what the helper returns."})
}

const redisLib = "github.com/redis/go-redis/v9"
const mongoLib = "go.mongodb.org/mongo-driver/mongo"

// callee's package path.
func objPkg(e *Event) string {
	if e.Obj == nil || e.Obj.Pkg() == nil {
		return ""
	}
	return e.Obj.Pkg().Path()
}

// tracers: the unexported functions of a package that return a span; they are kept as calls.
func (c *Check) tracers(rel string) []string {
	var out []string
	pk := c.P.Pkg(rel)
	span := c.P.Named("lib/tracer", "ISpan")
	if pk == nil || span == nil {
		return nil
	}
	add := func(f *types.Func) {
		rs := f.Type().(*types.Signature).Results()
		for i := 0; i < rs.Len(); i++ {
			if types.Identical(rs.At(i).Type(), span) && !f.Exported() {
				out = append(out, calleeName(f))
			}
		}
	}
	for _, n := range pk.Scope().Names() {
		switch o := pk.Scope().Lookup(n).(type) {
		case *types.Func:
			add(o)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					add(nt.Method(i))
				}
			}
		}
	}
	return out
}

// argIs: the argument is the parameter itself, or the address of a copy of it.
func argIs(pa *Path, at int, a, param *Term) bool {
	if a == nil {
		return false
	}
	s := stripAll(a)
	if s.ID() == param.ID() {
		return true
	}
	if strings.HasPrefix(s.ID(), "&") {
		for i := at - 1; i >= 0; i-- {
			if e := pa.Events[i]; e.Kind == EvStore && e.Recv.Strip().ID() == s.ID() {
				return stripAll(e.Val).ID() == param.ID()
			}
		}
	}
	return false
}

// reply: position of a returned value in what the command answered.
func replyPart(pa *Path, cmd *Event, t *Term) (int, bool) {
	s := stripAll(pa.orDecided(t))
	if s.Op == "const" {
		// what the path found the reply to be
		for _, e := range pa.Events {
			if e.Kind != EvCall || e.Res == nil || e != cmd && (e.Recv == nil || objPkg(e) != objPkg(cmd) || cmdSelf(e.Recv).ID() != cmd.Res.Strip().ID()) {
				continue
			}
			sig, ok := e.Obj.Type().(*types.Signature)
			if !ok {
				continue
			}
			n := sig.Results().Len()
			if n == 1 && pa.is(s, e.Res) {
				if strings.HasSuffix(e.Name, ".Err") {
					return 1, true
				}
				return 0, true
			}
			for i := 0; n > 1 && i < n; i++ {
				if pa.is(s, extract(e.Res, i)) {
					return i, true
				}
			}
		}
	}
	if s.ID() == cmd.Res.ID() {
		return 0, true
	}
	if s.Op == "extract" && s.Args[0].ID() == cmd.Res.ID() {
		return s.N, true
	}
	for _, e := range pa.Events {
		if e.Kind != EvCall || e.Recv == nil || e.Res == nil || objPkg(e) != objPkg(cmd) {
			continue
		}
		if cmdSelf(e.Recv).ID() != cmd.Res.Strip().ID() {
			continue
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if s.ID() == e.Res.ID() {
			if n == "Err" {
				return 1, true
			}
			return 0, true
		}
		if s.Op == "extract" && s.Args[0].ID() == e.Res.ID() {
			return s.N, true
		}
	}
	return 0, false
}

// cmdSpec describes the pass-through functions of a package.
type cmdSpec struct {
	opaque  []string
	command func(pa *Path, e *Event) bool                     // is an operation
	target  func(pa *Path, e *Event) bool                     // on the right object
	named   func(fn *ssa.Function, pa *Path, e *Event) bool   // and the one the helper is for
	args    func(pa *Path, e *Event) (as []*Term, exact bool) // its arguments, exact if every parameter must be among them
	params  []*Term
	refuse  func(pa *Path) bool // paths on which nothing can be run
}

// helper decides one pass-through function.
func (c *Check) helper(fn *ssa.Function, sp cmdSpec) {
	con := fnName(fn)
	w := c.Walk(fn, WalkOpts{LoopBound: 2, Opaque: sp.opaque, MaxPaths: 400})
	params := sp.params
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		if pa.Outcome != Returned {
			c.Expect(false, "once", con+" panic", fn.Pos(), "the helper panics", pa)
			continue
		}
		var cmds []int
		for i, e := range pa.Events {
			if e.Kind == EvCall && sp.command(pa, e) {
				cmds = append(cmds, i)
			}
		}
		if len(cmds) == 0 && sp.refuse != nil && sp.refuse(pa) {
			ok := len(pa.Ret) > 0 && pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil
			c.Expect(ok, "result", con+" refused", fn.Pos(), "no command is run and no error returned", pa)
			continue
		}
		if !c.Expect(len(cmds) == 1, "once", con, fn.Pos(), "the helper does not run exactly one command", pa) {
			continue
		}
		at := cmds[0]
		e := pa.Events[at]
		c.Expect(sp.named(fn, pa, e), "command", con, e.Pos, "another command than the helper's is run: "+e.Name, pa)
		c.Expect(sp.target(pa, e), "target", con, e.Pos, "the command is run elsewhere", pa)
		args, exact := sp.args(pa, e)
		if sig, _ := e.Obj.Type().(*types.Signature); sig != nil && sig.Variadic() && len(args) > 0 {
			// values given one by one
			if l := args[len(args)-1].Strip(); l.Op == "list" && !anySlice(l.Args) {
				args = append(append([]*Term{}, args[:len(args)-1]...), l.Args...)
			}
		}
		ok := true
		next, used := 0, 0
		for _, a := range args {
			found := false
			for j := next; j < len(params) && !found; j++ {
				if argIs(pa, at, a, params[j]) {
					found, next = true, j+1
					used++
				} else if !droppable(params[j]) {
					break
				}
			}
			if !found {
				// an argument the helper does not offer takes its neutral value
				exact = true
				s := stripAll(a)
				ok = ok && s.Op == "const" && isZero(s, s.T)
			}
		}
		for j := next; j < len(params); j++ {
			ok = ok && droppable(params[j])
		}
		ok = ok && (!exact || used == len(params))
		c.Expect(ok, "arguments", con, e.Pos, "the command's arguments are not the helper's, in order", pa)
		good := len(pa.Ret) > 0
		for i, r := range pa.Ret {
			n, from := replyPart(pa, e, r)
			if !from || len(pa.Ret) > 1 && n != i || len(pa.Ret) == 1 && n != 0 {
				good = false
			}
		}
		c.Expect(good, "result", con, fn.Pos(), "the command's reply is not what the helper returns", pa)
		// spans
		for i, s := range pa.Events {
			if s.Kind != EvCall || !contains(sp.opaque, s.Name) {
				continue
			}
			ends := 0
			for k, x := range pa.Events {
				if k > i && x.Kind == EvCall && strings.HasSuffix(x.Name, "ISpan).End") && x.Recv != nil && stripAll(x.Recv).ID() == extract(s.Res, 0).ID() {
					ends++
					c.Expect(k > at, "span", con+" early", x.Pos, "the span ends before the command", pa)
				}
			}
			failed := pa.nil(extract(s.Res, 1)) == NonNil
			begun := pa.nil(extract(s.Res, 1)) == IsNil
			c.Expect(begun && ends == 1 || failed && ends == 0 || !begun && !failed && ends == 0, "span", con, s.Pos, "the helper's span is not ended exactly once", pa)
		}
	}
}

// droppable: a parameter the wrapped command may have no use for: a label, or the context of a local call.
// (The number of arguments is fixed by the command, so nothing it takes can be left out this way.)
func droppable(p *Term) bool {
	return p.T != nil && (typeIs(p.T, "context.Context") || types.Identical(p.T, types.Typ[types.String]))
}

func helperParams(fn *ssa.Function, from int) []*Term {
	var out []*Term
	for i := from; i < len(fn.Params); i++ {
		out = append(out, tParam(fn, i))
	}
	return out
}

// ---------------------------------------------------------------- L03

func runL03(c *Check) {
	c.Rule("once", "every helper runs exactly one command")
	c.Rule("command", "the command is the one the helper is named after")
	c.Rule("target", "the command is run on the shared client, or on the connection or script given")
	c.Rule("arguments", "the command's arguments are the helper's, in order")
	c.Rule("result", "the helper returns the command's reply and error")
	c.Rule("span", "a span begun for a helper is ended once, after the command")
	c.Rule("client", "the shared client is the one built or set last")
	const rel = "3rd/redis"
	pk := c.P.Pkg(rel)
	if pk == nil {
		c.Missing("package " + rel)
		return
	}
	var shared *types.Var
	for _, n := range pk.Scope().Names() {
		if v, ok := pk.Scope().Lookup(n).(*types.Var); ok && typeIs(v.Type(), redisLib+".Client") {
			shared = v
		}
	}
	if shared == nil {
		c.Missing("the shared client")
		return
	}
	opaque := c.tracers(rel)
	root := func(t *Term) *Term {
		r, _ := stripAll(t).FieldPath()
		return stripAll(r)
	}
	isShared := func(t *Term) bool { r := root(t); return r.Op == "global" && r.Obj == shared }
	toShared := func(e *Event) bool { return e.Kind == EvStore && e.Recv.Op == "global" && e.Recv.Obj == shared }
	short := func(e *Event) string { return e.Name[strings.LastIndex(e.Name, ".")+1:] }
	for _, n := range pk.Scope().Names() {
		f, ok := pk.Scope().Lookup(n).(*types.Func)
		fn := c.P.Func(rel, n)
		if !ok || !f.Exported() || fn == nil || fn.Blocks == nil {
			continue
		}
		var params []*Term
		var own *Term
		takesCtx := false
		for _, p := range helperParams(fn, 0) {
			if ptrToPath(p.T, redisLib+".Conn") || ptrToPath(p.T, redisLib+".Script") {
				own = p
				continue
			}
			takesCtx = takesCtx || typeIs(p.T, "context.Context")
			params = append(params, p)
		}
		rs := f.Type().(*types.Signature).Results()
		if !takesCtx && !(rs.Len() == 1 && typeIs(rs.At(0).Type(), redisLib+".Pipeliner")) {
			continue
		}
		sp := cmdSpec{opaque: opaque, params: params}
		sp.command = func(pa *Path, e *Event) bool {
			if objPkg(e) != redisLib || e.Recv == nil {
				return false
			}
			r := root(e.Recv)
			for _, o := range pa.Events {
				if o.Kind == EvCall && o != e && o.Res != nil && objPkg(o) == redisLib && r.ID() == o.Res.ID() {
					return false // reads a reply
				}
			}
			return true
		}
		sp.target = func(pa *Path, e *Event) bool {
			if own == nil {
				return isShared(e.Recv)
			}
			if root(e.Recv).ID() != own.ID() {
				return false
			}
			return !ptrToPath(own.T, redisLib+".Script") || len(e.Args) > 1 && isShared(e.Args[1])
		}
		sp.named = func(fn *ssa.Function, pa *Path, e *Event) bool {
			m := short(e)
			if m == "Do" && len(e.Args) == 2 {
				as, ok := appendsGivenList(pa, e.Args[1])
				if !ok || len(as) == 0 {
					return false
				}
				s, ok := stripAll(as[0]).StrConst()
				return ok && strings.EqualFold(s, fn.Name())
			}
			return strings.EqualFold(m, fn.Name()) || own != nil && (strings.EqualFold("Conn"+m, fn.Name()) || m == "Run" && strings.HasPrefix(fn.Name(), "ScriptRun"))
		}
		sp.args = func(pa *Path, e *Event) ([]*Term, bool) {
			switch {
			case short(e) == "Do" && len(e.Args) == 2:
				as, ok := appendsGivenList(pa, e.Args[1])
				if ok && len(as) > 0 {
					return append([]*Term{e.Args[0]}, as[1:]...), true
				}
			case own != nil && ptrToPath(own.T, redisLib+".Script") && len(e.Args) > 1:
				return append([]*Term{e.Args[0]}, e.Args[2:]...), true
			}
			return e.Args, false
		}
		sp.refuse = func(pa *Path) bool { return own != nil && pa.nil(own) == IsNil }
		c.helper(fn, sp)
	}
	if bw := c.P.Func(rel, "MockClient"); c.Anchor(bw, "MockClient") {
		for _, pa := range c.Walk(bw, WalkOpts{}).Paths {
			ok := false
			for _, e := range pa.Events {
				if toShared(e) {
					ok = stripAll(e.Val).ID() == tParam(bw, 0).ID()
				}
			}
			c.Expect(ok, "client", fnName(bw), bw.Pos(), "the given client is not used", pa)
		}
	}
	if g := c.P.Func(rel, "GetClient"); c.Anchor(g, "GetClient") {
		for _, pa := range c.Walk(g, WalkOpts{}).Paths {
			c.Expect(len(pa.Ret) == 1 && isShared(pa.Ret[0]), "client", fnName(g), g.Pos(), "another client is handed out", pa)
		}
	}
	if b := c.P.Func(rel, "BuildClientWithOption"); c.Anchor(b, "BuildClientWithOption") {
		for _, pa := range c.Walk(b, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			made := func(t *Term) bool {
				for _, e := range pa.Events {
					if isCall(e, redisLib+".NewClient") && e.Res.ID() == stripAll(t).ID() {
						return true
					}
				}
				return false
			}
			ok := false
			for _, e := range pa.Events {
				if toShared(e) {
					ok = made(e.Val)
				}
			}
			c.Expect(ok && len(pa.Ret) == 1 && (made(pa.Ret[0]) || isShared(pa.Ret[0])), "client", fnName(b), b.Pos(), "the client built is not the one used and returned", pa)
		}
	}
	c.Min("once", 30)
	c.Min("command", 30)
	c.Min("arguments", 30)
	c.Min("result", 30)
	c.Min("client", 3)
}

// appendsGivenList: the elements of a slice known on the path.
func appendsGivenList(pa *Path, t *Term) ([]*Term, bool) {
	s := t.Strip()
	if s.Op == "list" {
		return s.Args, true
	}
	return (&Walk{}).elements(pa.St, s)
}

// ---------------------------------------------------------------- L04

func runL04(c *Check) {
	c.Rule("once", "every helper runs exactly one operation")
	c.Rule("command", "the operation is the one the helper is named after")
	c.Rule("target", "the operation is run on the helper's own collection")
	c.Rule("arguments", "the operation's arguments are the helper's, in order")
	c.Rule("result", "the helper returns the operation's result and error")
	c.Rule("span", "a span begun for a helper is ended once, after the operation")
	const rel = "3rd/mgo"
	lc := c.P.Named(rel, "LCollection")
	if lc == nil {
		c.Missing("LCollection")
		return
	}
	var coll *types.Var
	s := structOf(lc)
	for i := 0; i < s.NumFields(); i++ {
		if ptrToPath(s.Field(i).Type(), mongoLib+".Collection") {
			coll = s.Field(i)
		}
	}
	if coll == nil {
		c.Missing("the collection of LCollection")
		return
	}
	renamed := map[string]string{"Count": "CountDocuments", "SetTTL": "IndexView.CreateOne", "CreateIndexes": "IndexView.CreateMany", "IndexList": "IndexView.List", "DeleteOneIndex": "IndexView.DropOne"}
	opaque := c.tracers(rel)
	own := func(t *Term) bool {
		r, p := stripAll(t).FieldPath()
		return stripAll(r).ID() == "$0" && len(p) == 1 && p[0] == coll.Name()
	}
	// the indexes of the collection
	view := func(pa *Path, t *Term) bool {
		x := stripAll(t)
		if strings.HasPrefix(x.ID(), "&") {
			for i := len(pa.Events) - 1; i >= 0; i-- {
				if e := pa.Events[i]; e.Kind == EvStore && e.Recv.Strip().ID() == x.ID() {
					x = stripAll(e.Val)
					break
				}
			}
		}
		for _, e := range pa.Events {
			if e.Kind == EvCall && e.Res != nil && x.ID() == e.Res.ID() && strings.HasSuffix(e.Name, ".Indexes") {
				return own(e.Recv)
			}
		}
		return false
	}
	for i := 0; i < lc.NumMethods(); i++ {
		m := lc.Method(i)
		fn := c.P.MethodN(lc, m.Name())
		if !m.Exported() || fn == nil || fn.Blocks == nil {
			continue
		}
		sp := cmdSpec{opaque: opaque, params: helperParams(fn, 1)}
		sp.command = func(pa *Path, e *Event) bool {
			if objPkg(e) != mongoLib || e.Recv == nil {
				return false
			}
			return !strings.HasSuffix(e.Name, ".Name") && !strings.HasSuffix(e.Name, ".Indexes")
		}
		sp.target = func(pa *Path, e *Event) bool { return own(e.Recv) || view(pa, e.Recv) }
		sp.named = func(fn *ssa.Function, pa *Path, e *Event) bool {
			want := fn.Name()
			if r := renamed[want]; r != "" {
				want = r
			}
			if !strings.Contains(want, ".") {
				want = "Collection." + want
			}
			return strings.HasSuffix(strings.NewReplacer("(", "", ")", "", "*", "").Replace(e.Name), "mongo."+want)
		}
		sp.args = func(pa *Path, e *Event) ([]*Term, bool) { return e.Args, true }
		c.helper(fn, sp)
	}
	// a collection handle is for the database and the name asked for
	c.Rule("handle", "a collection handle is for the database and collection asked for")
	if fn := c.P.Func(rel, "Collection"); c.Anchor(fn, "Collection") {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned || len(pa.Ret) != 1 {
				continue
			}
			h := deepVal(pa, len(pa.Events), pa.Ret[0], coll.Name())
			ok := false
			for _, e := range pa.Events {
				if e.Kind != EvCall || e.Res == nil || e.Res.ID() != stripAll(h).ID() || !strings.HasSuffix(e.Name, "Database).Collection") {
					continue
				}
				for _, d := range pa.Events {
					if d.Kind == EvCall && strings.HasSuffix(d.Name, "Client).Database") && d.Res.ID() == stripAll(e.Recv).ID() {
						ok = len(e.Args) > 0 && stripAll(e.Args[0]).ID() == "$1" && len(d.Args) > 0 && stripAll(d.Args[0]).ID() == "$0" &&
							d.Recv.Any(func(x *Term) bool { return x.Op == "lookup" && stripAll(x.Args[1]).ID() == "$0" })
					}
				}
			}
			c.Expect(ok, "handle", con, fn.Pos(), "the handle is for another database or collection", pa)
		}
	}
	c.Min("once", 15)
	c.Min("command", 15)
	c.Min("arguments", 15)
	c.Min("result", 15)
	c.Min("handle", 1)
}

func ptrToPath(t types.Type, path string) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeIs(p.Elem(), path)
}

func anySlice(ts []*Term) bool {
	for _, t := range ts {
		if s := stripAll(t); s.T != nil {
			if _, ok := s.T.Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}
