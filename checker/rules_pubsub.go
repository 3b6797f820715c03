package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const psPkg = "lib/pubsub"

func init() {
	register(&Prop{ID: "P01", Run: runP01, Method: "path-sensitive provenance and order analysis of the consuming goroutines",
		Expl: "Every path of the goroutines a subscription starts is followed: each entry of a read reply must be put into the channel's buffer with its own id, event and body (or be decided malformed), every list of the reply must be gone through, each value taken from the buffer must be pushed into the subscriber's queue with the same id, event and body, and every acknowledgement and deletion must follow that push and name the entry, stream and group it came from."})
	register(&Prop{ID: "P02", Run: runP02, Method: "path-sensitive crash and termination analysis",
		Expl: "On every path of the consuming goroutines, no assertion or index on data of the store can panic, malformed entries are skipped without leaving the loop, and the goroutine returns only after it was told to stop."})
	register(&Prop{ID: "P03", Run: runP03, Method: "path-sensitive typestate analysis of the stop handshake",
		Expl: "The stop signal, its observation in every round of every consuming goroutine, the waits of Stop and Close and the order and results of Close's store commands are decided on every path."})
	register(&Prop{ID: "P04", Run: runP04, Method: "path-sensitive effect analysis and argument provenance",
		Expl: "On every path of Topic.Sub the group creation, its arguments, its error classification and the start of the consuming goroutines are decided, and the read requests of those goroutines are decided to name the same stream and group, the channel's own consumer and only new entries."})
	register(&Prop{ID: "P05", Run: runP05, Method: "path-sensitive effect analysis and lockset analysis",
		Expl: "The store commands of every path of publishing and topic creation are extracted with their arguments and the decisions they depend on, and the topic table is decided to be looked up and filled in one critical section."})
	register(&Prop{ID: "P06", Run: runP06, Method: "path-sensitive effect analysis with reply classification",
		Expl: "On every path of Topic.Close every destructive command is decided to depend on replies that were successful and empty, both deletions to be made together, and every failing reply to be returned."})
	register(&Prop{ID: "P07", Run: runP07, Method: "path-sensitive typestate analysis of the buffer",
		Expl: "Every path of Put and Load is decided to move exactly one value, in order and under the lock, without blocking; every consumer is decided to pull the next value after taking one."})
}

// ---------------------------------------------------------------- roles

type psRoles struct {
	topic, channel *types.Named
	sub            *ssa.Function
	subW           *Walk
	stream, group  *types.Var // fields of the topic and the channel
	cstream        *types.Var
	consumer       *types.Var
	readers        []psGo
	subPaths       []*Path
}

type psGo struct {
	w    *Walk
	from *Path
	ev   *Event
}

func (c *Check) psRoles() *psRoles {
	p := c.P
	r := &psRoles{topic: p.Named(psPkg, "Topic")}
	r.sub = p.Method(psPkg, "Topic", "Sub")
	if !c.Anchor(r.sub, "Topic.Sub") || r.topic == nil {
		return nil
	}
	pt, ok := r.sub.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok {
		c.Missing("the channel type")
		return nil
	}
	r.channel, _ = pt.Elem().(*types.Named)
	w := c.Walk(r.sub, WalkOpts{LoopBound: 2})
	r.subW = w
	seen := map[string]bool{}
	for _, pa := range w.Paths {
		r.subPaths = append(r.subPaths, pa)
		for _, x := range cmds(pa) {
			if strings.HasPrefix(x.op, "xgroupcreate") && len(x.args) == 3 {
				if root, f := x.args[0].FieldPath(); root.ID() == "$0" && len(f) == 1 {
					r.stream = fieldVar(x.args[0])
				}
			}
		}
		for i, e := range pa.Events {
			if e.Kind == EvGo && e.GoFn != nil && len(e.GoFn.Blocks) > 0 {
				k := e.GoFn.String() + "|" + idOf(e.Recv)
				for _, a := range e.Args {
					k += "," + a.ID()
				}
				for _, x := range cmds(pa) {
					if x.at < i {
						k += ";" + x.op + "(" + termIDs(x.args) + ")"
					}
				}
				if !seen[k] {
					seen[k] = true
					r.readers = append(r.readers, psGo{c.WalkGo(w, e, WalkOpts{LoopBound: 2}), pa, e})
				}
			}
			// the channel's fields
			if e.Kind == EvStore && e.Recv.Op == "field" && e.Recv.Args[0].Op == "alloc" && ownerIs(fieldVar(e.Recv), r.channel) {
				switch {
				case e.Val.Strip().ID() == "$2":
					r.group = fieldVar(e.Recv)
				case r.stream != nil && fieldVar(e.Val) == r.stream || e.Val.Strip().ID() == "$0.topic":
					r.cstream = fieldVar(e.Recv)
				}
			}
		}
	}
	for _, g := range r.readers {
		for _, gp := range g.w.Paths {
			for _, x := range cmds(gp) {
				if x.op != "xreadgroup" || len(x.args) != 1 {
					continue
				}
				con := structVals(gp, x.args[0])["Consumer"]
				if con != nil && r.consumer == nil && ownerIs(fieldVar(con.Strip()), r.channel) {
					r.consumer = fieldVar(con.Strip())
				}
				for _, e := range g.from.Events {
					if con != nil && e.Kind == EvStore && e.Recv.Op == "field" && ownerIs(fieldVar(e.Recv), r.channel) && sameID(e.Val, con) {
						r.consumer = fieldVar(e.Recv)
					}
				}
			}
		}
	}
	if r.channel == nil || r.stream == nil || r.group == nil || r.cstream == nil {
		c.Missing("the stream and group of a channel")
		return nil
	}
	return r
}

// ownerIs: the variable is a field of the named struct.
func ownerIs(v *types.Var, n *types.Named) bool {
	if v == nil || n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == v {
			return true
		}
	}
	return false
}

// ownField0: t is that field of the receiver.
func recvField(t *Term, f *types.Var) bool {
	if t == nil || f == nil {
		return false
	}
	root, path := t.Strip().FieldPath()
	return root.ID() == "$0" && len(path) == 1 && fieldVar(t.Strip()) == f
}

// deepVal reads a field path of an object from the stores of the path before event i.
func deepVal(pa *Path, upto int, t *Term, path ...string) *Term {
	cur := t.Strip()
	for _, f := range path {
		var next *Term
		if cur.Op == "alloc" {
			for i := upto - 1; i >= 0 && next == nil; i-- {
				e := pa.Events[i]
				if e.Kind != EvStore {
					continue
				}
				if e.Recv.Op == "field" && e.Recv.S == f && e.Recv.Args[0].Strip().ID() == cur.ID() {
					next = e.Val
				} else if e.Recv.ID() == cur.ID() {
					if m := structVals(pa, e.Val); m[f] != nil {
						next = m[f]
					}
				}
			}
		}
		if next == nil {
			next = &Term{Op: "load", Args: []*Term{{Op: "field", S: f, Args: []*Term{cur}}}}
		}
		cur = next.Strip()
	}
	return cur
}

func goName(c *Check, fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fnName(fn)
}

// ---------------------------------------------------------------- entries

// entryOf: the stream entry a term is part of: list term, index, access path below the entry.
func entryOf(t *Term) (entry *Term, rest string) {
	t = t.Strip()
	rest = ""
	for t != nil {
		switch t.Op {
		case "assert", "conv", "load", "iface":
			t = t.Args[0].Strip()
			continue
		case "extract":
			t = t.Args[0].Strip()
			continue
		case "lookup":
			s, ok := t.Args[1].StrConst()
			if !ok {
				return nil, ""
			}
			rest = "[" + s + "]" + rest
			t = t.Args[0].Strip()
			continue
		case "field", "fieldval":
			rest = "." + t.S + rest
			t = t.Args[0].Strip()
			continue
		case "index", "indexval", "elem", "elemaddr":
			if isMsgList(t.Args[0]) {
				return t, rest
			}
			return nil, ""
		}
		break
	}
	return nil, ""
}

// isMsgList: a list of stream entries.
func isMsgList(t *Term) bool {
	if t == nil {
		return false
	}
	s := t.Strip()
	if s.T != nil {
		if sl, ok := s.T.Underlying().(*types.Slice); ok {
			return typeIs(sl.Elem(), "github.com/redis/go-redis/v9.XMessage")
		}
	}
	return s.PathEnds("Messages")
}

func isStreamList(t *Term) bool {
	if t == nil || t.Strip().T == nil {
		return false
	}
	sl, ok := t.Strip().T.Underlying().(*types.Slice)
	return ok && typeIs(sl.Elem(), "github.com/redis/go-redis/v9.XStream")
}

// malformed: a field the entry needs was decided missing or of another type.
func malformed(pa *Path, entry *Term) bool {
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || v {
			continue
		}
		if (t.Op == "is" || t.Op == "has") && len(t.Args) == 1 {
			if e, rest := entryOf(t.Args[0]); e != nil && e.ID() == entry.ID() && strings.HasPrefix(rest, ".Values[") {
				return true
			}
		}
	}
	return false
}

func isUnbounded(e *Event, name string) bool {
	return e.Kind == EvCall && strings.HasSuffix(e.Name, "unbounded.Unbounded)."+name)
}

func runP01(c *Check) {
	c.Rule("buffered", "every entry of a read reply is put into the buffer with its own id, event and body, unless it was decided malformed")
	c.Rule("all-entries", "every list of a read reply is gone through from its first to its last element")
	c.Rule("handed-over", "every value taken from the buffer is pushed into the subscriber's queue exactly once, with the id, event and body of the entry")
	c.Rule("ack-after", "an entry is acknowledged and deleted only after it was pushed, by its own id, in its own stream and group")
	c.Rule("acked", "a pushed entry is acknowledged and deleted")
	r := c.psRoles()
	if r == nil {
		return
	}
	for _, g := range r.readers {
		con := goName(c, g.ev.GoFn)
		for _, gp := range g.w.Paths {
			if !hasOp(gp, "xreadgroup") {
				continue
			}
			c.readEntries(gp, con)
		}
	}
	c.entryLoops(r)
	c.Min("buffered", 1)
	c.Min("all-entries", 1)
	c.handlers(r, func(w *Walk, g *Event, gw *Walk, gp *Path, con string) { c.handOver(r, gp, con) })
	c.Min("handed-over", 1)
	c.Min("ack-after", 2)
	c.Min("acked", 1)
}

// entryLoops: a loop over entries is left only when the list is used up. This holds for
// every length, beyond the rounds the paths are followed for.
func (c *Check) entryLoops(r *psRoles) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || relPkg(fn) != psPkg {
			return
		}
		seen[fn] = true
		isLen := func(v ssa.Value) bool {
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := call.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		}
		for _, lp := range loopsOf(fn) {
			over := false
			for b := range lp.body {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok {
						if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && (typeIs(sl.Elem(), "github.com/redis/go-redis/v9.XMessage") || typeIs(sl.Elem(), "github.com/redis/go-redis/v9.XStream")) {
							if h, ok := ia.Index.(ssa.Instruction); ok && lp.body[h.Block()] {
								over = true
							}
						}
					}
				}
			}
			if !over {
				continue
			}
			// the reading loop itself encloses them
			reads := false
			for b := range lp.body {
				for _, in := range b.Instrs {
					reads = reads || insCalls(in, "3rd/redis.XReadGroup")
					if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && c.P.inModule(ci.Call.StaticCallee()) {
						reads = reads || c.reaches(ci.Call.StaticCallee(), func(in ssa.Instruction) bool { return insCalls(in, "3rd/redis.XReadGroup") })
					}
				}
			}
			if reads {
				continue
			}
			for b := range lp.body {
				for _, s := range b.Succs {
					if lp.body[s] {
						continue
					}
					ok := false
					if i, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); isIf {
						if bo, isB := i.Cond.(*ssa.BinOp); isB {
							ok = isLen(bo.X) || isLen(bo.Y)
						}
					}
					c.Expect(ok, "all-entries", fnName(fn)+" loop", b.Instrs[len(b.Instrs)-1].Pos(), "a loop over a reply is left before its end", nil)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	for _, g := range r.readers {
		visit(g.ev.GoFn)
	}
}

func hasOp(pa *Path, op string) bool {
	for _, x := range cmds(pa) {
		if x.op == op {
			return true
		}
	}
	return false
}

// readEntries decides what becomes of each entry of the replies read on the path.
func (c *Check) readEntries(gp *Path, con string) {
	// positions at which an element of a list is taken
	type at struct {
		list *Term
		idx  *Term
		i    int
	}
	var takes []at
	for i, e := range gp.Events {
		if e.Kind == EvIndex && (isMsgList(e.Recv) || isStreamList(e.Recv)) {
			if n := len(takes); n > 0 && takes[n-1].list.Key() == e.Recv.Key() && sameID(takes[n-1].idx, e.Args[0]) {
				continue // the same element again
			}
			takes = append(takes, at{e.Recv, e.Args[0], i})
		}
	}
	lists := map[string][]at{}
	var order []string
	for _, t := range takes {
		k := t.list.Key()
		if lists[k] == nil {
			order = append(order, k)
		}
		lists[k] = append(lists[k], t)
	}
	for _, k := range order {
		ts := lists[k]
		ok := true
		for n, t := range ts {
			v, isC := t.idx.IntConst()
			ok = ok && isC && int(v) == n
		}
		c.Expect(ok, "all-entries", con+" order", gp.Events[ts[0].i].Pos, "the elements of a reply are not taken one by one from the first", gp)
		// left before the end?
		last := ts[len(ts)-1]
		after := false
		for j, e := range gp.Events[last.i:] {
			if j > 0 && (e.Kind == EvCall && decodeCmd(e) != nil || e.Kind == EvIndex && isStreamList(e.Recv) && e.Recv.Key() != k) {
				after = true
			}
		}
		if gp.Outcome == Returned {
			after = true
		}
		if after {
			c.Expect(endOf(gp, last.list, len(ts)), "all-entries", con, gp.Events[last.i].Pos, "elements of a reply are left out", gp)
		}
	}
	// each entry
	for n, t := range takes {
		if !isMsgList(t.list) {
			continue
		}
		end := len(gp.Events)
		complete := gp.Outcome == Returned
		for _, u := range takes[n+1:] {
			end, complete = u.i, true
			break
		}
		for j := t.i + 1; j < end; j++ {
			e := gp.Events[j]
			if e.Kind == EvCall && decodeCmd(e) != nil {
				end, complete = j, true
			}
		}
		entry := &Term{Op: "index", Args: []*Term{t.list, t.idx}}
		puts, good := 0, 0
		for j := t.i; j < end; j++ {
			e := gp.Events[j]
			if !isUnbounded(e, "Put") {
				continue
			}
			puts++
			v := e.Args[0].Strip()
			id, ev, body := deepVal(gp, j, v, "Header", "ID"), deepVal(gp, j, v, "Header", "Event"), deepVal(gp, j, v, "Body")
			is := func(x *Term, rest string) bool {
				a, b := entryOf(x)
				return a != nil && a.Strip().ID() == entry.ID() && b == rest
			}
			if is(id, ".ID") && is(ev, ".Values[event]") && is(body, ".Values[msg]") {
				good++
			}
		}
		if puts > 0 {
			c.Expect(good == puts && puts == 1, "buffered", con+" content", gp.Events[t.i].Pos, "what is put into the buffer is not exactly the entry read", gp)
		}
		if complete && puts == 0 {
			c.Expect(malformed(gp, entry), "buffered", con, gp.Events[t.i].Pos, "an entry that was read is dropped", gp)
		}
	}
}

// endOf: the path decided that the list has no more than n elements.
func endOf(pa *Path, list *Term, n int) bool {
	id := list.Strip().ID()
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		isLen := func(x *Term) bool { return x.Op == "len" && x.Args[0].Strip().ID() == id }
		switch {
		case t.S == "<" && isLen(b):
			if m, ok := a.IntConst(); ok && !v && int(m) <= n {
				return true
			}
		case t.S == "<" && isLen(a):
			if m, ok := b.IntConst(); ok && v && int(m) <= n+1 {
				return true
			}
		case t.S == "==" && (isLen(a) || isLen(b)):
			m, ok := a.IntConst()
			if isLen(a) {
				m, ok = b.IntConst()
			}
			if ok && v && int(m) == n {
				return true
			}
		}
	}
	return false
}

// handlers walks the goroutines Channel methods start that push into a queue.
func (c *Check) handlers(r *psRoles, f func(w *Walk, g *Event, gw *Walk, gp *Path, con string)) {
	p := c.P
	n := 0
	seen := map[*ssa.Function]bool{}
	for i := 0; i < r.channel.NumMethods(); i++ {
		m := p.MethodN(r.channel, r.channel.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || !r.channel.Method(i).Exported() {
			continue
		}
		w := c.Walk(m, WalkOpts{LoopBound: 2})
		for _, g := range w.Spawned() {
			if seen[g.GoFn] {
				continue
			}
			gw := c.WalkGo(w, g, WalkOpts{LoopBound: 2, Extra: []string{"router/msg"}})
			uses := false
			for _, gp := range gw.Paths {
				for _, e := range gp.Events {
					uses = uses || isUnbounded(e, "Get")
				}
			}
			if !uses {
				continue
			}
			seen[g.GoFn] = true
			n++
			con := goName(c, g.GoFn)
			for _, gp := range gw.Paths {
				f(w, g, gw, gp, con)
			}
		}
	}
	if n == 0 {
		c.Missing("the goroutine handing messages over")
	}
}

// isBuffer: the channel of an unbounded buffer.
func isBuffer(t *Term) bool {
	s := t.Strip()
	return s.Op == "call" && strings.HasSuffix(s.S, "Unbounded).Get")
}

type taken struct {
	at  int
	val *Term
	buf *Term // the buffer
	end int   // first event of the next round
	all bool  // the round was followed to its end
}

// takings are the values a path takes from the buffer, with the events up to the next round.
func takings(gp *Path) []taken {
	var r []taken
	recv := func(e *Event) bool {
		return (e.Kind == EvSelect || e.Kind == EvRecv) && e.Recv != nil && isBuffer(e.Recv)
	}
	for i, e := range gp.Events {
		if !recv(e) {
			continue
		}
		v := e.Res
		if v == nil {
			continue
		}
		var buf *Term
		for _, g := range gp.Events[:i] {
			if isUnbounded(g, "Get") && sameID(g.Res, e.Recv) {
				buf = g.Recv
			}
		}
		t := taken{i, v, buf, len(gp.Events), gp.Outcome == Returned}
		for j := i + 1; j < len(gp.Events); j++ {
			x := gp.Events[j]
			if isUnbounded(x, "Get") || x.Kind == EvSelect && x.Blocking || x.Kind == EvRecv {
				t.end, t.all = j, true
				break
			}
		}
		r = append(r, t)
	}
	return r
}

func (c *Check) handOver(r *psRoles, gp *Path, con string) {
	all := cmds(gp)
	bs, _ := batches(gp)
	effectAt := func(x *storeCmd) int {
		if x.pipe == nil {
			return x.at
		}
		for _, b := range bs {
			for _, y := range b.cmds {
				if y.e == x.e {
					return b.at
				}
			}
		}
		return -1
	}
	ts := takings(gp)
	for _, t := range ts {
		foreign := false // not a message at all
		for k, v := range gp.St.assume {
			if x := gp.St.terms[k]; !v && x != nil && x.Op == "is" && sameID(x.Args[0], t.val) {
				foreign = true
			}
		}
		pushAt, pushes, good := -1, 0, 0
		from := func(x *Term, path string) bool {
			root, f := stripAll(x).FieldPath()
			for root.Op == "assert" || root.Op == "extract" {
				root = root.Args[0].Strip()
			}
			return root.ID() == t.val.Strip().ID() && strings.Join(f, ".") == path
		}
		for j := t.at; j < t.end; j++ {
			e := gp.Events[j]
			if !(e.Kind == EvCall && strings.HasSuffix(e.Name, "mpsc.Queue).Push")) {
				continue
			}
			pushes++
			if pushAt < 0 {
				pushAt = j
			}
			m := e.Args[0].Strip()
			if from(deepVal(gp, j, m, "Req", "Header", "ID"), "Header.ID") && from(deepVal(gp, j, m, "Req", "Header", "Event"), "Header.Event") && from(deepVal(gp, j, m, "Req", "Body"), "Body") && e.Recv.Strip().Op == "param" {
				good++
			}
		}
		if pushes > 0 {
			c.Expect(pushes == 1 && good == 1, "handed-over", con+" content", gp.Events[t.at].Pos, "the message pushed is not exactly the one taken from the buffer", gp)
		}
		if t.all && pushes == 0 {
			c.Expect(foreign, "handed-over", con, gp.Events[t.at].Pos, "a message taken from the buffer is dropped", gp)
		}
		acks := map[string]bool{}
		for _, x := range all {
			if x.op != "xack" && x.op != "xdel" || x.at < t.at || x.at >= t.end {
				continue
			}
			at := effectAt(x)
			want := 3
			if x.op == "xdel" {
				want = 2
			}
			ok := len(x.args) == want && recvField(x.args[0], r.cstream) && (x.op == "xdel" || recvField(x.args[1], r.group)) && from(x.args[want-1], "Header.ID")
			c.Expect(ok, "ack-after", con+" "+x.op+" what", x.e.Pos, "another entry, stream or group is named than the one the message came from", gp)
			if at >= 0 {
				c.Expect(pushAt >= 0 && pushAt < at, "ack-after", con+" "+x.op, x.e.Pos, "an entry is acknowledged or deleted before it was handed over", gp)
				if ok {
					acks[x.op] = true
				}
			}
		}
		if t.all && pushes > 0 {
			c.Expect(acks["xack"] && acks["xdel"], "acked", con, gp.Events[t.at].Pos, "an entry that was handed over is not acknowledged and deleted", gp)
		}
	}
	// no acknowledgement outside a round
	for _, x := range all {
		if x.op != "xack" && x.op != "xdel" {
			continue
		}
		in := false
		for _, t := range ts {
			in = in || x.at >= t.at && x.at < t.end
		}
		c.Expect(in, "ack-after", con+" "+x.op, x.e.Pos, "an entry is acknowledged or deleted without a message", gp)
	}
}

// stripAll removes conversions and the address form.
func stripAll(t *Term) *Term {
	t = t.Strip()
	for t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0].Strip()
	}
	return t
}

// ---------------------------------------------------------------- P02

func runP02(c *Check) {
	c.Rule("no-crash", "no assertion, index or dereference on the store's data can panic")
	c.Rule("continues", "a consuming goroutine returns only after it was told to stop")
	r := c.psRoles()
	if r == nil {
		return
	}
	check := func(gp *Path, con string, src func(t *Term) bool) {
		c.Expect(gp.Outcome != Panicked && gp.Outcome != Stuck, "no-crash", con, gpPos(gp), "the goroutine panics or blocks for ever", gp)
		for _, e := range gp.Events {
			if e.Kind == EvAssert && !e.Ok && src(e.Recv) {
				c.Expect(e.CommaOk, "no-crash", con+" assertion", e.Pos, "an entry with an unexpected value crashes the process", gp)
			}
			if e.Kind == EvIndex && src(e.Recv) && (isMsgList(e.Recv) || isStreamList(e.Recv)) {
				k, isC := e.Args[0].IntConst()
				ok := false
				for key, v := range gp.St.assume {
					t := gp.St.terms[key]
					if t == nil || t.Op != "bin" || len(t.Args) != 2 {
						continue
					}
					if t.S == "<" && v && t.Args[1].Op == "len" && t.Args[1].Args[0].Strip().ID() == e.Recv.Strip().ID() {
						if m, isM := t.Args[0].IntConst(); isM && isC && m >= k || sameID(t.Args[0], e.Args[0]) {
							ok = true
						}
					}
					if t.S == "==" && !v && isC && k == 0 && t.Args[0].Op == "len" && t.Args[0].Args[0].Strip().ID() == e.Recv.Strip().ID() {
						ok = true
					}
				}
				c.Expect(ok, "no-crash", con+" index", e.Pos, "an empty or short reply crashes the process", gp)
			}
		}
	}
	for _, g := range r.readers {
		con := goName(c, g.ev.GoFn)
		for _, gp := range g.w.Paths {
			replies := map[string]bool{}
			last := -1
			for _, x := range cmds(gp) {
				if x.op == "xreadgroup" {
					replies[x.res.ID()] = true
					last = x.at
				}
			}
			check(gp, con, func(t *Term) bool { return true })
			if gp.Outcome == Returned && last >= 0 {
				c.Expect(toldToStop(gp, last), "continues", con, gp.Events[last].Pos, "a read ends the subscription", gp)
			}
			if gp.Outcome == Returned && last < 0 {
				c.Expect(toldToStop(gp, -1) || !hasOpAny(g.w, "xreadgroup"), "continues", con+" start", gpPos(gp), "the subscription ends without having been told to", gp)
			}
		}
	}
	c.handlers(r, func(w *Walk, g *Event, gw *Walk, gp *Path, con string) {
		check(gp, con, func(t *Term) bool { return t.Any(func(x *Term) bool { return x.Op == "recv" }) })
		if gp.Outcome == Returned {
			c.Expect(toldToStop(gp, -1), "continues", con, gpPos(gp), "a message or a failing acknowledgement ends the subscription", gp)
		}
	})
	c.Min("no-crash", 4)
	c.Min("continues", 2)
}

func hasOpAny(w *Walk, op string) bool {
	for _, pa := range w.Paths {
		if hasOp(pa, op) {
			return true
		}
	}
	return false
}

func gpPos(pa *Path) (p token.Pos) {
	if len(pa.Events) > 0 {
		return pa.Events[0].Pos
	}
	return 0
}

// toldToStop: after event i the path saw a stop: an atomic flag that is set, or a closed or
// done channel that is not the data buffer.
func toldToStop(pa *Path, i int) bool {
	for j := i + 1; j < len(pa.Events); j++ {
		e := pa.Events[j]
		if a := atomicOp(e); a != nil && (a.Op == "Load" || a.Op == "CompareAndSwap") {
			// decided: the flag is not in its initial state
			if pa.True("==", e.Res, tInt(0)) == 0 || pa.True("==", e.Res, tInt(1)) == 1 || pa.St.Truth(e.Res) == 1 {
				return true
			}
			for k, v := range pa.St.assume {
				t := pa.St.terms[k]
				if t == nil || !t.Mentions(e.Res.ID()) || t.Op != "bin" || len(t.Args) != 2 {
					continue
				}
				if (t.S == "<" && v && t.Args[0].Op == "const") || (t.S == "==" && v && (nonZero(t.Args[0]) || nonZero(t.Args[1]))) {
					return true
				}
			}
		}
		if (e.Kind == EvSelect || e.Kind == EvRecv) && e.Recv != nil && !isBuffer(e.Recv) && !timerChan(e.Recv) {
			return true
		}
		if isCall(e, "(context.Context).Err") && pa.nil(e.Res) == NonNil {
			return true
		}
	}
	return false
}

func nonZero(t *Term) bool {
	n, ok := t.IntConst()
	return ok && n != 0
}

// ---------------------------------------------------------------- P03

func runP03(c *Check) {
	p := c.P
	c.Rule("told", "every round of a consuming goroutine looks at the stop signal the channel's methods give")
	c.Rule("bounded-read", "a read of the stream never blocks without bound, so that the stop is seen")
	c.Rule("waits", "Stop gives the signal and returns only after every consuming goroutine ended")
	c.Rule("drained", "a goroutine handing over ends only when the reader ended and the buffer is empty")
	c.Rule("repeatable", "stopping twice closes nothing twice")
	c.Rule("close", "Close stops first, then removes its own consumer, destroys its own group only if no consumer is left, and reports the first failure")
	r := c.psRoles()
	if r == nil {
		return
	}
	// the reader: which flag or channel does it look at, which does it close when it ends
	var flag *types.Var
	var doneCh []*types.Var
	for _, g := range r.readers {
		con := goName(c, g.ev.GoFn)
		if !hasOpAny(g.w, "xreadgroup") {
			continue
		}
		fieldOfTerm := func(t *Term) *types.Var {
			if v := fieldVar(t); v != nil {
				return v
			}
			for _, e := range g.from.Events {
				if e.Kind == EvStore && e.Recv.Op == "field" && ownerIs(fieldVar(e.Recv), r.channel) && sameID(e.Val, t) {
					return fieldVar(e.Recv)
				}
			}
			return nil
		}
		for _, gp := range g.w.Paths {
			var rd []int
			for _, x := range cmds(gp) {
				if x.op != "xreadgroup" {
					continue
				}
				rd = append(rd, x.at)
				v := structVals(gp, x.args[0])["Block"]
				ok := false
				if v != nil {
					n, isC := constVal(v)
					ok = isC && n != 0
				}
				c.Expect(ok, "bounded-read", con, x.e.Pos, "a read of the stream may block for ever", gp)
			}
			for n, at := range rd {
				from := 0
				if n > 0 {
					from = rd[n-1]
				}
				seen := false
				for _, e := range gp.Events[from:at] {
					if a := atomicOp(e); a != nil && a.Op == "Load" && ownerIs(fieldVar(a.Addr), r.channel) {
						seen, flag = true, fieldVar(a.Addr)
					}
					if e.Kind == EvSelect && !e.Blocking {
						for _, k := range e.Cases {
							if v := fieldOfTerm(k.Chan); !k.Send && v != nil {
								seen, flag = true, v
							}
						}
					}
				}
				c.Expect(seen, "told", con, gp.Events[at].Pos, "a new read starts without a look at the stop signal", gp)
			}
			// the last read: nothing new after the stop was seen is implied by the returns
			if gp.Outcome == Returned {
				for _, e := range gp.Events {
					if e.Kind == EvClose {
						if v := fieldOfTerm(e.Recv); v != nil && !contains2(doneCh, v) {
							doneCh = append(doneCh, v)
						}
					}
				}
			}
		}
		for _, gp := range g.w.Paths {
			if gp.Outcome != Returned && gp.Outcome != Panicked {
				continue
			}
			ok := false
			for _, e := range gp.Events {
				if e.Kind == EvClose {
					ok = ok || contains2(doneCh, fieldOfTerm(e.Recv))
				}
				if isCall(e, "(*sync.WaitGroup).Done") {
					ok = true
				}
			}
			c.Expect(ok, "waits", con+" ended", gpPos(gp), "the reader's end is not announced", gp)
		}
	}
	if flag == nil {
		c.Missing("the stop signal")
		return
	}
	// handing over
	var hwg *types.Var
	c.handlers(r, func(w *Walk, g *Event, gw *Walk, gp *Path, con string) {
		for _, e := range gp.Events {
			if e.Kind != EvSelect && e.Kind != EvRecv {
				continue
			}
			if e.Kind == EvRecv && isBuffer(e.Recv) {
				c.Expect(false, "told", con, e.Pos, "the goroutine waits for a message only, and never ends", gp)
			}
			if e.Kind == EvSelect && e.Blocking {
				ok := false
				for _, k := range e.Cases {
					ok = ok || contains2(doneCh, fieldVar(k.Chan)) || fieldVar(k.Chan) == flag && flag != nil
				}
				c.Expect(ok, "told", con, e.Pos, "the goroutine waits without looking at the stop signal", gp)
			}
		}
		if gp.Outcome == Returned || gp.Outcome == Panicked {
			d := -1
			for i, e := range gp.Events {
				if isCall(e, "(*sync.WaitGroup).Done") && ownerIs(fieldVar(e.Recv), r.channel) {
					d = i
					hwg = fieldVar(e.Recv)
				}
			}
			c.Expect(d >= 0, "waits", con+" ended", gpPos(gp), "the end of the goroutine is not announced", gp)
		}
		if gp.Outcome == Returned {
			// the reader's end seen, then the buffer found empty
			done, empty := -1, false
			for i, e := range gp.Events {
				if (e.Kind == EvSelect || e.Kind == EvRecv) && e.Recv != nil && contains2(doneCh, fieldVar(e.Recv)) {
					done = i
				}
				if e.Kind == EvSelect && !e.Blocking && e.Case < 0 && done >= 0 {
					for _, k := range e.Cases {
						empty = empty || isBuffer(k.Chan)
					}
				}
				if e.Kind == EvSelect && e.Recv != nil && isBuffer(e.Recv) {
					empty = false
				}
			}
			c.Expect(done >= 0 && empty, "drained", con, gpPos(gp), "the goroutine ends although messages may still be buffered", gp)
		}
		// announced before it is started
		added := false
		for _, pa := range w.Paths {
			for _, e := range pa.Events {
				if isCall(e, "(*sync.WaitGroup).Add") && ownerIs(fieldVar(e.Recv), r.channel) {
					added = true
				}
				if e == g {
					c.Expect(added, "waits", con+" counted", g.Pos, "the goroutine is started without having been counted", pa)
				}
			}
			added = false
		}
	})
	// Stop and Close
	stop, cl := p.MethodN(r.channel, "Stop"), p.MethodN(r.channel, "Close")
	if !c.Anchor(stop, "Channel.Stop") || !c.Anchor(cl, "Channel.Close") {
		return
	}
	stopped := func(pa *Path, upto int) bool {
		sig, wd, wh := false, false, false
		for _, e := range pa.Events[:upto] {
			if a := atomicOp(e); a != nil && fieldVar(a.Addr) == flag && a.Op != "Load" && a.Op != "Add" {
				v := a.Args[len(a.Args)-1]
				if n, ok := constVal(v); ok && n != 0 {
					sig = true
				}
				if b, ok := v.Strip().BoolConst(); ok && b {
					sig = true
				}
			}
			if e.Kind == EvClose && fieldVar(e.Recv) == flag {
				sig = true
			}
			if e.Kind == EvRecv && contains2(doneCh, fieldVar(e.Recv)) && sig {
				wd = true
			}
			if isCall(e, "(*sync.WaitGroup).Wait") && fieldVar(e.Recv) == hwg && hwg != nil && sig {
				wh = true
			}
		}
		return sig && wd && wh
	}
	for _, pa := range c.Walk(stop, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		con := fnName(stop)
		once := false
		for i, e := range pa.Events {
			if e.Kind == EvClose {
				c.Expect(insideOnce(pa, i) || casBefore(pa, i), "repeatable", con, e.Pos, "stopping twice closes a channel twice", pa)
			}
			once = once || insideOnce(pa, i)
		}
		c.Ob("repeatable", con, stop.Pos())
		already := false // a second stop: the first one's doing
		for _, e := range pa.Events {
			if a := atomicOp(e); a != nil && a.Op == "CompareAndSwap" && fieldVar(a.Addr) == flag && pa.St.Truth(e.Res) == 0 {
				already = true
			}
		}
		if !already {
			c.Expect(stopped(pa, len(pa.Events)), "waits", con, stop.Pos(), "Stop returns although goroutines may still be consuming", pa)
		}
	}
	con := fnName(cl)
	for _, pa := range c.Walk(cl, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		for i, e := range pa.Events {
			if e.Kind == EvClose {
				c.Expect(insideOnce(pa, i) || casBefore(pa, i), "repeatable", con, e.Pos, "closing twice closes a channel twice", pa)
			}
		}
		var errs []*Term
		rem := false
		for _, x := range cmds(pa) {
			switch x.op {
			case "xgroupdelconsumer":
				rem = true
				ok := len(x.args) == 3 && recvField(x.args[0], r.cstream) && recvField(x.args[1], r.group) && recvField(x.args[2], r.consumer)
				c.Expect(ok, "close", con+" consumer", x.e.Pos, "another consumer is removed than the channel's own", pa)
				c.Expect(stopped(pa, x.at), "close", con+" order", x.e.Pos, "the consumer is removed while it may still be consuming", pa)
			case "xgroupdestroy":
				ok := len(x.args) == 2 && recvField(x.args[0], r.cstream) && recvField(x.args[1], r.group)
				c.Expect(ok, "close", con+" group", x.e.Pos, "another group is destroyed than the channel's own", pa)
				none := false
				for _, y := range cmds(pa) {
					if y.op == "xinfoconsumers" && y.at < x.at && stateOf(pa, y.res) == cmdOK && len(y.args) == 2 && recvField(y.args[0], r.cstream) && recvField(y.args[1], r.group) {
						if emptyList(pa, extractReply(pa, y.res)) {
							none = true
						}
					}
				}
				c.Expect(none, "close", con+" last", x.e.Pos, "the group is destroyed although it may still have consumers", pa)
				for _, y := range cmds(pa) {
					if y.at < x.at && y.op == "xgroupdelconsumer" {
						c.Expect(stateOf(pa, y.res) == cmdOK, "close", con+" failed", x.e.Pos, "the group is destroyed after a failed step", pa)
					}
				}
			}
			if stateOf(pa, x.res) == cmdFailed || stateOf(pa, x.res) == cmdAbsent {
				errs = append(errs, cmdErrs(pa, x.res)...)
			}
			if stateOf(pa, x.res) == cmdUnknown && pa.Outcome == Returned {
				// not looked at: fine only if it is what is returned
				ok := false
				for _, t := range cmdErrs(pa, x.res) {
					ok = ok || len(pa.Ret) > 0 && pa.Ret[len(pa.Ret)-1].Mentions(t.ID())
				}
				c.Expect(ok, "close", con+" reported", x.e.Pos, "a failing step of closing goes unnoticed", pa)
			}
		}
		if pa.Outcome == Returned {
			c.Expect(rem, "close", con+" removed", cl.Pos(), "the consumer is not removed", pa)
			if len(errs) > 0 {
				c.Expect(pa.nil(pa.Ret[len(pa.Ret)-1]) == NonNil, "close", con+" reported", cl.Pos(), "a failing step of closing is not reported", pa)
			} else if pa.nil(pa.Ret[len(pa.Ret)-1]) == IsNil || len(errs) == 0 {
				// complete: looked for consumers, and destroyed if none
				looked, some, destroyed := false, false, false
				for _, y := range cmds(pa) {
					if y.op == "xinfoconsumers" {
						looked = true
						if rep := extractReply(pa, y.res); rep != nil && !emptyList(pa, rep) {
							lo, _ := pa.St.interval(&Term{Op: "len", Args: []*Term{rep}, T: types.Typ[types.Int]})
							some = some || lo >= 1
						}
					}
					destroyed = destroyed || y.op == "xgroupdestroy"
				}
				c.Expect(looked && (some || destroyed), "close", con+" left", cl.Pos(), "a group without consumers is left behind", pa)
			}
		}
	}
	c.Min("told", 2)
	c.Min("waits", 3)
	c.Min("drained", 1)
	c.Min("close", 5)
}

// emptyList: the reply list was decided to be empty.
func emptyList(pa *Path, rep *Term) bool {
	if rep == nil {
		return false
	}
	if n, ok := listLen(pa, rep); ok {
		return n == 0
	}
	return endOf(pa, rep, 0) || pa.nil(rep) == IsNil
}

// extractReply is the value of a command's reply, as read on the path.
func extractReply(pa *Path, res *Term) *Term {
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Recv != nil && cmdSelf(e.Recv).ID() == res.Strip().ID() {
			if strings.HasSuffix(e.Name, ".Result") {
				return extract(e.Res, 0)
			}
			if strings.HasSuffix(e.Name, ".Val") {
				return e.Res
			}
		}
	}
	return nil
}

// casBefore: event i happens only after a compare-and-swap of the path succeeded.
func casBefore(pa *Path, i int) bool {
	for _, e := range pa.Events[:i] {
		if a := atomicOp(e); a != nil && (a.Op == "CompareAndSwap" && pa.St.Truth(e.Res) == 1 || a.Op == "Swap" && pa.True("==", e.Res, tInt(0)) == 1) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- P04

func runP04(c *Check) {
	c.Rule("group", "the group is created under the given name on the topic's stream, at the latest entry unless an option changed it")
	c.Rule("failure", "only an existing group counts as success; any other failure is returned, without a channel")
	c.Rule("after", "consumption starts only after the group is known to exist")
	c.Rule("reads", "the channel reads never-delivered entries of its own stream and group, under a consumer name of its own, keeping them pending until acknowledged")
	c.Rule("locked", "the table of a topic's channels is only touched under the topic's lock")
	r := c.psRoles()
	if r == nil {
		return
	}
	con := fnName(r.sub)
	for _, pa := range r.subPaths {
		if pa.Outcome == Cut {
			continue
		}
		var gc *storeCmd
		for _, x := range cmds(pa) {
			if strings.HasPrefix(x.op, "xgroupcreate") {
				gc = x
			} else if cmdWrites[x.op] {
				c.Expect(x.op == "xgroupcreateconsumer", "group", con+" "+x.op, x.e.Pos, "subscribing changes the stream", pa)
			}
		}
		starts := -1
		for i, e := range pa.Events {
			if e.Kind == EvGo && starts < 0 {
				starts = i
			}
		}
		if gc == nil {
			c.Expect(starts < 0 && pa.Outcome == Returned && pa.nil(pa.Ret[1]) == NonNil, "group", con+" created", r.sub.Pos(), "a subscription is made without its group", pa)
			continue
		}
		// where
		c.Expect(len(gc.args) == 3 && recvField(gc.args[0], r.stream) && gc.args[1].Strip().ID() == "$2", "group", con, gc.e.Pos, "the group is not created under the given name on the topic's stream", pa)
		var opts []*Event
		for _, e := range pa.Events[:gc.at] {
			if e.Kind == EvCall && e.Dynamic {
				opts = append(opts, e)
			}
		}
		mode := gc.args[2].Strip()
		if len(opts) == 0 {
			s, ok := mode.StrConst()
			c.Expect(ok && s == "$", "group", con+" default", gc.e.Pos, "without an option the group does not start at the latest entry", pa)
		} else {
			root := mode.Root()
			last := opts[len(opts)-1]
			ok := mode.Op != "const" && len(last.Args) == 1 && last.Args[0].Root().ID() == root.ID()
			c.Expect(ok, "group", con+" option", gc.e.Pos, "the position asked for is not used", pa)
		}
		// outcome
		st := cmdUnknown
		exists, denied := false, false
		for _, t := range cmdErrs(pa, gc.res) {
			switch pa.nil(t) {
			case IsNil:
				st = cmdOK
			case NonNil:
				st = cmdFailed
			}
			for k, v := range pa.St.assume {
				x := pa.St.terms[k]
				if x == nil {
					continue
				}
				busy := func(y *Term) bool {
					s, ok := y.StrConst()
					return ok && strings.Contains(s, "BUSYGROUP")
				}
				is := false
				if x.Op == "bin" && x.S == "==" {
					for n := 0; n < 2; n++ {
						a, b := x.Args[n].Strip(), x.Args[1-n]
						is = is || a.Op == "call" && errText(pa, a, t) && b.Any(busy)
					}
				}
				if x.Op == "call" && strings.HasPrefix(x.S, "strings.") && len(x.Args) == 2 && busy(x.Args[1]) {
					is = is || errText(pa, x.Args[0].Strip(), t)
				}
				if is && v {
					exists = true
				} else if is {
					denied = true
				}
			}
		}
		ok := st == cmdOK || exists
		if pa.Outcome != Returned {
			c.Expect(false, "failure", con, r.sub.Pos(), "subscribing panics", pa)
			continue
		}
		if ok {
			c.Expect(starts > gc.at && pa.nil(pa.Ret[0]) == NonNil && pa.nil(pa.Ret[1]) == IsNil, "failure", con+" success", r.sub.Pos(), "a subscription whose group exists is not made", pa)
			c.Expect(starts < 0 || starts > gc.at, "after", con, r.sub.Pos(), "consumption starts before the group exists", pa)
		} else {
			c.Expect(starts < 0, "after", con, gc.e.Pos, "consumption starts without a group", pa)
			c.Expect(denied, "failure", con+" existing", gc.e.Pos, "a second subscription to the same group fails", pa)
			c.Expect(pa.nil(pa.Ret[1]) == NonNil && pa.nil(pa.Ret[0]) == IsNil, "failure", con, gc.e.Pos, "a failed subscription is not reported", pa)
		}
	}
	c.immutable("reads", r.group, r.cstream, r.consumer, r.stream)
	for _, g := range r.readers {
		gcon := goName(c, g.ev.GoFn)
		for _, gp := range g.w.Paths {
			for _, x := range cmds(gp) {
				if x.op == "xread" {
					c.Expect(false, "reads", gcon+" xread", x.e.Pos, "the stream is read outside the group", gp)
				}
				if x.op != "xreadgroup" || len(x.args) != 1 {
					continue
				}
				m := structVals(gp, x.args[0])
				c.Expect(m["Group"] != nil && (m["Group"].Strip().ID() == "$2" || fieldVar(m["Group"].Strip()) == r.group), "reads", gcon+" group", x.e.Pos, "another group is read", gp)
				okc := m["Consumer"] != nil && randomSource(g.from, len(g.from.Events), m["Consumer"])
				if m["Consumer"] != nil && fieldVar(m["Consumer"].Strip()) == r.consumer && r.consumer != nil {
					for _, e := range g.from.Events {
						if e.Kind == EvStore && fieldVar(e.Recv) == r.consumer {
							okc = randomSource(g.from, len(g.from.Events), e.Val)
						}
					}
				}
				c.Expect(okc, "reads", gcon+" consumer", x.e.Pos, "the consumer's name is not its own", gp)
				els, ok := g.w.elements(gp.St, m["Streams"])
				s := ""
				if ok && len(els) == 2 {
					s, _ = els[1].StrConst()
				}
				c.Expect(ok && len(els) == 2 && fieldVar(els[0].Strip()) != nil && (fieldVar(els[0].Strip()) == r.stream || fieldVar(els[0].Strip()) == r.cstream) && s == ">", "reads", gcon+" stream", x.e.Pos, "not the never-delivered entries of the topic's stream are read", gp)
				if v := m["NoAck"]; v != nil {
					b, known := v.BoolConst()
					c.Expect(known && !b, "reads", gcon+" pending", x.e.Pos, "entries are taken as acknowledged when they are read", gp)
				}
			}
		}
	}
	if f := FieldBy(r.topic, "the table of channels", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			return false
		}
		pt, ok := m.Elem().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), r.channel)
	}); f != nil {
		c.Guarded("locked", r.topic, f.Name(), func(v *types.Var) bool { return v == f }, nil, 1)
	}
	c.Min("group", 3)
	c.Min("failure", 2)
	c.Min("reads", 3)
}

// immutable: the fields are only written while their object is being built.
func (c *Check) immutable(rule string, fs ...*types.Var) {
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || c.P.freshBase(fa) {
					continue
				}
				for _, f := range fs {
					if f != nil && fieldOfAddr(fa) == f {
						c.Viol(rule, fnName(fn)+" "+f.Name(), st.Pos(), "the identity of an object in use is changed", nil)
					}
				}
			}
		}
	}
}

// errText: the call is the Error method of the error.
func errText(pa *Path, call, err *Term) bool {
	for _, e := range pa.Events {
		if isCall(e, "(error).Error") && sameID(e.Res, call) && sameID(e.Recv, err) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- P05

func runP05(c *Check) {
	p := c.P
	c.Rule("append", "publishing adds exactly one entry with the event and body to the topic's stream")
	c.Rule("result", "publishing reports the store's error")
	c.Rule("refused", "an empty event is refused without writing")
	c.Rule("once", "a topic is looked up and created in one critical section, and the one stored is the one returned")
	c.Rule("existing", "creating a topic changes the stream only if the store said that it does not exist")
	c.Rule("placeholder", "the entry that creates the stream is deleted again, by its own id, and the topic is recorded")
	c.Rule("published", "the system publishes the given event and body to the given topic")
	pub := p.Method(psPkg, "Topic", "Pub")
	topic := p.Named(psPkg, "Topic")
	if !c.Anchor(pub, "Topic.Pub") || topic == nil {
		return
	}
	con := fnName(pub)
	var stream *types.Var
	w := c.Walk(pub, WalkOpts{LoopBound: 2})
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		var adds []*storeCmd
		for _, x := range cmds(pa) {
			if x.op == "xadd" {
				adds = append(adds, x)
			} else if cmdWrites[x.op] {
				c.Expect(false, "append", con+" "+x.op, x.e.Pos, "publishing writes something else", pa)
			}
		}
		if pa.Outcome != Returned {
			c.Expect(false, "append", con, pub.Pos(), "publishing panics", pa)
			continue
		}
		ret := pa.Ret[0]
		if emptyStr(pa, "$2") != 0 {
			c.Expect(len(adds) == 0 && pa.nil(ret) == NonNil, "refused", con, pub.Pos(), "an empty event is not refused", pa)
			continue
		}
		if len(adds) == 0 {
			c.Expect(pa.nil(ret) == NonNil, "append", con+" none", pub.Pos(), "publishing reports success without having added anything", pa)
			continue
		}
		if !c.Expect(len(adds) == 1, "append", con+" one", pub.Pos(), "a message is added more than once", pa) {
			continue
		}
		x := adds[0]
		m := structVals(pa, x.args[0])
		ok := m["Stream"] != nil
		if ok {
			root, f := m["Stream"].Strip().FieldPath()
			ok = root.ID() == "$0" && len(f) == 1
			stream = fieldVar(m["Stream"].Strip())
		}
		c.Expect(ok, "append", con+" stream", x.e.Pos, "the entry is not added to the topic's stream", pa)
		kv := w.pairs(pa, m["Values"])
		c.Expect(kv != nil && len(kv) == 2 && kv["event"] != nil && kv["event"].Strip().ID() == "$2" && kv["msg"] != nil && stripAll(kv["msg"]).ID() == "$3", "append", con+" content", x.e.Pos, "the entry does not hold exactly the event and the body under the names readers look for", pa)
		for _, f := range []string{"NoMkStream", "MaxLen", "MinID", "Limit"} {
			if v := m[f]; v != nil {
				z := v.ID() == "0" || v.ID() == "false" || v.ID() == `""`
				c.Expect(z, "append", con+" "+f, x.e.Pos, "publishing may drop entries", pa)
			}
		}
		if v := m["ID"]; v != nil {
			s, isC := v.StrConst()
			c.Expect(isC && (s == "*" || s == ""), "append", con+" id", x.e.Pos, "the entry's id is not chosen by the store", pa)
		}
		good := false
		for _, t := range cmdErrs(pa, x.res) {
			switch pa.nil(t) {
			case IsNil:
				good = pa.nil(ret) == IsNil
			case NonNil:
				good = pa.nil(ret) == NonNil
			default:
				good = sameID(ret, t)
			}
			if good {
				break
			}
		}
		c.Expect(good, "result", con, x.e.Pos, "the store's error is not reported", pa)
	}
	c.Min("append", 3)
	c.Min("result", 1)
	c.Min("refused", 1)
	c.topicTable(topic, stream)
	// the system
	for _, n := range p.Implementers("core", "ISystem") {
		m := p.MethodN(n, "Pub")
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		mcon := fnName(m)
		for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			var call *Event
			k := 0
			for _, e := range pa.Events {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, "pubsub.Topic).Pub") {
					call = e
					k++
				}
			}
			if call == nil {
				c.Expect(pa.nil(pa.Ret[0]) == NonNil, "published", mcon, m.Pos(), "nothing is published", pa)
				continue
			}
			t := call.Recv.Strip()
			ok := k == 1 && t.Op == "call" && (strings.HasSuffix(t.S, "CreateTopic") || strings.HasSuffix(t.S, "GetTopic") && decidedNonNil(pa, call, t)) && calledWith(pa, t, "$1") && len(call.Args) == 3 && call.Args[1].Strip().ID() == "$2" && stripAll(call.Args[2]).ID() == "$3"
			c.Expect(ok, "published", mcon+" what", call.Pos, "another topic, event or body is published", pa)
			c.Expect(pa.is(pa.Ret[0], call.Res) || pa.nil(call.Res) == pa.nil(pa.Ret[0]) && pa.nil(call.Res) != 0, "published", mcon+" result", call.Pos, "the result of publishing is not reported", pa)
		}
	}
	c.Min("published", 2)
}

// calledWith: the call whose result is t got the parameter as an argument.
func calledWith(pa *Path, t *Term, id string) bool {
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Res != nil && sameID(e.Res, t) {
			for _, a := range e.Args {
				if a.Strip().ID() == id {
					return true
				}
			}
		}
	}
	return false
}

// pairs reads the name/value pairs of an entry: a flat list or a map.
func (w *Walk) pairs(pa *Path, t *Term) map[string]*Term {
	if t == nil {
		return nil
	}
	r := map[string]*Term{}
	s := t.Strip()
	if s.Op == "makemap" {
		for _, e := range pa.Events {
			if e.Kind == EvMapSet && e.Recv.Strip().ID() == s.ID() {
				k, ok := e.Args[0].Strip().StrConst()
				if !ok {
					return nil
				}
				r[k] = e.Val
			}
		}
		return r
	}
	els, ok := w.elements(pa.St, s)
	if !ok || len(els)%2 != 0 {
		return nil
	}
	for i := 0; i+1 < len(els); i += 2 {
		k, ok := els[i].Strip().StrConst()
		if !ok {
			return nil
		}
		r[k] = els[i+1]
	}
	return r
}

func (c *Check) topicTable(topic *types.Named, stream *types.Var) {
	p := c.P
	mgr := p.Named(psPkg, "Pubsub")
	if mgr == nil {
		c.Missing("Pubsub")
		return
	}
	f := FieldBy(mgr, "the table of topics", func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			return false
		}
		pt, ok := m.Elem().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), topic)
	})
	if f == nil {
		c.Missing("the table of topics")
		return
	}
	c.Guarded("once", mgr, f.Name(), func(v *types.Var) bool { return v == f }, nil, 2)
	n := 0
	for i := 0; i < mgr.NumMethods(); i++ {
		fn := p.MethodN(mgr, mgr.Method(i).Name())
		if fn == nil || len(fn.Blocks) == 0 || !mgr.Method(i).Exported() {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isPtrTo(res.At(0).Type(), topic) {
			continue
		}
		con := fnName(fn)
		w := c.Walk(fn, WalkOpts{LoopBound: 2})
		for _, pa := range w.Paths {
			if pa.Outcome == Panicked {
				c.Expect(false, "once", con, fn.Pos(), "creating a topic panics", pa)
			}
			if pa.Outcome != Returned {
				continue
			}
			var set *Event
			seti := -1
			for i, e := range pa.Events {
				if e.Kind == EvMapSet && fieldVar(e.Recv) == f {
					c.Expect(set == nil, "once", con+" once", e.Pos, "a topic is stored twice", pa)
					set, seti = e, i
				}
				if e.Kind == EvMapDel && fieldVar(e.Recv) == f {
					c.Expect(false, "once", con+" kept", e.Pos, "a topic in use is dropped", pa)
				}
			}
			ret := pa.Ret[0]
			if set != nil {
				n++
				c.Expect(set.Args[0].Strip().ID() == "$1", "once", con+" name", set.Pos, "a topic is stored under another name", pa)
				ok := false
				for _, l := range pa.Events[:seti] {
					if l.Kind == EvLookup && fieldVar(l.Recv) == f && l.Args[0].Strip().ID() == "$1" && absent(pa, l) && sharedLock(l, set) {
						ok = true
					}
				}
				c.Expect(ok, "once", con+" looked", set.Pos, "two users can create the same topic at once", pa)
				c.Expect(sameID(ret, set.Val), "once", con+" returned", set.Pos, "the topic returned is not the one others will get", pa)
				nm := deepVal(pa, len(pa.Events), set.Val.Strip(), fieldName(stream))
				c.Expect(stream == nil || nm.ID() == "$1", "once", con+" stream", set.Pos, "the topic's stream is not named like the topic", pa)
			} else if pa.nil(ret) != IsNil {
				ok := false
				for _, l := range pa.Events {
					if l.Kind == EvLookup && fieldVar(l.Recv) == f && l.Args[0].Strip().ID() == "$1" && (sameID(l.Res, ret) || sameID(extract(l.Res, 0), ret)) {
						ok = true
					}
				}
				c.Expect(ok, "once", con+" returned", fn.Pos(), "a topic that is not in the table is returned", pa)
			}
			// the store
			c.topicCreation(w, pa, con, set != nil)
		}
	}
	if n == 0 {
		c.Missing("the creation of topics")
	}
	c.Min("once", 4)
	c.Min("existing", 2)
	c.Min("placeholder", 2)
}

func fieldName(v *types.Var) string {
	if v == nil {
		return ""
	}
	return v.Name()
}

func isPtrTo(t types.Type, n *types.Named) bool {
	pt, ok := t.(*types.Pointer)
	return ok && types.Identical(pt.Elem(), n)
}

func isName(t *Term) bool {
	t = t.Strip()
	return t.ID() == "$1"
}

// topicCreation decides what creating a topic does to the store.
func (c *Check) topicCreation(w *Walk, pa *Path, con string, creates bool) {
	var add *storeCmd
	all := cmds(pa)
	for _, x := range all {
		if !cmdWrites[x.op] {
			continue
		}
		c.Expect(creates, "existing", con+" "+x.op+" created", x.e.Pos, "looking up a topic changes the store", pa)
		isNew := false
		for _, y := range all {
			if y.op == "exists" && y.at < x.at && len(y.args) == 1 && isName(y.args[0]) && stateOf(pa, y.res) == cmdOK {
				if pa.True("==", extractReply(pa, y.res), tInt(0)) == 1 || pa.True("<", tInt(0), extractReply(pa, y.res)) == 0 {
					isNew = true
				}
			}
		}
		c.Expect(isNew, "existing", con+" "+x.op, x.e.Pos, "a stream that may exist is changed", pa)
		switch x.op {
		case "xadd":
			c.Expect(add == nil, "placeholder", con+" one", x.e.Pos, "more than one entry is added", pa)
			add = x
			m := structVals(pa, x.args[0])
			c.Expect(m["Stream"] != nil && isName(m["Stream"]), "placeholder", con+" stream", x.e.Pos, "the stream is not named like the topic", pa)
		case "xdel":
			ok := add != nil && len(x.args) == 2 && isName(x.args[0]) && sameID(x.args[1], extractReply(pa, add.res)) && stateOf(pa, add.res) == cmdOK
			c.Expect(ok, "placeholder", con+" own", x.e.Pos, "another entry than the placeholder is deleted", pa)
		case "expire", "pexpire":
			ok := len(x.args) == 2 && isName(x.args[0]) && (pa.True("<", tInt(0), x.args[1]) == 1)
			c.Expect(ok, "existing", con+" ttl", x.e.Pos, "an expiry that was not asked for is set", pa)
		case "sadd":
			c.Expect(len(x.args) == 2 && isName(x.args[1]), "placeholder", con+" set", x.e.Pos, "another topic is recorded", pa)
		default:
			c.Expect(x.op == "xgroupcreatemkstream", "existing", con+" "+x.op+" unexpected", x.e.Pos, "creating a topic does "+x.op, pa)
		}
	}
	if add != nil && stateOf(pa, add.res) == cmdOK {
		del, rec := false, false
		for _, x := range all {
			if x.op == "xdel" && x.at > add.at {
				del = true
			}
			if x.op == "sadd" {
				rec = true
			}
		}
		c.Expect(del, "placeholder", con+" deleted", add.e.Pos, "the placeholder is left in the stream", pa)
		c.Expect(rec, "placeholder", con+" recorded", add.e.Pos, "the topic is not recorded", pa)
	}
}

// ---------------------------------------------------------------- P06

func runP06(c *Check) {
	p := c.P
	c.Rule("unused", "the stream is deleted only if the store reported no group")
	c.Rule("empty", "the stream is deleted only if the store reported no entry")
	c.Rule("together", "stream and registration of this topic are deleted in one batch, and nothing else")
	c.Rule("reported", "a failing step is reported and nothing is deleted after it")
	c.Rule("cleaned", "a topic without group and entry is deleted, also if its stream never existed, and only a failed step is reported")
	absentStream := false
	fn := p.Method(psPkg, "Topic", "Close")
	if !c.Anchor(fn, "Topic.Close") {
		return
	}
	con := fnName(fn)
	own := func(t *Term) bool {
		root, f := t.Strip().FieldPath()
		return root.ID() == "$0" && len(f) == 1
	}
	// the reply can be taken for "nothing there"
	noSuchKey := func(pa *Path, t *Term) bool {
		for k, v := range pa.St.assume {
			x := pa.St.terms[k]
			if v && x != nil && x.Op == "call" && strings.HasPrefix(x.S, "strings.") && len(x.Args) == 2 {
				if s, ok := x.Args[1].StrConst(); ok && strings.Contains(s, "no such key") && errText(pa, x.Args[0].Strip(), t) {
					return true
				}
			}
			if v && x != nil && x.Op == "bin" && x.S == "==" {
				for n := 0; n < 2; n++ {
					if s, ok := x.Args[1-n].StrConst(); ok && strings.Contains(s, "no such key") && errText(pa, x.Args[n].Strip(), t) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		if pa.Outcome != Returned {
			c.Expect(false, "reported", con, fn.Pos(), "closing panics", pa)
			continue
		}
		all := cmds(pa)
		bs, loose := batches(pa)
		for _, x := range loose {
			in := x.pipe != nil // batched but never executed
			c.Expect(in && false, "together", con+" "+x.op, x.e.Pos, "something is deleted outside the batch", pa)
		}
		// failing steps
		failed, gone, nobody, nothing := false, false, false, false
		for _, b := range bs {
			failed = failed || pa.nil(extract(b.exec.Res, 1)) != IsNil
		}
		for _, x := range all {
			if cmdWrites[x.op] {
				continue
			}
			bad := false
			for _, t := range cmdErrs(pa, x.res) {
				if pa.nil(t) == NonNil && !isRedisNil(pa, t) && !noSuchKey(pa, t) {
					bad = true
				}
				failed = failed || pa.nil(t) == NonNil && !noSuchKey(pa, t)
				gone = gone || noSuchKey(pa, t)
			}
			rep := extractReply(pa, x.res)
			switch {
			case x.op == "xinfogroups" && stateOf(pa, x.res) == cmdOK && emptyList(pa, rep):
				nobody = true
			case x.op == "xlen" && stateOf(pa, x.res) == cmdOK && (pa.True("==", rep, tInt(0)) == 1 || pa.True("<", tInt(0), rep) == 0):
				nothing = true
			}
			if bad {
				c.Expect(len(bs) == 0, "reported", con+" "+x.op, x.e.Pos, "the topic is deleted after a failed step", pa)
				c.Expect(pa.nil(pa.Ret[0]) == NonNil, "reported", con+" "+x.op+" error", x.e.Pos, "a failing step is not reported", pa)
			}
		}
		if !failed {
			c.Expect(pa.nil(pa.Ret[0]) != NonNil, "cleaned", con+" answer", fn.Pos(), "an error is answered although no step failed", pa)
			if (nobody || gone) && nothing {
				c.Expect(len(bs) > 0, "cleaned", con, fn.Pos(), "a topic without group and entry is left behind", pa)
			}
			absentStream = absentStream || gone && len(bs) > 0
		}
		for _, b := range bs {
			// no group
			groups, empty := false, false
			for _, x := range all {
				if x.at > b.at {
					continue
				}
				rep := extractReply(pa, x.res)
				st := stateOf(pa, x.res)
				gone := false
				for _, t := range cmdErrs(pa, x.res) {
					gone = gone || noSuchKey(pa, t)
				}
				if x.op == "xinfogroups" && len(x.args) == 1 && own(x.args[0]) {
					if gone || st == cmdAbsent {
						groups = true
					} else if st == cmdOK && emptyList(pa, rep) {
						groups = true
					}
				}
				if x.op == "xlen" && len(x.args) == 1 && own(x.args[0]) && (st == cmdOK || st == cmdAbsent) && (pa.True("==", rep, tInt(0)) == 1 || pa.True("<", tInt(0), rep) == 0) {
					empty = true
				}
			}
			c.Expect(groups, "unused", con, b.exec.Pos, "the topic is deleted although consumer groups may exist", pa)
			c.Expect(empty, "empty", con, b.exec.Pos, "the topic is deleted although entries may be left", pa)
			del, rem := false, false
			for _, x := range b.cmds {
				switch {
				case (x.op == "del" || x.op == "unlink") && len(x.args) == 1 && own(x.args[0]):
					del = true
				case x.op == "srem" && len(x.args) == 2 && own(x.args[1]):
					rem = true
				default:
					c.Expect(false, "together", con+" "+x.op, x.e.Pos, "something else is deleted", pa)
				}
			}
			c.Expect(del && rem, "together", con, b.exec.Pos, "the stream and its registration are not deleted together", pa)
			switch pa.nil(extract(b.exec.Res, 1)) {
			case NonNil:
				c.Expect(pa.nil(pa.Ret[0]) == NonNil, "reported", con+" exec", b.exec.Pos, "a failed deletion is not reported", pa)
			case IsNil:
			default:
				c.Expect(pa.Ret[0].Mentions(extract(b.exec.Res, 1).ID()), "reported", con+" exec", b.exec.Pos, "a failed deletion is not reported", pa)
			}
		}
	}
	c.Expect(absentStream, "cleaned", con+" no stream", fn.Pos(), "a topic whose stream does not exist is never cleaned up", nil)
	c.Min("unused", 1)
	c.Min("empty", 1)
	c.Min("together", 1)
	c.Min("reported", 4)
}

// ---------------------------------------------------------------- P07

func runP07(c *Check) {
	p := c.P
	c.Rule("put", "a value is sent directly only if the backlog is empty, otherwise appended behind it, exactly once")
	c.Rule("load", "only the oldest backlog value is sent, and it leaves the backlog exactly when it was sent")
	c.Rule("non-blocking", "no operation of the buffer blocks")
	c.Rule("locked", "the backlog is only touched under the buffer's lock, and the channel is filled under it")
	c.Rule("pull", "every consumer pulls the next value after taking one, before taking another")
	c.Rule("channel", "the channel has room for a value and is never replaced or closed")
	n := p.Named("lib/unbounded", "Unbounded")
	put, load, get, ctor := p.Method("lib/unbounded", "Unbounded", "Put"), p.Method("lib/unbounded", "Unbounded", "Load"), p.Method("lib/unbounded", "Unbounded", "Get"), p.Func("lib/unbounded", "NewUnbounded")
	if n == nil || !c.Anchor(put, "Unbounded.Put") || !c.Anchor(load, "Unbounded.Load") || !c.Anchor(get, "Unbounded.Get") || !c.Anchor(ctor, "NewUnbounded") {
		return
	}
	var ch, bl *types.Var
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Chan:
			ch = s.Field(i)
		case *types.Slice:
			bl = s.Field(i)
		}
	}
	if ch == nil || bl == nil {
		c.Missing("the buffer's channel and backlog")
		return
	}
	c.Guarded("locked", n, bl.Name(), func(v *types.Var) bool { return v == bl }, nil, 2)
	for _, fn := range []*ssa.Function{put, load} {
		con := fnName(fn)
		moved := false
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "non-blocking", con, fn.Pos(), "the operation panics or blocks", pa) {
				continue
			}
			c.balanced("locked", con, pa)
			sent, at := 0, -1
			var sentVal *Term
			stores := 0
			var last *Term
			for i, e := range pa.Events {
				switch {
				case e.Kind == EvSend || e.Kind == EvRecv || e.Kind == EvSelect && e.Blocking:
					c.Expect(false, "non-blocking", con, e.Pos, "the operation waits for room", pa)
				case e.Kind == EvSelect:
					c.Ob("non-blocking", con, e.Pos)
					c.Expect(holdsRecv(e), "locked", con+" send", e.Pos, "the channel is filled without the lock", pa)
					if e.Case >= 0 && e.Cases[e.Case].Send && fieldVar(e.Cases[e.Case].Chan) == ch {
						sent++
						at = i
						sentVal = e.Cases[e.Case].Val
					} else if e.Case >= 0 {
						c.Expect(false, "load", con+" other", e.Pos, "a value is taken out of the channel", pa)
					}
				case e.Kind == EvStore && fieldVar(e.Recv) == bl:
					stores++
					last = e.Val
				}
			}
			isEmpty := lenZero(pa, bl)
			if fn == put {
				app := last != nil && last.Op == "append" && fieldVar(last.Args[0]) == bl && appendsOnly(last, "$1")
				switch {
				case sent == 1 && stores == 0:
					c.Expect(sentVal.Strip().ID() == "$1" && isEmpty == 1, "put", con+" direct", pa.Events[at].Pos, "a value overtakes the backlog", pa)
				case sent == 0 && stores == 1:
					c.Expect(app, "put", con+" append", fn.Pos(), "the value is not added at the end of the backlog", pa)
				default:
					c.Expect(false, "put", con, fn.Pos(), "the value is not kept exactly once", pa)
				}
				continue
			}
			if sent == 0 {
				c.Expect(stores == 0, "load", con+" kept", fn.Pos(), "a backlog value is dropped without having been sent", pa)
				tried := false
				for _, e := range pa.Events {
					if e.Kind == EvSelect {
						for _, k := range e.Cases {
							tried = tried || k.Send && fieldVar(k.Chan) == ch
						}
					}
				}
				c.Expect(tried || isEmpty == 1, "load", con+" tried", fn.Pos(), "a backlog value is not moved although there may be room", pa)
				continue
			}
			moved = true
			first := sentVal.Strip()
			ok := sent == 1 && (first.Op == "load" && first.Args[0].Op == "index" || first.Op == "index" || first.Op == "indexval")
			if ok {
				ix := first
				if first.Op == "load" {
					ix = first.Args[0]
				}
				k, isC := ix.Args[1].IntConst()
				ok = isC && k == 0 && fieldVar(ix.Args[0]) == bl
			}
			c.Expect(ok && isEmpty == 0, "load", con+" oldest", pa.Events[at].Pos, "not the oldest backlog value is sent", pa)
			c.Expect(stores == 1 && dropsFirst(last, bl), "load", con+" dropped", fn.Pos(), "the value sent does not leave the backlog exactly once", pa)
		}
		if fn == load {
			c.Expect(moved, "load", con+" moves", fn.Pos(), "no value ever moves from the backlog", nil)
		}
	}
	for _, pa := range c.Walk(get, WalkOpts{}).Paths {
		c.Expect(pa.Outcome == Returned && fieldVar(pa.Ret[0].Strip()) == ch, "channel", fnName(get), get.Pos(), "the channel handed out is not the one filled", pa)
	}
	for _, pa := range c.Walk(ctor, WalkOpts{}).Paths {
		ok := false
		for _, e := range pa.Events {
			if e.Kind == EvStore && fieldVar(e.Recv) == ch && e.Val.Op == "makechan" {
				if k, isC := e.Val.Args[0].IntConst(); isC && k >= 1 {
					ok = true
				}
			}
		}
		if t := pa.Ret[0].Strip(); !ok && t.Op == "alloc" {
			m := deepVal(pa, len(pa.Events), t, ch.Name())
			if m.Op == "makechan" {
				k, isC := m.Args[0].IntConst()
				ok = isC && k >= 1
			}
		}
		c.Expect(ok, "channel", fnName(ctor), ctor.Pos(), "the channel has no room, so that nothing is ever delivered", pa)
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldOfAddr(fa) != ch || c.P.freshBase(fa) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						c.Viol("channel", fnName(fn), st.Pos(), "the channel is replaced", nil)
					}
					if ld, ok := ref.(*ssa.UnOp); ok {
						for _, u := range *ld.Referrers() {
							if insCalls(u, "close") {
								c.Viol("channel", fnName(fn), u.Pos(), "the channel is closed", nil)
							}
						}
					}
				}
			}
		}
	}
	// consumers, module wide
	consumers := p.Entries(p.FnsWith(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() == get
	}))
	k := 0
	for _, fn := range consumers {
		if relPkg(fn) == "lib/unbounded" {
			continue
		}
		k++
		con := goName(c, fn)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			for _, t := range takings(pa) {
				if !t.all {
					continue
				}
				pulled := false
				for _, e := range pa.Events[t.at:t.end] {
					if isUnbounded(e, "Load") && t.buf != nil && sameID(e.Recv, t.buf) {
						pulled = true
					}
				}
				c.Expect(pulled, "pull", con, pa.Events[t.at].Pos, "a value is taken without the next one being pulled", pa)
			}
		}
	}
	if k == 0 {
		c.Missing("a consumer of the buffer")
	}
	c.Min("put", 2)
	c.Min("load", 2)
	c.Min("pull", 1)
}

// holdsRecv: some lock of the receiver is held exclusively.
func holdsRecv(e *Event) bool {
	for _, h := range e.Locks {
		if !h.Read {
			return true
		}
	}
	return false
}

// lenZero: was the length of the field decided to be zero (1), not zero (0), or not (-1)?
func lenZero(pa *Path, f *types.Var) int {
	for _, k := range sortedKeys(pa.St.assume) {
		if n := lenDecides(pa.St.terms[k], pa.St.assume[k], f); n >= 0 {
			return n
		}
	}
	return -1
}

// lenZeroAt: as lenZero, by the last decision before the event.
func lenZeroAt(pa *Path, at int, f *types.Var) int {
	for i := at - 1; i >= 0; i-- {
		if e := pa.Events[i]; e.Kind == EvBranch {
			if n := lenDecides(e.Val, e.Ok, f); n >= 0 {
				return n
			}
		}
	}
	return lenZero(pa, f)
}

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func lenDecides(t *Term, v bool, f *types.Var) int {
	if t == nil || t.Op != "bin" || len(t.Args) != 2 {
		return -1
	}
	a, b := t.Args[0], t.Args[1]
	isLen := func(x *Term) bool { return x.Op == "len" && fieldVar(x.Args[0]) == f }
	zero := func(x *Term, n int64) bool { m, ok := x.IntConst(); return ok && m == n }
	switch {
	case t.S == "==" && (isLen(a) && zero(b, 0) || isLen(b) && zero(a, 0)):
		return b2i(v)
	case t.S == "<" && zero(a, 0) && isLen(b):
		return 1 - b2i(v)
	case t.S == "<" && isLen(a) && zero(b, 1):
		return b2i(v)
	}
	return -1
}

// appendsOnly: exactly the one value is appended.
func appendsOnly(t *Term, id string) bool {
	if len(t.Args) != 2 {
		return false
	}
	x := t.Args[1]
	return x.Op == "list" && len(x.Args) == 1 && x.Args[0].Strip().ID() == id
}

// dropsFirst: the value is the list without its first element.
func dropsFirst(t *Term, f *types.Var) bool {
	if t == nil || t.Op != "slice" || len(t.Args) < 2 || fieldVar(t.Args[0]) != f {
		return false
	}
	lo, ok := t.Args[1].IntConst()
	if !ok || lo != 1 {
		return false
	}
	if len(t.Args) > 2 && t.Args[2] != nil {
		h := t.Args[2]
		if n, ok := h.IntConst(); ok && n < 0 {
			return true
		}
		return h.Op == "len" && fieldVar(h.Args[0]) == f || h.IsNilConst()
	}
	return true
}

// decidedNonNil: a branch before the event decided that the value is not nil.
func decidedNonNil(pa *Path, at *Event, t *Term) bool {
	for _, b := range pa.Events {
		if b == at {
			break
		}
		if b.Kind != EvBranch || b.Val.Op != "bin" || len(b.Val.Args) != 2 {
			continue
		}
		x, y := b.Val.Args[0], b.Val.Args[1]
		isLen := func(v *Term) bool { return v.Op == "len" && sameID(v.Args[0], t) }
		count := func(v *Term) bool { n, ok := v.IntConst(); return ok && n >= 0 }
		zero := func(v *Term) bool { n, ok := v.IntConst(); return ok && n == 0 }
		switch {
		case b.Val.S == "==" && !b.Ok && (y.IsNilConst() && sameID(x, t) || x.IsNilConst() && sameID(y, t)):
			return true
		case b.Val.S == "==" && !b.Ok && (isLen(x) && zero(y) || isLen(y) && zero(x)):
			return true
		case b.Val.S == "<" && b.Ok && count(x) && isLen(y):
			return true
		}
	}
	return false
}
