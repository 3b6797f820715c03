package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const abPkg = "core/addressbook"

func init() {
	register(&Prop{ID: "A01", Run: runA01, Method: "symbolic effect extraction and comparison of store batches on SSA paths",
		Expl: "The store commands every path of Register and Unregister puts into its batch are extracted with their keys, fields and values as templates over id, type, node, weight and record, and the two sets are decided to be exact inverses, to be executed as one batch, and to be all that is written."})
	register(&Prop{ID: "A02", Run: runA02, Method: "typestate of the local cache and lockset analysis over SSA paths",
		Expl: "Every change of the local id cache in every function is decided to follow a successful batch, every failing batch to be reported without a change, refusals to happen before anything is written, and every access to be under the lock."})
	register(&Prop{ID: "A03", Run: runA03, Method: "path-sensitive error classification and value provenance",
		Expl: "On every path of every lookup that reports success, every first-level store error is decided to be nil (or the one absent reply that has a meaning), the answer to be decoded from the index the registration writes, and unknown ids to be reported as unknown."})
	register(&Prop{ID: "A04", Run: runA04, Method: "order-relation closure over path conditions",
		Expl: "For every path of the weight based choices over several candidates, the comparisons made on the path are closed transitively and must prove that the answer's weight, read for its own node, is not above any readable candidate's; failing candidates are decided to be skipped."})
	register(&Prop{ID: "A05", Run: runA05, Method: "path-sensitive effect analysis with guard and lock pairing",
		Expl: "Every removal Clear batches is decided to be of a record whose node was compared equal to this node's on the path, both indexes together, own counters always, under the distributed lock taken and released on every path, with every failing step reported."})
	register(&Prop{ID: "D01", Run: runD01, Method: "path-sensitive provenance analysis and script matching",
		Expl: "On every path of Lock a token is returned only from a successful conditional set with a fresh random value and positive constant expiry, retries are bounded by the loop's constant condition, and release runs one compare-and-delete script with the caller's token and reports its outcome."})
}

// ---------------------------------------------------------------- store commands

type storeCmd struct {
	e    *Event
	at   int
	op   string // lower case command
	pipe *Term  // the batch, or nil
	args []*Term
	res  *Term
}

var cmdWrites = map[string]bool{"hset": true, "hdel": true, "hincrby": true, "sadd": true, "srem": true, "del": true, "set": true, "setnx": true, "setex": true, "expire": true, "xadd": true, "xdel": true, "xack": true, "incrby": true, "incr": true, "lpush": true, "rpush": true, "zadd": true, "hsetnx": true, "hincrbyfloat": true, "spop": true, "unlink": true, "flushall": true, "flushdb": true, "rename": true, "xtrim": true, "xgroupcreate": true, "xgroupcreatemkstream": true, "xgroupdestroy": true, "xgroupdelconsumer": true}

func decodeCmd(e *Event) *storeCmd {
	if e.Kind != EvCall {
		return nil
	}
	n := e.Name
	op := strings.ToLower(n[strings.LastIndex(n, ".")+1:])
	switch {
	case strings.HasPrefix(n, "3rd/redis."):
		switch op {
		case "pipeline", "txpipeline", "getclient", "client", "builder", "buildclientwithoption", "flushallredis":
			return nil
		}
		return &storeCmd{e: e, op: op, args: flatten(skipCtx(e.Args)), res: e.Res}
	case strings.HasPrefix(n, "(github.com/redis/go-redis/v9.") || strings.HasPrefix(n, "(*github.com/redis/go-redis/v9.Client)"):
		if strings.Contains(n, "Cmd).") || e.Recv == nil {
			return nil // reply accessors
		}
		if op == "exec" || op == "discard" || op == "len" || op == "pipeline" || op == "close" {
			return nil
		}
		c := &storeCmd{e: e, op: op, args: flatten(skipCtx(e.Args)), res: e.Res}
		if isPipe(e.Recv) {
			c.pipe = e.Recv.Strip()
		}
		return c
	}
	return nil
}

func isPipe(t *Term) bool {
	t = t.Strip()
	return t.Op == "call" && (strings.HasSuffix(t.S, ".Pipeline") || strings.HasSuffix(t.S, ".TxPipeline"))
}

func skipCtx(a []*Term) []*Term {
	if len(a) > 0 {
		return a[1:]
	}
	return a
}

func flatten(a []*Term) []*Term {
	var r []*Term
	for _, x := range a {
		if x.Op == "list" {
			r = append(r, x.Args...)
		} else {
			r = append(r, x)
		}
	}
	return r
}

func cmds(pa *Path) []*storeCmd {
	var r []*storeCmd
	for i, e := range pa.Events {
		if c := decodeCmd(e); c != nil {
			c.at = i
			r = append(r, c)
		}
	}
	return r
}

func isExec(e *Event) bool {
	return e.Kind == EvCall && strings.HasPrefix(e.Name, "(github.com/redis/go-redis/v9.") && strings.HasSuffix(e.Name, ".Exec")
}

// replyCall: the call that takes the value out of a command's reply.
func replyCall(t *Term) *Term {
	t = t.Strip()
	if t.Op == "extract" && t.N == 0 {
		t = t.Args[0]
	}
	if t.Op != "call" || t.R == nil || !strings.Contains(t.S, "go-redis/v9.") || !strings.Contains(t.S, "Cmd).") {
		return nil
	}
	return t
}

// replyOf: the result term of the command whose reply t is.
func replyOf(t *Term) *Term {
	if c := replyCall(t); c != nil {
		return c.R.Strip()
	}
	return nil
}

// cmdSelf: the command whose promoted base a receiver is.
func cmdSelf(t *Term) *Term {
	t = t.Strip()
	for (t.Op == "field" || t.Op == "load" || t.Op == "fieldval") && len(t.Args) > 0 && (t.Op == "load" || t.S == "baseCmd") {
		t = t.Args[0].Strip()
	}
	return t
}

// cmdErrs: the error values of a command that the path took.
func cmdErrs(pa *Path, res *Term) []*Term {
	var r []*Term
	for _, e := range pa.Events {
		if e.Kind == EvCall && e.Recv != nil && cmdSelf(e.Recv).ID() == res.ID() && strings.Contains(e.Name, "Cmd).") {
			if strings.HasSuffix(e.Name, ".Err") {
				r = append(r, e.Res)
			} else if t := errResult(e); t != nil {
				r = append(r, t)
			}
		}
	}
	return r
}

type cmdState int

const (
	cmdUnknown cmdState = iota
	cmdOK
	cmdAbsent // the reply was "nil"
	cmdFailed
)

func stateOf(pa *Path, res *Term) cmdState {
	st := cmdUnknown
	for _, t := range cmdErrs(pa, res) {
		switch {
		case pa.nil(t) == IsNil:
			return cmdOK
		case isRedisNil(pa, t):
			st = cmdAbsent
		case pa.nil(t) == NonNil && st == cmdUnknown:
			st = cmdFailed
		}
	}
	return st
}

func isNilReply(t *Term) bool {
	if s, ok := t.Strip().StrConst(); ok {
		return s == "redis: nil"
	}
	return false
}

// isRedisNil: the error was decided to be the store's nil reply.
func isRedisNil(pa *Path, t *Term) bool {
	for k, v := range pa.St.assume {
		c := pa.St.terms[k]
		if v && c != nil && c.Op == "bin" && c.S == "==" {
			if sameID(c.Args[0], t) && isNilReply(c.Args[1]) || sameID(c.Args[1], t) && isNilReply(c.Args[0]) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- templates

type symFn func(t *Term) (string, bool)

func render(t *Term, sym symFn) string {
	if t == nil {
		return "<nil>"
	}
	if s, ok := sym(t); ok {
		return s
	}
	switch t.Op {
	case "iface", "conv":
		return render(t.Args[0], sym)
	case "tmpl":
		r := ""
		for _, a := range t.Args {
			r += render(a, sym)
		}
		return r
	case "const":
		if s, ok := t.StrConst(); ok {
			return s
		}
		return t.ID()
	case "un":
		if t.S == "-" {
			return "-" + render(t.Args[0], sym)
		}
	case "bin":
		a, b := render(t.Args[0], sym), render(t.Args[1], sym)
		if t.S == "*" && (a == "-1" || b == "-1") {
			if a == "-1" {
				a = b
			}
			return "-" + a
		}
		if t.S == "-" && a == "0" {
			return "-" + b
		}
		if t.S == "+" && a > b {
			a, b = b, a
		}
		return "(" + a + t.S + b + ")"
	}
	return "<" + t.ID() + ">"
}

func (s *storeCmd) render(sym symFn) string {
	var a []string
	for _, x := range s.args {
		a = append(a, render(x, sym))
	}
	return s.op + "(" + strings.Join(a, ", ") + ")"
}

// structVals are the fields of a struct value (or of what a pointer to a fresh struct holds).
func structVals(pa *Path, t *Term) map[string]*Term {
	r := map[string]*Term{}
	t = t.Strip()
	if t.Op == "alloc" {
		for _, e := range pa.Events {
			if e.Kind == EvStore && e.Recv.Op == "field" && e.Recv.Args[0].ID() == t.ID() {
				r[e.Recv.S] = e.Val
			}
		}
		return r
	}
	if t.Op == "load" && t.Args[0].Op == "alloc" {
		return structVals(pa, t.Args[0])
	}
	st, ok := types.Type(nil), false
	if t.T != nil {
		st, ok = t.T.Underlying(), true
	}
	if !ok || t.Op != "struct" {
		return r
	}
	if s, ok := st.(*types.Struct); ok {
		for i := 0; i < s.NumFields() && i < len(t.Args); i++ {
			if x := t.Args[i]; !(x.Op == "const" && (x.ID() == `""` || x.ID() == "0")) {
				r[s.Field(i).Name()] = x
			}
		}
	}
	return r
}

// decoded: t is (a field of) a record filled by decoding; returns the record, its data and
// whether the decoding was seen to succeed.
type decodedRec struct {
	rec  *Term
	data *Term
	err  *Term
	path []string
}

func decodedFrom(pa *Path, t *Term) *decodedRec {
	if t == nil {
		return nil
	}
	root, path := t.Strip().FieldPath()
	if root.Op != "alloc" {
		return nil
	}
	for i := len(pa.Events) - 1; i >= 0; i-- {
		e := pa.Events[i]
		if isCall(e, "encoding/json.Unmarshal") && e.Args[1].Strip().ID() == root.ID() {
			return &decodedRec{root, e.Args[0].Strip(), e.Res, path}
		}
	}
	return nil
}

func decodeOf(pa *Path, data string) []*Event {
	return pa.Calls(func(e *Event) bool {
		return isCall(e, "encoding/json.Unmarshal") && e.Args[0].Strip().ID() == data
	})
}

// ---------------------------------------------------------------- layout

type abLayout struct {
	idKey, tyKey, nodesKey, nodeKey, tyField, total string
	node, full                                      string // rendered records
}

const (
	sID, sTY, sNODE, sW, sREC, sNREC = "«id»", "«type»", "«node»", "«weight»", "«record»", "«noderecord»"
)

func abType(c *Check) *types.Named {
	n := c.P.Named(abPkg, "AddressBook")
	if n == nil {
		c.Missing("the address book type")
	}
	return n
}

func (c *Check) abMethod(name string) *ssa.Function {
	n := abType(c)
	if n == nil {
		return nil
	}
	fn := c.P.MethodN(n, name)
	if !c.Anchor(fn, "address book "+name) {
		return nil
	}
	return fn
}

func nodeSym(t *Term) (string, bool) {
	if t.Strip().ID() == "$0.NodeID" {
		return sNODE, true
	}
	return "", false
}

// registerSym names the values of a registration.
func registerSym(pa *Path) symFn {
	return func(t *Term) (string, bool) {
		x := t.Strip()
		switch x.ID() {
		case "$2":
			return sTY, true
		case "$3":
			return sID, true
		case "$4":
			return sW, true
		case "$0.NodeID":
			return sNODE, true
		}
		if x.Op == "extract" && x.N == 0 && x.Args[0].Op == "call" && x.Args[0].S == "encoding/json.Marshal" {
			v := structVals(pa, x.Args[0].Args[0])
			got := ""
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				got += k + "=" + v[k].Strip().ID() + ";"
			}
			switch got {
			case "ActorId=$3;ActorTy=$2;Ip=$0.Ip;Node=$0.NodeID;Port=$0.Port;":
				return sREC, true
			case "Ip=$0.Ip;Node=$0.NodeID;Port=$0.Port;":
				return sNREC, true
			}
			return "record(" + got + ")", true
		}
		return "", false
	}
}

// batch: the batches a path executes, with everything put into them before.
type batch struct {
	pipe *Term
	exec *Event
	at   int
	cmds []*storeCmd
}

func batches(pa *Path) (bs []*batch, loose []*storeCmd) {
	all := cmds(pa)
	for i, e := range pa.Events {
		if isExec(e) {
			b := &batch{pipe: e.Recv.Strip(), exec: e, at: i}
			for _, c := range all {
				if c.pipe != nil && c.pipe.ID() == b.pipe.ID() && c.at < i {
					b.cmds = append(b.cmds, c)
				}
			}
			bs = append(bs, b)
		}
	}
	for _, c := range all {
		if !cmdWrites[c.op] {
			continue
		}
		in := false
		for _, b := range bs {
			for _, x := range b.cmds {
				in = in || x == c
			}
		}
		if !in {
			loose = append(loose, c)
		}
	}
	return
}

// layout reads the keys from what a registration writes; errors go to rule.
func (c *Check) layout(rule string) *abLayout {
	fn := c.abMethod("Register")
	if fn == nil {
		return nil
	}
	var l *abLayout
	con := fnName(fn)
	for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
		bs, loose := batches(pa)
		for _, x := range loose {
			c.Viol(rule, con+" outside", x.e.Pos, "a write is not part of the registration's batch: "+x.op, pa)
		}
		if len(bs) == 0 {
			continue
		}
		if !c.Expect(len(bs) == 1, rule, con+" one batch", fn.Pos(), "the registration is split over several batches", pa) {
			continue
		}
		sym := registerSym(pa)
		cur := &abLayout{}
		n := 0
		for _, x := range bs[0].cmds {
			a := make([]string, len(x.args))
			for i := range a {
				a[i] = render(x.args[i], sym)
			}
			switch {
			case x.op == "hset" && len(a) == 3 && a[1] == sID && a[2] == sREC && cur.idKey == "":
				cur.idKey = a[0]
			case x.op == "hset" && len(a) == 3 && a[1] == sNODE && a[2] == sNREC && cur.nodesKey == "":
				cur.nodesKey = a[0]
			case x.op == "sadd" && len(a) == 2 && a[1] == sREC && strings.Contains(a[0], sTY) && cur.tyKey == "":
				cur.tyKey = a[0]
			case x.op == "hincrby" && len(a) == 3 && a[2] == sW && strings.Contains(a[1], sTY) && cur.tyField == "":
				cur.tyField = a[1]
				if cur.nodeKey == "" {
					cur.nodeKey = a[0]
				}
				c.Expect(cur.nodeKey == a[0] && strings.Contains(a[0], sNODE), rule, con+" counters", x.e.Pos, "the weight is not added to counters of this node", pa)
			case x.op == "hincrby" && len(a) == 3 && a[2] == sW && !strings.Contains(a[1], "«") && cur.total == "":
				cur.total = a[1]
				if cur.nodeKey == "" {
					cur.nodeKey = a[0]
				}
				c.Expect(cur.nodeKey == a[0] && strings.Contains(a[0], sNODE), rule, con+" counters", x.e.Pos, "the weight is not added to counters of this node", pa)
			default:
				c.Expect(false, rule, con+" effect "+x.op, x.e.Pos, "unexpected effect of a registration: "+x.render(sym), pa)
			}
			n++
		}
		for what, got := range map[string]string{"the record by id": cur.idKey, "the record in the set of its type": cur.tyKey, "the node's info": cur.nodesKey, "the weight of the type": cur.tyField, "the total weight": cur.total} {
			c.Expect(got != "", rule, con+" publishes", bs[0].exec.Pos, "a registration does not write "+what, pa)
		}
		if l == nil {
			l = cur
		} else {
			c.Expect(*l == *cur, rule, con+" keys", bs[0].exec.Pos, "registrations write different keys", pa)
		}
	}
	if l == nil {
		c.Viol(rule, con, fn.Pos(), "undecided: no registration batch found", nil)
		return nil
	}
	for _, k := range []string{l.idKey, l.tyKey, l.nodesKey, l.tyField, l.total} {
		if k == "" {
			return nil
		}
	}
	return l
}

// ownerSym names the values of an exchange about a stored record: decoded records give
// node, type and id; their raw text is the record.
func ownerSym(pa *Path, idKey string, id string) symFn {
	isRec := func(data *Term) bool {
		res := replyOf(data)
		if res == nil {
			return false
		}
		for _, x := range cmds(pa) {
			if x.res != nil && x.res.ID() == res.ID() {
				return x.op == "hget" && len(x.args) == 2 && render(x.args[0], noSym) == idKey && x.args[1].Strip().ID() == id && stateOf(pa, res) == cmdOK
			}
		}
		return false
	}
	return func(t *Term) (string, bool) {
		x := t.Strip()
		if x.ID() == id {
			return sID, true
		}
		if isRec(x) {
			return sREC, true
		}
		if d := decodedFrom(pa, x); d != nil && len(d.path) == 1 && pa.nil(d.err) == IsNil && isRec(d.data) {
			switch d.path[0] {
			case "Node":
				return sNODE, true
			case "ActorTy":
				return sTY, true
			case "ActorId":
				return sID, true
			}
		}
		return "", false
	}
}

func noSym(t *Term) (string, bool) { return "", false }

func withWeight(sym symFn, id string) symFn {
	return func(t *Term) (string, bool) {
		if t.Strip().ID() == id && t.Op != "un" {
			return sW, true
		}
		return sym(t)
	}
}

// ---------------------------------------------------------------- A01

func runA01(c *Check) {
	c.Rule("publish", "a registration writes, in one batch and nothing else, the record by id and in the set of its type, the node's info, and the weight to the node's type and total counter")
	c.Rule("withdraw", "an unregistration removes, in one batch and nothing else, exactly what the registration of that record wrote, taking the weight off the owner's counters")
	c.Rule("reported", "success is reported only after the batch was executed")
	l := c.layout("publish")
	fn := c.abMethod("Unregister")
	if l == nil || fn == nil {
		return
	}
	want := map[string]string{
		"hdel(" + l.idKey + ", " + sID + ")":                         "the record by id",
		"srem(" + l.tyKey + ", " + sREC + ")":                        "the record in the set of its type",
		"hincrby(" + l.nodeKey + ", " + l.tyField + ", -" + sW + ")": "the weight of the type",
		"hincrby(" + l.nodeKey + ", " + l.total + ", -" + sW + ")":   "the total weight",
	}
	con := fnName(fn)
	for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
		bs, loose := batches(pa)
		for _, x := range loose {
			c.Viol("withdraw", con+" outside", x.e.Pos, "a write is not part of the batch: "+x.op, pa)
		}
		if pa.Outcome == Returned && len(pa.Ret) == 1 && pa.nil(pa.Ret[0]) != NonNil {
			c.Expect(len(bs) == 1, "reported", con, fn.Pos(), "success is reported without having withdrawn anything", pa)
		}
		if len(bs) == 0 {
			continue
		}
		if !c.Expect(len(bs) == 1, "withdraw", con+" one batch", fn.Pos(), "the withdrawal is split over several batches", pa) {
			continue
		}
		sym := withWeight(ownerSym(pa, l.idKey, "$2"), "$3")
		got := map[string]int{}
		for _, x := range bs[0].cmds {
			s := x.render(sym)
			got[s]++
			c.Expect(want[s] != "", "withdraw", con+" effect "+x.op, x.e.Pos, "the withdrawal does what no registration did: "+s, pa)
		}
		for s, what := range want {
			c.Expect(got[s] == 1, "withdraw", con+" removes", bs[0].exec.Pos, "the withdrawal does not take back once "+what, pa)
		}
	}
	reg := c.abMethod("Register")
	for _, pa := range c.Walk(reg, WalkOpts{}).Paths {
		if pa.Outcome == Returned && len(pa.Ret) == 1 && pa.nil(pa.Ret[0]) != NonNil {
			bs, _ := batches(pa)
			c.Expect(len(bs) == 1, "reported", fnName(reg), reg.Pos(), "success is reported without having published anything", pa)
		}
	}
	c.Min("withdraw", 3)
	c.Min("reported", 2)
}

// ---------------------------------------------------------------- A02

func idCache(c *Check) *types.Var {
	n := abType(c)
	if n == nil {
		return nil
	}
	f := FieldBy(n, "IDMap", func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Map); return ok })
	if f == nil {
		c.Missing("the local id cache")
	}
	return f
}

func runA02(c *Check) {
	p := c.P
	c.Rule("confirmed", "the cache changes only after the batch of the same call succeeded")
	c.Rule("recorded", "a successful registration is recorded under its id, a successful removal removes it, a successful clearing empties the cache")
	c.Rule("failed", "a batch that failed is reported as an error")
	c.Rule("refused", "nothing is written for an empty id, an empty type or an id already local; the refusal is an error")
	c.Rule("locked", "the cache is only touched under the address book's lock")
	f := idCache(c)
	n := abType(c)
	if f == nil || n == nil {
		return
	}
	c.Guarded("locked", n, f.Name(), func(v *types.Var) bool { return v == f }, nil, 3)
	fns := p.FnsWith(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && fieldOfAddr(fa) == f
	})
	for _, fn := range p.Entries(fns) {
		con := fnName(fn)
		if fn.Signature.Recv() == nil {
			continue // construction
		}
		name := fn.Name()
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 1}).Paths {
			bs, _ := batches(pa)
			okAt, failed := -1, false
			for _, b := range bs {
				switch pa.nil(extract(b.exec.Res, 1)) {
				case IsNil:
					if okAt < 0 {
						okAt = b.at
					}
				case NonNil:
					failed = true
				}
			}
			set, del, reset := 0, 0, 0
			for i, e := range pa.Events {
				change := false
				switch {
				case e.Kind == EvMapSet && fieldVar(e.Recv) == f:
					change = true
					v, known := e.Val.BoolConst()
					if name == "Register" && e.Args[0].Strip().ID() == "$3" && (!known || v) {
						set++
					}
				case e.Kind == EvMapDel && fieldVar(e.Recv) == f:
					change = true
					if e.Args[0].Op == "every" {
						reset++
					} else if e.Args[0].Strip().ID() == "$2" {
						del++
					}
				case e.Kind == EvStore && fieldVar(e.Recv) == f && e.Recv.Root().Op != "alloc", e.Kind == EvCall && e.Name == "clear" && fieldVar(e.Recv) == f:
					change = true
					reset++
				}
				if change {
					c.Expect(okAt >= 0 && okAt < i && !failed, "confirmed", con, e.Pos, "the local id cache is changed without the address book's confirmation", pa)
				}
			}
			if pa.Outcome != Returned {
				continue
			}
			last := pa.Ret[len(pa.Ret)-1]
			if failed {
				c.Expect(pa.nil(last) == NonNil, "failed", con, fn.Pos(), "a failed batch is not reported", pa)
			}
			if okAt >= 0 && !failed {
				switch name {
				case "Register":
					c.Expect(set == 1 && del+reset == 0, "recorded", con, fn.Pos(), "a registered id is not recorded as local", pa)
				case "Unregister":
					c.Expect(del == 1 && set+reset == 0, "recorded", con, fn.Pos(), "a removed id is still recorded as local", pa)
				case "Clear":
					c.Expect(reset >= 1 && set == 0, "recorded", con, fn.Pos(), "a cleared node still records local ids", pa)
				}
			}
			if name == "Register" {
				empty := emptyStr(pa, "$2") != 0 || emptyStr(pa, "$3") != 0
				local := true
				for _, e := range pa.Events {
					if e.Kind == EvLookup && fieldVar(e.Recv) == f && e.Args[0].Strip().ID() == "$3" && absent(pa, e) {
						local = false
					}
				}
				writes := false
				for _, x := range cmds(pa) {
					writes = writes || cmdWrites[x.op]
				}
				if empty || local {
					c.Expect(!writes && len(bs) == 0, "refused", con+" before", fn.Pos(), "something is written for an id or type that was not found valid and new", pa)
					c.Expect(pa.nil(last) == NonNil, "refused", con+" error", fn.Pos(), "a refused registration is not reported", pa)
				}
			}
			if name == "Unregister" && emptyStr(pa, "$2") == 1 {
				c.Expect(len(cmds(pa)) == 0 && pa.nil(last) == NonNil, "refused", con, fn.Pos(), "an empty id is not refused", pa)
			}
		}
	}
	c.Min("confirmed", 3)
	c.Min("recorded", 3)
	c.Min("failed", 3)
	c.Min("refused", 2)
}

// emptyStr: is the string parameter decided empty (1), not empty (0), or open (-1)?
func emptyStr(pa *Path, id string) int {
	p := &Term{Op: "param", S: id}
	if r := pa.True("==", p, gstr("")); r >= 0 {
		return r
	}
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		x, y := t.Args[0], t.Args[1]
		lx := x.Op == "len" && x.Args[0].ID() == id
		ly := y.Op == "len" && y.Args[0].ID() == id
		if t.S == "==" && (lx || ly) {
			o := y
			if ly {
				o = x
			}
			if n, ok := o.IntConst(); ok && n == 0 {
				return b2i(v)
			}
		}
		if t.S == "<" {
			if n, ok := x.IntConst(); ly && ok && n == 0 {
				return 1 - b2i(v)
			}
			if n, ok := y.IntConst(); lx && ok && n == 1 {
				return b2i(v)
			}
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- A03

// elemOf: t is an element of (the reply list of) a command; returns that command's result.
func elemOf(pa *Path, t *Term) *Term {
	t = t.Strip()
	switch t.Op {
	case "indexval", "load", "lookup":
		x := t
		if t.Op == "load" {
			x = t.Args[0]
		}
		if len(x.Args) > 0 && (x.Op == "index" || x.Op == "indexval" || x.Op == "lookup") {
			return replyOf(x.Args[0])
		}
	}
	for _, e := range pa.Events {
		if e.Kind == EvRange && e.Ok && e.Val != nil && e.Val.ID() == t.ID() {
			return replyOf(e.Recv)
		}
	}
	return nil
}

func cmdByRes(pa *Path, res *Term) *storeCmd {
	if res == nil {
		return nil
	}
	for _, x := range cmds(pa) {
		if x.res != nil && x.res.ID() == res.ID() {
			return x
		}
	}
	return nil
}

func typeSym(id string) symFn {
	return func(t *Term) (string, bool) {
		switch t.Strip().ID() {
		case id:
			return sTY, true
		case "$0.NodeID":
			return sNODE, true
		}
		return "", false
	}
}

// successWithoutError: the error result may be nil on this path.
func mayBeNil(pa *Path) bool {
	return pa.Outcome == Returned && len(pa.Ret) > 0 && pa.nil(pa.Ret[len(pa.Ret)-1]) != NonNil
}

func runA03(c *Check) {
	c.Rule("by-id", "an id answers this node's address only if it is recorded locally, otherwise the decoded record stored under that id")
	c.Rule("unknown", "an id without a record is reported as unknown, an empty id is refused")
	c.Rule("index", "lookups read the index registrations write, with the requested id or type")
	c.Rule("errors", "a success is reported only if every store answer it rests on was good")
	c.Rule("decode", "an unreadable record of an exact lookup is an error, and all records of a type are answered")
	c.Rule("absent", "a type without actors is no actors: an empty list, a zero count, or an error for a choice")
	c.Rule("made", "an address book answers for the node whose address it was made with, and starts with no ids")
	l := c.layout("index")
	f := idCache(c)
	if l == nil || f == nil {
		return
	}
	if fn := c.P.Func(abPkg, "New"); c.Anchor(fn, "addressbook.New") {
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			v := structVals(pa, pa.Ret[0])
			ok := idOf(v["NodeID"]) == "$0.Node" && idOf(v["Ip"]) == "$0.Ip" && idOf(v["Port"]) == "$0.Port"
			c.Expect(ok, "made", fnName(fn), fn.Pos(), "the address book does not keep the node, ip and port it was made with", pa)
			m := v[f.Name()]
			c.Expect(m != nil && m.Strip().Op == "makemap", "made", fnName(fn)+" ids", fn.Pos(), "the address book starts without its table of ids", pa)
		}
	}
	// by id
	if fn := c.abMethod("GetByID"); fn != nil {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			cs := cmds(pa)
			for _, x := range cs {
				ok := x.op == "hget" && len(x.args) == 2 && render(x.args[0], noSym) == l.idKey && x.args[1].Strip().ID() == "$2"
				c.Expect(ok, "index", con, x.e.Pos, "the id is not looked up in the index registrations write", pa)
				if isAbsent := stateOf(pa, x.res) == cmdAbsent; isAbsent {
					ok := pa.Ret[1].Any(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.S, ".ErrUnknownActor") })
					c.Expect(ok, "unknown", con, fn.Pos(), "an id without a record is not reported as unknown", pa)
				}
			}
			if emptyStr(pa, "$2") == 1 {
				c.Expect(pa.nil(pa.Ret[1]) == NonNil, "unknown", con+" empty", fn.Pos(), "an empty id is not refused", pa)
			}
			if !mayBeNil(pa) {
				continue
			}
			if d := decodedFrom(pa, pa.Ret[0]); d != nil {
				x := cmdByRes(pa, replyOf(d.data))
				c.Expect(x != nil && len(d.path) == 0, "by-id", con+" record", fn.Pos(), "the answer is not the stored record", pa)
				c.Expect(errIsRet(pa, d.err), "decode", con, fn.Pos(), "an unreadable record is answered as success", pa)
				if x != nil {
					c.Expect(stateOf(pa, x.res) == cmdOK, "errors", con, fn.Pos(), "a failing store is answered as success", pa)
				}
				continue
			}
			v := structVals(pa, pa.Ret[0])
			own := idOf(v["Node"]) == "$0.NodeID" && idOf(v["Ip"]) == "$0.Ip" && idOf(v["Port"]) == "$0.Port" && idOf(v["ActorId"]) == "$2"
			local := false
			for _, e := range pa.Events {
				if e.Kind == EvLookup && fieldVar(e.Recv) == f && e.Args[0].Strip().ID() == "$2" && (present(pa, e.Res) || pa.St.Truth(e.Res) == 1) {
					local = true
				}
			}
			c.Expect(own && local, "by-id", con+" local", fn.Pos(), "an address is answered that is neither this node's for an id recorded locally nor the stored record", pa)
		}
		c.Min("by-id", 2)
		c.Min("unknown", 2)
	}
	// by type
	if fn := c.abMethod("GetByType"); fn != nil {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 3}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			for _, x := range cmds(pa) {
				c.Expect((x.op == "smembers") && render(x.args[0], typeSym("$2")) == l.tyKey, "index", con, x.e.Pos, "the type is not looked up in the index registrations write", pa)
				if mayBeNil(pa) {
					st := stateOf(pa, x.res)
					c.Expect(st == cmdOK || st == cmdAbsent, "errors", con, fn.Pos(), "a failing store is answered as success", pa)
				}
			}
			n := 0
			for _, e := range pa.Events {
				if isCall(e, "encoding/json.Unmarshal") && elemOf(pa, e.Args[0]) != nil {
					n++
					if mayBeNil(pa) {
						c.Expect(pa.nil(e.Res) == IsNil, "decode", con, e.Pos, "an unreadable record is left out of a successful answer", pa)
					}
				}
			}
			if mayBeNil(pa) && n > 0 {
				els := pa.Ret[0]
				got, ok := listLen(pa, els)
				if !ok {
					// made whole and filled record by record
					at := map[string]bool{}
					for _, e := range pa.Events {
						if isCall(e, "encoding/json.Unmarshal") && elemOf(pa, e.Args[0]) != nil {
							for d := e.Args[1].Strip(); d != nil && len(d.Args) > 0; d = d.Args[0].Strip() {
								if d.Op == "index" && sameID(d.Args[0].Strip(), els.Strip()) {
									at[d.ID()] = true
								}
								if d.Op == "index" {
									break
								}
							}
						}
					}
					got, ok = len(at), len(at) > 0
				}
				c.Expect(!ok || got == n, "decode", con+" all", fn.Pos(), "not every record of the type is answered", pa)
				c.Expect(ok, "decode", con+" list", fn.Pos(), "undecided: what is answered is not a list of records", pa)
				c.Expect(unfinished(pa, len(pa.Events)) == nil, "decode", con+" end", fn.Pos(), "the records of the type are not gone through to their end", pa)
			}
		}
	}
	// count
	if fn := c.abMethod("GetActorTypeCount"); fn != nil {
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			for _, x := range cmds(pa) {
				c.Expect(x.op == "scard" && render(x.args[0], typeSym("$2")) == l.tyKey, "index", con, x.e.Pos, "the type is not counted in the index registrations write", pa)
				if !mayBeNil(pa) {
					continue
				}
				switch st := stateOf(pa, x.res); st {
				case cmdOK:
					c.Expect(replyOf(pa.Ret[0]) != nil && replyOf(pa.Ret[0]).ID() == x.res.ID(), "errors", con+" count", fn.Pos(), "the answer is not the store's count", pa)
				case cmdAbsent:
					k, ok := constVal(pa.Ret[0])
					c.Expect(ok && k == 0, "absent", con, fn.Pos(), "a type without actors is not counted as zero", pa)
				default:
					c.Expect(errIsRet(pa, one(cmdErrs(pa, x.res))), "errors", con, fn.Pos(), "a failing store is answered as success", pa)
				}
			}
		}
	}
	// choices
	for _, name := range []string{"GetWildcardActor", "GetLowWeightNodeForActor"} {
		fn := c.abMethod(name)
		if fn == nil {
			continue
		}
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			src := false
			for _, x := range cmds(pa) {
				switch x.op {
				case "srandmembern", "srandmember", "smembers":
					src = true
					c.Expect(render(x.args[0], typeSym("$2")) == l.tyKey, "index", con, x.e.Pos, "the type is not looked up in the index registrations write", pa)
				case "hgetall", "hvals":
					src = true
					c.Expect(render(x.args[0], noSym) == l.nodesKey, "index", con, x.e.Pos, "the nodes are not looked up in the index registrations write", pa)
				default:
					continue
				}
				if mayBeNil(pa) {
					st := stateOf(pa, x.res)
					c.Expect(st == cmdOK, "errors", con, fn.Pos(), "a failing store is answered as success", pa)
				}
			}
			c.Expect(src, "index", con+" source", fn.Pos(), "undecided: candidates are not read from the store", pa)
			for _, e := range pa.Events {
				if isExec(e) && mayBeNil(pa) {
					t := extract(e.Res, 1)
					c.Expect(pa.nil(t) == IsNil || isRedisNil(pa, t), "errors", con+" batch", e.Pos, "a failing batch is answered as success", pa)
				}
			}
			if mayBeNil(pa) {
				d := decodedFrom(pa, pa.Ret[0])
				c.Expect(d != nil && len(d.path) == 0 && pa.nil(d.err) == IsNil && elemOf(pa, d.data) != nil, "absent", con, fn.Pos(), "a choice succeeds without a readable candidate of the store", pa)
			}
		}
	}
	for _, name := range []string{"GetByID", "GetByType", "GetActorTypeCount", "GetWildcardActor", "GetLowWeightNodeForActor"} {
		if fn := c.abMethod(name); fn != nil {
			for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
				if pa.Outcome == Returned && !mayBeNil(pa) {
					x := unasked(pa)
					c.Expect(x == nil, "errors", fnName(fn)+" spurious", fn.Pos(), "a failure is reported although the store may have answered", pa)
				}
			}
		}
	}
	c.Min("made", 2)
	c.Min("index", 6)
	c.Min("errors", 5)
	c.Min("decode", 2)
	c.Min("absent", 3)
}

// unasked: a command, batch or decoding whose error the path did not decide.
func unasked(pa *Path) *Event {
	open := func(t *Term) bool {
		return t != nil && pa.nil(t) == Unknown && !isRedisNil(pa, t)
	}
	for _, x := range cmds(pa) {
		if x.pipe == nil && stateOf(pa, x.res) == cmdUnknown {
			return x.e
		}
	}
	for _, e := range pa.Events {
		if isExec(e) && open(extract(e.Res, 1)) || isCall(e, "encoding/json.Unmarshal") && open(e.Res) {
			return e
		}
	}
	return nil
}

// unfinished: a reply's elements that were looked at, but not to their end.
func unfinished(pa *Path, upto int) *Event {
	lists := map[string]*Term{}
	seen := map[string]int{}
	last := map[string]*Event{}
	for i, e := range pa.Events[:upto] {
		if e.Kind == EvRange && e.Ok && replyOf(e.Recv) != nil {
			done := false
			for _, f := range pa.Events[i:upto] {
				if f.Kind == EvRange && !f.Ok && sameID(f.Recv, e.Recv) && f.Pos == e.Pos {
					done = true
				}
			}
			if !done {
				return e
			}
		}
		if isCall(e, "encoding/json.Unmarshal") {
			t := e.Args[0].Strip()
			if t.Op == "load" {
				t = t.Args[0]
			}
			if (t.Op == "index" || t.Op == "indexval") && replyOf(t.Args[0]) != nil {
				id := t.Args[0].Strip().ID()
				lists[id] = t.Args[0]
				seen[id]++
				last[id] = e
			}
		}
	}
	for id, l := range lists {
		if !endOf(pa, l, seen[id]) {
			return last[id]
		}
	}
	return nil
}

func one(ts []*Term) *Term {
	if len(ts) == 0 {
		return nil
	}
	return ts[0]
}

// errIsRet: the error is nil on the path, or is what the function returns.
func errIsRet(pa *Path, err *Term) bool {
	if err == nil {
		return false
	}
	return pa.nil(err) == IsNil || len(pa.Ret) > 0 && pa.Ret[len(pa.Ret)-1].Mentions(err.ID())
}

// listLen: the number of elements a returned slice is known to have.
func listLen(pa *Path, t *Term) (int, bool) {
	switch t.Op {
	case "list":
		return len(t.Args), true
	case "append":
		n, ok := listLen(pa, t.Args[0])
		if !ok {
			return 0, false
		}
		m, ok := listLen(pa, t.Args[1])
		return n + m, ok
	case "makeslice":
		if k, ok := t.Args[0].IntConst(); ok {
			return int(k), true
		}
	case "conv":
		return listLen(pa, t.Args[0])
	case "const":
		if t.IsNilConst() {
			return 0, true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------- A04

type candidate struct {
	read   *Event
	weight []*Term // values that are its weight
	ok     bool    // readable
	failed bool
	rec    string // record object
	recErr Nilness
	own    bool // weight read for the record's own node
	early  bool // read before the batch that asks for it was run
	at     int
}

// leq: does the path prove a <= b?
func leq(pa *Path, a, b *Term) bool {
	edges := map[string][]string{}
	for k, v := range pa.St.assume {
		t := pa.St.terms[k]
		if t == nil || t.Op != "bin" || len(t.Args) != 2 {
			continue
		}
		x, y := t.Args[0].Strip().ID(), t.Args[1].Strip().ID()
		switch {
		case t.S == "<" && v:
			edges[x] = append(edges[x], y)
		case t.S == "<" && !v:
			edges[y] = append(edges[y], x)
		case t.S == "==" && v:
			edges[x] = append(edges[x], y)
			edges[y] = append(edges[y], x)
		}
	}
	seen := map[string]bool{}
	work := []string{a.Strip().ID()}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b.Strip().ID() {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, edges[x]...)
	}
	return false
}

func (c *Check) candidates(pa *Path, l *abLayout) []*candidate {
	var r []*candidate
	for i, e := range pa.Events {
		if e.Kind != EvCall || e.Recv == nil || !strings.Contains(e.Name, "StringCmd).") || strings.HasSuffix(e.Name, ".Err") {
			continue
		}
		src := e.Recv.Strip()
		k := &candidate{read: e, at: i}
		nodeKeyOf := func(x *storeCmd) (*Term, bool) {
			if x == nil || x.op != "hget" || len(x.args) != 2 || render(x.args[1], noSym) != l.total {
				return nil, false
			}
			// which node is in the key
			var node *Term
			s := render(x.args[0], func(t *Term) (string, bool) {
				if t.Op != "const" && t.Op != "tmpl" && t.Op != "iface" && t.Op != "conv" {
					node = t
					return sNODE, true
				}
				return "", false
			})
			return node, s == l.nodeKey && node != nil
		}
		if x := cmdByRes(pa, src); x != nil {
			node, ok := nodeKeyOf(x)
			if node == nil {
				continue
			}
			k.early = x.pipe != nil && !ranBefore(pa, x, i)
			if d := decodedFrom(pa, node); d != nil && len(d.path) == 1 {
				k.rec = d.rec.ID()
				k.recErr = pa.nil(d.err)
				k.own = ok && d.path[0] == "Node"
			} else {
				// a node id that is the key of the nodes index
				c.keyed(pa, k, node, ok)
			}
		} else if src.Op == "lookup" || src.Op == "extract" && src.Args[0].Op == "lookup" {
			if src.Op == "extract" {
				src = src.Args[0]
			}
			m, key := src.Args[0], src.Args[1]
			ok, n := true, 0
			for _, s := range pa.Events {
				if s.Kind == EvMapSet && s.Recv.Strip().ID() == m.Strip().ID() {
					n++
					x := cmdByRes(pa, s.Val.Strip())
					if x != nil && x.pipe != nil && !ranBefore(pa, x, i) {
						k.early = true
					}
					node, good := nodeKeyOf(x)
					ok = ok && good && node != nil && sameID(node, s.Args[0])
				}
			}
			c.keyed(pa, k, key, ok && n > 0)
		} else {
			continue
		}
		// the weight
		errs := []*Term{errResult(e)}
		if strings.HasSuffix(e.Name, ".Result") {
			txt := extract(e.Res, 0)
			for _, a := range pa.Events {
				if isCall(a, "strconv.Atoi", "strconv.ParseInt") && sameID(a.Args[0], txt) {
					k.weight = append(k.weight, extract(a.Res, 0))
					errs = append(errs, extract(a.Res, 1))
				}
			}
		} else {
			k.weight = append(k.weight, extract(e.Res, 0))
		}
		k.ok = len(k.weight) > 0
		for _, t := range errs {
			if t == nil {
				continue
			}
			if pa.nil(t) != IsNil {
				k.ok = false
			}
			if pa.nil(t) == NonNil {
				k.failed = true
			}
		}
		r = append(r, k)
	}
	return r
}

// ranBefore: the batch a command was put into is run before position at.
func ranBefore(pa *Path, x *storeCmd, at int) bool {
	bs, _ := batches(pa)
	for _, b := range bs {
		for _, y := range b.cmds {
			if y.e == x.e && b.at < at {
				return true
			}
		}
	}
	return false
}

// keyed: the candidate is the node with that id in the nodes index.
func (c *Check) keyed(pa *Path, k *candidate, key *Term, ok bool) {
	for _, g := range pa.Events {
		if g.Kind == EvRange && g.Ok && g.Res != nil && sameID(g.Res, key) && g.Val != nil {
			for _, d := range decodeOf(pa, g.Val.Strip().ID()) {
				k.rec = d.Args[1].Strip().ID()
				k.recErr = pa.nil(d.Res)
			}
			k.own = ok
			return
		}
	}
	// m[key] read in the loop
	for _, d := range pa.Events {
		if isCall(d, "encoding/json.Unmarshal") {
			t := d.Args[0].Strip()
			if t.Op == "lookup" && sameID(t.Args[1], key) {
				k.rec = d.Args[1].Strip().ID()
				k.recErr = pa.nil(d.Res)
			}
		}
	}
	k.own = ok
}

func runA04(c *Check) {
	c.Rule("own-weight", "a candidate's weight is the total weight of its own node")
	c.Rule("lowest", "the answer's weight is not above that of any other readable candidate")
	c.Rule("readable", "the answer is a candidate whose weight and record could be read")
	c.Rule("skip", "a candidate that cannot be read does not end the choice, and a readable candidate is answered")
	l := c.layout("own-weight")
	if l == nil {
		return
	}
	for _, name := range []string{"GetWildcardActor", "GetLowWeightNodeForActor"} {
		fn := c.abMethod(name)
		if fn == nil {
			continue
		}
		con := fnName(fn)
		for _, pa := range c.Walk(fn, WalkOpts{LoopBound: c.LB(3)}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			ks := c.candidates(pa, l)
			for _, k := range ks {
				c.Expect(k.own, "own-weight", con, k.read.Pos, "the weight compared is not the total weight of the candidate's own node", pa)
				c.Expect(!k.early, "own-weight", con+" asked", k.read.Pos, "the weights are read before the batch that asks for them is run", pa)
			}
			if mayBeNil(pa) {
				c.Expect(unfinished(pa, len(pa.Events)) == nil, "lowest", con+" end", fn.Pos(), "the candidates are not gone through to their end", pa)
				root := pa.Ret[0].Strip().Root()
				var ch *candidate
				for _, k := range ks {
					if k.rec != "" && k.rec == root.ID() {
						ch = k
					}
				}
				if !c.Expect(ch != nil && ch.ok && ch.recErr == IsNil, "readable", con, fn.Pos(), "the answer is not a candidate whose weight and record were read", pa) {
					continue
				}
				for _, k := range ks {
					if k == ch || !k.ok || k.recErr == NonNil {
						continue
					}
					ok := false
					for _, a := range ch.weight {
						for _, b := range k.weight {
							ok = ok || leq(pa, a, b)
						}
					}
					c.Expect(ok, "lowest", con, k.read.Pos, "the answer's weight was not decided to be the lowest", pa)
				}
				continue
			}
			// an error
			fails := -1
			for _, k := range ks {
				if k.failed {
					fails = k.at
				}
				if k.ok && k.recErr != NonNil {
					sentinel := false
					for _, w := range k.weight {
						for key, v := range pa.St.assume {
							t := pa.St.terms[key]
							if !v && t != nil && t.Op == "bin" && t.S == "<" && sameID(t.Args[0], w) && t.Args[1].Op == "const" {
								sentinel = true
							}
						}
					}
					// a record without a node id, which no registration writes, is no answer
					for key, v := range pa.St.assume {
						t := pa.St.terms[key]
						if v && t != nil && t.Op == "bin" && t.S == "==" && (t.Args[0].ID() == gstr("").ID() || t.Args[1].ID() == gstr("").ID()) && t.Any(func(x *Term) bool {
							for _, o := range ks {
								if o.rec != "" && x.Root().ID() == o.rec {
									return true
								}
							}
							return false
						}) {
							sentinel = true
						}
					}
					c.Expect(sentinel, "skip", con+" answered", k.read.Pos, "a readable candidate is not answered", pa)
				}
			}
			// a batch of reads in which one reply is absent is no failure of the rest
			for i, e := range pa.Events {
				if !isExec(e) || pa.nil(extract(e.Res, 1)) != NonNil {
					continue
				}
				x := extract(e.Res, 1)
				other := false
				for key, v := range pa.St.assume {
					t := pa.St.terms[key]
					if !v && t != nil && t.Op == "bin" && t.S == "==" && (sameID(t.Args[0], x) && isNilReply(t.Args[1]) || sameID(t.Args[1], x) && isNilReply(t.Args[0])) {
						other = true
					}
				}
				if !other {
					fails = i
				}
			}
			for i, e := range pa.Events {
				if isCall(e, "encoding/json.Unmarshal") && pa.nil(e.Res) == NonNil {
					fails = i
				}
				if isCall(e, "strconv.Atoi", "strconv.ParseInt") && pa.nil(extract(e.Res, 1)) == NonNil {
					fails = i
				}
			}
			if fails >= 0 {
				done := false
				for _, e := range pa.Events[fails:] {
					if e.Kind == EvRange && !e.Ok || e.Kind == EvBranch && !e.Ok && e.Val.Op == "bin" && e.Val.S == "<" && e.Val.Args[1].Op == "len" {
						done = true
					}
				}
				c.Expect(done, "skip", con+" all", pa.Events[fails].Pos, "a candidate that cannot be read ends the choice", pa)
			}
		}
	}
	c.Min("own-weight", 2)
	c.Min("lowest", 2)
	c.Min("readable", 2)
	c.Min("skip", 2)
}

// ---------------------------------------------------------------- A05

func runA05(c *Check) {
	c.Rule("own-only", "a record is removed only after its node was decided to be this node, from the set it was read from and by its own id")
	c.Rule("both", "a record of this node is removed from both indexes")
	c.Rule("node", "the node's counters and info are removed with the records, in one batch")
	c.Rule("all-types", "every type the node has counted is looked through")
	c.Rule("lock", "everything happens under the node's distributed lock, which is released with its own token on every path")
	c.Rule("reported", "a failing step is reported")
	l := c.layout("both")
	fn := c.abMethod("Clear")
	if l == nil || fn == nil {
		return
	}
	con := fnName(fn)
	prefix := strings.TrimSuffix(l.tyField, sTY)
	own := func(t *Term) (string, bool) { return nodeSym(t) }
	multi := false
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 3}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		// lock
		var lk, ul *Event
		li, ui := -1, -1
		for i, e := range pa.Events {
			if isCall(e, "lib/dismutex.Lock") {
				lk, li = e, i
			}
			if isCall(e, "lib/dismutex.Unlock") {
				ul, ui = e, i
			}
		}
		if !c.Expect(lk != nil && render(lk.Args[1], own) == sNODE, "lock", con, fn.Pos(), "the node is cleared without its lock", pa) {
			continue
		}
		lockErr := pa.nil(extract(lk.Res, 1))
		all := cmds(pa)
		for _, x := range all {
			c.Expect(x.at > li && lockErr == IsNil && (ui < 0 || x.at < ui), "lock", con+" held", x.e.Pos, "the store is used without the node's lock", pa)
		}
		if lockErr == IsNil {
			c.Expect(ul != nil && sameID(ul.Args[1], lk.Args[1]) && sameID(ul.Args[2], extract(lk.Res, 0)), "lock", con+" released", lk.Pos, "the node's lock is not released", pa)
		}
		bs, loose := batches(pa)
		for i, e := range pa.Events {
			if isExec(e) {
				c.Expect(ui < 0 || i < ui, "lock", con+" batch", e.Pos, "the batch runs without the node's lock", pa)
			}
		}
		ret := NonNil
		if pa.Outcome == Returned {
			ret = pa.nil(pa.Ret[0])
		}
		if pa.Outcome == Returned {
			if ret != NonNil {
				if !c.Expect(len(bs) == 1, "node", con+" one batch", fn.Pos(), "the node's entries are not removed in one batch", pa) {
					continue
				}
				for _, x := range loose {
					c.Viol("node", con+" outside", x.e.Pos, "a removal is not part of the batch", pa)
				}
			}
			// failing steps
			for _, x := range all {
				if x.pipe == nil && ret != NonNil {
					c.Expect(stateOf(pa, x.res) == cmdOK, "reported", con+" "+x.op, x.e.Pos, "a failing store is reported as success", pa)
				}
			}
			for _, b := range bs {
				if ret != NonNil {
					c.Expect(errIsRet(pa, extract(b.exec.Res, 1)), "reported", con+" batch", b.exec.Pos, "a failing batch is reported as success", pa)
				}
			}
			if ret != NonNil {
				c.Expect(lockErr == IsNil, "reported", con+" lock", lk.Pos, "a failing lock is reported as success", pa)
			}
		}
		// what is removed
		for _, x := range all {
			if !cmdWrites[x.op] {
				continue
			}
			s := x.render(own)
			switch {
			case x.op == "del" && s == "del("+l.nodeKey+")":
			case x.op == "hdel" && s == "hdel("+l.nodesKey+", "+sNODE+")":
			case x.op == "srem" || x.op == "hdel":
				var d *decodedRec
				if x.op == "srem" && len(x.args) == 2 {
					src := cmdByRes(pa, elemOf(pa, x.args[1]))
					okSet := src != nil && src.op == "smembers" && sameID(src.args[0], x.args[0])
					c.Expect(okSet, "own-only", con+" set", x.e.Pos, "a record is removed from another set than it was read from", pa)
					for _, e := range decodeOf(pa, x.args[1].Strip().ID()) {
						d = &decodedRec{rec: e.Args[1].Strip(), err: e.Res}
					}
				} else if len(x.args) == 2 {
					d = decodedFrom(pa, x.args[1])
					ok := render(x.args[0], own) == l.idKey && d != nil && len(d.path) == 1 && d.path[0] == "ActorId"
					c.Expect(ok, "own-only", con+" id", x.e.Pos, "a record is removed by another id than its own", pa)
				}
				if !c.Expect(d != nil && pa.nil(d.err) == IsNil, "own-only", con+" record", x.e.Pos, "a record is removed without having been read", pa) {
					continue
				}
				ok := false
				for _, b := range pa.Events[:x.at] {
					if b.Kind == EvBranch && b.Ok && b.Val.Op == "bin" && b.Val.S == "==" {
						p, q := b.Val.Args[0].Strip(), b.Val.Args[1].Strip()
						for i := 0; i < 2; i++ {
							if r, f := p.FieldPath(); r.ID() == d.rec.ID() && len(f) == 1 && f[0] == "Node" && q.ID() == "$0.NodeID" {
								ok = true
							}
							p, q = q, p
						}
					}
				}
				c.Expect(ok, "own-only", con, x.e.Pos, "a record is removed without its node having been found to be this node", pa)
			default:
				c.Expect(false, "own-only", con+" "+x.op, x.e.Pos, "unexpected effect of clearing: "+s, pa)
			}
		}
		if pa.Outcome != Returned || ret == NonNil && !(len(bs) == 1) {
			continue
		}
		for _, b := range bs {
			n := map[string]bool{}
			for _, x := range b.cmds {
				n[x.render(own)] = true
			}
			c.Expect(n["del("+l.nodeKey+")"], "node", con+" counters", b.exec.Pos, "the node's counters are kept", pa)
			c.Expect(n["hdel("+l.nodesKey+", "+sNODE+")"], "node", con+" info", b.exec.Pos, "the node's info is kept", pa)
			// records
			recs := 0
			for _, e := range pa.Events[:b.at] {
				if !isCall(e, "encoding/json.Unmarshal") || pa.nil(e.Res) != IsNil {
					continue
				}
				rec := e.Args[1].Strip()
				mine := -1
				for _, br := range pa.Events[:b.at] {
					if br.Kind == EvBranch && br.Val.Op == "bin" && br.Val.S == "==" && br.Val.Any(func(t *Term) bool { r, f := t.FieldPath(); return r.ID() == rec.ID() && len(f) == 1 && f[0] == "Node" }) {
						mine = b2i(br.Ok)
					}
				}
				if mine == 0 {
					continue
				}
				recs++
				inSet, byID := false, false
				for _, x := range b.cmds {
					if x.op == "srem" && len(x.args) == 2 && sameID(x.args[1], e.Args[0]) {
						inSet = true
					}
					if x.op == "hdel" && len(x.args) == 2 {
						if r, f := x.args[1].Strip().FieldPath(); r.ID() == rec.ID() && len(f) == 1 && f[0] == "ActorId" {
							byID = true
						}
					}
				}
				c.Expect(inSet && byID, "both", con, e.Pos, "a record of this node is not removed from both indexes", pa)
			}
			multi = multi || recs > 1
			// every counted type
			for _, e := range pa.Events[:b.at] {
				if e.Kind != EvRange || !e.Ok {
					continue
				}
				src := cmdByRes(pa, replyOf(e.Recv))
				if src == nil || src.op != "hgetall" {
					continue
				}
				c.Expect(render(src.args[0], own) == l.nodeKey, "all-types", con+" source", src.e.Pos, "the types are not read from this node's counters", pa)
				if pa.True("==", e.Res, gstr(l.total)) == 1 {
					continue
				}
				looked := false
				for _, x := range all {
					if x.op == "smembers" && render(x.args[0], tyFrom(pa, e.Res, prefix)) == l.tyKey {
						looked = true
					}
				}
				foreign := false // not a type counter at all
				for _, br := range pa.Events {
					if br.Kind == EvBranch && !br.Ok && br.Val.Any(func(t *Term) bool {
						return t.Op == "call" && (t.S == "strings.HasPrefix" || t.S == "strings.CutPrefix") && len(t.Args) == 2 && sameID(t.Args[0], e.Res)
					}) {
						foreign = true
					}
				}
				c.Expect(looked || foreign, "all-types", con, e.Pos, "the actors of a type the node counted are not looked through", pa)
			}
			done := false
			for _, e := range pa.Events[:b.at] {
				if e.Kind == EvRange && !e.Ok {
					if src := cmdByRes(pa, replyOf(e.Recv)); src != nil && src.op == "hgetall" {
						done = true
					}
				}
			}
			c.Expect(unfinished(pa, b.at) == nil, "both", con+" end", b.exec.Pos, "the records of a type are not gone through to their end", pa)
			c.Expect(done, "all-types", con+" end", b.exec.Pos, "the node's counters are not gone through to their end", pa)
		}
	}
	c.Expect(multi, "both", con+" loop", fn.Pos(), "undecided: no path with several records", nil)
	c.Min("own-only", 3)
	c.Min("all-types", 2)
}

// tyFrom: the type name cut out of a counter's field name.
func tyFrom(pa *Path, key *Term, prefix string) symFn {
	return func(t *Term) (string, bool) {
		x := t.Strip()
		if x.Op == "slice" && sameID(x.Args[0], key) && len(x.Args) >= 2 {
			if lo, ok := x.Args[1].IntConst(); ok && int(lo) == len(prefix) {
				return sTY, true
			}
		}
		y := x
		if y.Op == "extract" && y.N == 0 {
			y = y.Args[0]
		}
		if y.Op == "call" && (y.S == "strings.TrimPrefix" || y.S == "strings.CutPrefix") && sameID(y.Args[0], key) {
			if s, ok := y.Args[1].StrConst(); ok && s == prefix {
				return sTY, true
			}
		}
		return nodeSym(t)
	}
}

// ---------------------------------------------------------------- D01

func runD01(c *Check) {
	p := c.P
	c.Rule("acquire", "the lock is taken by one conditional set of the caller's key with a positive constant expiry")
	c.Rule("token", "the value set is fresh random data, and is what the caller gets")
	c.Rule("granted", "a token is returned only if the conditional set succeeded, otherwise an error")
	c.Rule("bounded", "the number of attempts is bounded")
	c.Rule("release", "release compares the stored token with the caller's and deletes it in one atomic script, and reports what the script did")
	lock, unlock := p.Func("lib/dismutex", "Lock"), p.Func("lib/dismutex", "Unlock")
	if !c.Anchor(lock, "dismutex.Lock") || !c.Anchor(unlock, "dismutex.Unlock") {
		return
	}
	con := fnName(lock)
	for _, pa := range c.Walk(lock, WalkOpts{LoopBound: 3}).Paths {
		sets := []*storeCmd{}
		for _, x := range cmds(pa) {
			if x.op == "setnx" {
				ok := len(x.args) == 3 && x.args[0].Strip().ID() == "$1"
				k := int64(0)
				if ok {
					k, _ = constVal(x.args[2])
				}
				c.Expect(ok && k > 0, "acquire", con, x.e.Pos, "the lock's key is not set under the caller's name with a positive expiry", pa)
				if ok {
					c.Expect(randomSource(pa, x.at, x.args[1]), "token", con+" random", x.e.Pos, "the token is not fresh random data", pa)
				}
				sets = append(sets, x)
			} else if cmdWrites[x.op] {
				c.Expect(false, "acquire", con+" "+x.op, x.e.Pos, "the lock's key is changed by "+x.op, pa)
			}
		}
		if pa.Outcome != Returned || len(pa.Ret) != 2 {
			continue
		}
		if pa.nil(pa.Ret[1]) != NonNil {
			ok := false
			for _, x := range sets {
				rep := -1
				for _, e := range pa.Events {
					if e.Kind == EvCall && e.Recv != nil && e.Recv.Strip().ID() == x.res.ID() && (strings.HasSuffix(e.Name, ".Result") || strings.HasSuffix(e.Name, ".Val")) {
						v := e.Res
						if strings.HasSuffix(e.Name, ".Result") {
							v = extract(e.Res, 0)
						}
						rep = pa.St.Truth(v)
					}
				}
				if rep == 1 && stateOf(pa, x.res) == cmdOK && pa.is(pa.Ret[0], x.args[1]) {
					ok = true
				}
			}
			c.Expect(ok, "granted", con, lock.Pos(), "the lock is granted without the conditional set having succeeded with the returned token", pa)
		} else {
			c.Ob("granted", con+" refused", lock.Pos())
		}
	}
	c.Min("acquire", 1)
	c.Min("granted", 2)
	// attempts
	for _, fn := range p.Entries([]*ssa.Function{lock}) {
		_ = fn
	}
	n := 0
	for _, fn := range p.Fns {
		if relPkg(fn) != "lib/dismutex" {
			continue
		}
		for _, lp := range loopsOf(fn) {
			calls := false
			for b := range lp.body {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && relPkg(cal) == "3rd/redis" || ci.Common().IsInvoke() {
							calls = true
						}
					}
				}
			}
			if calls {
				n++
				c.Expect(lp.counted(), "bounded", fnName(fn)+" loop", lp.head.Instrs[0].Pos(), "the attempts are not bounded by a counter", nil)
			}
		}
	}
	if n == 0 {
		c.Ob("bounded", con+" no loop", lock.Pos())
	}
	// release
	con = fnName(unlock)
	for _, pa := range c.Walk(unlock, WalkOpts{}).Paths {
		if pa.Outcome != Returned || len(pa.Ret) != 1 {
			continue
		}
		var run *Event
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.Contains(e.Name, "go-redis/v9.Script).Run") || e.Kind == EvCall && strings.HasSuffix(e.Name, ".Eval") {
				run = e
			} else if x := decodeCmd(e); x != nil {
				c.Expect(false, "release", con+" "+x.op, e.Pos, "the lock is released in separate steps ("+x.op+")", pa)
			}
		}
		if run == nil {
			b, ok := pa.Ret[0].BoolConst()
			c.Expect(ok && !b, "release", con+" none", unlock.Pos(), "a release that did nothing is reported as done", pa)
			continue
		}
		script := ""
		var keys, vals []*Term
		if strings.HasSuffix(run.Name, "Script).Run") {
			script = p.scriptText(run.Recv)
			if len(run.Args) >= 4 {
				keys, vals = flatten(run.Args[2:3]), flatten(run.Args[3:])
			}
		} else if len(run.Args) >= 3 {
			script, _ = run.Args[1].StrConst()
			keys, vals = flatten(run.Args[2:3]), flatten(run.Args[3:])
		}
		c.Expect(compareAndDelete(script), "release", con+" script", run.Pos, "the release script is not a comparison of the stored token followed by the removal", pa)
		c.Expect(len(keys) == 1 && keys[0].Strip().ID() == "$1", "release", con+" key", run.Pos, "another key is released", pa)
		c.Expect(len(vals) == 1 && vals[0].Strip().ID() == "$2", "release", con+" token", run.Pos, "the release does not compare the caller's token for the caller's key", pa)
		// the outcome
		r := pa.St.Truth(pa.Ret[0])
		if b, ok := pa.Ret[0].BoolConst(); ok {
			r = b2i(b)
		}
		if r != 0 {
			good := false
			nz := false
			for _, e := range pa.Events {
				if e.Kind == EvCall && e.Recv != nil && e.Recv.Strip().ID() == run.Res.ID() {
					if t := errResult(e); t != nil && (pa.nil(t) == IsNil || pa.Ret[0].Mentions(t.ID())) {
						good = true
					}
					v := extract(e.Res, 0)
					if pa.True("==", v, tInt(0)) == 0 || pa.True("==", v, tInt(1)) == 1 || pa.True("<", tInt(0), v) == 1 || pa.Ret[0].Mentions(v.ID()) {
						nz = true
					}
				}
			}
			c.Expect(good && nz, "release", con+" outcome", unlock.Pos(), "a release is reported as done without the script having removed the lock", pa)
		}
	}
	c.Min("release", 3)
}

// randomSource: the value is made from a buffer filled by a random source on this path,
// or is itself the result of one.
func randomSource(pa *Path, upto int, t *Term) bool {
	isRand := func(s string) bool {
		return strings.HasPrefix(s, "crypto/rand.") || strings.Contains(s, "uuid.") || strings.Contains(s, "math/rand") || strings.Contains(s, "xid.")
	}
	if t.Any(func(x *Term) bool { return x.Op == "call" && isRand(x.S) }) {
		return true
	}
	ok := false
	for _, e := range pa.Events[:upto] {
		if e.Kind != EvCall || !isRand(e.Name) {
			continue
		}
		if err := errResult(e); err != nil && pa.nil(err) == NonNil {
			continue
		}
		for _, a := range e.Args {
			r := a.Root()
			if r.Op == "const" || r.Op == "param" {
				continue
			}
			if t.Mentions(r.ID()) || t.Strip().Op == "call" && anyArg(t.Strip(), func(x *Term) bool { return x.Mentions(r.ID()) || x.Root().ID() == r.ID() }) {
				ok = true
			}
		}
	}
	return ok
}

func anyArg(t *Term, pred func(*Term) bool) bool {
	for _, a := range t.Args {
		if pred(a) || anyArg(a, pred) {
			return true
		}
	}
	return false
}

// scriptText is the text a script variable is made from.
func (p *Prog) scriptText(t *Term) string {
	root := t.Strip()
	for root != nil && root.Op == "load" {
		root = root.Args[0]
	}
	if root.Op == "call" && strings.HasSuffix(root.S, ".NewScript") && len(root.Args) == 1 {
		s, _ := root.Args[0].StrConst()
		return s
	}
	if root.Op != "global" {
		return ""
	}
	cl, ok := p.globalInit(root.Obj).(*ssa.Call)
	if !ok {
		return ""
	}
	if cal := cl.Call.StaticCallee(); cal == nil || cal.Name() != "NewScript" {
		return ""
	}
	return p.constText(cl.Call.Args[0])
}

// constText is the value of a string constant or of a variable that only ever
// has one.
func (p *Prog) constText(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if x := p.globalInit(g.Object()); x != nil {
				return p.constText(x)
			}
		}
	}
	return ""
}

// globalInit is the one value ever stored in a package variable.
func (p *Prog) globalInit(obj types.Object) ssa.Value {
	var val ssa.Value
	n := 0
	look := func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Object() == obj {
						val = st.Val
						n++
					}
				}
			}
		}
	}
	for _, pk := range p.SPkgs {
		look(pk.Func("init"))
	}
	for _, fn := range p.Fns {
		if fn.Name() != "init" || fn.Synthetic == "" {
			look(fn)
		}
	}
	if n != 1 {
		return nil
	}
	return val
}

// compareAndDelete matches the release script, whatever its layout and quoting.
func compareAndDelete(s string) bool {
	s = strings.NewReplacer(" ", "", "\n", "", "\t", "", "\r", "", "'", `"`, ";", "").Replace(s)
	s = strings.ReplaceAll(s, `"GET"`, `"get"`)
	s = strings.ReplaceAll(s, `"DEL"`, `"del"`)
	for _, cond := range []string{`redis.call("get",KEYS[1])==ARGV[1]`, `ARGV[1]==redis.call("get",KEYS[1])`} {
		for _, body := range []string{`returnredis.call("del",KEYS[1])`} {
			for _, tail := range []string{`elsereturn0end`, `endreturn0`} {
				if s == "if"+cond+"then"+body+tail || s == "if("+cond+")then"+body+tail {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- loops

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of a function.
func loopsOf(fn *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var r []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			lp := byHead[s]
			if lp == nil {
				lp = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = lp
				r = append(r, lp)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if lp.body[x] {
					continue
				}
				lp.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return r
}

// counted: some exit of the loop compares a counter that only moves by constants with
// something the loop does not change, or the loop ranges over something.
func (lp *loop) counted() bool {
	for b := range lp.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || lp.body[b.Succs[0]] && lp.body[b.Succs[1]] {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				return true
			}
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if lp.counter(bo.X) && lp.invariant(bo.Y) || lp.counter(bo.Y) && lp.invariant(bo.X) {
			return true
		}
	}
	return false
}

func (lp *loop) counter(v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok {
		if _, ok := bo.Y.(*ssa.Const); ok {
			v = bo.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || !lp.body[ph.Block()] {
		return false
	}
	for _, e := range ph.Edges {
		switch x := e.(type) {
		case *ssa.Const:
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() == 0 || x.X != ssa.Value(ph) {
				return false
			}
		default:
			if lp.body[ph.Block()] && !lp.invariant(e) {
				return false
			}
		}
	}
	return true
}

func (lp *loop) invariant(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return lp.invariant(c.Call.Args[0])
			}
		}
		return !lp.body[x.Block()]
	}
	return false
}
