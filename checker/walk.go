package main

// The walker: a path-sensitive, interprocedural dataflow over the SSA control-flow
// graph. It follows every branch combination that is consistent with the opaque
// predicates already assumed on the path (no solver, no concrete values), inlines
// calls inside the module, runs deferred calls in order, follows panics raised by
// user callbacks, and cuts cyclic paths at a loop bound. The result of a walk is the
// set of event paths of a function; rules are predicates over these paths.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvCall  EvKind = iota // call not inlined: static external, interface or function value
	EvEnter               // call inlined; EvLeave follows
	EvLeave
	EvGo
	EvSend
	EvRecv
	EvSelect // one per select, Case holds the index chosen (-1 default)
	EvClose
	EvStore
	EvMapSet
	EvMapDel
	EvLookup
	EvRange // an iteration step over a map or string: Res is the key, Ok whether there is one
	EvLock
	EvUnlock
	EvBranch
	EvReturn
	EvPanic
	EvRecover
	EvAssert
	EvLoad
	EvMakeChan
	EvIndex
	EvDeref // dereference of a pointer (for nil rules)
)

var kindNames = [...]string{"call", "enter", "leave", "go", "send", "recv", "select", "close", "store", "mapset", "mapdel", "lookup", "range", "lock", "unlock", "branch", "return", "panic", "recover", "assert", "load", "makechan", "index", "deref"}

type Held struct {
	Lock string // ID of the mutex address
	Key  string
	Read bool
	Pos  token.Pos
}

type Event struct {
	Kind     EvKind
	Name     string // callee name for calls (see CalleeName), else detail
	Obj      types.Object
	Recv     *Term   // receiver of method calls, channel, map, address
	Args     []*Term // arguments without receiver
	Res      *Term
	Val      *Term // stored / sent value
	Case     int
	Cases    []SelCase
	Blocking bool
	Ok       bool // branch outcome, commaok presence
	CommaOk  bool
	Deferred bool
	Panicked bool // the walker let this call panic
	Invoke   bool
	Dynamic  bool // function value
	Pos      token.Pos
	Fn       *ssa.Function // enclosing
	GoFn     *ssa.Function
	Snap     *State
	Locks    []Held
	Depth    int
	Instr    ssa.Instruction
}

type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

func (e *Event) String() string {
	s := kindNames[e.Kind] + " " + e.Name
	if e.Recv != nil {
		s += " on " + e.Recv.ID()
	}
	if len(e.Args) > 0 {
		var a []string
		for _, x := range e.Args {
			a = append(a, x.ID())
		}
		s += "(" + strings.Join(a, ", ") + ")"
	}
	if e.Val != nil {
		s += " <- " + e.Val.ID()
	}
	if e.Kind == EvBranch {
		s += fmt.Sprintf("%v", e.Ok)
	}
	if e.Kind == EvSelect {
		s += fmt.Sprintf(" case %d", e.Case)
	}
	if e.Deferred {
		s += " [deferred]"
	}
	if e.Panicked {
		s += " [panics]"
	}
	if len(e.Locks) > 0 {
		s += " {"
		for _, h := range e.Locks {
			s += h.Lock + " "
		}
		s += "}"
	}
	return s
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term // for closures / static functions
	recv *Term // invoke receiver
	args []*Term
	ins  ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	block     *ssa.BasicBlock
	pc        int
	prev      *ssa.BasicBlock
	env       map[ssa.Value]*Term
	visits    map[int]int
	defers    []deferred
	callIns   ssa.Instruction // in the caller
	isDefer   bool            // this activation is a deferred call
	panicking *Term           // set while unwinding
	recovered bool
	onLeave   *Event
	once      bool
}

type memEnt struct {
	addr *Term
	val  *Term
}

type State struct {
	frames []*Frame
	mem    map[string]memEnt
	assume map[string]bool
	terms  map[string]*Term // assumed conditions
	trace  []*Event
	locks  []Held
	occ    map[ssa.Instruction]int
	esc    map[string]bool // escaped local allocations
	hav    map[string]int  // epochs by root
	shared map[string]bool // allocations written by other goroutines
	gep    int
	fresh  int
}

func (s *State) clone() *State {
	n := &State{gep: s.gep, fresh: s.fresh}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.visits = make(map[int]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.mem = make(map[string]memEnt, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.assume = make(map[string]bool, len(s.assume))
	for k, v := range s.assume {
		n.assume[k] = v
	}
	n.terms = make(map[string]*Term, len(s.terms))
	for k, v := range s.terms {
		n.terms[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.locks = append([]Held(nil), s.locks...)
	n.occ = make(map[ssa.Instruction]int, len(s.occ))
	for k, v := range s.occ {
		n.occ[k] = v
	}
	cp := func(m map[string]bool) map[string]bool {
		r := make(map[string]bool, len(m))
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	n.esc, n.shared = cp(s.esc), cp(s.shared)
	n.hav = make(map[string]int, len(s.hav))
	for k, v := range s.hav {
		n.hav[k] = v
	}
	return n
}

type Outcome int

const (
	Returned Outcome = iota
	Panicked
	Cut // loop bound reached
	Stuck
)

type Path struct {
	Events  []*Event
	Ret     []*Term
	Outcome Outcome
	St      *State
}

type WalkOpts struct {
	Inline      func(fn *ssa.Function) bool
	InlineIface bool
	Impl        func(recv types.Type, m *types.Func) *ssa.Function
	LoopBound   int
	MaxSteps    int
	MaxPaths    int
	MayPanic    func(e *Event) bool
	Loads       bool
	Derefs      bool
	Keep        func(e *Event) bool
	Args        []*Term // bindings of the root's parameters
	MaxDepth    int
	NoIgnore    bool
	Opaque      []string // callees kept as calls
	OpaqueFn    func(fn *ssa.Function) bool
	Extra       []string // packages to inline besides the root's own ("*" all)
}

type Walk struct {
	p     *Prog
	opt   WalkOpts
	root  *ssa.Function
	Paths []*Path
	Trunc bool
	steps int
	work  []*State
	Fns   map[*ssa.Function]bool
	loops map[*ssa.Function][]*loop
}

func (p *Prog) Walk(fn *ssa.Function, opt WalkOpts) *Walk {
	w := p.newWalk(fn, opt)
	st := w.start(nil, fn, opt.Args, nil)
	w.run(st)
	return w
}

func (p *Prog) newWalk(fn *ssa.Function, opt WalkOpts) *Walk {
	if opt.LoopBound == 0 {
		opt.LoopBound = 3
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 6000000
	}
	if opt.MaxPaths == 0 {
		opt.MaxPaths = 60000
	}
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 24
	}
	return &Walk{p: p, opt: opt, root: fn, Fns: map[*ssa.Function]bool{}, loops: map[*ssa.Function][]*loop{}}
}

// WalkGo walks the body of a goroutine started at event e, in the state of its start.
func (w *Walk) WalkGo(e *Event, opt WalkOpts) *Walk {
	n := w.p.newWalk(e.GoFn, opt)
	var bind []*Term
	if e.Recv != nil && e.Recv.Op == "closure" {
		bind = e.Recv.Args
	}
	st := n.start(e.Snap, e.GoFn, e.Args, bind)
	n.run(st)
	return n
}

func (w *Walk) start(from *State, fn *ssa.Function, args []*Term, bind []*Term) *State {
	var st *State
	if from != nil {
		st = from.clone()
		st.trace = nil
		st.locks = nil
		st.frames = nil
		// values in memory other goroutines may change are unknown by the time this one runs
		w.havocShared(st)
	} else {
		st = &State{mem: map[string]memEnt{}, assume: map[string]bool{}, terms: map[string]*Term{}, occ: map[ssa.Instruction]int{},
			esc: map[string]bool{}, hav: map[string]int{}, shared: map[string]bool{}}
	}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[int]int{}}
	for i, prm := range fn.Params {
		if i < len(args) && args[i] != nil {
			f.env[prm] = args[i]
			if args[i].T == nil && args[i].Op == "param" {
				t := *args[i]
				t.T = prm.Type()
				f.env[prm] = &t
			}
		} else {
			f.env[prm] = &Term{Op: "param", S: "$" + strconv.Itoa(i), N: i, T: prm.Type()}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) && bind[i] != nil {
			f.env[fv] = bind[i]
		} else {
			f.env[fv] = &Term{Op: "param", S: "&free:" + fv.Name(), N: i, T: fv.Type()}
		}
	}
	if len(fn.Blocks) > 0 {
		f.block = fn.Blocks[0]
	}
	st.frames = []*Frame{f}
	w.Fns[fn] = true
	return st
}

func (w *Walk) run(st *State) {
	w.work = append(w.work, st)
	for len(w.work) > 0 {
		s := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		w.exec(s)
		if w.steps > w.opt.MaxSteps || len(w.Paths) > w.opt.MaxPaths {
			w.Trunc = true
			return
		}
	}
}

func (w *Walk) finish(s *State, o Outcome, ret []*Term) {
	w.Paths = append(w.Paths, &Path{Events: s.trace, Ret: ret, Outcome: o, St: s})
}

func (w *Walk) emit(s *State, e *Event) *Event {
	f := s.frames[len(s.frames)-1]
	if e.Fn == nil {
		e.Fn = f.fn
	}
	e.Depth = len(s.frames)
	e.Locks = append([]Held(nil), s.locks...)
	if w.opt.Keep != nil && !w.opt.Keep(e) {
		return e
	}
	s.trace = append(s.trace, e)
	return e
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---------------------------------------------------------------- values

func (w *Walk) val(s *State, v ssa.Value) *Term {
	f := s.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isNilable(v.Type()) {
				return tNil(v.Type())
			}
			return &Term{Op: "zero", T: v.Type()}
		}
		return tConst(v.Value, v.Type())
	case *ssa.Function:
		return &Term{Op: "fn", S: v.String(), Fn: v, T: v.Type()}
	case *ssa.Global:
		return &Term{Op: "global", S: v.Pkg.Pkg.Name() + "." + v.Name(), T: v.Type(), Obj: v.Object(), Pos: v.Pos()}
	case *ssa.Builtin:
		return &Term{Op: "fn", S: v.Name(), T: v.Type()}
	}
	return &Term{Op: "unknown", S: fmt.Sprintf("%s@%d", v.Name(), v.Pos()), T: v.Type()}
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return t.Underlying().(*types.Basic).Kind() == types.UntypedNil || t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
	}
	return false
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return &Term{Op: "zero", T: t}
	}
	if isNilable(t) {
		return tNil(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return tConst(constant.MakeString(""), t)
		case b.Info()&types.IsBoolean != 0:
			return tConst(constant.MakeBool(false), t)
		case b.Info()&types.IsInteger != 0:
			return tConst(constant.MakeInt64(0), t)
		}
	}
	return &Term{Op: "zero", T: t}
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (w *Walk) fieldAddr(base *Term, idx int) *Term {
	st := ptrElem(base.T)
	name := strconv.Itoa(idx)
	var ft types.Type
	var obj types.Object
	if st != nil {
		if s, ok := st.Underlying().(*types.Struct); ok && idx < s.NumFields() {
			name = s.Field(idx).Name()
			ft = types.NewPointer(s.Field(idx).Type())
			obj = s.Field(idx)
		}
	}
	return &Term{Op: "field", Args: []*Term{base}, S: name, N: idx, T: ft, Obj: obj}
}

// localRoot returns the allocation an address belongs to directly (not through loads).
func localRoot(a *Term) *Term {
	for a != nil {
		switch a.Op {
		case "field", "index":
			a = a.Args[0]
		case "slice":
			a = a.Args[0]
		case "alloc":
			return a
		default:
			return nil
		}
	}
	return nil
}

func addrRoot(a *Term) *Term {
	for a.Op == "field" || a.Op == "index" || a.Op == "slice" {
		a = a.Args[0]
	}
	return a
}

func (w *Walk) load(s *State, a *Term) *Term {
	T := ptrElem(a.T)
	if a.Op == "elemaddr" {
		return a.Args[0]
	}
	r := addrRoot(a)
	if r.Op == "alloc" && s.shared[r.Key()] {
		s.fresh++
		return &Term{Op: "load", Args: []*Term{a}, T: T, N: 1000000 + s.fresh}
	}
	// a struct with individually stored fields
	if T != nil {
		if stt, ok := T.Underlying().(*types.Struct); ok && s.hasParts(a) {
			return w.structOf(s, a, stt)
		}
	}
	if v, ok := w.loadWhole(s, a); ok {
		return v
	}
	if a.Op == "index" {
		if es, ok := w.elements(s, a.Args[0]); ok && a.Args[0].Op != "slice" {
			if i, ok := a.Args[1].IntConst(); ok && i >= 0 && int(i) < len(es) {
				return es[i]
			}
		}
		if base, ok := s.mem[a.Args[0].Key()]; ok && base.val.Op == "zero" {
			return zeroTerm(T)
		}
	}
	if T != nil && r.Op == "alloc" && s.hav[r.Key()] == 0 {
		if stt, ok := T.Underlying().(*types.Struct); ok {
			return w.structOf(s, a, stt)
		}
	}
	if r.Op == "alloc" && s.hav[r.Key()] == 0 {
		return zeroTerm(T)
	}
	n := s.hav[r.Key()]
	if r.Op != "alloc" || s.esc[r.Key()] {
		n += s.gep * 1000
	}
	if a.Op == "global" && w.p.InitOnly[a.S] {
		n = 0
	}
	return &Term{Op: "load", Args: []*Term{a}, T: T, N: n, Obj: a.Obj}
}

// emitParts tells the fields of a struct that is stored as a whole into a local object.
func (w *Walk) emitParts(s *State, a, v *Term, in *ssa.Store) {
	if v.Op != "struct" || v.T == nil || localRoot(a) == nil {
		return
	}
	stt, ok := v.T.Underlying().(*types.Struct)
	if !ok || stt.NumFields() != len(v.Args) {
		return
	}
	for i, x := range v.Args {
		if z := zeroTerm(stt.Field(i).Type()); x.ID() == z.ID() && !s.hasParts(a) {
			continue
		}
		fa := w.fieldAddr(a, i)
		w.emit(s, &Event{Kind: EvStore, Recv: fa, Val: x, Pos: in.Pos(), Instr: in})
		w.emitParts(s, fa, x, in)
	}
}

// hasParts reports whether fields of the struct at a were stored on their own.
func (s *State) hasParts(a *Term) bool {
	pre := a.Key() + "."
	for k := range s.mem {
		if strings.HasPrefix(k, pre) {
			return true
		}
	}
	return false
}

func (w *Walk) structOf(s *State, a *Term, stt *types.Struct) *Term {
	t := &Term{Op: "struct", T: ptrElem(a.T)}
	for i := 0; i < stt.NumFields(); i++ {
		t.Args = append(t.Args, w.load(s, w.fieldAddr(a, i)))
	}
	return t
}

// loadWhole is the value stored at a, or that of a field of a struct stored as a whole.
func (w *Walk) loadWhole(s *State, a *Term) (*Term, bool) {
	if e, ok := s.mem[a.Key()]; ok {
		return e.val, true
	}
	if a.Op == "field" {
		if base, ok := w.loadWhole(s, a.Args[0]); ok {
			return w.fieldVal(base, a.N, ptrElem(a.T)), true
		}
	}
	return nil, false
}

func (w *Walk) fieldVal(base *Term, idx int, T types.Type) *Term {
	if base.Op == "struct" && idx < len(base.Args) {
		return base.Args[idx]
	}
	if base.Op == "zero" {
		return zeroTerm(T)
	}
	name := strconv.Itoa(idx)
	var obj types.Object
	if base.T != nil {
		if st, ok := base.T.Underlying().(*types.Struct); ok && idx < st.NumFields() {
			name = st.Field(idx).Name()
			obj = st.Field(idx)
			T = st.Field(idx).Type()
		}
	}
	if base.Op == "load" {
		// the field of a loaded struct is the field of that place, at the same epoch
		fa := &Term{Op: "field", Args: []*Term{base.Args[0]}, S: name, N: idx, T: types.NewPointer(T), Obj: obj}
		return &Term{Op: "load", Args: []*Term{fa}, T: T, N: base.N, Obj: obj}
	}
	return &Term{Op: "fieldval", Args: []*Term{base}, S: name, N: idx, T: T, Obj: obj}
}

func (w *Walk) store(s *State, a, v *Term) {
	k := a.Key()
	pre, pre2 := k+".", k+"["
	for mk := range s.mem {
		if strings.HasPrefix(mk, pre) || strings.HasPrefix(mk, pre2) {
			delete(s.mem, mk)
		}
	}
	r := addrRoot(a)
	if r.Op != "alloc" {
		// other access paths may name the same place: forget loads of the same field elsewhere
		if a.Op == "field" {
			for mk, e := range s.mem {
				if e.addr.Op == "field" && e.addr.S == a.S && mk != k && addrRoot(e.addr).Op != "alloc" {
					delete(s.mem, mk)
				}
			}
		}
		w.escape(s, v)
	} else if s.esc[r.Key()] {
		w.escape(s, v)
	}
	s.mem[k] = memEnt{a, v}
}

// escape marks local allocations reachable from v as visible to others.
func (w *Walk) escape(s *State, v *Term) {
	if v == nil {
		return
	}
	switch v.Op {
	case "alloc":
		k := v.Key()
		if s.esc[k] {
			return
		}
		s.esc[k] = true
		for _, e := range s.mem {
			if r := addrRoot(e.addr); r.Op == "alloc" && r.Key() == k {
				w.escape(s, e.val)
			}
		}
	case "field", "index", "slice", "iface", "conv", "list", "append":
		for _, a := range v.Args {
			w.escape(s, a)
		}
	case "closure", "struct", "tuple":
		for _, a := range v.Args {
			w.escape(s, a)
		}
	}
}

// havoc forgets what an unknown callee may have changed.
func (w *Walk) havocAll(s *State) {
	s.gep++
	for k, e := range s.mem {
		r := addrRoot(e.addr)
		if r.Op == "alloc" && (!s.esc[r.Key()] || r.Cell) {
			continue
		}
		delete(s.mem, k)
		if r.Op == "alloc" {
			s.hav[r.Key()]++
		}
	}
}

func (w *Walk) havocShared(s *State) {
	s.gep++
	for k, e := range s.mem {
		r := addrRoot(e.addr)
		if r.Op != "alloc" {
			delete(s.mem, k)
		}
	}
}

// havocRoot forgets what is stored in the object a is in.
func (w *Walk) havocArg(s *State, a *Term) {
	a = a.Strip()
	switch a.Op {
	case "alloc", "field", "index", "slice", "global":
	default:
		return
	}
	r := addrRoot(a)
	rk := r.Key()
	pk := a.Key()
	for k := range s.mem {
		e := s.mem[k]
		if addrRoot(e.addr).Key() != rk {
			continue
		}
		if a.Op == "alloc" || k == pk || strings.HasPrefix(k, pk+".") || strings.HasPrefix(k, pk+"[") || a.Op == "slice" {
			delete(s.mem, k)
		}
	}
	s.hav[rk]++
	if r.Op == "alloc" {
		w.escape(s, r)
	}
}

// ---------------------------------------------------------------- conditions

// norm turns a boolean term into a canonical condition and a polarity.
func norm(c *Term) (*Term, bool) {
	pol := true
	for {
		if c.Op == "un" && c.S == "!" {
			c = c.Args[0]
			pol = !pol
			continue
		}
		break
	}
	if c.Op == "bin" {
		x, y := c.Args[0], c.Args[1]
		switch c.S {
		case "!=":
			return norm2(&Term{Op: "bin", S: "==", Args: sorted(x, y), T: c.T}, !pol)
		case "==":
			if b, ok := y.BoolConst(); ok {
				n, p := norm(x)
				return n, p == (b == pol)
			}
			return norm2(&Term{Op: "bin", S: "==", Args: sorted(x, y), T: c.T}, pol)
		case "<":
			return norm2(c, pol)
		case ">=":
			return norm2(&Term{Op: "bin", S: "<", Args: []*Term{x, y}, T: c.T}, !pol)
		case ">":
			return norm2(&Term{Op: "bin", S: "<", Args: []*Term{y, x}, T: c.T}, pol)
		case "<=":
			return norm2(&Term{Op: "bin", S: "<", Args: []*Term{y, x}, T: c.T}, !pol)
		}
	}
	return c, pol
}

// norm2 brings the ways to ask whether something is empty to one: a string is compared with "", a length with 0.
func norm2(c *Term, p bool) (*Term, bool) {
	x, y := c.Args[0], c.Args[1]
	zero := func(t *Term, n int64) bool { k, ok := t.IntConst(); return ok && k == n }
	empty := func(l *Term, neg bool) (*Term, bool, bool) {
		if l.Op != "len" || l.Args[0].T == nil {
			return nil, false, false
		}
		b, ok := l.Args[0].T.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			return nil, false, false
		}
		s := l.Args[0]
		return &Term{Op: "bin", S: "==", Args: sorted(s, tConst(constant.MakeString(""), s.T)), T: c.T}, p != neg, true
	}
	switch {
	case c.S == "==" && zero(y, 0):
		if t, q, ok := empty(x, false); ok {
			return t, q
		}
	case c.S == "==" && zero(x, 0):
		if t, q, ok := empty(y, false); ok {
			return t, q
		}
	case c.S == "<" && zero(x, 0):
		if t, q, ok := empty(y, true); ok {
			return t, q
		}
	case c.S == "<" && zero(y, 1) && x.Op == "len":
		if t, q, ok := empty(x, false); ok {
			return t, q
		}
		return &Term{Op: "bin", S: "<", Args: []*Term{tInt(0), x}, T: c.T}, !p
	}
	return c, p
}

func sorted(x, y *Term) []*Term {
	xc, yc := x.Op == "const", y.Op == "const"
	if xc && !yc {
		return []*Term{y, x}
	}
	if yc && !xc {
		return []*Term{x, y}
	}
	if x.Key() > y.Key() {
		return []*Term{y, x}
	}
	return []*Term{x, y}
}

type Nilness int

const (
	Unknown Nilness = iota
	IsNil
	NonNil
)

// Nil classifies a value under the path's assumptions.
func (s *State) Nil(t *Term) Nilness {
	if t == nil {
		return Unknown
	}
	if t.IsNilConst() {
		return IsNil
	}
	switch t.Op {
	case "err", "closure", "fn", "alloc", "field", "index", "iface", "makemap", "makechan", "makeslice", "struct":
		return NonNil
	case "list":
		return NonNil
	case "conv":
		if n := s.Nil(t.Args[0]); n != Unknown {
			return n
		}
	case "assert":
		// the asserted interface value is there exactly if it has the type
		if t.T != nil && types.IsInterface(t.T) {
			is := &Term{Op: "is", S: types.TypeString(t.T, shortQual), Args: t.Args}
			if v, ok := s.assume[is.Key()]; ok {
				if v {
					return NonNil
				}
				return IsNil
			}
		}
	case "load":
		if t.Args[0].Op == "global" && t.S == "nonnil" {
			return NonNil
		}
	}
	c := &Term{Op: "bin", S: "==", Args: []*Term{t, tNil(nil)}}
	if v, ok := s.assume[c.Key()]; ok {
		if v {
			return IsNil
		}
		return NonNil
	}
	return Unknown
}

// Truth evaluates a condition under the assumptions: 1 true, 0 false, -1 unknown.
func (s *State) Truth(c *Term) int {
	if b, ok := c.BoolConst(); ok {
		if b {
			return 1
		}
		return 0
	}
	n, pol := norm(c)
	r := s.truthNorm(n)
	if r < 0 {
		return r
	}
	if !pol {
		r = 1 - r
	}
	return r
}

func (s *State) truthNorm(n *Term) int {
	if b, ok := n.BoolConst(); ok {
		if b {
			return 1
		}
		return 0
	}
	if v, ok := s.assume[n.Key()]; ok {
		if v {
			return 1
		}
		return 0
	}
	if n.Op == "bin" && n.S == "==" {
		x, y := n.Args[0], n.Args[1]
		if y.IsNilConst() {
			switch s.Nil(x) {
			case IsNil:
				return 1
			case NonNil:
				return 0
			}
		}
		if x.Key() == y.Key() {
			return 1
		}
		if x.Op == "const" && y.Op == "const" && x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
			if constant.Compare(x.C, token.EQL, y.C) {
				return 1
			}
			return 0
		}
		if x.Op == "alloc" && y.Op == "alloc" {
			return 0
		}
		if y.Op == "const" && y.C != nil {
			// x equals another constant already
			for k, v := range s.assume {
				if !v {
					continue
				}
				t := s.terms[k]
				if t.Op == "bin" && t.S == "==" && t.Args[0].Key() == x.Key() && t.Args[1].Op == "const" && t.Args[1].C != nil && t.Args[1].Key() != y.Key() {
					return 0
				}
			}
			// a bound from a comparison: len(x) < c and the like stay unknown
			if x.Op == "tmpl" {
				if sv, ok := y.StrConst(); ok && sv == "" {
					for _, a := range x.Args {
						if cs, ok := a.StrConst(); ok && cs != "" {
							return 0
						}
					}
				}
			}
		}
	}
	if n.Op == "bin" && n.S == "<" {
		x, y := n.Args[0], n.Args[1]
		if x.Key() == y.Key() {
			return 0
		}
		if v, ok := s.assume[(&Term{Op: "bin", S: "<", Args: []*Term{y, x}}).Key()]; ok && v {
			return 0
		}
		if x.Op == "const" && y.Op == "const" && x.C != nil && y.C != nil {
			if constant.Compare(x.C, token.LSS, y.C) {
				return 1
			}
			return 0
		}
		// len(..) < 0 is false; monotone facts about one term against constants
		if c, ok := y.IntConst(); ok && c <= 0 && (x.Op == "len" || x.Op == "cap") {
			return 0
		}
		if r := s.bound(x, y); r >= 0 {
			return r
		}
	}
	if n.Op == "bin" && n.S == "==" {
		x, y := n.Args[0], n.Args[1]
		if c, ok := y.IntConst(); ok {
			lo, hi := s.interval(x)
			if c < lo || c > hi {
				return 0
			}
			if lo == hi && lo == c {
				return 1
			}
		}
	}
	return -1
}

// interval derives bounds of an integer term from the assumptions about it.
func (s *State) interval(x *Term) (lo, hi int64) {
	lo, hi = -1<<62, 1<<62
	if c, ok := x.IntConst(); ok {
		return c, c
	}
	if x.Op == "len" || x.Op == "cap" {
		lo = 0
	}
	if x.T != nil {
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			lo = 0
		}
	}
	xk := x.Key()
	for pass := 0; pass < 2; pass++ {
		for k, v := range s.assume {
			t := s.terms[k]
			if t == nil || t.Op != "bin" {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			switch t.S {
			case "<":
				if a.Key() == xk {
					if c, ok := b.IntConst(); ok {
						if v && c-1 < hi {
							hi = c - 1
						}
						if !v && c > lo {
							lo = c
						}
					}
				}
				if b.Key() == xk {
					if c, ok := a.IntConst(); ok {
						if v && c+1 > lo {
							lo = c + 1
						}
						if !v && c < hi {
							hi = c
						}
					}
				}
			case "==":
				if a.Key() == xk {
					if c, ok := b.IntConst(); ok {
						if v {
							lo, hi = c, c
						} else if c == lo {
							lo++
						} else if c == hi {
							hi--
						}
					}
				}
			}
		}
	}
	return
}

func (s *State) bound(x, y *Term) int {
	if c, ok := y.IntConst(); ok {
		lo, hi := s.interval(x)
		if hi < c {
			return 1
		}
		if lo >= c {
			return 0
		}
	}
	if c, ok := x.IntConst(); ok {
		lo, hi := s.interval(y)
		if c < lo {
			return 1
		}
		if c >= hi {
			return 0
		}
	}
	return -1
}

func (s *State) assumeCond(c *Term, v bool) {
	n, pol := norm(c)
	if _, ok := n.BoolConst(); ok {
		return
	}
	s.assume[n.Key()] = v == pol
	s.terms[n.Key()] = n
}

// ---------------------------------------------------------------- execution

func (w *Walk) exec(s *State) {
	for {
		w.steps++
		if w.steps > w.opt.MaxSteps {
			return
		}
		f := s.top()
		if f.block == nil || f.pc >= len(f.block.Instrs) {
			w.finish(s, Stuck, nil)
			return
		}
		ins := f.block.Instrs[f.pc]
		switch w.step(s, f, ins) {
		case 0: // next
			continue
		case 1: // path ended or replaced by forks
			return
		}
	}
}

func (w *Walk) jump(s *State, f *Frame, to *ssa.BasicBlock) bool {
	f.visits[to.Index]++
	if f.visits[to.Index] > w.opt.LoopBound {
		w.finish(s, Cut, nil)
		return false
	}
	f.prev = f.block
	f.block = to
	f.pc = 0
	// phis are evaluated simultaneously
	pi := -1
	for i, p := range to.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	vals := map[ssa.Value]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			vals[ph] = w.val(s, ph.Edges[pi])
		}
		f.pc++
	}
	for k, v := range vals {
		f.env[k] = v
	}
	return true
}

// concrete: the condition of the block the frame is in was decided by
// constants. If it heads a loop, the loop runs as often as it runs: its rounds
// do not count against the loop bound (up to a limit of rounds).
func (w *Walk) concrete(f *Frame) {
	lps, ok := w.loops[f.fn]
	if !ok {
		lps = loopsOf(f.fn)
		w.loops[f.fn] = lps
	}
	for _, lp := range lps {
		if lp.head != f.block {
			continue
		}
		const limit = 12
		if f.visits[-1-f.block.Index] >= limit {
			return
		}
		f.visits[-1-f.block.Index]++
		for b := range lp.body {
			f.visits[b.Index] = 0
		}
	}
}

// counterOf: a loop variable of the loop headed by b, or one step from it.
func counterOf(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == b
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			if ph, ok := o.(*ssa.Phi); ok && ph.Block() == b {
				return true
			}
		}
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (w *Walk) occ(s *State, ins ssa.Instruction) int {
	s.occ[ins]++
	return s.occ[ins]
}

func (w *Walk) set(f *Frame, v ssa.Value, t *Term) { f.env[v] = t }

// step executes one instruction; 0 continue, 1 stop this state.
func (w *Walk) step(s *State, f *Frame, ins ssa.Instruction) int {
	switch in := ins.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Jump:
		if !w.jump(s, f, f.block.Succs[0]) {
			return 1
		}
	case *ssa.If:
		return w.branch(s, f, in)
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, w.val(s, r))
		}
		return w.ret(s, rs, in.Pos())
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return w.runDeferred(s, f, d)
		}
		f.pc++
	case *ssa.Panic:
		v := w.val(s, in.X)
		w.emit(s, &Event{Kind: EvPanic, Val: v, Pos: in.Pos(), Instr: in})
		return w.unwind(s, v)
	case *ssa.Go:
		return w.doGo(s, f, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call, ins: in}
		if in.Call.IsInvoke() {
			d.recv = w.val(s, in.Call.Value)
		} else {
			d.fn = w.val(s, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, w.val(s, a))
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Send:
		ch, v := w.val(s, in.Chan), w.val(s, in.X)
		w.emit(s, &Event{Kind: EvSend, Recv: ch, Val: v, Pos: in.Pos(), Instr: in, Blocking: true})
		w.escape(s, v)
		f.pc++
	case *ssa.Store:
		a, v := w.val(s, in.Addr), w.val(s, in.Val)
		if localRoot(a) == nil || s.esc[localRoot(a).Key()] || s.shared[localRoot(a).Key()] || a.Op != "index" {
			w.emit(s, &Event{Kind: EvStore, Recv: a, Val: v, Pos: in.Pos(), Instr: in})
			w.emitParts(s, a, v, in)
		}
		w.store(s, a, v)
		f.pc++
	case *ssa.MapUpdate:
		m, k, v := w.val(s, in.Map), w.val(s, in.Key), w.val(s, in.Value)
		w.emit(s, &Event{Kind: EvMapSet, Recv: m, Args: []*Term{k}, Val: v, Pos: in.Pos(), Instr: in})
		w.escape(s, v)
		s.hav[m.Root().Key()] += 0
		s.fresh++
		f.pc++
	case *ssa.Select:
		return w.doSelect(s, f, in)
	case *ssa.Call:
		return w.doCall(s, f, in, &in.Call, in)
	case *ssa.Next:
		it := w.val(s, in.Iter)
		n := w.occ(s, ins)
		if again, k, v := rangedBefore(s, it.Args[0], in); again {
			// the same map was gone through before and has not changed: the
			// same entries come up (their order is immaterial to the rules)
			ok := k != nil
			ev := &Event{Kind: EvRange, Recv: it.Args[0], Ok: ok, Pos: in.Iter.Pos(), Instr: in, Case: n}
			if !ok {
				k, v = zeroTerm(nil), zeroTerm(nil)
			} else {
				ev.Res, ev.Val = k, v
			}
			w.emit(s, ev)
			w.set(f, in, &Term{Op: "tuple", Args: []*Term{tBool(ok), k, v}})
			f.pc++
			return 0
		}
		s2 := s.clone()
		// no further element
		f2 := s2.top()
		w.emit(s2, &Event{Kind: EvRange, Recv: it.Args[0], Ok: false, Pos: in.Iter.Pos(), Instr: in, Case: n})
		w.set(f2, in, &Term{Op: "tuple", Args: []*Term{tBool(false), zeroTerm(nil), zeroTerm(nil)}})
		f2.pc++
		w.work = append(w.work, s2)
		var kt, vt types.Type
		if tp, ok := in.Type().(*types.Tuple); ok && tp.Len() == 3 {
			kt, vt = tp.At(1).Type(), tp.At(2).Type()
		}
		k := &Term{Op: "fresh", S: "key", N: n, Args: []*Term{it.Args[0]}, T: kt, Pos: in.Iter.Pos()}
		v := &Term{Op: "fresh", S: "elem", N: n, Args: []*Term{it.Args[0]}, T: vt, Pos: in.Iter.Pos()}
		w.emit(s, &Event{Kind: EvRange, Recv: it.Args[0], Ok: true, Res: k, Val: v, Pos: in.Iter.Pos(), Instr: in, Case: n})
		w.set(f, in, &Term{Op: "tuple", Args: []*Term{tBool(true), k, v}})
		f.pc++
	case ssa.Value:
		if x := derefd(in); x != nil {
			if v := w.val(s, x); v.IsNilConst() {
				pv := &Term{Op: "nilderef", Pos: in.Pos()}
				w.emit(s, &Event{Kind: EvPanic, Name: "nil dereference", Val: pv, Pos: in.Pos(), Instr: ins})
				return w.unwind(s, pv)
			}
		}
		t := w.eval(s, f, in)
		if t == nil {
			return 1
		}
		w.set(f, in, t)
		f.pc++
	default:
		f.pc++
	}
	return 0
}

// rangedBefore: the map was ranged over to its end earlier on, by another
// range, and not changed since; the entry that comes up now (nil: none left).
func rangedBefore(s *State, m *Term, in *ssa.Next) (bool, *Term, *Term) {
	if in.IsString {
		return false, nil, nil
	}
	key := m.Key()
	if ks, vs, ok := builtMap(s, m); ok {
		n := 0
		for i := len(s.trace) - 1; i >= 0; i-- {
			if e := s.trace[i]; e.Kind == EvRange && e.Instr == ssa.Instruction(in) {
				if !e.Ok {
					break
				}
				n++
			}
		}
		if n < len(ks) {
			return true, ks[n], vs[n]
		}
		return true, nil, nil
	}
	type run struct {
		in   ssa.Instruction
		k, v []*Term
		done bool
	}
	var cur, full *run
	mine := 0
	for _, e := range s.trace {
		switch {
		case (e.Kind == EvMapSet || e.Kind == EvMapDel) && e.Recv.Key() == key:
			cur, full = nil, nil
		case e.Kind == EvRange && e.Recv.Key() == key && e.Instr == ssa.Instruction(in):
			if mine++; !e.Ok {
				mine = 0
			}
		case e.Kind == EvRange && e.Recv.Key() == key:
			if cur == nil || cur.in != e.Instr || cur.done {
				cur = &run{in: e.Instr}
			}
			if e.Ok {
				cur.k, cur.v = append(cur.k, e.Res), append(cur.v, e.Val)
			} else if cur.done = true; full == nil {
				full = cur
			}
		}
	}
	if full == nil {
		return false, nil, nil
	}
	if mine < len(full.k) {
		return true, full.k[mine], full.v[mine]
	}
	return true, nil, nil
}

// builtMap: the entries of a local map filled with keys that are different for
// certain.
func builtMap(s *State, m *Term) (ks, vs []*Term, ok bool) {
	x := m.Strip()
	if x.Op != "makemap" || s.esc[x.Key()] || s.shared[x.Key()] {
		return nil, nil, false
	}
	for _, e := range s.trace {
		if e.Kind != EvMapSet && e.Kind != EvMapDel || e.Recv.Strip().Key() != x.Key() {
			continue
		}
		if e.Kind == EvMapDel || len(e.Args) != 1 {
			return nil, nil, false
		}
		for _, k := range ks {
			if !differentKeys(k.Strip(), e.Args[0].Strip()) {
				return nil, nil, false
			}
		}
		ks, vs = append(ks, e.Args[0]), append(vs, e.Val)
	}
	return ks, vs, true
}

func differentKeys(a, b *Term) bool {
	if a.Op == "fresh" && b.Op == "fresh" && a.S == "key" && b.S == "key" && a.Args[0].Key() == b.Args[0].Key() {
		return a.N != b.N
	}
	return a.Op == "const" && b.Op == "const" && a.Key() != b.Key()
}

// storedInMap: the value a local map holds for the key, when the last change
// to the map that can concern the key is a store of it.
func storedInMap(s *State, m, k *Term) *Term {
	x := m.Strip()
	if x.Op != "makemap" || s.esc[x.Key()] || s.shared[x.Key()] {
		// a key that came up in a range over this very map
		if q := k.Strip(); q.Op == "fresh" && q.S == "key" && q.Args[0].Key() == m.Key() {
			var v *Term
			for _, e := range s.trace {
				switch {
				case (e.Kind == EvMapSet || e.Kind == EvMapDel) && e.Recv.Key() == m.Key():
					v = nil
				case e.Kind == EvRange && e.Ok && e.Recv.Key() == m.Key() && e.Res.Key() == q.Key():
					v = e.Val
				}
			}
			return v
		}
		return nil
	}
	for i := len(s.trace) - 1; i >= 0; i-- {
		e := s.trace[i]
		if e.Kind != EvMapSet && e.Kind != EvMapDel || e.Recv.Strip().Key() != x.Key() {
			continue
		}
		if e.Kind == EvMapDel || len(e.Args) != 1 {
			return nil
		}
		if e.Args[0].Key() == k.Key() {
			return e.Val
		}
		if differentKeys(e.Args[0].Strip(), k.Strip()) {
			continue
		}
		return nil
	}
	return nil
}

// derefd is the pointer an instruction dereferences.
func derefd(v ssa.Value) ssa.Value {
	switch in := v.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return in.X
		}
	case *ssa.FieldAddr:
		return in.X
	}
	return nil
}

func (w *Walk) branch(s *State, f *Frame, in *ssa.If) int {
	c := w.val(s, in.Cond)
	if _, ok := c.BoolConst(); ok {
		if b, ok := in.Cond.(*ssa.BinOp); ok && isInteger(b.X.Type()) && (counterOf(b.X, f.block) || counterOf(b.Y, f.block)) {
			w.concrete(f)
		}
	}
	switch s.Truth(c) {
	case 1:
		if !w.jump(s, f, f.block.Succs[0]) {
			return 1
		}
		return 0
	case 0:
		if !w.jump(s, f, f.block.Succs[1]) {
			return 1
		}
		return 0
	}
	s2 := s.clone()
	n, pol := norm(c)
	s2.assumeCond(c, false)
	w.emit(s2, &Event{Kind: EvBranch, Val: n, Ok: !pol, Pos: c.Pos, Instr: in})
	if w.jump(s2, s2.top(), f.block.Succs[1]) {
		w.work = append(w.work, s2)
	}
	s.assumeCond(c, true)
	w.emit(s, &Event{Kind: EvBranch, Val: n, Ok: pol, Pos: c.Pos, Instr: in})
	if !w.jump(s, f, f.block.Succs[0]) {
		return 1
	}
	return 0
}

// ret pops the top frame with results.
func (w *Walk) ret(s *State, rs []*Term, pos token.Pos) int {
	f := s.top()
	if len(s.frames) == 1 {
		w.emit(s, &Event{Kind: EvReturn, Args: rs, Pos: pos})
		w.finish(s, Returned, rs)
		return 1
	}
	if f.onLeave != nil {
		w.emit(s, &Event{Kind: EvLeave, Name: f.onLeave.Name, Obj: f.onLeave.Obj, GoFn: f.fn, Args: rs, Pos: f.onLeave.Pos, Deferred: f.onLeave.Deferred})
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	if f.isDefer {
		// results are discarded; the caller is at RunDefers or unwinding
		if c.panicking != nil {
			return w.unwindFrame(s)
		}
		return 0
	}
	if f.callIns != nil {
		if v, ok := f.callIns.(ssa.Value); ok {
			var t *Term
			switch len(rs) {
			case 0:
				t = &Term{Op: "tuple"}
			case 1:
				t = rs[0]
			default:
				t = &Term{Op: "tuple", Args: rs}
			}
			c.env[v] = t
		}
		c.pc++
	}
	return 0
}

func (w *Walk) runDeferred(s *State, f *Frame, d deferred) int {
	if d.recv != nil {
		return w.call(s, f, d.ins, d.call, nil, d.recv, d.args, true)
	}
	return w.call(s, f, d.ins, d.call, d.fn, nil, d.args, true)
}

// unwind starts panicking in the top frame.
func (w *Walk) unwind(s *State, v *Term) int {
	f := s.top()
	f.panicking = v
	f.recovered = false
	return w.unwindFrame(s)
}

func (w *Walk) unwindFrame(s *State) int {
	for {
		f := s.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			r := w.runDeferred(s, f, d)
			if r != 0 {
				return r
			}
			if s.top() != f {
				return 0 // a deferred function is being executed
			}
			if f.panicking == nil && !f.recovered {
				return 0
			}
			continue
		}
		if f.recovered {
			f.panicking = nil
			f.recovered = false
			if f.fn.Recover != nil {
				f.block = f.fn.Recover
				f.prev = nil
				f.pc = 0
				return 0
			}
			var rs []*Term
			res := f.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, zeroTerm(res.At(i).Type()))
			}
			return w.ret(s, rs, f.fn.Pos())
		}
		v := f.panicking
		if len(s.frames) == 1 {
			w.finish(s, Panicked, nil)
			return 1
		}
		if f.onLeave != nil {
			w.emit(s, &Event{Kind: EvLeave, Name: f.onLeave.Name, Obj: f.onLeave.Obj, GoFn: f.fn, Pos: f.onLeave.Pos, Panicked: true})
		}
		wasDefer := f.isDefer
		s.frames = s.frames[:len(s.frames)-1]
		_ = wasDefer
		s.top().panicking = v
		s.top().recovered = false
	}
}

func (w *Walk) doSelect(s *State, f *Frame, in *ssa.Select) int {
	var cases []SelCase
	for _, st := range in.States {
		c := SelCase{Send: st.Dir == types.SendOnly, Chan: w.val(s, st.Chan)}
		if st.Send != nil {
			c.Val = w.val(s, st.Send)
		}
		cases = append(cases, c)
	}
	if in.Blocking && len(cases) == 0 {
		w.emit(s, &Event{Kind: EvSelect, Case: -1, Blocking: true, Pos: in.Pos(), Instr: in})
		w.finish(s, Stuck, nil)
		return 1
	}
	n := w.occ(s, in)
	mk := func(st *State, idx int) {
		ff := st.top()
		args := []*Term{tInt(int64(idx)), nil}
		ok := &Term{Op: "fresh", S: "recvok", N: n, Args: []*Term{tInt(int64(idx))}, T: types.Typ[types.Bool], Pos: in.Pos()}
		args[1] = ok
		ri := 0
		e := &Event{Kind: EvSelect, Case: idx, Cases: cases, Blocking: in.Blocking, Pos: in.Pos(), Instr: in}
		if idx >= 0 {
			e.Recv = cases[idx].Chan
			e.Val = cases[idx].Val
		}
		for i, c := range cases {
			if c.Send {
				continue
			}
			v := zeroTerm(in.States[i].Chan.Type().Underlying().(*types.Chan).Elem())
			if i == idx {
				v = &Term{Op: "recv", Args: []*Term{c.Chan}, N: n, Pos: in.Pos(), T: in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()}
				e.Res = v
			}
			args = append(args, v)
			ri++
		}
		w.emit(st, e)
		st.gep++
		w.havocVolatile(st)
		ff.env[in] = &Term{Op: "tuple", Args: args}
		ff.pc++
	}
	var poss []int
	if !in.Blocking {
		poss = append(poss, -1)
	}
	for i := range in.States {
		if !cases[i].Chan.IsNilConst() { // a nil channel is never ready
			poss = append(poss, i)
		}
	}
	if len(poss) == 0 {
		w.finish(s, Stuck, nil)
		return 1
	}
	for j := len(poss) - 1; j > 0; j-- {
		s2 := s.clone()
		mk(s2, poss[j])
		w.work = append(w.work, s2)
	}
	mk(s, poss[0])
	return 0
}

// havocVolatile forgets values of memory other goroutines may have changed while this one waited.
func (w *Walk) havocVolatile(s *State) {
	for k, e := range s.mem {
		r := addrRoot(e.addr)
		if r.Op == "alloc" && (!s.esc[r.Key()] || r.Cell) {
			continue
		}
		delete(s.mem, k)
		if r.Op == "alloc" {
			s.hav[r.Key()]++
		}
	}
}

func (w *Walk) eval(s *State, f *Frame, v ssa.Value) *Term {
	switch in := v.(type) {
	case *ssa.Alloc:
		n := w.occ(s, in)
		name := in.Comment
		if name == "" {
			name = in.Name()
		}
		t := &Term{Op: "alloc", S: name + "@" + strconv.Itoa(int(in.Pos())) + "." + in.Name(), N: n, T: in.Type(), Pos: in.Pos(), Cell: w.p.constCell(in)}
		// a new allocation starts zeroed
		return t
	case *ssa.UnOp:
		x := w.val(s, in.X)
		switch in.Op {
		case token.MUL:
			if w.opt.Derefs {
				w.emit(s, &Event{Kind: EvDeref, Recv: x, Pos: in.Pos(), Instr: in})
			}
			t := w.load(s, x)
			if w.opt.Loads {
				w.emit(s, &Event{Kind: EvLoad, Recv: x, Res: t, Pos: in.Pos(), Instr: in})
			}
			if t.Op == "load" && t.Args[0].Op == "global" && w.p.NonNilGlobal[t.Args[0].S] {
				c := *t
				c.key, c.id = "", ""
				c.S = "nonnil"
				t = &c
			}
			return t
		case token.ARROW:
			n := w.occ(s, in)
			t := &Term{Op: "recv", Args: []*Term{x}, N: n, Pos: in.Pos(), T: in.Type()}
			var res *Term = t
			if in.CommaOk {
				res = &Term{Op: "tuple", Args: []*Term{t, {Op: "fresh", S: "recvok", N: n, Pos: in.Pos(), T: types.Typ[types.Bool]}}}
			}
			w.emit(s, &Event{Kind: EvRecv, Recv: x, Res: t, Pos: in.Pos(), Instr: in, Blocking: true, CommaOk: in.CommaOk})
			s.gep++
			w.havocVolatile(s)
			return res
		case token.NOT:
			if b, ok := x.BoolConst(); ok {
				return tBool(!b)
			}
			return &Term{Op: "un", S: "!", Args: []*Term{x}, T: in.Type()}
		default:
			if x.Op == "const" && x.C != nil {
				return tConst(constant.UnaryOp(in.Op, x.C, 0), in.Type())
			}
			return &Term{Op: "un", S: in.Op.String(), Args: []*Term{x}, T: in.Type()}
		}
	case *ssa.BinOp:
		return w.binop(s, in.Op, w.val(s, in.X), w.val(s, in.Y), in.Type(), in.Pos())
	case *ssa.FieldAddr:
		b := w.val(s, in.X)
		if w.opt.Derefs {
			w.emit(s, &Event{Kind: EvDeref, Recv: b, Pos: in.Pos(), Instr: in})
		}
		return w.fieldAddr(b, in.Field)
	case *ssa.Field:
		return w.fieldVal(w.val(s, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		b, i := w.val(s, in.X), w.val(s, in.Index)
		if b.Op == "slice" && len(b.Args) == 3 {
			if lo, ok := b.Args[1].IntConst(); ok && lo == 0 {
				b = b.Args[0]
			}
		}
		if b.Op == "list" {
			if k, ok := i.IntConst(); ok && k >= 0 && int(k) < len(b.Args) {
				return &Term{Op: "elemaddr", Args: []*Term{b.Args[k]}, T: in.Type()}
			}
		}
		if localRoot(b) == nil {
			w.emit(s, &Event{Kind: EvIndex, Recv: b, Args: []*Term{i}, Pos: in.Pos(), Instr: in})
		}
		return &Term{Op: "index", Args: []*Term{b, i}, T: in.Type()}
	case *ssa.Index:
		return &Term{Op: "indexval", Args: []*Term{w.val(s, in.X), w.val(s, in.Index)}, T: in.Type()}
	case *ssa.Lookup:
		m, k := w.val(s, in.X), w.val(s, in.Index)
		if v := storedInMap(s, m, k); v != nil {
			w.emit(s, &Event{Kind: EvLookup, Recv: m, Args: []*Term{k}, Res: v, Pos: in.Pos(), Instr: in, CommaOk: in.CommaOk})
			if in.CommaOk {
				return &Term{Op: "tuple", Args: []*Term{v, tBool(true)}}
			}
			return v
		}
		t := &Term{Op: "lookup", Args: []*Term{m, k}, N: s.gep*1000 + s.fresh, T: in.Type()}
		var res *Term = t
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			t.T = tt.At(0).Type()
			okT := &Term{Op: "has", Args: []*Term{t}, N: 0, T: types.Typ[types.Bool]}
			res = &Term{Op: "tuple", Args: []*Term{t, okT}}
		}
		w.emit(s, &Event{Kind: EvLookup, Recv: m, Args: []*Term{k}, Res: t, Pos: in.Pos(), Instr: in, CommaOk: in.CommaOk})
		return res
	case *ssa.Extract:
		x := w.val(s, in.Tuple)
		if x.Op == "tuple" && in.Index < len(x.Args) {
			return x.Args[in.Index]
		}
		return &Term{Op: "extract", Args: []*Term{x}, N: in.Index, T: in.Type()}
	case *ssa.TypeAssert:
		x := w.val(s, in.X)
		return w.typeAssert(s, in, x)
	case *ssa.MakeInterface:
		return &Term{Op: "iface", Args: []*Term{w.val(s, in.X)}, T: in.X.Type()}
	case *ssa.ChangeInterface:
		return w.val(s, in.X)
	case *ssa.ChangeType:
		return w.val(s, in.X)
	case *ssa.Convert:
		x := w.val(s, in.X)
		if x.Op == "const" && x.C != nil {
			if b, ok := in.Type().Underlying().(*types.Basic); ok {
				if b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int {
					return tConst(x.C, in.Type())
				}
				if b.Info()&types.IsString != 0 && x.C.Kind() == constant.String {
					return tConst(x.C, in.Type())
				}
			}
		}
		return &Term{Op: "conv", Args: []*Term{x}, T: in.Type()}
	case *ssa.MultiConvert:
		return &Term{Op: "conv", Args: []*Term{w.val(s, in.X)}, T: in.Type()}
	case *ssa.SliceToArrayPointer:
		return &Term{Op: "conv", Args: []*Term{w.val(s, in.X)}, T: in.Type()}
	case *ssa.MakeClosure:
		t := &Term{Op: "closure", Fn: in.Fn.(*ssa.Function), S: in.Fn.String(), T: in.Type(), Pos: in.Pos()}
		for _, b := range in.Bindings {
			t.Args = append(t.Args, w.val(s, b))
		}
		return t
	case *ssa.MakeMap:
		return &Term{Op: "makemap", N: w.occ(s, in), Pos: in.Pos(), T: in.Type(), S: strconv.Itoa(int(in.Pos()))}
	case *ssa.MakeChan:
		sz := w.val(s, in.Size)
		t := &Term{Op: "makechan", N: w.occ(s, in), Pos: in.Pos(), T: in.Type(), S: strconv.Itoa(int(in.Pos())), Args: []*Term{sz}}
		w.emit(s, &Event{Kind: EvMakeChan, Res: t, Args: []*Term{sz}, Pos: in.Pos(), Instr: in})
		return t
	case *ssa.MakeSlice:
		return &Term{Op: "makeslice", N: w.occ(s, in), Pos: in.Pos(), T: in.Type(), S: strconv.Itoa(int(in.Pos())), Args: []*Term{w.val(s, in.Len)}}
	case *ssa.Slice:
		return w.slice(s, in)
	case *ssa.Range:
		return &Term{Op: "range", Args: []*Term{w.val(s, in.X)}, T: in.Type()}
	case *ssa.Phi:
		return w.val(s, in)
	}
	return &Term{Op: "unknown", S: fmt.Sprintf("%T@%d", v, v.Pos()), T: v.Type()}
}

func (w *Walk) slice(s *State, in *ssa.Slice) *Term {
	x := w.val(s, in.X)
	// the whole of a local array literal is the list of its elements
	if x.Op == "alloc" && in.Low == nil && in.High == nil {
		if at, ok := ptrElem(in.X.Type()).Underlying().(*types.Array); ok && at.Len() <= 64 {
			return &Term{Op: "slice", Args: []*Term{x, tInt(0), tInt(at.Len())}, T: in.Type(), S: "array"}
		}
	}
	lo := tInt(0)
	if in.Low != nil {
		lo = w.val(s, in.Low)
	}
	hi := &Term{Op: "len", Args: []*Term{x}, T: types.Typ[types.Int]}
	if in.High != nil {
		hi = w.val(s, in.High)
	}
	if b, ok := x.StrConst(); ok {
		l, ok1 := lo.IntConst()
		h, ok2 := hi.IntConst()
		if in.High == nil {
			h, ok2 = int64(len(b)), true
		}
		if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(b) {
			return tConst(constant.MakeString(b[l:h]), in.Type())
		}
	}
	return &Term{Op: "slice", Args: []*Term{x, lo, hi}, T: in.Type()}
}

// resolve expands slices of local array literals into lists of their elements.
func (w *Walk) resolve(s *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "slice" && t.S == "array" {
		n, _ := t.Args[2].IntConst()
		l := &Term{Op: "list", T: t.T}
		at := ptrElem(t.Args[0].T)
		var et types.Type
		if a, ok := at.Underlying().(*types.Array); ok {
			et = a.Elem()
		}
		for i := int64(0); i < n; i++ {
			a := &Term{Op: "index", Args: []*Term{t.Args[0], tInt(i)}, T: types.NewPointer(et)}
			l.Args = append(l.Args, w.resolve(s, w.load(s, a)))
		}
		return l
	}
	if t.Op == "append" {
		n := &Term{Op: "append", T: t.T}
		for _, a := range t.Args {
			n.Args = append(n.Args, w.resolve(s, a))
		}
		return n
	}
	return t
}

// elements lists the values of a slice built on this path, if all are known.
func (w *Walk) elements(s *State, t *Term) ([]*Term, bool) {
	if t == nil {
		return nil, false
	}
	if t.IsNilConst() {
		return nil, true
	}
	switch t.Op {
	case "list":
		return t.Args, true
	case "conv":
		return w.elements(s, t.Args[0])
	case "makeslice":
		if n, ok := t.Args[0].IntConst(); ok && n == 0 {
			return nil, true
		}
	case "slice":
		if t.S == "array" {
			return w.resolve(s, t).Args, true
		}
		if n, ok := t.Args[2].IntConst(); ok && n == 0 {
			return nil, true
		}
	case "append":
		a, ok := w.elements(s, t.Args[0])
		if !ok {
			return nil, false
		}
		b, ok := w.elements(s, t.Args[1])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), a...), b...), true
	}
	return nil, false
}

func (w *Walk) binop(s *State, op token.Token, x, y *Term, T types.Type, pos token.Pos) *Term {
	if x.Op == "const" && y.Op == "const" && x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tBool(constant.Compare(x.C, op, y.C))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if x.C.Kind() != constant.Bool {
				return tConst(constant.BinaryOp(x.C, op, y.C), T)
			}
		}
	}
	if op == token.ADD {
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return tmpl([]*Term{x, y}, T)
		}
	}
	t := &Term{Op: "bin", S: op.String(), Args: []*Term{x, y}, T: T, Pos: pos}
	return t
}

func (w *Walk) typeAssert(s *State, in *ssa.TypeAssert, x *Term) *Term {
	known := -1
	inner := x
	if x.Op == "iface" && x.T != nil && x.T != types.Typ[types.Invalid] {
		if types.IsInterface(in.AssertedType) {
			if types.AssignableTo(x.T, in.AssertedType) {
				known = 1
			} else {
				known = 0
			}
		} else if types.Identical(x.T, in.AssertedType) {
			known = 1
			inner = x.Args[0]
		} else {
			known = 0
		}
	}
	if x.IsNilConst() {
		known = 0
	}
	w.emit(s, &Event{Kind: EvAssert, Recv: x, Name: types.TypeString(in.AssertedType, shortQual), CommaOk: in.CommaOk, Pos: in.Pos(), Instr: in, Ok: known == 1})
	var val *Term
	if known == 1 {
		val = inner
	} else {
		val = &Term{Op: "assert", Args: []*Term{x}, T: in.AssertedType}
	}
	if !in.CommaOk {
		return val
	}
	if known >= 0 {
		if known == 0 {
			val = zeroTerm(in.AssertedType)
		}
		return &Term{Op: "tuple", Args: []*Term{val, tBool(known == 1)}}
	}
	ok := &Term{Op: "is", S: types.TypeString(in.AssertedType, shortQual), Args: []*Term{x}, T: types.Typ[types.Bool]}
	return &Term{Op: "tuple", Args: []*Term{val, ok}}
}

// ---------------------------------------------------------------- calls

func (w *Walk) doGo(s *State, f *Frame, in *ssa.Go) int {
	e := &Event{Kind: EvGo, Pos: in.Pos(), Instr: in}
	if in.Call.IsInvoke() {
		e.Recv = w.val(s, in.Call.Value)
		e.Name = in.Call.Method.FullName()
		e.Obj = in.Call.Method
		e.Invoke = true
	} else {
		e.Recv = w.val(s, in.Call.Value)
		e.GoFn = e.Recv.Fn
		if e.Recv.Op == "fn" || e.Recv.Op == "closure" {
			e.Name = e.Recv.S
		} else {
			e.Dynamic = true
			e.Name = "dynamic"
		}
	}
	for _, a := range in.Call.Args {
		e.Args = append(e.Args, w.resolve(s, w.val(s, a)))
	}
	w.spawn(s, e)
	f.pc++
	return 0
}

// spawn records a goroutine start and what it shares with the spawner.
func (w *Walk) spawn(s *State, e *Event) {
	all := append([]*Term{}, e.Args...)
	if e.Recv != nil {
		all = append(all, e.Recv)
	}
	for _, a := range all {
		w.escape(s, a)
		w.markShared(s, a, map[*ssa.Function]bool{})
	}
	e.Snap = s.clone()
	w.emit(s, e)
	s.gep++
}

// markShared marks captured variables that a goroutine's closure stores to.
func (w *Walk) markShared(s *State, a *Term, seen map[*ssa.Function]bool) {
	if a == nil || a.Op != "closure" || seen[a.Fn] {
		return
	}
	seen[a.Fn] = true
	for i, fv := range a.Fn.FreeVars {
		if i >= len(a.Args) {
			break
		}
		if storesTo(a.Fn, fv, 0) {
			if r := localRoot(a.Args[i]); r != nil {
				s.shared[r.Key()] = true
			}
		}
	}
}

func storesTo(fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && storesTo(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if storesTo(fn, ref.(ssa.Value), depth+1) {
				return true
			}
		}
	}
	return false
}

func (w *Walk) doCall(s *State, f *Frame, ins ssa.Instruction, c *ssa.CallCommon, v ssa.Value) int {
	var fnT, recv *Term
	if c.IsInvoke() {
		recv = w.val(s, c.Value)
	} else {
		fnT = w.val(s, c.Value)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, w.val(s, a))
	}
	return w.call(s, f, ins, c, fnT, recv, args, false)
}

// CalleeName is the printed identity of a callee: "pkgpath.Func", "(*pkgpath.T).M" or
// "pkgpath.I.M" for interface methods.
func calleeName(o types.Object) string {
	if fn, ok := o.(*types.Func); ok {
		return strings.ReplaceAll(fn.FullName(), modPath+"/", "")
	}
	return o.Name()
}

func (w *Walk) finishCall(s *State, f *Frame, ins ssa.Instruction, t *Term, isDefer bool) {
	if isDefer {
		return // the frame stays at RunDefers (or unwinding continues)
	}
	if v, ok := ins.(ssa.Value); ok && t != nil {
		f.env[v] = t
	}
	f.pc++
}

func (w *Walk) call(s *State, f *Frame, ins ssa.Instruction, c *ssa.CallCommon, fnT, recv *Term, args []*Term, isDefer bool) int {
	pos := ins.Pos()
	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return w.builtin(s, f, ins, b.Name(), args, isDefer, pos)
	}
	var callee *ssa.Function
	var bind []*Term
	var obj types.Object
	dynamic := false
	if c.IsInvoke() {
		obj = c.Method
		rt := recv.Strip()
		if recv.Op == "iface" && recv.T != nil {
			callee = w.p.methodOf(recv.T, c.Method)
			if callee != nil {
				args = append([]*Term{recv.Args[0]}, args...)
				obj = callee.Object()
			}
		} else if w.opt.Impl != nil {
			callee = w.opt.Impl(c.Value.Type(), c.Method)
			if callee != nil {
				args = append([]*Term{rt}, args...)
			}
		}
	} else {
		ft := fnT
		for ft.Op == "iface" || ft.Op == "conv" {
			ft = ft.Args[0]
		}
		switch ft.Op {
		case "fn":
			callee = ft.Fn
		case "closure":
			callee = ft.Fn
			bind = ft.Args
		default:
			dynamic = true
		}
		if callee != nil && callee.Synthetic != "" && callee.Object() != nil && callee.Pkg == nil {
			// bound method values and thunks: the method itself
			if m, ok := callee.Object().(*types.Func); ok {
				if d := w.p.SSA.FuncValue(m); d != nil {
					callee = d
					args = append(append([]*Term{}, bind...), args...)
					bind = nil
				} else if len(bind) == 1 {
					return w.invoke(s, f, ins, c, m, bind[0], args, isDefer, pos)
				}
			}
		}
		if callee != nil {
			obj = callee.Object()
			// bound method values and wrappers
			if obj == nil && callee.Origin() != nil {
				obj = callee.Origin().Object()
			}
		}
	}

	if callee != nil {
		if r, done := w.model(s, f, ins, c, callee, bind, args, isDefer, pos); done {
			return r
		}
		if k := w.p.pbGetter(callee); k >= 0 && len(args) == 1 {
			// a generated getter: the field, or the zero value through nil
			var v *Term
			if s.Nil(args[0]) == IsNil {
				v = zeroTerm(callee.Signature.Results().At(0).Type())
			} else {
				v = w.load(s, w.fieldAddr(args[0], k))
			}
			w.finishCall(s, f, ins, v, isDefer)
			return 0
		}
		if w.canInline(s, callee) {
			return w.enter(s, f, ins, callee, bind, args, isDefer, pos)
		}
	}

	return w.opaque(s, f, ins, c, callee, obj, fnT, recv, args, dynamic, c.IsInvoke(), isDefer, pos)
}

// invoke calls an interface method whose implementation is unknown.
func (w *Walk) invoke(s *State, f *Frame, ins ssa.Instruction, c *ssa.CallCommon, m *types.Func, recv *Term, args []*Term, isDefer bool, pos token.Pos) int {
	return w.opaque(s, f, ins, c, nil, m, nil, recv, args, false, true, isDefer, pos)
}

func (w *Walk) opaque(s *State, f *Frame, ins ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, obj types.Object, fnT, recv *Term, args []*Term, dynamic, isInvoke, isDefer bool, pos token.Pos) int {
	e := &Event{Kind: EvCall, Pos: pos, Instr: ins, Deferred: isDefer, Dynamic: dynamic, Invoke: isInvoke, Obj: obj}
	rest := args
	if isInvoke && callee == nil {
		e.Recv = recv
	} else if callee != nil && callee.Signature.Recv() != nil && len(args) > 0 {
		e.Recv = args[0]
		rest = args[1:]
	} else if dynamic {
		e.Recv = fnT
	} else if callee != nil && len(callee.FreeVars) > 0 {
		e.Recv = fnT
	}
	for _, a := range rest {
		e.Args = append(e.Args, w.resolve(s, a))
	}
	switch {
	case obj != nil:
		e.Name = calleeName(obj)
	case callee != nil:
		e.Name = callee.String()
	default:
		e.Name = "dynamic"
	}
	if callee != nil {
		e.GoFn = callee
	}
	n := w.occ(s, ins)
	res := &Term{Op: "call", S: e.Name, N: n, Pos: pos, Obj: obj, T: c.Signature().Results(), Args: nil}
	if c.Signature().Results().Len() == 1 {
		res.T = c.Signature().Results().At(0).Type()
	}
	res.Args = e.Args
	res.R = e.Recv
	if obj != nil && isGetter(obj) && isInvoke {
		// a property of the receiver: the same value every time
		res = &Term{Op: "getter", S: obj.Name(), Args: []*Term{recv.Strip()}, T: res.T, Obj: obj}
	}
	e.Res = res
	pure := w.p.isPure(obj, callee)
	if !w.opt.NoIgnore && w.p.ignored(obj, callee) {
		w.finishCall(s, f, ins, res, isDefer)
		return 0
	}
	e.Fn = f.fn
	if w.opt.MayPanic != nil && w.opt.MayPanic(e) {
		s2 := s.clone()
		e2 := *e
		e2.Panicked = true
		w.emit(s2, &e2)
		if !pure {
			w.havocAll(s2)
		}
		pv := &Term{Op: "fresh", S: "panicvalue", N: n, Pos: pos}
		if w.unwind(s2, pv) == 0 {
			w.work = append(w.work, s2)
		}
	}
	w.emit(s, e)
	if isInvoke && recv != nil && s.Nil(recv) == Unknown {
		// a method call through nil does not return
		s.assumeCond(&Term{Op: "bin", S: "==", Args: []*Term{recv.Strip(), tNil(nil)}}, false)
	}
	if !pure {
		if dynamic || (isInvoke && w.p.inModuleObj(obj)) || (callee != nil && w.p.inModule(callee) && !w.p.external(callee)) {
			for _, a := range args {
				w.escape(s, a)
				w.havocArg(s, a)
			}
			if recv != nil {
				w.escape(s, recv)
			}
			w.havocAll(s)
		} else {
			for _, a := range args {
				w.havocArg(s, a)
				if a.Op == "slice" || a.Op == "list" {
					for _, x := range w.resolve(s, a).Args {
						w.havocArg(s, x)
					}
				}
			}
			s.fresh++
		}
	}
	w.finishCall(s, f, ins, res, isDefer)
	return 0
}

func (w *Walk) canInline(s *State, callee *ssa.Function) bool {
	if len(callee.Blocks) == 0 || len(s.frames) >= w.opt.MaxDepth {
		return false
	}
	for _, fr := range s.frames {
		if fr.fn == callee {
			return false // recursion
		}
	}
	if !w.opt.NoIgnore && w.p.ignored(callee.Object(), callee) {
		return false
	}
	if w.opt.OpaqueFn != nil && w.opt.OpaqueFn(callee) {
		return false
	}
	if len(w.opt.Opaque) > 0 {
		if o := originObj(callee); o != nil && contains(w.opt.Opaque, calleeName(o)) {
			return false
		}
	}
	if w.opt.Inline != nil {
		return w.opt.Inline(callee)
	}
	if !w.p.inModule(callee) {
		return false
	}
	rel := relPkg(callee)
	if rel == relPkg(w.root) {
		return true
	}
	for _, x := range w.opt.Extra {
		if x == rel || x == "*" {
			return true
		}
	}
	return false
}

// relPkg is the package of a function relative to the module.
func relPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.TrimPrefix(o.Pkg().Path(), modPath+"/")
	}
	return "?"
}

func (w *Walk) enter(s *State, f *Frame, ins ssa.Instruction, callee *ssa.Function, bind, args []*Term, isDefer bool, pos token.Pos) int {
	w.Fns[callee] = true
	e := &Event{Kind: EvEnter, Name: callee.String(), GoFn: callee, Args: args, Pos: pos, Deferred: isDefer, Instr: ins, Obj: callee.Object()}
	if callee.Object() != nil {
		e.Name = calleeName(callee.Object())
	}
	w.emit(s, e)
	nf := &Frame{fn: callee, block: callee.Blocks[0], env: make(map[ssa.Value]*Term), visits: map[int]int{}, callIns: ins, isDefer: isDefer, onLeave: e}
	for i, prm := range callee.Params {
		if i < len(args) {
			nf.env[prm] = args[i]
		}
	}
	for i, fv := range callee.FreeVars {
		if i < len(bind) {
			nf.env[fv] = bind[i]
		}
	}
	nf.visits[0] = 1
	s.frames = append(s.frames, nf)
	return 0
}

func (w *Walk) builtin(s *State, f *Frame, ins ssa.Instruction, name string, args []*Term, isDefer bool, pos token.Pos) int {
	var T types.Type
	if v, ok := ins.(ssa.Value); ok {
		T = v.Type()
	}
	var res *Term
	switch name {
	case "close":
		w.emit(s, &Event{Kind: EvClose, Recv: args[0], Pos: pos, Deferred: isDefer, Instr: ins})
	case "delete":
		w.emit(s, &Event{Kind: EvMapDel, Recv: args[0], Args: args[1:], Pos: pos, Deferred: isDefer, Instr: ins})
		s.fresh++
	case "recover":
		// effective only in a deferred function called directly by the unwinding frame
		res = tNil(nil)
		if f.isDefer && len(s.frames) >= 2 {
			c := s.frames[len(s.frames)-2]
			if c.panicking != nil && !c.recovered {
				c.recovered = true
				res = &Term{Op: "iface", Args: []*Term{c.panicking}, T: types.Typ[types.Invalid], S: "recovered"}
				w.emit(s, &Event{Kind: EvRecover, Val: c.panicking, Pos: pos, Instr: ins})
			}
		} else if isDefer {
			// defer recover() does not recover
			res = tNil(nil)
		}
	case "panic":
		w.emit(s, &Event{Kind: EvPanic, Val: args[0], Pos: pos, Instr: ins, Deferred: isDefer})
		return w.unwind(s, args[0])
	case "len", "cap":
		a := args[0]
		if a.Op == "slice" && a.S == "array" {
			res = a.Args[2]
		} else if str, ok := a.StrConst(); ok && name == "len" {
			res = tInt(int64(len(str)))
		} else if a.IsNilConst() || a.Op == "zero" {
			res = tInt(0)
		} else if es, ok := w.elements(s, a); ok && name == "len" {
			res = tInt(int64(len(es)))
		} else if a.Op == "append" && name == "len" && len(a.Args) > 1 {
			res = &Term{Op: "len", Args: []*Term{a}, T: T}
		} else {
			// the contents of a map may change between reads
			n := 0
			if a.T != nil {
				if _, ok := a.T.Underlying().(*types.Map); ok {
					n = s.gep*1000 + s.fresh
				}
			}
			res = &Term{Op: name, Args: []*Term{a}, N: n, T: T}
		}
	case "append":
		if len(args) == 2 {
			el := w.resolve(s, args[1])
			base := args[0]
			res = &Term{Op: "append", Args: []*Term{base, el}, T: T, N: 0}
		}
	case "copy":
		w.havocArg(s, args[0])
		res = &Term{Op: "fresh", S: "copied", N: w.occ(s, ins), Pos: pos, T: T}
		w.emit(s, &Event{Kind: EvCall, Name: "copy", Args: args, Pos: pos, Instr: ins})
	case "min", "max":
		res = &Term{Op: name, Args: args, T: T}
	case "clear":
		w.emit(s, &Event{Kind: EvMapDel, Recv: args[0], Args: []*Term{{Op: "every", S: "key"}}, Pos: pos, Deferred: isDefer, Instr: ins, Name: "clear"})
		s.fresh++
	case "ssa:wrapnilchk":
		res = args[0]
	}
	if res == nil {
		res = &Term{Op: "fresh", S: name, N: w.occ(s, ins), Pos: pos, T: T}
	}
	w.finishCall(s, f, ins, res, isDefer)
	return 0
}

// lockCall classifies sync lock operations.
func lockCall(obj types.Object) (op string) {
	fn, ok := obj.(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync" {
		return ""
	}
	sig := fn.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	rt := sig.Recv().Type().String()
	if !strings.HasSuffix(rt, "sync.Mutex") && !strings.HasSuffix(rt, "sync.RWMutex") && !strings.HasSuffix(rt, "sync.Locker") {
		return ""
	}
	switch fn.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return fn.Name()
	}
	return ""
}

// model handles calls with a meaning of their own.
func (w *Walk) model(s *State, f *Frame, ins ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, bind, args []*Term, isDefer bool, pos token.Pos) (int, bool) {
	obj := callee.Object()
	if obj == nil && callee.Origin() != nil {
		obj = callee.Origin().Object()
	}
	if obj == nil || obj.Pkg() == nil {
		// a bound method value: walk through its wrapper
		return 0, false
	}
	switch op := lockCall(obj); op {
	case "Lock", "RLock":
		w.emit(s, &Event{Kind: EvLock, Name: op, Recv: args[0], Pos: pos, Deferred: isDefer, Instr: ins})
		s.locks = append(s.locks, Held{Lock: args[0].ID(), Key: args[0].Key(), Read: op == "RLock", Pos: pos})
		s.gep++
		w.havocVolatile(s)
		w.finishCall(s, f, ins, &Term{Op: "tuple"}, isDefer)
		return 0, true
	case "Unlock", "RUnlock":
		e := &Event{Kind: EvUnlock, Name: op, Recv: args[0], Pos: pos, Deferred: isDefer, Instr: ins}
		found := false
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].Lock == args[0].ID() && s.locks[i].Read == (op == "RUnlock") {
				s.locks = append(s.locks[:i:i], s.locks[i+1:]...)
				found = true
				break
			}
		}
		e.Ok = found
		w.emit(s, e)
		w.finishCall(s, f, ins, &Term{Op: "tuple"}, isDefer)
		return 0, true
	case "TryLock", "TryRLock":
		e := &Event{Kind: EvLock, Name: op, Recv: args[0], Pos: pos, Instr: ins}
		s2 := s.clone()
		w.finishCall(s2, s2.top(), ins, tBool(false), isDefer)
		w.work = append(w.work, s2)
		w.emit(s, e)
		s.locks = append(s.locks, Held{Lock: args[0].ID(), Key: args[0].Key(), Read: op == "TryRLock", Pos: pos})
		s.gep++
		w.havocVolatile(s)
		w.finishCall(s, f, ins, tBool(true), isDefer)
		return 0, true
	}
	full := calleeName(obj)
	set := func(t *Term) (int, bool) {
		w.finishCall(s, f, ins, t, isDefer)
		return 0, true
	}
	var T types.Type
	if v, ok := ins.(ssa.Value); ok {
		T = v.Type()
	}
	switch full {
	case "fmt.Sprintf":
		if fs, ok := args[0].StrConst(); ok {
			if l := w.resolve(s, args[1]); l.Op == "list" || l.IsNilConst() {
				var a []*Term
				if l.Op == "list" {
					a = l.Args
				}
				if t := sprintf(fs, a); t != nil {
					return set(t)
				}
			}
		}
	case "fmt.Sprint":
		if l := w.resolve(s, args[0]); l.Op == "list" {
			return set(tmpl(l.Args, T))
		}
	case "errors.Is":
		return set(&Term{Op: "bin", S: "==", Args: []*Term{args[0], args[1]}, T: T, Pos: pos})
	case "strconv.Itoa":
		return set(tmpl([]*Term{args[0]}, T))
	case "strconv.FormatInt":
		if b, ok := args[1].IntConst(); ok && b == 10 {
			return set(tmpl([]*Term{args[0]}, T))
		}
	case "net.JoinHostPort":
		return set(tmpl([]*Term{args[0], tConst(constant.MakeString(":"), T), args[1]}, T))
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		e := &Term{Op: "err", S: strconv.Itoa(int(pos)), N: w.occ(s, ins), T: T, Pos: pos}
		if l := w.resolve(s, args[len(args)-1]); full == "fmt.Errorf" && l.Op == "list" {
			e.Args = l.Args
			if fs, ok := args[0].StrConst(); ok && strings.Contains(fs, "%w") {
				e.Obj = nil
				e.Args = append([]*Term{{Op: "const", C: constant.MakeString("%w")}}, l.Args...)
			}
		}
		return set(e)
	case "(*sync.Once).Do":
		fnT := args[1]
		if fnT.Op == "closure" || fnT.Op == "fn" {
			w.emit(s, &Event{Kind: EvCall, Name: full, Recv: args[0], Args: args[1:], Pos: pos, Instr: ins, Deferred: isDefer, Obj: obj})
			done := &Term{Op: "fresh", S: "oncedone", N: w.occ(s, ins), Pos: pos, T: types.Typ[types.Bool]}
			s2 := s.clone()
			s2.assumeCond(done, true)
			w.emit(s2, &Event{Kind: EvBranch, Val: done, Ok: true, Pos: pos})
			s2.gep++
			w.finishCall(s2, s2.top(), ins, &Term{Op: "tuple"}, isDefer)
			w.work = append(w.work, s2)
			s.assumeCond(done, false)
			var b []*Term
			if fnT.Op == "closure" {
				b = fnT.Args
			}
			if fnT.Fn != nil && w.canInline(s, fnT.Fn) {
				return w.enter(s, f, ins, fnT.Fn, b, nil, isDefer, pos), true
			}
			return set(&Term{Op: "tuple"})
		}
	case "(*golang.org/x/sync/errgroup.Group).Go", "time.AfterFunc", "(*sync.WaitGroup).Go":
		fnT := args[len(args)-1]
		e := &Event{Kind: EvGo, Name: full, Recv: fnT, GoFn: fnT.Fn, Pos: pos, Instr: ins, Obj: obj, Deferred: isDefer}
		if full == "time.AfterFunc" {
			e.Val = args[0]
		}
		w.spawn(s, e)
		return set(&Term{Op: "call", S: full, N: w.occ(s, ins), Pos: pos, T: T, Obj: obj})
	}
	return 0, false
}

// ---------------------------------------------------------------- helpers for rules

func (pa *Path) Calls(match func(e *Event) bool) []*Event {
	var r []*Event
	for _, e := range pa.Events {
		if e.Kind == EvCall && match(e) {
			r = append(r, e)
		}
	}
	return r
}

func (pa *Path) Find(match func(e *Event) bool) []int {
	var r []int
	for i, e := range pa.Events {
		if match(e) {
			r = append(r, i)
		}
	}
	return r
}

// RetErr classifies the last result of the path.
func (pa *Path) RetErr() Nilness {
	if pa.Outcome != Returned || len(pa.Ret) == 0 {
		return Unknown
	}
	return pa.St.Nil(pa.Ret[len(pa.Ret)-1])
}

func (pa *Path) Dump(p *Prog) string {
	var b strings.Builder
	for _, e := range pa.Events {
		fmt.Fprintf(&b, "    %-28s %s\n", pos2(p, e.Pos), e.String())
	}
	fmt.Fprintf(&b, "    => %v %v\n", [...]string{"return", "panic", "cut", "stuck"}[pa.Outcome], pa.Ret)
	var as []string
	for k, v := range pa.St.assume {
		as = append(as, fmt.Sprintf("%v=%v", k, v))
	}
	sort.Strings(as)
	fmt.Fprintf(&b, "    assuming %s\n", strings.Join(as, "; "))
	return b.String()
}

// originObj is the declared function behind a function, instance or not.
func originObj(fn *ssa.Function) types.Object {
	if o := fn.Object(); o != nil {
		return o
	}
	if fn.Origin() != nil {
		return fn.Origin().Object()
	}
	return nil
}

// constCell: a local variable that is assigned once and only read by the closures that
// capture it; unknown code cannot change it.
func (p *Prog) constCell(a *ssa.Alloc) bool {
	if v, ok := p.cells[a]; ok {
		return v
	}
	stores := 0
	var only func(v ssa.Value, depth int) bool
	only = func(v ssa.Value, depth int) bool {
		if depth > 6 || v.Referrers() == nil {
			return false
		}
		for _, ref := range *v.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr != v || depth > 0 {
					return false
				}
				stores++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !only(g.FreeVars[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	ok := only(a, 0) && stores <= 1
	if p.cells == nil {
		p.cells = map[*ssa.Alloc]bool{}
	}
	p.cells[a] = ok
	return ok
}

// pbGetter: the index of the field a generated message getter returns, or -1.
func (p *Prog) pbGetter(fn *ssa.Function) int {
	sig := fn.Signature
	if sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !strings.HasPrefix(fn.Name(), "Get") || !isPb(p, fn) {
		return -1
	}
	pt, ok := sig.Recv().Type().(*types.Pointer)
	if !ok {
		return -1
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fn.Name()[3:] && types.Identical(st.Field(i).Type(), sig.Results().At(0).Type()) {
			return i
		}
	}
	return -1
}
