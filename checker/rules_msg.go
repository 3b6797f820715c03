package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const msgPkg = "router/msg"

func init() {
	register(&Prop{ID: "G01", Run: runG01, Method: "path-sensitive provenance and effect analysis",
		Expl: "On every path of every builder method the parts of the message it writes are decided, field by field of the protocol's header type, to come from its argument, and nothing else to be written; on every path of the constructor the message is decided to be complete and to use the configuration as the options left it."})
	register(&Prop{ID: "G02", Run: runG02, Method: "path-sensitive provenance analysis of encode and decode calls, and of every numeric instance of the generic getters",
		Expl: "On every path the custom data written is decided to be what the codec configured for that kind returned without error, a failure to leave the message's custom data alone and to be recorded or returned, and existing fields to be decoded first; the generic getters are instantiated for every numeric type and each instance decided to convert to its own type."})
	register(&Prop{ID: "G03", Run: runG03, Method: "path-sensitive provenance analysis of context values",
		Expl: "On every path of every function that makes or reads the completion group of a message, the group put into the context is decided to be the one found there or a fresh one."})
}

// witness is a source file added in memory: it makes every numeric instance of the
// generic getters part of the program that is analysed.
func witness(dir string) (string, []byte) {
	files, _ := filepath.Glob(filepath.Join(dir, msgPkg, "*.go"))
	found := map[string]bool{}
	pkg := ""
	re := regexp.MustCompile(`(?m)^func (Get(?:Req|Res)CustomField)\[\s*\w+ (?:any|interface\{\})\s*\]\(`)
	pk := regexp.MustCompile(`(?m)^package (\w+)`)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if m := pk.FindSubmatch(b); m != nil {
			pkg = string(m[1])
		}
		for _, m := range re.FindAllSubmatch(b, -1) {
			found[string(m[1])] = true
		}
	}
	if len(found) == 0 || pkg == "" {
		return "", nil
	}
	s := "package " + pkg + "\n\nvar braidcheckInstances = []any{\n"
	for _, n := range []string{"GetReqCustomField", "GetResCustomField"} {
		if found[n] {
			for _, t := range witnessTypes {
				s += "\t" + n + "[" + t + "],\n"
			}
		}
	}
	return filepath.Join(dir, msgPkg, "zz_braidcheck_instances.go"), []byte(s + "}\n")
}

var numeric = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
var witnessTypes = append(append([]string{}, numeric...), "string", "bool", "[]byte", "map[string]any", "error")

type msgRoles struct {
	builder, wrapper, header, group *types.Named
	fields                          []string // of the protocol's header
}

func (c *Check) msgRoles() *msgRoles {
	r := &msgRoles{builder: c.P.Named(msgPkg, "MsgBuilder"), wrapper: c.P.Named(msgPkg, "Wrapper"), header: c.P.Named("router", "Header"), group: c.P.Named("lib/warpwaitgroup", "WrapWaitGroup")}
	for _, x := range []struct {
		n *types.Named
		s string
	}{{r.builder, "msg.MsgBuilder"}, {r.wrapper, "msg.Wrapper"}, {r.header, "router.Header"}, {r.group, "warpwaitgroup.WrapWaitGroup"}} {
		if x.n == nil {
			c.Missing(x.s)
			return nil
		}
	}
	s := structOf(r.header)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() && !strings.HasPrefix(s.Field(i).Name(), "XXX_") {
			r.fields = append(r.fields, s.Field(i).Name())
		}
	}
	return r
}

// part: which message a method's name speaks of.
func part(name string) string {
	switch {
	case strings.Contains(name, "Req"):
		return "Req"
	case strings.Contains(name, "Res"):
		return "Res"
	}
	return ""
}

// msgPath: the path of fields from the wrapper, for an address or value inside the builder's
// (or wrapper's) message.
func msgPath(t *Term, wrapper *types.Named) (path []string, ok bool) {
	if t == nil {
		return nil, false
	}
	root, p := t.FieldPath()
	if root.ID() != "$0" {
		return nil, false
	}
	if root.T != nil {
		if pt, isP := root.T.Underlying().(*types.Pointer); isP && types.Identical(pt.Elem(), wrapper) {
			return p, true
		}
	}
	if len(p) > 0 {
		return p[1:], true
	}
	return nil, true
}

func isHeaderPtr(t types.Type, r *msgRoles) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), r.header)
}

// ---------------------------------------------------------------- G01

func runG01(c *Check) {
	p := c.P
	c.Rule("header", "setting a header leaves the message with every field of the given header")
	c.Rule("body", "setting a body leaves the message with exactly the given bytes")
	c.Rule("only", "a builder method writes only the part it is named after, returns its own builder, and leaves its arguments alone")
	c.Rule("new", "a new message has request and response with headers of their own and one id, codecs, and the caller's context")
	c.Rule("options", "every option given is applied once, in order, to the configuration the message keeps")
	r := c.msgRoles()
	if r == nil {
		return
	}
	for i := 0; i < r.builder.NumMethods(); i++ {
		m := p.MethodN(r.builder, r.builder.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || !r.builder.Method(i).Exported() {
			continue
		}
		name := m.Name()
		con := fnName(m)
		sig := m.Signature
		returnsB := sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), r.builder)
		hdr := strings.HasPrefix(name, "With") && sig.Params().Len() == 1 && isHeaderPtr(sig.Params().At(0).Type(), r)
		body := strings.HasPrefix(name, "With") && strings.HasSuffix(name, "Body")
		for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2, Extra: []string{msgPkg}}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "only", con+" panic", m.Pos(), "a builder method panics", pa) {
				continue
			}
			side := part(name)
			for _, e := range pa.Events {
				if e.Kind != EvStore {
					continue
				}
				root, _ := e.Recv.FieldPath()
				if strings.HasPrefix(root.ID(), "$") && root.ID() != "$0" && (e.Recv.Op != "param" || true) {
					c.Expect(false, "only", con+" argument", e.Pos, "a builder method changes what it was given", pa)
				}
				path, ok := msgPath(e.Recv, r.wrapper)
				if !ok {
					continue
				}
				allowed := false
				if len(path) == 1 && path[0] == "Err" {
					allowed = true
				}
				switch {
				case side == "" || len(path) == 0 || path[0] != side:
				case hdr:
					allowed = len(path) >= 2 && path[1] == "Header"
				case body:
					allowed = len(path) == 2 && path[1] == "Body"
				case strings.HasPrefix(name, "With"):
					allowed = len(path) == 3 && path[1] == "Header" && path[2] == "Custom"
				}
				c.Expect(allowed, "only", con, e.Pos, "another part of the message is written: "+strings.Join(path, "."), pa)
			}
			if returnsB {
				c.Expect(stripAll(pa.Ret[0]).ID() == "$0", "only", con+" builder", m.Pos(), "another builder is returned", pa)
			}
			if hdr && side != "" {
				c.headerSet(r, m, pa, side)
			}
			if body && side != "" {
				v := lastStoreAt(pa, r, []string{side, "Body"})
				c.Expect(v != nil && stripAll(v).ID() == "$1", "body", con, m.Pos(), "the message does not get the given body", pa)
			}
			if sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), r.wrapper) {
				path, ok := msgPath(pa.Ret[0], r.wrapper)
				c.Expect(ok && len(path) == 0 && typeIsptrTo(pa.Ret[0], r.wrapper), "only", con+" message", m.Pos(), "another message is returned than the one that was built", pa)
			}
		}
	}
	// a builder for a message
	for i := 0; i < r.wrapper.NumMethods(); i++ {
		m := p.MethodN(r.wrapper, r.wrapper.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || m.Signature.Results().Len() != 1 || !ptrTo(m.Signature.Results().At(0).Type(), r.builder) {
			continue
		}
		for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "only", fnName(m), m.Pos(), "making a builder panics", pa) || pa.nil(&Term{Op: "param", S: "$0"}) == IsNil {
				continue
			}
			b := pa.Ret[0].Strip()
			ok := false
			for _, v := range structVals(pa, b) {
				ok = ok || v.Strip().ID() == "$0"
			}
			c.Expect(ok, "only", fnName(m), m.Pos(), "the builder is not one for the message", pa)
		}
	}
	c.newMessage(r)
	c.Min("header", 2)
	c.Min("body", 2)
	c.Min("only", 8)
	c.Min("new", 4)
	c.Min("options", 1)
}

func ptrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && n != nil && types.Identical(p.Elem(), n)
}

func typeIsptrTo(t *Term, n *types.Named) bool {
	x := t.Strip()
	return x.T == nil || ptrTo(x.T, n)
}

// lastStoreAt: the value last stored at the path below the wrapper.
func lastStoreAt(pa *Path, r *msgRoles, path []string) *Term {
	var v *Term
	for _, e := range pa.Events {
		if e.Kind == EvStore && e.Recv.Op == "field" {
			if p, ok := msgPath(e.Recv, r.wrapper); ok && strings.Join(p, ".") == strings.Join(path, ".") {
				v = e.Val
			}
		}
	}
	return v
}

// headerSet: at the end of the path every field of the message's header is the given one's.
func (c *Check) headerSet(r *msgRoles, m *ssa.Function, pa *Path, side string) {
	con := fnName(m)
	have := map[string]bool{}
	all := func() {
		for _, f := range r.fields {
			have[f] = true
		}
	}
	from := func(v *Term, f string) bool {
		s := stripAll(v)
		root, p := s.FieldPath()
		if s.Op == "getter" || s.Op == "call" && strings.HasSuffix(s.S, ".Get"+f) {
			return false
		}
		return root.ID() == "$1" && len(p) == 1 && p[0] == f
	}
	whole := func(v *Term) bool { // a copy of all of it
		s := stripAll(v)
		if s.Op == "load" && s.Args[0].Strip().ID() == "$1" {
			return true
		}
		if s.Op == "struct" {
			vals := structVals(pa, s)
			for _, f := range r.fields {
				if vals[f] == nil || !from(vals[f], f) {
					return false
				}
			}
			return true
		}
		return false
	}
	cleared := pa.nil(&Term{Op: "param", S: "$1"}) == IsNil
	for i, e := range pa.Events {
		if e.Kind != EvStore {
			continue
		}
		path, ok := msgPath(e.Recv, r.wrapper)
		if !ok || len(path) < 2 || path[0] != side || path[1] != "Header" {
			continue
		}
		switch {
		case len(path) == 3:
			if from(e.Val, path[2]) || getterOf(pa, e.Val, path[2], "$1") {
				have[path[2]] = true
			} else {
				delete(have, path[2])
			}
		case e.Recv.Op == "field": // another header object
			have = map[string]bool{}
			v := stripAll(e.Val)
			switch {
			case v.ID() == "$1":
				all()
			case v.Op == "alloc":
				for _, x := range pa.Events[:i] {
					if x.Kind != EvStore {
						continue
					}
					if x.Recv.ID() == v.ID() || x.Recv.Strip().ID() == v.ID() {
						if whole(x.Val) {
							all()
						} else {
							have = map[string]bool{}
							for f, fv := range structVals(pa, x.Val) {
								if from(fv, f) {
									have[f] = true
								}
							}
						}
					} else if x.Recv.Op == "field" && x.Recv.Args[0].Strip().ID() == v.ID() {
						if from(x.Val, x.Recv.S) || getterOf(pa, x.Val, x.Recv.S, "$1") {
							have[x.Recv.S] = true
						} else {
							delete(have, x.Recv.S)
						}
					}
				}
			case v.Op == "call" && strings.HasSuffix(v.S, ".Clone") && calledWith(pa, v, "$1"):
				all()
			}
		default: // the object's content
			if whole(e.Val) {
				all()
			}
		}
	}
	if cleared {
		return
	}
	for _, f := range r.fields {
		c.Expect(have[f], "header", con+" "+f, m.Pos(), "the message does not get the given header's "+f, pa)
	}
}

// getterOf: the value is the generated getter's result for that field of the object.
func getterOf(pa *Path, v *Term, f, id string) bool {
	s := stripAll(v)
	if s.Op == "getter" {
		return s.S == f && len(s.Args) > 0 && s.Args[0].Strip().ID() == id
	}
	for _, e := range pa.Events {
		if e.Kind == EvCall && sameID(e.Res, s) && strings.HasSuffix(e.Name, ".Get"+f) && e.Recv != nil && e.Recv.Strip().ID() == id {
			return true
		}
	}
	return false
}

// newMessage decides the constructor.
func (c *Check) newMessage(r *msgRoles) {
	nb := c.P.Func(msgPkg, "NewBuilder")
	if !c.Anchor(nb, "msg.NewBuilder") {
		return
	}
	con := fnName(nb)
	for _, pa := range c.Walk(nb, WalkOpts{LoopBound: 2, Extra: []string{msgPkg}}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		if !c.Expect(pa.Outcome == Returned, "new", con, nb.Pos(), "making a message panics", pa) {
			continue
		}
		b := stripAll(pa.Ret[0])
		var w *Term
		for _, v := range structVals(pa, b) {
			if ptrTo(termType(v), r.wrapper) || v.Strip().Op == "alloc" {
				w = v.Strip()
			}
		}
		if !c.Expect(w != nil && w.Op == "alloc", "new", con+" message", nb.Pos(), "the builder has no message of its own", pa) {
			continue
		}
		end := len(pa.Events)
		var ids []*Term
		for _, side := range []string{"Req", "Res"} {
			m := deepVal(pa, end, w, side).Strip()
			h := deepVal(pa, end, w, side, "Header").Strip()
			c.Expect(m.Op == "alloc", "new", con+" "+side, nb.Pos(), "the new message has no "+side+" of its own", pa)
			c.Expect(h.Op == "alloc", "new", con+" "+side+" header", nb.Pos(), "the new message's "+side+" has no header", pa)
			ids = append(ids, deepVal(pa, end, w, side, "Header", "ID").Strip())
		}
		c.Expect(!sameID(deepVal(pa, end, w, "Req"), deepVal(pa, end, w, "Res")) && !sameID(deepVal(pa, end, w, "Req", "Header"), deepVal(pa, end, w, "Res", "Header")), "new", con+" shared", nb.Pos(), "request and response are one object", pa)
		c.Expect(sameID(ids[0], ids[1]) && ids[0].Op == "call", "new", con+" id", nb.Pos(), "request and response do not have one fresh id", pa)
		ctx := deepVal(pa, end, w, "Ctx").Strip()
		c.Expect(fromCtx(pa, ctx, "$0"), "new", con+" context", nb.Pos(), "the message does not keep the caller's context", pa)
		// configuration
		parmName := "parm"
		if f := FieldBy(r.wrapper, "parm", func(v *types.Var) bool { return typeIs(v.Type(), modPath+"/router/msg.WrapperParm") }); f != nil {
			parmName = f.Name()
		}
		parm := deepVal(pa, end, w, parmName)
		n := 0
		last := -1
		var target *Term
		ok := true
		for i, e := range pa.Events {
			if e.Kind == EvCall && e.Dynamic && e.Recv != nil && strings.HasPrefix(e.Recv.Strip().ID(), "$1[") {
				ok = ok && e.Recv.Strip().ID() == "$1["+strconv.Itoa(n)+"]" && len(e.Args) == 1
				if len(e.Args) == 1 {
					if target == nil {
						target = e.Args[0].Strip()
					}
					ok = ok && sameID(target, e.Args[0])
				}
				n++
				last = i
			}
		}
		c.Expect(ok && endOf(pa, &Term{Op: "param", S: "$1"}, n), "options", con, nb.Pos(), "the options are not all applied once, in order, to one configuration", pa)
		if target != nil {
			used := false
			if target.Op == "alloc" {
				// the configuration is copied into the message after the options, or is the message's own
				for i, e := range pa.Events {
					if e.Kind == EvStore && i > last {
						s := e.Val.Strip()
						if s.Op == "load" && s.Args[0].ID() == target.ID() && e.Recv.Op == "field" && e.Recv.Args[0].Strip().ID() == w.ID() {
							used = true
						}
					}
				}
			}
			if target.Op == "field" && target.Args[0].Strip().ID() == w.ID() {
				used = true
			}
			c.Expect(used, "options", con+" used", nb.Pos(), "the message does not keep the configuration the options made", pa)
		}
		if n == 0 {
			vals := structVals(pa, parm)
			if len(vals) == 0 {
				vals = map[string]*Term{}
			}
			k := 0
			for _, v := range vals {
				if pa.nil(v) == NonNil || v.Strip().Op == "alloc" {
					k++
				}
			}
			c.Expect(k >= 2, "new", con+" codecs", nb.Pos(), "a new message has no codecs", pa)
		}
	}
}

// ---------------------------------------------------------------- G02

func isEncode(e *Event) bool { return isCall(e, "(router/msg.ICustomSerialize).Encode") }
func isDecode(e *Event) bool { return isCall(e, "(router/msg.ICustomSerialize).Decode") }

// codecKind: which codec a method of that name uses.
func codecKind(name string) string {
	if strings.Contains(name, "Object") {
		return "CustomObjSerialize"
	}
	return "CustomMapSerialize"
}

func runG02(c *Check) {
	p := c.P
	c.Rule("write", "custom data is written once, as encoded without error by the codec for its kind, to the message named")
	c.Rule("failure", "a failing codec leaves the custom data alone and its error is kept")
	c.Rule("merge", "adding fields starts from the fields already present, decoded with the same codec, and adds every field given")
	c.Rule("read", "custom data is decoded from the message named with the codec for its kind, and an absent or undecodable one is an error")
	c.Rule("convert", "a generic getter returns the field, converted to the type asked for if it is a number, and the zero value otherwise")
	c.Rule("codecs", "both default codecs encode and decode in one format, passing values and errors on")
	r := c.msgRoles()
	if r == nil {
		return
	}
	for _, n := range []*types.Named{r.builder, r.wrapper} {
		for i := 0; i < n.NumMethods(); i++ {
			m := p.MethodN(n, n.Method(i).Name())
			if m == nil || len(m.Blocks) == 0 || !n.Method(i).Exported() || part(m.Name()) == "" || !strings.Contains(m.Name(), "Custom") {
				continue
			}
			switch {
			case strings.HasPrefix(m.Name(), "With"):
				c.customWrite(r, m)
			case strings.HasPrefix(m.Name(), "Get"):
				c.customRead(r, m)
			}
		}
	}
	c.customFields(r)
	c.codecs()
	c.Min("write", 6)
	c.Min("failure", 6)
	c.Min("merge", 2)
	c.Min("read", 4)
	c.Min("convert", 24)
	c.Min("codecs", 4)
}

// customOf: the value is the custom data of that message.
func customOf(r *msgRoles, t *Term, side string) bool {
	s := stripAll(t)
	p, ok := msgPath(s, r.wrapper)
	return ok && strings.Join(p, ".") == side+".Header.Custom"
}

func codecOf(r *msgRoles, t *Term, kind string) bool {
	p, ok := msgPath(t.Strip(), r.wrapper)
	return ok && len(p) > 0 && p[len(p)-1] == kind
}

func (c *Check) customWrite(r *msgRoles, m *ssa.Function) {
	con := fnName(m)
	side, kind := part(m.Name()), codecKind(m.Name())
	w := c.Walk(m, WalkOpts{LoopBound: 2, Extra: []string{msgPkg}})
	variadic := m.Signature.Variadic()
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			continue
		}
		if !c.Expect(pa.Outcome == Returned, "failure", con+" panic", m.Pos(), "writing custom data panics", pa) {
			continue
		}
		var enc []*Event
		failed := (*Term)(nil)
		for _, e := range pa.Events {
			if isEncode(e) || isDecode(e) {
				c.Expect(codecOf(r, e.Recv, kind), "write", con+" codec", e.Pos, "another codec is used than the one configured for this kind", pa)
				err := e.Res
				if isEncode(e) {
					enc = append(enc, e)
					err = extract(e.Res, 1)
				}
				if pa.nil(err) == NonNil {
					failed = err
				} else if pa.nil(err) != IsNil {
					c.Expect(false, "failure", con+" unchecked", e.Pos, "an error of the codec is not looked at", pa)
				}
			}
		}
		var writes []*Event
		for _, e := range pa.Events {
			if e.Kind == EvStore {
				if path, ok := msgPath(e.Recv, r.wrapper); ok && len(path) == 3 && path[2] == "Custom" {
					writes = append(writes, e)
				}
			}
		}
		if failed != nil {
			c.Expect(len(writes) == 0, "failure", con, m.Pos(), "custom data is changed though the codec failed", pa)
			v := lastStoreAt(pa, r, []string{"Err"})
			c.Expect(v != nil && pa.nil(v) == NonNil, "failure", con+" error", m.Pos(), "the codec's error is not kept", pa)
			continue
		}
		ok := len(writes) == 1 && len(enc) == 1
		if ok {
			path, _ := msgPath(writes[0].Recv, r.wrapper)
			ok = path[0] == side && sameID(extract(enc[0].Res, 0), writes[0].Val)
		}
		c.Expect(ok, "write", con, m.Pos(), "the custom data is not what the codec made of the value", pa)
		if len(enc) != 1 {
			continue
		}
		data := enc[0].Args[0]
		if !variadic {
			c.Expect(stripAll(data).ID() == "$1", "write", con+" value", enc[0].Pos, "another value is encoded than the one given", pa)
			continue
		}
		c.merged(r, w, m, pa, enc[0], side)
	}
}

// merged: the map encoded has the fields already present and those given.
func (c *Check) merged(r *msgRoles, w *Walk, m *ssa.Function, pa *Path, enc *Event, side string) {
	con := fnName(m)
	// where the map lives
	cell := func(t *Term) string {
		s := stripAll(t)
		if s.Op == "load" {
			return s.Args[0].Strip().ID()
		}
		return s.ID()
	}
	data := cell(enc.Args[0])
	var dec *Event
	n := 0
	for _, e := range pa.Events {
		if isDecode(e) {
			dec = e
			c.Expect(customOf(r, e.Args[0], side), "merge", con+" source", e.Pos, "fields of another message are kept", pa)
		}
		if e == enc {
			break
		}
		if e.Kind != EvMapSet {
			continue
		}
		if cell(e.Recv) != data && (dec == nil || !sameCell(pa, e.Recv, enc.Args[0])) {
			continue
		}
		if dec != nil {
			// the codec may have left the map nil, as for the JSON value null
			ok := decidedNonNil(pa, e, e.Recv) || pa.nil(e.Recv) == NonNil && cell(e.Recv) != cell(dec.Args[1])
			c.Expect(ok, "merge", con+" nil", e.Pos, "a decoded map that may be nil is written to", pa)
		}
		k, v := stripAll(e.Args[0]), stripAll(e.Val)
		kr, kp := k.FieldPath()
		vr, vp := v.FieldPath()
		want := "$1[" + strconv.Itoa(n) + "]"
		if strings.TrimPrefix(kr.ID(), "&") == want && strings.TrimPrefix(vr.ID(), "&") == want && len(kp) == 1 && kp[0] == "Key" && len(vp) == 1 && vp[0] == "Value" {
			n++
		} else {
			c.Expect(false, "merge", con+" fields", e.Pos, "a field is added under another key or with another value", pa)
			return
		}
	}
	c.Expect(endOf(pa, &Term{Op: "param", S: "$1"}, n), "merge", con+" fields", enc.Pos, "not every field given is added", pa)
	if dec == nil {
		// only if there was nothing
		none := false
		for k, v := range pa.St.assume {
			t := pa.St.terms[k]
			if t == nil || t.Op != "bin" || len(t.Args) != 2 {
				continue
			}
			isLen := func(x *Term) bool { return x.Op == "len" && customOf(r, x.Args[0], side) }
			zero := func(x *Term) bool { m, ok := x.IntConst(); return ok && m == 0 }
			switch {
			case t.S == "<" && zero(t.Args[0]) && isLen(t.Args[1]) && !v:
				none = true
			case t.S == "==" && (isLen(t.Args[0]) && zero(t.Args[1]) || isLen(t.Args[1]) && zero(t.Args[0])) && v:
				none = true
			case t.S == "==" && (customOf(r, t.Args[0], side) && t.Args[1].IsNilConst()) && v:
				none = true
			}
		}
		c.Expect(none, "merge", con+" present", enc.Pos, "fields already present are dropped", pa)
		return
	}
	into := stripAll(dec.Args[1]).ID()
	ok := into == data || sameID(dec.Args[1], enc.Args[0])
	if !ok {
		// copied from the decoded map, entry by entry
		for _, e := range pa.Events {
			if e.Kind == EvRange && cell(e.Recv) == into {
				ok = true
			}
		}
	}
	if !ok {
		// or there is nothing to keep: the codec left the map nil or empty
		for k, v := range pa.St.assume {
			t := pa.St.terms[k]
			if !v || t == nil || t.Op != "bin" || t.S != "==" || len(t.Args) != 2 {
				continue
			}
			for i, x := range t.Args {
				y := t.Args[1-i]
				n, isN := y.IntConst()
				switch {
				case y.IsNilConst():
				case isN && n == 0 && x.Op == "len":
					x = x.Args[0]
				default:
					continue
				}
				if cell(x) == into || x.Op == "load" && stripAll(x.Args[0]).ID() == into {
					ok = true
				}
			}
		}
	}
	c.Expect(ok, "merge", con+" kept", enc.Pos, "the fields already present do not become part of the map", pa)
}

func sameCell(pa *Path, a, b *Term) bool { return stripAll(a).ID() == stripAll(b).ID() }

func (c *Check) customRead(r *msgRoles, m *ssa.Function) {
	con := fnName(m)
	side, kind := part(m.Name()), codecKind(m.Name())
	res := m.Signature.Results()
	if res.Len() == 0 || !isErr(res.At(res.Len()-1).Type()) {
		return
	}
	for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2, Extra: []string{msgPkg}}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		if !c.Expect(pa.Outcome == Returned, "read", con+" panic", m.Pos(), "reading custom data panics", pa) {
			continue
		}
		err := pa.Ret[len(pa.Ret)-1]
		var dec *Event
		n := 0
		for _, e := range pa.Events {
			if isDecode(e) || e.Kind == EvCall && (e.Name == "encoding/json.Unmarshal" || strings.HasSuffix(e.Name, "msgpack/v5.Unmarshal")) {
				n++
				dec = e
			}
		}
		if n == 0 {
			c.Expect(pa.nil(err) == NonNil, "read", con+" absent", m.Pos(), "absent custom data is no error", pa)
			continue
		}
		ok := n == 1 && customOf(r, dec.Args[0], side)
		if isDecode(dec) {
			ok = ok && codecOf(r, dec.Recv, kind)
		} else {
			// the default, for a message without codec
			none := false
			for k, v := range pa.St.assume {
				t := pa.St.terms[k]
				if t != nil && t.Op == "bin" && t.S == "==" && v && (codecOf(r, t.Args[0], kind) && t.Args[1].IsNilConst() || codecOf(r, t.Args[1], kind) && t.Args[0].IsNilConst()) {
					none = true
				}
			}
			ok = ok && none && strings.Contains(dec.Name, "json") == (kind == "CustomMapSerialize")
		}
		c.Expect(ok, "read", con, dec.Pos, "another message or codec is read", pa)
		good := sameID(err, dec.Res)
		if pa.nil(dec.Res) == NonNil {
			good = good || pa.nil(err) == NonNil
		}
		if pa.nil(dec.Res) == IsNil {
			good = good || pa.nil(err) == IsNil
		}
		c.Expect(good, "read", con+" error", dec.Pos, "the codec's error is not returned", pa)
		if len(pa.Ret) == 2 {
			v := stripAll(pa.Ret[0])
			into := stripAll(dec.Args[1])
			same := v.Op == "load" && v.Args[0].Strip().ID() == into.ID() || pa.nil(dec.Res) == NonNil && pa.nil(pa.Ret[0]) == IsNil
			c.Expect(same, "read", con+" value", dec.Pos, "another value is returned than the one decoded", pa)
		} else {
			c.Expect(stripAll(dec.Args[1]).ID() == "$1", "read", con+" value", dec.Pos, "the value is decoded elsewhere than asked for", pa)
		}
	}
}

// customFields decides every instance of the generic getters.
func (c *Check) customFields(r *msgRoles) {
	found := map[string]bool{}
	for fn := range ssautil.AllFunctions(c.P.SSA) {
		o := fn.Origin()
		if o == nil || o == fn || len(fn.TypeArgs()) != 1 || len(fn.Blocks) == 0 || o.Pkg == nil || o.Pkg.Pkg.Path() != modPath+"/"+msgPkg {
			continue
		}
		if o.Name() != "GetReqCustomField" && o.Name() != "GetResCustomField" {
			continue
		}
		T := fn.TypeArgs()[0]
		found[o.Name()+T.String()] = true
		c.customField(r, fn, o.Name(), T)
	}
	for _, n := range []string{"GetReqCustomField", "GetResCustomField"} {
		for _, t := range numeric {
			if !found[n+t] {
				c.Missing(n + "[" + t + "]")
			}
		}
	}
}

func (c *Check) customField(r *msgRoles, fn *ssa.Function, name string, T types.Type) {
	con := msgPkg + "." + name + "[" + T.String() + "]"
	side := part(name)
	float := types.Typ[types.Float64]
	num := false
	if b, ok := T.(*types.Basic); ok {
		num = b.Info()&types.IsNumeric != 0
	}
	opaque := []string{}
	for i := 0; i < r.wrapper.NumMethods(); i++ {
		if m := c.P.MethodN(r.wrapper, r.wrapper.Method(i).Name()); m != nil && strings.HasSuffix(m.Name(), "CustomMap") {
			opaque = append(opaque, calleeName(m.Object()))
		}
	}
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2, Opaque: opaque}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		if !c.Expect(pa.Outcome == Returned, "convert", con+" panic", fn.Pos(), "reading a field panics", pa) {
			continue
		}
		var get, inl, look *Event
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "CustomMap") {
				get = e
			}
			if isDecode(e) && customOf(r, e.Args[0], side) && get == nil {
				inl = e
			}
			if e.Kind == EvLookup {
				look = e
			}
			c.Expect(!mayFail(pa, e), "convert", con+" assertion", e.Pos, "a mismatching field crashes the getter", pa)
		}
		ret := pa.Ret[0]
		if get == nil && inl == nil && look == nil {
			c.Expect(isZero(ret, T), "convert", con+" absent", fn.Pos(), "unreadable custom data does not yield the zero value", pa)
			continue
		}
		ok := inl != nil || get != nil && strings.HasSuffix(get.Name, ".Get"+side+"CustomMap") && get.Recv.Strip().ID() == "$0"
		if !c.Expect(ok, "convert", con+" source", fn.Pos(), "the field is not read from the message", pa) {
			continue
		}
		if look == nil {
			c.Expect(isZero(ret, T), "convert", con+" absent", fn.Pos(), "unreadable custom data does not yield the zero value", pa)
			continue
		}
		var err *Term
		if inl != nil {
			err = inl.Res
		} else {
			err = extract(get.Res, 1)
		}
		c.Expect(pa.nil(err) == IsNil || isZero(ret, T), "convert", con+" failure", fn.Pos(), "a value is returned though the custom data could not be read", pa)
		c.Expect(sameID(stripAll(look.Args[0]), &Term{Op: "param", S: "$1"}), "convert", con+" key", look.Pos, "another key is looked up", pa)
		val := look.Res
		if val.Op == "tuple" {
			val = val.Args[0]
		}
		// what is known of the value
		isT, isF := -1, -1
		for k, v := range pa.St.assume {
			t := pa.St.terms[k]
			if t == nil || t.Op != "is" || !sameID(t.Args[0], val) {
				continue
			}
			if t.S == types.TypeString(T, shortQual) {
				isT = b2i(v)
			}
			if t.S == "float64" {
				isF = b2i(v)
			}
		}
		switch {
		case isT == 1:
			c.Expect(sameID(ret, val), "convert", con+" own", fn.Pos(), "a field of the type asked for is not returned as it is", pa)
		case num && isF == 1:
			x := ret
			for x.Op == "iface" || x.Op == "assert" {
				x = x.Args[0]
			}
			ok := x.Op == "conv" && types.Identical(x.T, T) && sameID(x, val)
			if ok {
				// one conversion, from the number itself
				y := x.Args[0]
				for y.Op == "iface" || y.Op == "assert" || y.Op == "extract" && y.Args[0].Op == "assert" {
					y = y.Args[0]
				}
				ok = y.Op != "conv"
			}
			c.Expect(ok, "convert", con, fn.Pos(), fmt.Sprintf("a number is not converted to %s", T), pa)
		case isT == 0 && (isF == 0 || !num):
			c.Expect(isZero(ret, T), "convert", con+" mismatch", fn.Pos(), "a mismatching field does not yield the zero value", pa)
		case isT == 0 && isF == -1 && num && types.Identical(T, float):
			c.Expect(isZero(ret, T), "convert", con+" mismatch", fn.Pos(), "a mismatching field does not yield the zero value", pa)
		case isT == 0 && num:
			c.Expect(false, "convert", con, fn.Pos(), fmt.Sprintf("a number is not converted to %s", T), pa)
		default:
			if absent(pa, look) || pa.St.Truth(&Term{Op: "has", Args: []*Term{look.Res}}) == 0 {
				c.Expect(isZero(ret, T), "convert", con+" absent", fn.Pos(), "an absent field does not yield the zero value", pa)
			} else {
				c.Expect(isZero(ret, T), "convert", con+" undecided", fn.Pos(), "a value is returned whose type was not looked at", pa)
			}
		}
	}
}

func isZero(t *Term, T types.Type) bool {
	s := t
	for s.Op == "iface" || s.Op == "assert" {
		s = s.Args[0]
	}
	if s.Op == "const" && s.C != nil {
		switch s.C.Kind() {
		case constant.Int, constant.Float:
			return constant.Sign(s.C) == 0
		}
	}
	return s.ID() == zeroTerm(T).ID() || s.Op == "zero" || s.IsNilConst()
}

// codecs decides the default codecs.
func (c *Check) codecs() {
	pairs := map[string]string{"encoding/json.Marshal": "json", "encoding/json.Unmarshal": "json"}
	for _, n := range c.P.Implementers(msgPkg, "ICustomSerialize") {
		var formats []string
		for _, mn := range []string{"Encode", "Decode"} {
			m := c.P.MethodN(n, mn)
			if !c.Anchor(m, n.Obj().Name()+"."+mn) {
				continue
			}
			con := fnName(m)
			var pos token.Pos = m.Pos()
			for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2}).Paths {
				if pa.Outcome != Returned {
					continue
				}
				var call *Event
				k := 0
				for _, e := range pa.Events {
					if e.Kind == EvCall && (strings.HasSuffix(e.Name, ".Marshal") || strings.HasSuffix(e.Name, ".Unmarshal")) {
						call = e
						k++
					}
				}
				if k == 0 {
					// a codec of another make
					c.Ob("codecs", con, pos)
					continue
				}
				f := pairs[call.Name]
				if f == "" {
					f = call.Name[:strings.LastIndex(call.Name, ".")]
				}
				formats = append(formats, f)
				ok := k == 1
				for i, a := range call.Args {
					ok = ok && stripAll(a).ID() == "$"+strconv.Itoa(i+1)
				}
				if len(pa.Ret) == 1 {
					ok = ok && (pa.is(pa.Ret[0], call.Res) || pa.nil(call.Res) != 0 && pa.nil(call.Res) == pa.nil(pa.Ret[0]))
				} else {
					e := extract(call.Res, 1)
					ok = ok && (pa.is(pa.Ret[1], e) || pa.nil(e) != 0 && pa.nil(e) == pa.nil(pa.Ret[1])) && (pa.is(pa.Ret[0], extract(call.Res, 0)) || pa.nil(e) == NonNil)
				}
				c.Expect(ok, "codecs", con, pos, "a codec does not pass values and errors on", pa)
			}
		}
		for _, f := range formats {
			c.Expect(f == formats[0], "codecs", n.Obj().Name(), n.Obj().Pos(), "a codec encodes in one format and decodes in another", nil)
		}
	}
}

// ---------------------------------------------------------------- G03

func runG03(c *Check) {
	c.Rule("joined", "a new message keeps the completion group of its context if there is one, and gets a fresh one otherwise")
	c.Rule("read", "the group of a message is the one in its context")
	c.Rule("own", "a swapped message and a remotely received one get a fresh group")
	r := c.msgRoles()
	if r == nil {
		return
	}
	isKey := func(t *Term) bool { return typeIs(keyType(t), modPath+"/"+msgPkg+".WaitGroupKey") }
	nb := c.P.Func(msgPkg, "NewBuilder")
	if c.Anchor(nb, "msg.NewBuilder") {
		con := fnName(nb)
		for _, pa := range c.Walk(nb, WalkOpts{LoopBound: 2, Extra: []string{msgPkg}}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			w := builderMsg(pa, r)
			if w == nil {
				c.Expect(false, "joined", con, nb.Pos(), "the message cannot be followed", pa)
				continue
			}
			ctx := deepVal(pa, len(pa.Events), w, "Ctx").Strip()
			found, known := (*Term)(nil), -1
			for _, e := range pa.Events {
				if isCall(e, "(context.Context).Value") && len(e.Args) == 1 && isKey(e.Args[0]) && fromCtx(pa, e.Recv, "$0") {
					found = e.Res
				}
			}
			if found != nil {
				known = isGroup(pa, found)
			}
			switch known {
			case 1:
				ok := false
				if v, plain := groupIn(pa, ctx, isKey); plain {
					ok = fromCtx(pa, ctx, "$0")
				} else {
					ok = v != nil && sameID(v, found) && fromCtx(pa, ctx, "$0")
				}
				c.Expect(ok, "joined", con, nb.Pos(), "a message of an exchange does not join its group", pa)
			case 0:
				v, _ := groupIn(pa, ctx, isKey)
				c.Expect(v != nil && freshGroup(v), "joined", con+" fresh", nb.Pos(), "a message outside an exchange gets no group of its own", pa)
			default:
				c.Expect(false, "joined", con+" looked up", nb.Pos(), "whether the context belongs to an exchange is not looked at", pa)
			}
		}
	}
	for i := 0; i < r.wrapper.NumMethods(); i++ {
		m := c.P.MethodN(r.wrapper, r.wrapper.Method(i).Name())
		if m == nil || len(m.Blocks) == 0 || m.Signature.Results().Len() != 1 || !ptrTo(m.Signature.Results().At(0).Type(), r.group) {
			continue
		}
		for _, pa := range c.Walk(m, WalkOpts{LoopBound: 2}).Paths {
			if pa.Outcome == Cut {
				continue
			}
			if !c.Expect(pa.Outcome == Returned, "read", fnName(m)+" panic", m.Pos(), "reading the group panics", pa) {
				continue
			}
			var found *Term
			for _, e := range pa.Events {
				c.Expect(!mayFail(pa, e), "read", fnName(m)+" assertion", e.Pos, "a context without a group crashes the reader", pa)
				if isCall(e, "(context.Context).Value") && len(e.Args) == 1 && isKey(e.Args[0]) {
					if p, ok := msgPath(e.Recv, r.wrapper); ok && len(p) == 1 && p[0] == "Ctx" {
						found = e.Res
					}
				}
			}
			ok := found != nil && pa.is(pa.Ret[0], found) || found != nil && isGroup(pa, found) == 0 && pa.nil(pa.Ret[0]) == IsNil
			c.Expect(ok, "read", fnName(m), m.Pos(), "the group returned is not the one in the message's context", pa)
		}
	}
	c.swapGroup("own")
	// swapping keeps the exchange's context otherwise
	if sw := c.P.Func(msgPkg, "Swap"); sw != nil {
		for _, pa := range c.Walk(sw, WalkOpts{Extra: []string{msgPkg}}).Paths {
			if pa.Outcome != Returned {
				continue
			}
			ctx := deepVal(pa, len(pa.Events), pa.Ret[0], "Ctx").Strip()
			root, path := ctxRoot(pa, ctx)
			c.Expect(root == "$0" && strings.Join(path, ".") == "Ctx", "own", fnName(sw)+" context", sw.Pos(), "the copy does not keep the message's context", pa)
			v, _ := groupIn(pa, ctx, isKey)
			c.Expect(v != nil && freshGroup(v), "own", fnName(sw)+" key", sw.Pos(), "the fresh group is not found under its key", pa)
		}
	}
	// messages that come from other nodes
	n := 0
	for _, fn := range c.P.Fns {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Name() != "Routing" || fn.Signature.Params().Len() != 2 || relPkg(fn) == "router" {
			continue
		}
		n++
		c.receivedGroup(fn, isKey)
	}
	if n == 0 {
		c.Missing("the acceptor's Routing")
	}
	c.Min("joined", 2)
	c.Min("read", 1)
	c.Min("own", 4)
}

func keyType(t *Term) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if t.Op == "iface" && t.T != nil {
		return t.T
	}
	return termType(t)
}

// isGroup: was the value decided to be a group (1), not one (0), or not (-1)?
func isGroup(pa *Path, v *Term) int {
	for k, b := range pa.St.assume {
		if t := pa.St.terms[k]; t != nil && t.Op == "is" && sameID(t.Args[0], v) && strings.HasSuffix(t.S, "WrapWaitGroup") {
			return b2i(b)
		}
	}
	switch pa.nil(v) {
	case IsNil:
		return 0
	}
	return -1
}

// groupIn: the group put into the context on the path; plain if the context was not given one.
func groupIn(pa *Path, ctx *Term, isKey func(*Term) bool) (v *Term, plain bool) {
	for n := 0; n < 8 && ctx != nil; n++ {
		s := ctx.Strip()
		var next *Term
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasPrefix(e.Name, "context.With") && len(e.Args) > 0 && (sameID(e.Res, s) || sameID(extract(e.Res, 0), s)) {
				if e.Name == "context.WithValue" && isKey(e.Args[1]) {
					return e.Args[2], false
				}
				next = e.Args[0]
			}
		}
		if next == nil {
			return nil, true
		}
		ctx = next
	}
	return nil, true
}

// ctxRoot: where a derived context comes from.
func ctxRoot(pa *Path, ctx *Term) (string, []string) {
	for n := 0; n < 8 && ctx != nil; n++ {
		s := ctx.Strip()
		var next *Term
		for _, e := range pa.Events {
			if e.Kind == EvCall && strings.HasPrefix(e.Name, "context.With") && len(e.Args) > 0 && (sameID(e.Res, s) || sameID(extract(e.Res, 0), s)) {
				next = e.Args[0]
			}
		}
		if next == nil {
			root, p := s.FieldPath()
			return root.ID(), p
		}
		ctx = next
	}
	return "", nil
}

// builderMsg: the message of the builder a path returns.
func builderMsg(pa *Path, r *msgRoles) *Term {
	for _, v := range structVals(pa, stripAll(pa.Ret[0])) {
		if v.Strip().Op == "alloc" && ptrTo(termType(v), r.wrapper) {
			return v.Strip()
		}
	}
	for _, v := range structVals(pa, stripAll(pa.Ret[0])) {
		if v.Strip().Op == "alloc" {
			return v.Strip()
		}
	}
	return nil
}

// receivedGroup: the message made for a remote request has a group of its own.
func (c *Check) receivedGroup(fn *ssa.Function, isKey func(*Term) bool) {
	con := fnName(fn)
	for _, pa := range c.Walk(fn, WalkOpts{LoopBound: 2}).Paths {
		if pa.Outcome == Cut {
			continue
		}
		for _, e := range pa.Events {
			if !isCall(e, "router/msg.NewBuilder") {
				continue
			}
			v, _ := groupIn(pa, e.Args[0], isKey)
			root, path := ctxRoot(pa, e.Args[0])
			ok := v != nil && freshGroup(v)
			if !ok && v == nil && root == "$1" && len(path) == 0 {
				// the request's context comes from the transport and has none
				ok = true
			}
			c.Expect(ok, "own", con, e.Pos, "a received message gets no group of its own", pa)
			c.Expect(root == "$1" && len(path) == 0, "own", con+" context", e.Pos, "a received message does not keep the request's context", pa)
		}
	}
}
