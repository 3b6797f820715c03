package main

// Canonical terms: the abstract values of the walker. Two values with equal Key()
// are the same value on the path; ID() ignores the memory epoch of loads, so it
// names "the same access path" whenever it was read.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	Op   string
	Args []*Term
	S    string
	N    int
	T    types.Type
	C    constant.Value
	R    *Term // receiver of a call
	Fn   *ssa.Function
	Obj  types.Object // callee of a call term, global variable
	Pos  token.Pos
	Cell bool // a captured variable that is assigned once
	key  string
	id   string
}

func (t *Term) Key() string {
	if t == nil {
		return "<nil>"
	}
	if t.key == "" {
		t.key = t.str(true)
	}
	return t.key
}

// ID is the key without memory epochs.
func (t *Term) ID() string {
	if t == nil {
		return "<nil>"
	}
	if t.id == "" {
		t.id = t.str(false)
	}
	return t.id
}

func (t *Term) String() string { return t.ID() }

func (t *Term) sub(x *Term, ep bool) string {
	if ep {
		return x.Key()
	}
	return x.ID()
}

func (t *Term) list(ep bool) string {
	var b strings.Builder
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(t.sub(a, ep))
	}
	return b.String()
}

func (t *Term) str(ep bool) string {
	switch t.Op {
	case "param":
		return t.S
	case "const":
		if t.C == nil {
			return "nil"
		}
		return t.C.ExactString()
	case "zero":
		return "zero(" + types.TypeString(t.T, shortQual) + ")"
	case "global":
		return "&" + t.S
	case "alloc":
		return "&" + t.S + "#" + strconv.Itoa(t.N)
	case "field":
		return "&" + deref(t.sub(t.Args[0], ep)) + "." + t.S
	case "index":
		return "&" + deref(t.sub(t.Args[0], ep)) + "[" + t.sub(t.Args[1], ep) + "]"
	case "load":
		s := deref(t.sub(t.Args[0], ep))
		if ep && t.N != 0 {
			s += "@" + strconv.Itoa(t.N)
		}
		return s
	case "getter":
		return t.sub(t.Args[0], ep) + "." + t.S + "()"
	case "fieldval":
		return t.sub(t.Args[0], ep) + "." + t.S
	case "indexval":
		return t.sub(t.Args[0], ep) + "[" + t.sub(t.Args[1], ep) + "]"
	case "call":
		return shortName(t.S) + "#" + strconv.Itoa(t.N) + "@" + strconv.Itoa(int(t.Pos)) + "()"
	case "extract":
		return t.sub(t.Args[0], ep) + "$" + strconv.Itoa(t.N)
	case "lookup":
		s := t.sub(t.Args[0], ep) + "[" + t.sub(t.Args[1], ep) + "]"
		if ep {
			s += "@" + strconv.Itoa(t.N)
		}
		return s
	case "bin":
		return "(" + t.sub(t.Args[0], ep) + t.S + t.sub(t.Args[1], ep) + ")"
	case "un":
		return t.S + t.sub(t.Args[0], ep)
	case "tmpl":
		var p []string
		for _, a := range t.Args {
			p = append(p, t.sub(a, ep))
		}
		return "`" + strings.Join(p, "+") + "`"
	case "fn":
		return t.S
	case "conv", "iface", "assert":
		return t.Op + "(" + types.TypeString(t.T, shortQual) + "," + t.list(ep) + ")"
	case "fresh":
		return t.S + "#" + strconv.Itoa(t.N) + "@" + strconv.Itoa(int(t.Pos)) + "(" + t.list(ep) + ")"
	default:
		s := t.Op
		if t.S != "" {
			s += ":" + t.S
		}
		if t.N != 0 {
			s += "#" + strconv.Itoa(t.N)
		}
		return s + "(" + t.list(ep) + ")"
	}
}

func deref(s string) string {
	if strings.HasPrefix(s, "&") {
		return s[1:]
	}
	return s
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		for strings.HasPrefix(s, "(") || strings.HasPrefix(s, "*") {
			pre += s[:1]
			s = s[1:]
			i--
		}
		return pre + s[i+1:]
	}
	return s
}

func shortQual(p *types.Package) string { return p.Name() }

func tConst(v constant.Value, T types.Type) *Term { return &Term{Op: "const", C: v, T: T} }
func tNil(T types.Type) *Term                     { return &Term{Op: "const", T: T} }
func tBool(b bool) *Term {
	return &Term{Op: "const", C: constant.MakeBool(b), T: types.Typ[types.Bool]}
}
func tInt(i int64) *Term {
	return &Term{Op: "const", C: constant.MakeInt64(i), T: types.Typ[types.Int]}
}

func (t *Term) IsNilConst() bool { return t != nil && t.Op == "const" && t.C == nil }

func (t *Term) IntConst() (int64, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}

func (t *Term) StrConst() (string, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.C), true
}

func (t *Term) BoolConst() (bool, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}

// Strip removes interface wrapping, conversions and type assertions.
func (t *Term) Strip() *Term {
	for t != nil {
		switch t.Op {
		case "iface", "conv":
			t = t.Args[0]
		case "extract":
			if t.N == 0 && t.Args[0].Op == "assert" {
				t = t.Args[0].Args[0]
				continue
			}
			return t
		case "assert":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// Root is the object an address or access path starts from.
func (t *Term) Root() *Term {
	for {
		switch t.Op {
		case "field", "index", "load", "fieldval", "indexval", "slice", "iface", "conv", "assert":
			t = t.Args[0]
		case "extract":
			if t.Args[0].Op == "assert" || t.Args[0].Op == "lookup" {
				t = t.Args[0]
				continue
			}
			return t
		case "lookup":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// Mentions reports whether x occurs in t (by ID).
func (t *Term) Mentions(id string) bool {
	if t == nil {
		return false
	}
	if t.ID() == id {
		return true
	}
	for _, a := range t.Args {
		if a.Mentions(id) {
			return true
		}
	}
	return false
}

// Any reports whether pred holds for t or a subterm.
func (t *Term) Any(pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(pred) {
			return true
		}
	}
	return false
}

// Addr returns the address a load reads.
func (t *Term) Addr() *Term {
	if t != nil && t.Op == "load" {
		return t.Args[0]
	}
	return nil
}

// FieldPath returns the field names from the root of an access path and the root.
func (t *Term) FieldPath() (root *Term, path []string) {
	for {
		switch t.Op {
		case "load", "iface", "conv":
			t = t.Args[0]
		case "field", "fieldval":
			path = append([]string{t.S}, path...)
			t = t.Args[0]
		default:
			return t, path
		}
	}
}

// PathEnds reports whether the access path of t ends with the given fields.
func (t *Term) PathEnds(fields ...string) bool {
	if t == nil {
		return false
	}
	_, p := t.FieldPath()
	if len(p) < len(fields) {
		return false
	}
	p = p[len(p)-len(fields):]
	for i := range p {
		if p[i] != fields[i] {
			return false
		}
	}
	return true
}

func tmpl(parts []*Term, T types.Type) *Term {
	var out []*Term
	add := func(p *Term) {
		if s, ok := p.StrConst(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if ps, ok := out[n-1].StrConst(); ok {
					out[n-1] = tConst(constant.MakeString(ps+s), p.T)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		p = p.Strip()
		if p.Op == "tmpl" {
			for _, q := range p.Args {
				add(q)
			}
			continue
		}
		if i, ok := p.IntConst(); ok {
			p = tConst(constant.MakeString(strconv.FormatInt(i, 10)), types.Typ[types.String])
		}
		add(p)
	}
	if len(out) == 0 {
		return tConst(constant.MakeString(""), types.Typ[types.String])
	}
	if len(out) == 1 {
		if b, ok := out[0].T.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return out[0]
		}
		if out[0].T != nil {
			if b, ok := out[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return out[0]
			}
		}
	}
	return &Term{Op: "tmpl", Args: out, T: T}
}

// sprintf builds a template term from a constant format with simple verbs.
func sprintf(format string, args []*Term) *Term {
	var parts []*Term
	str := func(s string) *Term { return tConst(constant.MakeString(s), types.Typ[types.String]) }
	ai := 0
	cur := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			cur += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			cur += "%"
		case 's', 'v', 'd':
			if ai >= len(args) {
				return nil
			}
			parts = append(parts, str(cur))
			cur = ""
			parts = append(parts, args[ai])
			ai++
		default:
			return nil
		}
	}
	parts = append(parts, str(cur))
	return tmpl(parts, types.Typ[types.String])
}

func pos2(p *Prog, pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.Dir+"/"), ps.Line)
}
