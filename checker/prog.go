package main

// Loading: the type-checked program and its SSA form, and the lookups rules start from.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pojol/braid"

type Prog struct {
	cells        map[*ssa.Alloc]bool
	Dir          string
	Fset         *token.FileSet
	Pkgs         map[string]*packages.Package // module packages in scope, by path relative to the module ("" root)
	All          map[string]*packages.Package
	SSA          *ssa.Program
	SPkgs        map[string]*ssa.Package
	Fns          []*ssa.Function // every function of the module in scope, closures included
	InitOnly     map[string]bool
	NonNilGlobal map[string]bool
	pure         map[*ssa.Function]bool
	callers      map[*ssa.Function][]callSite
	fnvals       map[*ssa.Function][]ssa.Instruction
}

// inScope: the library itself, not its test support and generated mocks.
func inScope(path string) bool {
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	if rel == "tests" || strings.HasPrefix(rel, "tests/") || strings.Contains("/"+rel+"/", "/mock/") || strings.HasPrefix(rel, "_") {
		return false
	}
	return true
}

func Load(dir string, overlay map[string][]byte) (*Prog, error) {
	pkgs, err := loadPackages(dir, overlay)
	if err != nil {
		return nil, err
	}
	return assemble(dir, pkgs)
}

func loadPackages(dir string, overlay map[string][]byte) ([]*packages.Package, error) {
	if name, src := witness(dir); name != "" {
		if overlay == nil {
			overlay = map[string][]byte{}
		}
		overlay[name] = src
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GO111MODULE=on"),
	}
	return packages.Load(cfg, "./...")
}

// assemble builds the SSA form of the module's packages.
func assemble(dir string, pkgs []*packages.Package) (*Prog, error) {
	var bad []string
	p := &Prog{Dir: dir, Pkgs: map[string]*packages.Package{}, All: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{},
		InitOnly: map[string]bool{}, pure: map[*ssa.Function]bool{}, NonNilGlobal: map[string]bool{}}
	var scope []*packages.Package
	for _, pk := range pkgs {
		p.All[pk.PkgPath] = pk
		if !inScope(pk.PkgPath) {
			continue
		}
		for _, e := range pk.Errors {
			bad = append(bad, e.Error())
		}
		if len(pk.Syntax) == 0 {
			continue
		}
		p.Pkgs[strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")] = pk
		scope = append(scope, pk)
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(bad, "; "))
	}
	if len(scope) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, dir)
	}
	p.Fset = scope[0].Fset
	prog, spk := ssautil.Packages(scope, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spk {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", scope[i].PkgPath)
		}
		p.SPkgs[strings.TrimPrefix(strings.TrimPrefix(scope[i].PkgPath, modPath), "/")] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inModule(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			p.Fns = append(p.Fns, fn)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool { return p.Fns[i].Pos() < p.Fns[j].Pos() })
	p.globals()
	return p, nil
}

func (p *Prog) globals() {
	stored := map[string]bool{}
	nonnil := map[string]bool{}
	for fn := range ssautil.AllFunctions(p.SSA) {
		init := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					// the address of a global handed out may be written elsewhere; only direct
					// stores matter for the error sentinels we use this for
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				name := g.Pkg.Pkg.Name() + "." + g.Name()
				if !init {
					stored[name] = true
					continue
				}
				v := st.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				switch c := v.(type) {
				case *ssa.Call:
					if cal := c.Call.StaticCallee(); cal != nil && cal.Object() != nil {
						switch calleeName(cal.Object()) {
						case "errors.New", "fmt.Errorf":
							nonnil[name] = true
						}
					}
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function:
					nonnil[name] = true
				}
			}
		}
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				name := g.Pkg.Pkg.Name() + "." + g.Name()
				if !stored[name] {
					p.InitOnly[name] = true
					if nonnil[name] {
						p.NonNilGlobal[name] = true
					}
				}
			}
		}
	}
	// exported error variables of other packages are set once
	for _, pk := range p.SSA.AllPackages() {
		if inScope(pk.Pkg.Path()) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil && g.Object().Exported() {
				name := g.Pkg.Pkg.Name() + "." + g.Name()
				p.InitOnly[name] = true
				if et := ptrElem(g.Type()); et != nil && types.Identical(et, types.Universe.Lookup("error").Type()) {
					p.NonNilGlobal[name] = true
				}
			}
		}
	}
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return inScope(fn.Pkg.Pkg.Path())
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return inScope(o.Pkg.Pkg.Path())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return inScope(fn.Object().Pkg().Path())
	}
	return false
}

func (p *Prog) inModuleObj(o types.Object) bool {
	return o != nil && o.Pkg() != nil && inScope(o.Pkg().Path())
}

func (p *Prog) methodOf(T types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

var purePkgs = map[string]bool{"fmt": true, "errors": true, "strconv": true, "strings": true, "time": true, "context": true,
	"sync/atomic": true, "reflect": true, "math": true, "math/rand": true, "runtime/debug": true, "runtime": true, "net": true,
	"github.com/google/uuid": true, "sort": true, "bytes": true, "os/signal": true, "crypto/sha256": true, "crypto/sha1": true,
	"github.com/pojol/braid/lib/log": true, "path/filepath": true, "unicode": true, "encoding/hex": true}

func (p *Prog) isPure(o types.Object, fn *ssa.Function) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	if o.Pkg().Path() == "sync" {
		return true // WaitGroup, Cond: no memory of ours is changed by the call itself
	}
	if isGetter(o) {
		return true
	}
	if o.Name() == "Error" && o.Type().(*types.Signature).Params().Len() == 0 {
		return true
	}
	if purePkgs[o.Pkg().Path()] {
		return true
	}
	return fn != nil && p.inModule(fn) && p.pureFn(fn, map[*ssa.Function]bool{})
}

// external: module packages treated like third-party libraries by the walker.
func (p *Prog) external(fn *ssa.Function) bool {
	switch relPkg(fn) {
	case "3rd/redis", "lib/tracer", "lib/log", "lib/mpsc", "lib/warpwaitgroup":
		return true
	}
	return false
}

// pureFn: the function changes no memory but its own and talks to nobody.
func (p *Prog) pureFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := p.pure[fn]; ok {
		return r
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	r := p.pureBody(fn, seen)
	p.pure[fn] = r
	return r
}

func (p *Prog) pureBody(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				a := in.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Select:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					if n := in.Call.Value.Name(); n == "len" || n == "cap" || n == "append" {
						continue
					}
					return false
				}
				if in.Call.IsInvoke() {
					if !p.isPure(in.Call.Method, nil) && !p.ignored(in.Call.Method, nil) {
						return false
					}
					continue
				}
				cal := in.Call.StaticCallee()
				if cal == nil {
					return false
				}
				if o := cal.Object(); o != nil && (purePkg(o) || p.ignored(o, cal)) {
					continue
				}
				if !p.inModule(cal) || !p.pureFn(cal, seen) {
					return false
				}
			}
		}
	}
	return true
}

func purePkg(o types.Object) bool {
	if o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" {
		return strings.HasPrefix(o.Name(), "Load")
	}
	return o.Pkg() != nil && purePkgs[o.Pkg().Path()]
}

// isGetter: a parameterless interface method named like a property.
func isGetter(o types.Object) bool {
	f, ok := o.(*types.Func)
	if !ok || !inScopeObj(o) {
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil || !types.IsInterface(sig.Recv().Type()) || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	n := f.Name()
	return (strings.HasPrefix(n, "Get") && len(n) > 3) || n == "ID" || n == "Type"
}

func inScopeObj(o types.Object) bool { return o.Pkg() != nil && inScope(o.Pkg().Path()) }

// ignored: calls without meaning for any property but the logging ones.
func (p *Prog) ignored(o types.Object, fn *ssa.Function) bool {
	if o == nil && fn != nil {
		o = fn.Object()
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case modPath + "/lib/log":
		return !strings.HasPrefix(o.Name(), "Panic") && !strings.HasPrefix(o.Name(), "Fatal")
	case "fmt":
		return strings.HasPrefix(o.Name(), "Print") || strings.HasPrefix(o.Name(), "Fprint")
	case "log":
		return strings.HasPrefix(o.Name(), "Print")
	}
	return false
}

// ---------------------------------------------------------------- lookups

func (p *Prog) Pkg(rel string) *types.Package {
	if pk := p.Pkgs[rel]; pk != nil {
		return pk.Types
	}
	return nil
}

func (p *Prog) Named(rel, name string) *types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) Func(rel, name string) *ssa.Function {
	sp := p.SPkgs[rel]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds the method of a named type (pointer receiver or not).
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	n := p.Named(rel, typ)
	if n == nil {
		return nil
	}
	return p.MethodN(n, name)
}

func (p *Prog) MethodN(n *types.Named, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj().(*types.Func); f.Name() == name {
			fn := p.SSA.MethodValue(ms.At(i))
			if fn != nil && fn.Synthetic != "" {
				// a promoted or value-receiver method: the declared one
				if d := p.SSA.FuncValue(f); d != nil {
					return d
				}
			}
			return fn
		}
	}
	return nil
}

// Implementers of an interface among the named types of the scope.
func (p *Prog) Implementers(rel, iface string) []*types.Named {
	in := p.Named(rel, iface)
	if in == nil {
		return nil
	}
	it, ok := in.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	for _, pk := range p.Pkgs {
		for _, nm := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(n), it) {
				r = append(r, n)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func structOf(n *types.Named) *types.Struct {
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

// FieldBy finds the field of a struct playing a role: the one of the given name, else
// the only one the predicate accepts.
func FieldBy(n *types.Named, name string, pred func(v *types.Var) bool) *types.Var {
	s := structOf(n)
	if s == nil {
		return nil
	}
	var found []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name && (pred == nil || pred(f)) {
			return f
		}
		if pred != nil && pred(f) {
			found = append(found, f)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// FieldAt finds a field by its path through exported and embedded fields.
func typeIs(t types.Type, path string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil) == path
}

// AST of a function declaration, for syntax-level rules.
func (p *Prog) Decl(fn *ssa.Function) ast.Node {
	return fn.Syntax()
}

func (p *Prog) Where(pos token.Pos) string { return pos2(p, pos) }

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}
