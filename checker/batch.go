package main

// Self-tests over many small variants of one tree: dependencies are loaded once, each variant re-checks the module.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

type importMap map[string]*types.Package

func (m importMap) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func runBatch(dir, list, kn, prop string) {
	pkgs, err := loadPackages(dir, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	base := importMap{"unsafe": types.Unsafe}
	var order []*packages.Package // the module's packages, dependencies first
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			order = append(order, p)
		} else {
			base[p.PkgPath] = p.Types
		}
	})
	ids := strings.Split(prop, ",") // "-L11": all but L11
	if prop == "" || prop == "all" || prop[0] == '-' {
		ids = nil
		for _, id := range propIDs() {
			if !strings.Contains(prop, "-"+id) {
				ids = append(ids, id)
			}
		}
	}
	f, err := os.Open(list)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(f)
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	for sc.Scan() {
		l := strings.Split(sc.Text(), "\t")
		imp := importMap{}
		for k, v := range base {
			imp[k] = v
		}
		fresh := map[*packages.Package]*packages.Package{}
		var roots []*packages.Package
		bad := ""
		for _, p := range order {
			q := *p
			q.Syntax = append([]*ast.File{}, p.Syntax...)
			for i, af := range q.Syntax {
				if name := p.Fset.Position(af.Package).Filename; name == dir+"/"+l[1] {
					nf, err := parser.ParseFile(p.Fset, name, mustRead(l[2]), parser.ParseComments|parser.SkipObjectResolution)
					if err != nil {
						bad = err.Error()
						continue
					}
					q.Syntax[i] = nf
				}
			}
			q.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
				Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
			cfg := types.Config{Importer: imp, Sizes: p.TypesSizes, Error: func(e error) { bad = e.Error() }}
			if p.Module != nil && p.Module.GoVersion != "" {
				cfg.GoVersion = "go" + p.Module.GoVersion
			}
			q.Types, _ = cfg.Check(p.PkgPath, p.Fset, q.Syntax, q.TypesInfo)
			imp[p.PkgPath] = q.Types
			q.Imports = map[string]*packages.Package{}
			for k, v := range p.Imports {
				if n := fresh[v]; n != nil {
					v = n
				}
				q.Imports[k] = v
			}
			fresh[p] = &q
		}
		for _, p := range pkgs {
			if n := fresh[p]; n != nil {
				roots = append(roots, n)
			}
		}
		if bad != "" {
			fmt.Fprintf(out, "%s\tload %s\n", l[0], bad)
			continue
		}
		pr, err := assemble(dir, roots)
		if err != nil {
			fmt.Fprintf(out, "%s\tload %s\n", l[0], err)
			continue
		}
		var hit []string
		for _, id := range ids {
			c := NewCheck(pr, id)
			run(c, props[id])
			known, _ := loadKnown(kn, id)
			var rules []string
			for k, v := range c.Viols {
				if _, ok := known[k]; !ok {
					rules = append(rules, v.Rule)
				}
			}
			if len(rules) > 0 {
				hit = append(hit, id)
			}
		}
		if len(hit) == 0 {
			hit = []string{"-"}
		}
		fmt.Fprintf(out, "%s\t%s\n", l[0], strings.Join(hit, ","))
	}
}

func mustRead(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return b
}
