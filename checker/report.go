package main

// Obligations, violations and evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Rule, Construct, Detail string
	Pos                     token.Pos
	Trace                   string
}

func (v Viol) Key() string { return v.Rule + " | " + v.Construct }

type Check struct {
	P       *Prog
	ID      string
	Obl     map[string]int // rule | construct -> times examined
	Rules   map[string]string
	rules   []string
	Viols   map[string]Viol
	Fns     map[string]bool
	Walks   int
	Paths   int
	Steps   int
	Cut     int
	Samples []map[string]string
	sampled map[string]int
	Deep    bool
}

func NewCheck(p *Prog, id string) *Check {
	return &Check{P: p, ID: id, Obl: map[string]int{}, Rules: map[string]string{}, Viols: map[string]Viol{}, Fns: map[string]bool{}, sampled: map[string]int{}}
}

// Rule declares a rule of the property.
func (c *Check) Rule(name, text string) {
	if _, ok := c.Rules[name]; !ok {
		c.rules = append(c.rules, name)
	}
	c.Rules[name] = text
}

// Ob records that an instance of a rule was examined at a construct.
func (c *Check) Ob(rule, construct string, pos token.Pos) {
	if _, ok := c.Rules[rule]; !ok {
		panic("undeclared rule " + rule)
	}
	k := rule + " | " + construct
	c.Obl[k]++
	if c.Obl[k] == 1 && c.sampled[rule] < 3 {
		c.sampled[rule]++
		c.Samples = append(c.Samples, map[string]string{"rule": rule, "construct": construct, "at": pos2(c.P, pos)})
	}
}

func (c *Check) Viol(rule, construct string, pos token.Pos, detail string, pa *Path) {
	if _, ok := c.Rules[rule]; !ok {
		panic("undeclared rule " + rule)
	}
	v := Viol{Rule: rule, Construct: construct, Detail: detail, Pos: pos}
	if _, ok := c.Viols[v.Key()]; ok {
		return
	}
	c.Obl[v.Key()]++
	if pa != nil {
		v.Trace = pa.Dump(c.P)
	}
	c.Viols[v.Key()] = v
}

// Expect is Ob plus a violation when it does not hold.
func (c *Check) Expect(ok bool, rule, construct string, pos token.Pos, detail string, pa *Path) bool {
	c.Ob(rule, construct, pos)
	if !ok {
		c.Viol(rule, construct, pos, detail, pa)
	}
	return ok
}

// Min: fewer instances of a rule than confirmed by hand means the rule lost its target.
func (c *Check) Min(rule string, n int) {
	got := 0
	for k := range c.Obl {
		if strings.HasPrefix(k, rule+" | ") {
			got++
		}
	}
	if got < n {
		c.Viol(rule, "instances of the rule", token.NoPos, fmt.Sprintf("undecided: %d instances found, at least %d expected", got, n), nil)
	}
}

// Anchor reports an entry point that no longer exists.
func (c *Check) Anchor(fn *ssa.Function, what string) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		c.Rule("anchors", "every entry point the rules start from exists in the program")
		c.Viol("anchors", what, token.NoPos, "undecided: "+what+" not found", nil)
		return false
	}
	return true
}

func (c *Check) Missing(what string) {
	c.Rule("anchors", "every entry point the rules start from exists in the program")
	c.Viol("anchors", what, token.NoPos, "undecided: "+what+" not found", nil)
}

// Walk walks a function and accounts for it; a truncated walk is undecided.
func (c *Check) Walk(fn *ssa.Function, opt WalkOpts) *Walk {
	w := c.P.Walk(fn, opt)
	c.account(w, fn)
	return w
}

func (c *Check) WalkGo(w *Walk, e *Event, opt WalkOpts) *Walk {
	n := w.WalkGo(e, opt)
	c.account(n, e.GoFn)
	return n
}

func (c *Check) account(w *Walk, fn *ssa.Function) {
	c.Walks++
	c.Paths += len(w.Paths)
	c.Steps += w.steps
	for f := range w.Fns {
		c.Fns[fnName(f)] = true
	}
	for _, pa := range w.Paths {
		if pa.Outcome == Cut {
			c.Cut++
		}
	}
	if w.Trunc || len(w.Paths) == 0 {
		c.Rule("exploration", "every path of every analysed function is followed up to the loop bound")
		c.Viol("exploration", fnName(fn), fn.Pos(), fmt.Sprintf("undecided: the paths of %s could not all be followed (%d paths, %d steps)", fnName(fn), len(w.Paths), w.steps), nil)
	}
}

// ---------------------------------------------------------------- output

type known struct {
	open  map[string]string // key -> text
	lines []string
}

func loadKnown(path, id string) (map[string]string, error) {
	r := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return r, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "open: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "open: property="+id+" ")
		// key {rule | construct} text
		i := strings.Index(l, "}")
		if !strings.HasPrefix(l, "{") || i < 0 {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		r[l[1:i]] = strings.TrimSpace(l[i+1:])
	}
	return r, sc.Err()
}

func (c *Check) Finish(out, tier string, seed int, start time.Time, knownFile string, explanation string, assumptions []string) int {
	kn, err := loadKnown(knownFile, c.ID)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var keys []string
	for k := range c.Viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	code, nv := 0, 0
	var fresh []Viol
	for _, k := range keys {
		v := c.Viols[k]
		if txt, ok := kn[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s at %s)\n", c.ID, txt, v.Rule, v.Construct, pos2(c.P, v.Pos))
			continue
		}
		fresh = append(fresh, v)
	}
	nv = len(fresh)
	if assumptions == nil {
		assumptions = []string{}
	}
	assumptions = append([]string{"the Go type checker and the SSA construction of golang.org/x/tools are correct",
		"standard library and storage client calls behave as documented; user callbacks may do anything, panic included",
		"paths that repeat a loop more often than the loop bound contain no new kind of step"}, assumptions...)
	if out != "" {
		os.MkdirAll(out, 0o755)
		rules := map[string]interface{}{}
		for _, r := range c.rules {
			n := 0
			for k := range c.Obl {
				if strings.HasPrefix(k, r+" | ") {
					n++
				}
			}
			rules[r] = map[string]interface{}{"text": c.Rules[r], "instances": n}
		}
		var fns []string
		for f := range c.Fns {
			fns = append(fns, f)
		}
		sort.Strings(fns)
		cov := map[string]interface{}{
			"explanation":        explanation,
			"obligations":        len(c.Obl),
			"discharged":         len(c.Obl) - len(keys),
			"rules":              rules,
			"entry_walks":        c.Walks,
			"paths":              c.Paths,
			"steps":              c.Steps,
			"paths_cut_at_loops": c.Cut,
			"functions_analysed": fns,
			"samples":            c.Samples,
			"packages_loaded":    len(c.P.Pkgs),
			"module_functions":   len(c.P.Fns),
		}
		if len(keys) > 0 {
			var vs []string
			for _, k := range keys {
				v := c.Viols[k]
				vs = append(vs, fmt.Sprintf("%s: %s at %s: %s", v.Rule, v.Construct, pos2(c.P, v.Pos), v.Detail))
			}
			cov["reported"] = vs
		}
		ev := map[string]interface{}{"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(out, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	if nv > 0 {
		code = 1
		rp := "-"
		var b strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&b, "property %s, rule %q: %s\n  at %s: %s\n  rule: %s\n", c.ID, v.Rule, v.Construct, pos2(c.P, v.Pos), v.Detail, c.Rules[v.Rule])
			if v.Trace != "" {
				fmt.Fprintf(&b, "  on the path:\n%s", v.Trace)
			}
			b.WriteString("\n")
		}
		if out != "" {
			rp = filepath.Join(out, c.ID+".violation.txt")
			os.WriteFile(rp, []byte(b.String()), 0o644)
		}
		for _, v := range fresh {
			fmt.Printf("%s: %s: %s [%s] %s\n", pos2(c.P, v.Pos), c.ID, v.Construct, v.Rule, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	}
	return code
}
