package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

func main() {
	dir := flag.String("dir", "/repo", "source tree")
	prop := flag.String("prop", "", "property ids, comma separated (all: every one)")
	out := flag.String("out", "", "evidence directory")
	kn := flag.String("known", "/verif/known_findings.txt", "known findings")
	dump := flag.String("dump", "", "pkg:func or pkg:Type:Method to dump the paths of")
	bound := flag.Int("bound", 0, "loop bound for -dump")
	opaque := flag.String("opaque", "", "callees kept as calls in -dump")
	extra := flag.String("extra", "", "packages to inline in -dump")
	spawned := flag.Bool("go", false, "also dump spawned goroutines")
	list := flag.Bool("list", false, "list properties")
	verbose := flag.Bool("v", false, "show obligations")
	funcs := flag.Bool("funcs", false, "list the functions of the module")
	batchf := flag.String("batch", "", "file of lines \"name TAB file TAB replacement\" for self-tests")
	over := flag.String("overlay", "", "file=replacement,... (relative to the tree) for self-tests")
	flag.Parse()
	var overlay map[string][]byte
	if *over != "" {
		overlay = map[string][]byte{}
		for _, kv := range strings.Split(*over, ",") {
			f := strings.SplitN(kv, "=", 2)
			b, err := os.ReadFile(f[1])
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			overlay[*dir+"/"+f[0]] = b
		}
	}
	start := time.Now()
	if *batchf != "" {
		runBatch(*dir, *batchf, *kn, *prop)
		return
	}
	if *list {
		for _, id := range propIDs() {
			p := props[id]
			fmt.Printf("%s\t%s\t%s\n", id, p.Method, p.Expl)
		}
		return
	}
	p, err := Load(*dir, overlay)
	if err != nil {
		fmt.Println("load:", err)
		if *prop != "" && *prop != "all" {
			// undecided: nothing can be said about a program that cannot be read
			for _, id := range strings.Split(*prop, ",") {
				rp := "-"
				if *out != "" {
					rp = *out + "/" + id + ".violation.txt"
					os.MkdirAll(*out, 0o755)
					os.WriteFile(rp, []byte("undecided: "+err.Error()+"\n"), 0o644)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			}
			os.Exit(1)
		}
		os.Exit(2)
	}
	if *funcs {
		for _, fn := range p.Fns {
			fmt.Println(fnName(fn))
		}
		return
	}
	if *dump != "" {
		f := strings.Split(*dump, ":")
		fn := p.Func(f[0], f[1])
		if len(f) == 3 {
			fn = p.Method(f[0], f[1], f[2])
		}
		opt := WalkOpts{LoopBound: *bound}
		if *opaque != "" {
			opt.Opaque = strings.Split(*opaque, ",")
		}
		if *extra != "" {
			opt.Extra = strings.Split(*extra, ",")
		}
		w := p.Walk(fn, opt)
		fmt.Println(fn, len(w.Paths), w.Trunc, w.steps)
		for _, pa := range w.Paths {
			fmt.Println(pa.Dump(p))
		}
		if *spawned {
			for _, g := range w.Spawned() {
				gw := w.WalkGo(g, opt)
				fmt.Println("GO", g.GoFn, len(gw.Paths), gw.Trunc, gw.steps)
				for _, pa := range gw.Paths {
					fmt.Println(pa.Dump(p))
				}
			}
		}
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = propIDs()
	}
	worst := 0
	for _, id := range ids {
		t0 := start
		if len(ids) > 1 {
			t0 = time.Now()
		}
		pr := props[id]
		if pr == nil {
			fmt.Println("no such property", id)
			os.Exit(2)
		}
		c := NewCheck(p, id)
		c.Deep = tier == "thorough"
		run(c, pr)
		code := c.Finish(*out, tier, seed, t0, *kn, pr.Expl, pr.Assume)
		if *verbose || len(ids) > 1 {
			fmt.Printf("%s: %d obligations, %d violations, %d walks, %d paths, %v\n", id, len(c.Obl), len(c.Viols), c.Walks, c.Paths, time.Since(t0).Round(time.Millisecond))
		}
		if *verbose {
			for _, r := range c.rules {
				fmt.Printf("  rule %s: %s\n", r, c.Rules[r])
				for k, n := range c.Obl {
					if strings.HasPrefix(k, r+" | ") {
						fmt.Printf("    %-60s x%d\n", strings.TrimPrefix(k, r+" | "), n)
					}
				}
			}
			for _, v := range c.Viols {
				fmt.Println(v.Rule, v.Construct, v.Detail)
				fmt.Println(v.Trace)
			}
		}
		if code > worst {
			worst = code
		}
	}
	os.Exit(worst)
}

// run executes the rules of a property; a crash of the checker leaves it undecided.
func run(c *Check, pr *Prop) {
	defer func() {
		if r := recover(); r != nil {
			c.Rule("analysis", "the analysis of the property completes")
			c.Viol("analysis", "checker", 0, fmt.Sprintf("undecided: %v\n%s", r, debug.Stack()), nil)
		}
	}()
	pr.Run(c)
}
