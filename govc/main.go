package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func tokenPos(i int) token.Pos { return token.Pos(i) }

func main() {
	var (
		repo   = flag.String("repo", "/repo", "repository")
		dir    = flag.String("contracts", "/verif/contracts", "contract files")
		fns    = flag.String("f", "", "functions to verify (comma separated, pkg.name)")
		lems   = flag.String("l", "", "lemmas to verify (comma separated)")
		slice  = flag.String("slice", "", "property slice")
		to     = flag.Int("t", 10, "first timeout (s)")
		verb   = flag.Bool("v", false, "list every obligation")
		loopsF = flag.String("loops", "", "list the loops of a function")
		only   = flag.String("only", "", "only obligations whose name contains this")
	)
	flag.Parse()
	if flag.NArg() > 0 && flag.Arg(0) == "check" {
		os.Exit(checkMain(*repo, *dir, flag.Args()[1:]))
	}
	spec := newSpec()
	files, _ := filepath.Glob(filepath.Join(*dir, "*.vc"))
	sort.Strings(files)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specErr); ok {
					fmt.Println("contract error:", e.msg)
					os.Exit(2)
				}
				panic(r)
			}
		}()
		for _, f := range files {
			spec.parseFile(f)
		}
	}()
	prog, ps, _, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	v := newVerifier(spec, prog, ps)
	if *loopsF != "" {
		fn := v.allFns[*loopsF]
		li := v.loopsOf(fn)
		for _, l := range li.order {
			fmt.Println(l.key, prog.Fset.Position(tokenPos(loopPos(l)/4096)), l.header.Index)
		}
		if li.bad != "" {
			fmt.Println(li.bad)
		}
		return
	}
	v.slice = *slice
	if *slice != "" {
		for _, s := range strings.Split(*slice, ",") {
			v.slices[s] = true
		}
	}
	t0 := time.Now()
	for _, f := range strings.Split(*fns, ",") {
		if f == "" {
			continue
		}
		fn := v.allFns[f]
		if fn == nil {
			fmt.Println("no function", f)
			for k := range v.allFns {
				if strings.Contains(k, f) {
					fmt.Println("  have", k)
				}
			}
			os.Exit(2)
		}
		n := len(v.obls)
		v.VerifyFunc(fn, v.specOf(fn))
		fmt.Printf("%s: %d obligations, %d blocks\n", f, len(v.obls)-n, v.steps)
	}
	for _, l := range strings.Split(*lems, ",") {
		if l == "" {
			continue
		}
		if l == "all" {
			for _, x := range spec.LOrder {
				if !x.Axiom {
					v.VerifyLemma(x)
				}
			}
			for _, f := range spec.SOrder {
				v.VerifySpecFunc(f)
			}
			continue
		}
		if spec.Lemmas[l] == nil {
			fmt.Println("no lemma", l)
			os.Exit(2)
		}
		v.VerifyLemma(spec.Lemmas[l])
	}
	obls := v.obls
	if *only != "" {
		obls = nil
		for _, o := range v.obls {
			if strings.Contains(o.Name(), *only) || strings.Contains(o.ID, *only) {
				obls = append(obls, o)
			}
		}
	}
	fmt.Printf("generated %d obligations in %.1fs\n", len(obls), time.Since(t0).Seconds())
	t0 = time.Now()
	v.solveAll(obls, time.Duration(*to)*time.Second, time.Duration(*to)*time.Second, 10*time.Minute)
	bad := 0
	tot := 0.0
	for _, o := range obls {
		tot += o.Time
		if o.Status != "proved" {
			bad++
			fmt.Printf("FAILED %s %s\n    %s\n    path %s\n", o.ID, o.Name(), strings.ReplaceAll(o.Model, "\n", "\n    "), strings.Join(o.Trace, " "))
		} else if *verb {
			fmt.Printf("ok     %s %s [%s %.2fs]\n", o.ID, o.Name(), o.Solver, o.Time)
		}
	}
	var slow []*Obl
	slow = append(slow, obls...)
	sort.Slice(slow, func(i, j int) bool { return slow[i].Time > slow[j].Time })
	for i := 0; i < 5 && i < len(slow); i++ {
		if slow[i].Time > 1 {
			fmt.Printf("slow %.1fs %s %s\n", slow[i].Time, slow[i].ID, slow[i].Name())
		}
	}
	fmt.Printf("%d proved, %d failed; solver %.1fs, wall %.1fs\n", len(obls)-bad, bad, tot, time.Since(t0).Seconds())
	for _, n := range sortedKeys(v.notes) {
		fmt.Println("note:", n)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
