package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// CheckConf says what decides a property.
type CheckConf struct {
	Funcs   []string `json:"funcs"`            // functions whose contracts state the property
	Lemmas  []string `json:"lemmas,omitempty"` // lemmas that state the property over those contracts
	Search  string   `json:"search"`           // package of the replay harness
	Assume  []string `json:"assume,omitempty"` // assumptions left unchecked
	Level   string   `json:"level,omitempty"`  // proof unless part of the property is only checked within bounds
	Note    string   `json:"note,omitempty"`
	Race    bool     `json:"race,omitempty"`    // the replay harness runs under the race detector
	Bounded []string `json:"bounded,omitempty"` // what the bounded stand-in covers; it runs on every check
}

type checkRun struct {
	v        *Verifier
	id       string
	conf     *CheckConf
	funcs    []string
	lemmas   []string
	sfuncs   []string
	deadline time.Time
	tier     string
}

func loadSpec(dir string) (spec *Spec, err error) {
	spec = newSpec()
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("contract error: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	for _, f := range files {
		spec.parseFile(f)
	}
	return spec, nil
}

// generate makes the obligations of the property: its functions, every
// contract they rely on, and every lemma and function used in the proofs.
func (c *checkRun) generate() {
	v := c.v
	done := map[string]bool{}
	queue := append([]string(nil), c.conf.Funcs...)
	stated := map[string]bool{}
	for _, f := range queue {
		stated[f] = true
	}
	for {
		for len(queue) > 0 {
			f := queue[0]
			queue = queue[1:]
			if done[f] {
				continue
			}
			done[f] = true
			c.funcs = append(c.funcs, f)
			fn := v.allFns[f]
			if fn == nil {
				v.obls = append(v.obls, &Obl{Func: f, Kind: "contract", Desc: "no such function in the source", Goal: "false", Status: "failed", Solver: "govc", ID: f + "#0"})
				continue
			}
			spec := v.specOf(fn)
			if spec == nil {
				v.obls = append(v.obls, &Obl{Func: f, Kind: "contract", Desc: "function without a contract", Goal: "false", Status: "failed", Solver: "govc", ID: f + "#0"})
				continue
			}
			n := len(v.obls)
			v.VerifyFunc(fn, spec)
			if len(v.obls) == n && stated[f] {
				v.obls = append(v.obls, &Obl{Func: f, Kind: "contract", Desc: "no obligation generated", Goal: "false", Status: "failed", Solver: "govc", ID: f + "#0"})
			}
			for _, ch := range v.returns {
				v.covers = append(v.covers, &Obl{Func: v.curFunc, Kind: "cover", Desc: "the end of " + f + " is reachable", Goal: "false", Chain: ch, ID: fmt.Sprintf("%s#r%d", f, len(v.covers))})
			}
			used := sortedKeys(v.usedContract)
			queue = append(queue, used...)
		}
		// functions that touch what a guard of the property protects
		for _, fn := range v.guardSweep(c.id, done) {
			f := fn.Pkg.Pkg.Name() + "." + v.fnName(fn)
			done[f] = true
			c.funcs = append(c.funcs, f)
			spec := v.specOf(fn)
			if spec == nil {
				spec = &FuncSpec{Pkg: fn.Pkg.Pkg.Name(), Name: v.fnName(fn), Loops: map[string]*LoopSpec{}}
			}
			v.VerifyFunc(fn, spec)
			queue = append(queue, sortedKeys(v.usedContract)...)
		}
		if len(queue) == 0 {
			break
		}
	}
}

// lemmaClosure adds the obligations of the lemmas and functions the proofs used.
func (c *checkRun) lemmaClosure(solve func([]*Obl)) {
	v := c.v
	doneL, doneF := map[string]bool{}, map[string]bool{}
	for _, l := range c.conf.Lemmas {
		v.usedLemmas[l] = true
	}
	for {
		n := len(v.obls)
		again := false
		for _, l := range v.spec.LOrder {
			if v.usedLemmas[l.Name] && !doneL[l.Name] {
				doneL[l.Name] = true
				again = true
				if l.Axiom {
					continue
				}
				c.lemmas = append(c.lemmas, l.Name)
				v.VerifyLemma(l)
			}
		}
		for _, l := range c.conf.Lemmas {
			if v.spec.Lemmas[l] == nil && !doneL[l] {
				doneL[l] = true
				v.obls = append(v.obls, &Obl{Func: "lemma " + l, Kind: "contract", Desc: "no such lemma", Goal: "false", Status: "failed", Solver: "govc", ID: l})
			}
		}
		for _, f := range v.spec.SOrder {
			if v.usedFuncs[f.Name] && !doneF[f.Name] {
				doneF[f.Name] = true
				again = true
				c.sfuncs = append(c.sfuncs, f.Name)
				v.VerifySpecFunc(f)
			}
		}
		solve(v.obls[n:])
		if !again {
			return
		}
	}
}

// vacuity: for every function under contract at least one path to its end
// must not be refuted, else its contract would hold for no reason.
func (c *checkRun) vacuity() (checked int, bad []*Obl) {
	v := c.v
	byF := map[string][]*Obl{}
	var order []string
	for _, o := range v.covers {
		if byF[o.Func] == nil {
			order = append(order, o.Func)
		}
		byF[o.Func] = append(byF[o.Func], o)
	}
	type res struct {
		o  *Obl
		ok bool
	}
	out := make([]res, len(order))
	scripts := make([][]string, len(order))
	for i, f := range order {
		l := byF[f]
		// the first, the last and one in the middle, then the rest
		pick := []*Obl{l[len(l)-1]}
		if len(l) > 1 {
			pick = append(pick, l[0])
		}
		for _, o := range l {
			if len(pick) < 8 && o != l[0] && o != l[len(l)-1] {
				pick = append(pick, o)
			}
		}
		for _, o := range pick {
			scripts[i] = append(scripts[i], v.script(o.Func, o.Chain, "false", ""))
		}
		out[i].o = l[0]
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range order {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			for _, s := range scripts[i] {
				refuted := false
				lim := 2
				if c.tier == "thorough" {
					lim = 20
				}
				for _, b := range []string{"z3-new", "z3"} {
					t := s
					if b == "z3" {
						t = z3old(s)
					}
					r := runSolver(context.Background(), b, []string{"-in", fmt.Sprintf("-T:%d", lim)}, t, time.Duration(lim)*time.Second)
					if r.status == "unsat" || r.status == "error" {
						refuted = true
						break
					}
				}
				if !refuted {
					out[i].ok = true
					return
				}
			}
		}(i)
	}
	wg.Wait()
	for _, r := range out {
		if !r.ok {
			bad = append(bad, r.o)
		}
	}
	return len(order), bad
}

func checkMain(repo, dir string, args []string) int {
	t0 := time.Now()
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	root := filepath.Dir(dir)
	confs := map[string]*CheckConf{}
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &confs)
	}
	conf := confs[id]
	if err != nil || conf == nil {
		fmt.Println("no configuration for", id, err)
		return 2
	}
	spec, err := loadSpec(dir)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	prog, ps, _, err := loadProgram(repo)
	var v *Verifier
	c := &checkRun{id: id, conf: conf, tier: tier}
	var failed []*Obl
	var vac int
	to1, to2, budget := 20*time.Second, 20*time.Second, 240*time.Second
	if tier == "thorough" {
		to1, to2, budget = 30*time.Second, 60*time.Second, 40*time.Minute
	}
	stab := 0
	if err != nil {
		fmt.Println("cannot load the source:", err)
		failed = append(failed, &Obl{Func: "source", Kind: "load", Desc: err.Error(), Status: "failed"})
		v = newVerifier(spec, nil, nil)
		c.v = v
	} else {
		v = newVerifier(spec, prog, ps)
		c.v = v
		v.slice = id
		v.slices[id] = true
		v.failFast = 12
		c.generate()
		end := time.Now().Add(budget)
		solve := func(o []*Obl) {
			left := time.Until(end)
			v.solveAll(o, to1, to2, left)
		}
		solve(v.obls)
		c.lemmaClosure(solve)
		var bad []*Obl
		vac, bad = c.vacuity()
		for _, o := range bad {
			failed = append(failed, &Obl{Func: o.Func, Kind: "vacuity", Desc: "no path to the end of the function satisfies its assumptions", Status: "failed", ID: o.ID})
		}
		for _, o := range v.obls {
			if o.Status != "proved" {
				failed = append(failed, o)
			}
		}
	}
	fmt.Printf("%s: %d functions, %d lemmas, %d obligations, %d not proved, %.1fs\n", id, len(c.funcs), len(c.lemmas), len(v.obls), len(failed), time.Since(t0).Seconds())
	for i, o := range failed {
		if i < 20 {
			fmt.Printf("not proved: %s\n", o.Name())
		}
	}
	// replay of failures against the real code
	var sr *searchResult
	{
		// with no failure and nothing bounded, a short run that cross-checks the
		// assumed contracts against the real code
		d := 8 * time.Second
		if len(conf.Bounded) > 0 {
			d = 40 * time.Second
		}
		if len(failed) > 0 {
			d = 150 * time.Second
		}
		if tier == "thorough" {
			d = 600 * time.Second
		}
		sr = runSearch(repo, root, id, conf.Search, conf.Race, seed, d)
		fmt.Printf("%s: %d cases run against the real code in %.1fs\n", id, sr.Cases, sr.Wall)
	}
	viol := 0
	status := 0
	if sr != nil && sr.Found || len(failed) > 0 {
		viol = 1
		status = 1
		rp := filepath.Join(root, "replays", id+".txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var w bytes.Buffer
		fmt.Fprintf(&w, "property %s\n", id)
		for _, o := range failed {
			fmt.Fprintf(&w, "\nobligation not proved: %s\n  id %s\n  path %s\n  solvers:\n    %s\n", o.Name(), o.ID, strings.Join(o.Trace, " "), strings.ReplaceAll(o.Model, "\n", "\n    "))
		}
		if sr != nil && sr.Found {
			fmt.Fprintf(&w, "\nfailing input against the real code:\n%s\n\nto replay: cd %s && VERIF_SEED=%d VERIF_CASE=%d %s/replay.sh %s\n", sr.Desc, repo, seed, sr.Case, root, id)
		} else if sr != nil {
			fmt.Fprintf(&w, "\nno failing input found in %d cases\n%s\n", sr.Cases, sr.Desc)
		}
		os.WriteFile(rp, w.Bytes(), 0o644)
		if sr != nil && sr.Found {
			fmt.Println(sr.Desc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
		}
	}
	// evidence
	bySolver := map[string]int{}
	tot := 0.0
	disch := 0
	byFunc := map[string]int{}
	for _, o := range v.obls {
		if o.Status == "proved" {
			disch++
			bySolver[o.Solver]++
			byFunc[o.Func]++
		}
		tot += o.Time
	}
	var trusted []string
	trusted = append(trusted,
		"govc, the verification condition generator in /verif/govc (symbolic execution of golang.org/x/tools go/ssa; heap, string, slice and interface semantics as in DESIGN.md)",
		"z3 5.3.2 (z3-new), z3 4.8.12, cvc5 1.1.2", "the go/ssa front end and the Go compiler")
	for _, e := range sortedKeys(v.usedExtern) {
		trusted = append(trusted, "assumed contract of external function "+e)
	}
	for _, l := range spec.LOrder {
		if l.Axiom && v.usedLemmas[l.Name] {
			trusted = append(trusted, "axiom "+l.Name)
		}
	}
	sort.Strings(c.funcs)
	cov := map[string]interface{}{
		"obligations":              len(v.obls),
		"discharged":               disch,
		"checker_cmd":              "bin/govc check " + id + " (contracts/*.vc against /repo)",
		"trusted_base":             trusted,
		"functions_under_contract": c.funcs,
		"functions_inlined":        sortedKeys(v.inlined),
		"lemmas_proved":            c.lemmas,
		"spec_functions":           c.sfuncs,
		"discharged_by":            bySolver,
		"discharged_per_function":  byFunc,
		"solver_s":                 tot,
		"reachability_checks":      vac,
	}
	if stab > 0 {
		cov["restability"] = stab
	}
	if sr != nil {
		cov["bounded_cases_run"] = sr.Cases
	}
	if len(conf.Bounded) > 0 {
		cov["bounded_not_proved"] = conf.Bounded
	}
	assume := append([]string{
		"lengths of strings and slices are at most 2^47 and memory and stack do not run out",
		"no data race: one goroutine uses a document at a time",
	}, conf.Assume...)
	for n := range v.notes {
		assume = append(assume, n)
	}
	level := conf.Level
	if level == "" {
		level = "proof"
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(eb, '\n'), 0o644)
	if status == 0 {
		printKnown(root, id)
		fmt.Printf("OK property=%s %d obligations discharged\n", id, disch)
	}
	return status
}

// printKnown lists the recorded findings of a property.
func printKnown(root, id string) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "known: "))
		}
	}
}

type searchResult struct {
	Found bool
	Cases int
	Case  int
	Desc  string
	Wall  float64
}

// runSearch runs the property's oracle on generated inputs against the real code.
func runSearch(repo, root, id, pkg string, race bool, seed int, d time.Duration) *searchResult {
	t0 := time.Now()
	r := &searchResult{}
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "verif-search")
	if err != nil {
		r.Desc = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "search.test")
	mk := func(flags string) ([]byte, error) {
		build := exec.Command(filepath.Join(root, "search.sh"), pkg, bin)
		build.Env = append(os.Environ(), "VERIF_TMP="+tmp, "VERIF_REPO="+repo, "VERIF_GOTEST="+flags)
		return build.CombinedOutput()
	}
	flags := os.Getenv("VERIF_GOTEST")
	if race {
		flags = "-race"
	}
	out, err := mk(flags)
	if err != nil && race {
		// no cgo: without the race detector
		out, err = mk("")
	}
	if err != nil {
		r.Desc = "search harness does not build: " + string(out)
		return r
	}
	type one struct {
		found bool
		cases int
		kase  int
		desc  string
	}
	const workers = 8
	res := make([]one, workers)
	ctx, cancel := context.WithTimeout(context.Background(), d+20*time.Second)
	defer cancel()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			status := filepath.Join(tmp, fmt.Sprintf("status%d", w))
			wd := filepath.Join(tmp, fmt.Sprintf("wd%d", w))
			os.MkdirAll(wd, 0o755)
			cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifSearch$", "-test.timeout", "0")
			cmd.Dir = wd
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.Env = append(os.Environ(), "VERIF_PROP="+id, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_WORKER=%d", w), fmt.Sprintf("VERIF_WORKERS=%d", workers), fmt.Sprintf("VERIF_SECONDS=%d", int(d.Seconds())), "VERIF_STATUS="+status, "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66")
			var out bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &out
			err := cmd.Run()
			sc := bufio.NewScanner(bytes.NewReader(out.Bytes()))
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			o := &res[w]
			var desc []string
			in := false
			for sc.Scan() {
				l := sc.Text()
				if strings.HasPrefix(l, "VERIF-CASES ") {
					o.cases, _ = strconv.Atoi(l[12:])
				}
				if strings.HasPrefix(l, "VERIF-FOUND ") {
					o.found = true
					o.kase, _ = strconv.Atoi(l[12:])
					in = true
					continue
				}
				if l == "VERIF-END" {
					in = false
				}
				if in {
					desc = append(desc, l)
				}
			}
			o.desc = strings.Join(desc, "\n")
			if err != nil && !o.found && ctx.Err() == nil {
				// the process died: a fatal error of the code under test
				s := out.String()
				if len(s) > 2000 {
					s = s[:2000]
				}
				if st, e := os.ReadFile(status); e == nil && len(st) > 0 && strings.Contains(s, "fatal error") || strings.Contains(s, "goroutine") {
					o.found = true
					o.kase, _ = strconv.Atoi(strings.TrimSpace(string(st)))
					o.desc = "case " + strings.TrimSpace(string(st)) + " ends the process:\n" + s
				} else {
					o.desc = "search process failed: " + err.Error() + "\n" + s
				}
			}
			if o.found {
				cancel()
			}
		}(w)
	}
	wg.Wait()
	for _, o := range res {
		r.Cases += o.cases
		if o.found && (!r.Found || o.kase < r.Case) {
			r.Found, r.Case, r.Desc = true, o.kase, o.desc
		}
		if !r.Found && o.desc != "" {
			r.Desc = o.desc
		}
	}
	return r
}

var _ = token.NoPos
