package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func ifaceOf(t types.Type) (*types.Interface, bool) {
	it, ok := t.Underlying().(*types.Interface)
	return it, ok
}

func typesImplements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

type solverRes struct {
	status string // unsat sat unknown timeout error
	out    string
	dt     float64
}

func runSolver(ctx context.Context, bin string, args []string, script string, limit time.Duration) solverRes {
	c, cancel := context.WithTimeout(ctx, limit+2*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	r := solverRes{out: s, dt: time.Since(t0).Seconds(), status: "timeout"}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			r.status = "error"
			return r
		}
		if l == "unsat" || l == "sat" || l == "unknown" {
			r.status = l
			return r
		}
	}
	return r
}

func z3script(s string, seed int) string {
	if seed == 0 {
		return s
	}
	return fmt.Sprintf("(set-option :smt.random_seed %d)\n", seed) + s
}

// z3old leaves out the option that z3 4.8.12 does not know.
func z3old(s string) string {
	return strings.Replace(s, "(set-option :smt.solve_eqs.non_ground false)\n", "", 1)
}

func cvcScript(s string) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(set-option :smt.") || strings.HasPrefix(l, "(set-option :type_check") {
			continue
		}
		b.WriteString(l + "\n")
	}
	return b.String()
}

type attempt struct {
	name  string
	bin   string
	args  []string
	limit time.Duration
	conv  func(string) string
}

func attempts(first, second time.Duration) []attempt {
	id := func(s string) string { return s }
	z := func(name, bin string, lim time.Duration, conv func(string) string) attempt {
		return attempt{name, bin, []string{"-in", fmt.Sprintf("-T:%d", int(lim.Seconds()+0.999))}, lim, conv}
	}
	plain := func(s string) string {
		return strings.Replace(strings.Replace(s, "(set-option :smt.case_split 3)\n", "", 1), "(set-option :smt.delay_units true)\n", "", 1)
	}
	seed := func(n int) func(string) string { return func(s string) string { return z3script(s, n) } }
	c := func(lim time.Duration) attempt {
		return attempt{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", lim.Milliseconds()), "-"}, lim, cvcScript}
	}
	short := func(d time.Duration) time.Duration {
		if d > first {
			return first
		}
		return d
	}
	// short attempts of each kind before long ones
	return []attempt{
		z("z3-5.3.2/light", "z3-new", short(2*time.Second), withoutHeavy),
		z("z3-5.3.2", "z3-new", short(3*time.Second), id),
		z("z3-5.3.2/light", "z3-new", short(4*time.Second), withoutHeavy),
		c(short(3 * time.Second)),
		z("z3-5.3.2/seed7", "z3-new", short(4*time.Second), seed(7)),
		z("z3-5.3.2/default-split", "z3-new", short(4*time.Second), plain),
		z("z3-5.3.2", "z3-new", first, id),
		c(second),
		z("z3-4.8.12", "z3", second, z3old),
		z("z3-5.3.2/seed23", "z3-new", second, seed(23)),
		z("z3-5.3.2/default-split", "z3-new", second, plain),
	}
}

var keepScripts = os.Getenv("GOVC_KEEP")

// solveAll discharges obligations in parallel.
func (v *Verifier) solveAll(obls []*Obl, first, second time.Duration, budget time.Duration) {
	type job struct {
		o *Obl
		s string
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	deadline := time.Now().Add(budget)
	var nfail int32
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if v.failFast > 0 && int(atomic.LoadInt32(&nfail)) >= v.failFast {
					j.o.Status, j.o.Solver, j.o.Model = "failed", "none", "not attempted: other obligations failed before"
					continue
				}
				solveOne(j.o, j.s, first, second, deadline)
				if j.o.Status != "proved" {
					atomic.AddInt32(&nfail, 1)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		if o.Goal == "true" {
			o.Status, o.Solver = "proved", "syntactic"
			continue
		}
		s := v.script(o.Func, o.Chain, o.Goal, "")
		if keepScripts != "" {
			os.MkdirAll(keepScripts, 0o755)
			os.WriteFile(filepath.Join(keepScripts, sym(o.ID)+".smt2"), []byte("; "+o.Name()+"\n"+s), 0o644)
		}
		jobs <- job{o, s}
	}
	close(jobs)
	wg.Wait()
}

// splitGoal breaks a goal into the conjuncts it consists of.
func splitGoal(g Term) []Term {
	g = strings.TrimSpace(g)
	switch {
	case strings.HasPrefix(g, "(and "):
		var out []Term
		for _, p := range sexprs(g[5 : len(g)-1]) {
			out = append(out, splitGoal(p)...)
		}
		return out
	case strings.HasPrefix(g, "(=> "):
		p := sexprs(g[4 : len(g)-1])
		if len(p) == 2 {
			var out []Term
			for _, q := range splitGoal(p[1]) {
				out = append(out, "(=> "+p[0]+" "+q+")")
			}
			return out
		}
	case strings.HasPrefix(g, "(forall "):
		// (forall VARS (! BODY :pattern ...)) or (forall VARS BODY)
		p := sexprs(g[8 : len(g)-1])
		if len(p) != 2 {
			break
		}
		body, tail, head := p[1], ")", "(forall "+p[0]+" "
		if strings.HasPrefix(body, "(! ") {
			q := sexprs(body[3 : len(body)-1])
			if len(q) < 1 {
				break
			}
			head += "(! "
			tail = " " + strings.Join(q[1:], " ") + "))"
			body = q[0]
		}
		bs := splitGoal(body)
		if len(bs) < 2 {
			break
		}
		var out []Term
		for _, q := range bs {
			out = append(out, head+q+tail)
		}
		return out
	}
	return []Term{g}
}

// sexprs are the expressions that a text lists.
func sexprs(s string) []string {
	var out []string
	depth, start := 0, -1
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				out = append(out, s[start:i+1])
				start = -1
			}
		case c == ' ' || c == '\n':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func solveOne(o *Obl, s string, first, second time.Duration, deadline time.Time) {
	parts := splitGoal(o.Goal)
	whole := "(assert (not " + o.Goal + "))"
	at := strings.LastIndex(s, whole)
	if len(parts) < 2 || at < 0 {
		solveScript(o, s, attempts(first, second), deadline)
		return
	}
	short := first
	if short > 8*time.Second {
		short = 8 * time.Second
	}
	solveScript(o, s, attempts(short, short)[:2], deadline)
	if o.Status == "proved" {
		return
	}
	for _, p := range parts {
		solveScript(o, s[:at]+"(assert (not "+p+"))"+s[at+len(whole):], attempts(first, second), deadline)
		if o.Status != "proved" {
			o.Model = "the part that is not proved: " + p + "\n" + o.Model
			return
		}
	}
	o.Solver += "/parts"
}

func solveScript(o *Obl, s string, as []attempt, deadline time.Time) {
	var last []string
	for i, a := range as {
		if i > 0 && time.Now().After(deadline) {
			last = append(last, "time budget used up")
			break
		}
		if strings.HasSuffix(a.name, "/light") && !strings.Contains(s, heavyMark) {
			continue
		}
		r := runSolver(context.Background(), a.bin, a.args, a.conv(s), a.limit)
		o.Time += r.dt
		if r.status == "unsat" {
			o.Status, o.Solver = "proved", a.name
			return
		}
		msg := r.out
		if len(msg) > 300 {
			msg = msg[:300]
		}
		last = append(last, fmt.Sprintf("%s: %s (%.1fs) %s", a.name, r.status, r.dt, strings.TrimSpace(msg)))
		if r.status == "error" {
			break
		}
	}
	o.Status = "failed"
	o.Solver = "none"
	o.Model = strings.Join(last, "\n")
}
