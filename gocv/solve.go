package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name  string
	args  func(sec int) []string
	plain bool // trigger marks replaced by true
}

var markDecl = regexp.MustCompile(`\(declare-fun (\|?mark\.\w+\|?) \((\w+)\) Bool\)`)

func z3args(extra ...string) func(int) []string {
	return func(s int) []string {
		return append([]string{"-in", "-smt2", fmt.Sprintf("-T:%d", s)}, extra...)
	}
}

func cvc5args(extra ...string) func(int) []string {
	return func(s int) []string {
		return append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000)}, extra...)
	}
}

var solvers = []solverCfg{
	{"z3-new:ematch", z3args("auto_config=false", "smt.mbqi=false"), false},
	{"z3-new", z3args(), false},
	{"cvc5", cvc5args("--full-saturate-quant"), false},
	{"z3-new:unmarked", z3args(), true},
	{"cvc5:unmarked", cvc5args("--full-saturate-quant"), true},
	{"z3:ematch", z3args("auto_config=false", "smt.mbqi=false"), false},
	{"z3", z3args(), false},
	{"z3-new:relevancy0", z3args("auto_config=false", "smt.mbqi=false", "smt.relevancy=0"), false},
	{"z3-new:seed", z3args("smt.random_seed=7", "smt.qi.eager_threshold=100"), false},
}

var dumpDir string

// after deadline only the quick attempt is made
var deadline time.Time

func runSolver(ctx context.Context, sc solverCfg, query string, sec int) (string, string) {
	bin := sc.name
	if i := strings.IndexByte(bin, ':'); i > 0 {
		bin = bin[:i]
	}
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, sc.args(sec)...)
	cmd.Stdin = strings.NewReader(query)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		return first, s
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "timeout") && !strings.Contains(s, "interrupted") {
		if strings.Contains(s, "model is not available") {
			return "unknown", s
		}
		return "error", s
	}
	return "unknown", s
}

// solveQuery decides one query with a portfolio; quick first.
func solveQuery(query, getvals string, quick, slow int) (res, solver, out string, secs float64) {
	t0 := time.Now()
	r, o := "unknown", ""
	if quick > 0 {
		r, o = runSolver(context.Background(), solvers[0], query+getvals, quick)
	}
	marked := markDecl.MatchString(query) // a model of the marked query says nothing
	if r == "sat" && marked {
		r = "unknown"
	}
	if r == "unsat" || r == "sat" {
		return r, solvers[0].name, o, time.Since(t0).Seconds()
	}
	firstErr := ""
	if r == "error" {
		firstErr = o
	}
	if slow <= 0 {
		return r, solvers[0].name, o, time.Since(t0).Seconds()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ r, s, o string }
	ch := make(chan ans, len(solvers))
	plain := markDecl.ReplaceAllString(query, "(define-fun $1 ((x $2)) Bool true)")
	for _, s := range solvers {
		s, query := s, query
		if s.plain {
			query = plain
		}
		go func() {
			r, o := runSolver(ctx, s, query+getvals, slow)
			if r == "sat" && marked && !s.plain {
				r = "unknown"
			}
			ch <- ans{r, s.name, o}
		}()
	}
	best := ans{"unknown", "", ""}
	for range solvers {
		a := <-ch
		if a.r == "unsat" {
			return a.r, a.s, a.o, time.Since(t0).Seconds()
		}
		if a.r == "sat" {
			best = a
			break
		}
		if a.r == "error" && firstErr == "" {
			firstErr = a.o
		}
	}
	if best.r == "unknown" && firstErr != "" {
		best = ans{"error", "", firstErr}
	}
	return best.r, best.s, best.o, time.Since(t0).Seconds()
}

type job struct {
	u                *UnitResult
	o                *Obligation
	q                string
	gv               string
	res, solver, out string
	hyps             []*Term // of the split goal
	goal             *Term
}

// solvePass tries the jobs and returns those still undecided.
func solvePass(jobs []*job, par, quick, slow int) []*job {
	var wg sync.WaitGroup
	var mu sync.Mutex
	ch := make(chan *job)
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				sl := slow
				if !deadline.IsZero() {
					if left := int(time.Until(deadline).Seconds()); left < sl {
						sl = left
					}
				}
				if quick == 0 && sl <= 0 {
					continue
				}
				r, s, out, secs := solveQuery(j.q, j.gv, quick, sl)
				mu.Lock()
				j.o.Secs += secs
				j.res, j.solver, j.out = r, s, clip(out, 4000)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	var left []*job
	for _, j := range jobs {
		if j.res != "unsat" && j.res != "sat" {
			left = append(left, j)
		}
	}
	return left
}

// build makes the query of one goal.
func (j *job) build() {
	if j.q != "" {
		return
	}
	u, o := j.u, j.o
	ts := append(append([]*Term{}, u.Facts...), o.Hyps...)
	ts = append(ts, j.hyps...)
	ts = append(ts, Not(j.goal))
	for i := range ts {
		ts[i] = elimAlt(ts[i])
	}
	ts = append(relevant(u.Axioms, ts), ts...)
	q := SMT(ts, nil)
	gv := ""
	if len(o.Watch) > 0 {
		gv = "(get-value ("
		for _, w := range o.Watch {
			gv += " " + pr(w, nil)
		}
		gv += "))\n"
		// only variables that occur
		if !allDeclared(q, o.Watch) {
			q = SMT2(ts, o.Watch)
		}
	}
	j.q, j.gv = q, gv
}

// solveGroups tries goals that have the same hypotheses in one query; it returns the jobs it left undecided.
func solveGroups(jobs []*job, par int) []*job {
	sameHyps := func(a, b *job) bool {
		if a.u != b.u || len(a.o.Hyps) != len(b.o.Hyps) {
			return false
		}
		for i := range a.o.Hyps {
			if a.o.Hyps[i] != b.o.Hyps[i] {
				return false
			}
		}
		return true
	}
	var groups []*job
	members := map[*job][]*job{}
	var left []*job
	for i := 0; i < len(jobs); {
		k := i + 1
		for k < len(jobs) && k-i < 12 && sameHyps(jobs[i], jobs[k]) {
			k++
		}
		if k-i == 1 {
			left = append(left, jobs[i])
			i = k
			continue
		}
		u := jobs[i].u
		ts := append(append([]*Term{}, u.Facts...), jobs[i].o.Hyps...)
		var neg []*Term
		for _, j := range jobs[i:k] {
			neg = append(neg, And(append(append([]*Term{}, j.hyps...), Not(j.goal))...))
		}
		ts = append(ts, Or(neg...))
		for n := range ts {
			ts[n] = elimAlt(ts[n])
		}
		ts = append(relevant(u.Axioms, ts), ts...)
		g := &job{u: u, o: &Obligation{}, q: SMT(ts, nil)}
		groups = append(groups, g)
		members[g] = jobs[i:k]
		i = k
	}
	solvePass(groups, par, 2, 0)
	for _, g := range groups {
		ms := members[g]
		for _, j := range ms {
			if g.res == "unsat" {
				j.res, j.solver = "unsat", g.solver
				j.o.Secs += g.o.Secs / float64(len(ms))
			} else {
				left = append(left, j)
			}
		}
	}
	return left
}

// discharge solves all obligations of the units in parallel.
func discharge(us []*UnitResult, par, quick, slow int) {
	var jobs []*job
	n := 0
	for _, u := range us {
		for _, o := range u.Obls {
			if o.Trivial {
				o.Result, o.Solver = "unsat", "simplifier"
				continue
			}
			if o.Goal == TTrue {
				o.Result, o.Solver, o.Trivial = "unsat", "simplifier", true
				continue
			}
			for _, sq := range splitGoal(o.Goal, nil, 0) {
				n++
				jobs = append(jobs, &job{u: u, o: o, hyps: sq.hyps, goal: sq.goal})
			}
			if o.Result == "" {
				o.Result, o.Solver = "unsat", "simplifier"
			}
		}
	}
	// First one fast solver on everything, then the whole portfolio on what is left with
	// few queries at a time, then the stubborn ones alone.
	left := solveGroups(jobs, par)
	for _, j := range left {
		j.build()
	}
	left = solvePass(left, par, quick, 0)
	if slow > 0 {
		left = solvePass(left, (par+2)/3, 0, slow)
		if len(left) <= 6 {
			left = solvePass(left, 1, 0, 2*slow)
		}
	}
	for _, j := range jobs {
		if dumpDir != "" && os.Getenv("GOCV_DUMPALL") != "" {
			j.build()
			os.MkdirAll(dumpDir, 0o755)
			os.WriteFile(filepath.Join(dumpDir, sanitize(j.u.Contract.Func+"_"+j.o.Name+"_"+fmt.Sprint(len(j.q)))+".smt2"), []byte(j.q), 0o644)
		}
		if j.res == "unsat" {
			if j.o.Result == "" || j.o.Result == "unsat" {
				j.o.Result, j.o.Solver = "unsat", j.solver
			}
			continue
		}
		if j.o.Result == "" || j.o.Result == "unsat" || j.res == "sat" {
			j.o.Result, j.o.Solver, j.o.Model = j.res, j.solver, j.out
		}
		if dumpDir != "" {
			os.MkdirAll(dumpDir, 0o755)
			os.WriteFile(filepath.Join(dumpDir, sanitize(j.u.Contract.Func+"_"+j.o.Name+"_"+fmt.Sprint(len(j.q)))+".smt2"), []byte(j.q+j.gv), 0o644)
		}
	}
	for _, u := range us {
		for _, o := range u.Obls {
			if o.Result != "unsat" {
				u.Failed = append(u.Failed, o)
			}
			u.Secs += o.Secs
		}
	}
}

func allDeclared(q string, ws []*Term) bool {
	for _, w := range ws {
		ok := true
		collect([]*Term{w}, func(t *Term) {
			if t.op == "var" && !strings.Contains(q, "(declare-fun "+symq(t.name)+" ") {
				ok = false
			}
			if t.op == "uf" && !strings.Contains(q, "(declare-fun "+symq(t.name)+" ") {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return true
}

// SMT2 renders a query that also declares the watched terms' symbols.
func SMT2(ts []*Term, ws []*Term) string {
	var extra []*Term
	for _, w := range ws {
		extra = append(extra, Or(Eq(w, w), TTrue))
		v := Fresh("watch", w.sort)
		extra = append(extra, Eq(v, w))
	}
	return SMT(append(append([]*Term{}, ts...), extra...), nil)
}

// vacDeep: try the other solvers as well
var vacDeep bool

// vacuity: the hypotheses at entry, in loops and at returns must not be contradictory.
func vacuity(us []*UnitResult, par, sec int) {
	type vj struct {
		u     *UnitResult
		name  string
		q     string
		unsat bool
	}
	var jobs []*vj
	for _, u := range us {
		for _, r := range u.Reach {
			ts := append(append([]*Term{}, u.Facts...), r.hyps...)
			for i := range ts {
				ts[i] = elimAlt(ts[i])
			}
			ts = append(relevant(u.Axioms, ts), ts...)
			jobs = append(jobs, &vj{u: u, name: r.name, q: SMT(ts, nil)})
		}
	}
	var wg sync.WaitGroup
	ch := make(chan *vj)
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r, _ := runSolver(context.Background(), solvers[0], j.q, sec)
				j.unsat = r == "unsat"
				if vacDeep {
					for _, sc := range []int{1, 2, 6, 7, 8} {
						if !j.unsat {
							r, _ := runSolver(context.Background(), solvers[sc], j.q, sec)
							j.unsat = r == "unsat"
						}
					}
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, u := range us {
		allRet, nRet := true, 0
		for _, j := range jobs {
			if j.u != u {
				continue
			}
			if j.name == "entry" && j.unsat {
				u.Vacuous = append(u.Vacuous, "entry")
			}
			if strings.HasPrefix(j.name, "return") {
				nRet++
				if !j.unsat {
					allRet = false
				}
			}
		}
		if nRet > 0 && allRet {
			u.Vacuous = append(u.Vacuous, "all returns")
		}
	}
}

var modelNum = regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)
