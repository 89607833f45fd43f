package main

import (
	"context"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

var verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv prove|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		proveCmd(os.Args[2:])
	case "axioms":
		os.Exit(axiomsCmd(os.Args[2:]))
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "harness":
		harnessCmd(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

// proveCmd: development command; proves functions matching a substring.
func proveCmd(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	verbose := fs.Bool("v", false, "list all obligations")
	dump := fs.String("dump", "", "directory for failed queries")
	quick := fs.Int("quick", 5, "")
	slow := fs.Int("slow", 20, "")
	spec := fs.String("spec", verifDir+"/contracts", "")
	vac := fs.Bool("vac", false, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.BoolVar(&debugPanics, "panic", false, "")
	fs.Parse(args)
	dumpDir = *dump
	if p := os.Getenv("GOCV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	dir, _ := os.MkdirTemp("", "gocv")
	defer os.RemoveAll(dir)
	env, err := workspaceEnv(dir)
	if err != nil {
		panic(err)
	}
	prog, err := Load(env)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	specs, err := LoadSpecs(*spec)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var us []*UnitResult
	for _, n := range sortedKeys(specs.Contracts) {
		c := specs.Contracts[n]
		if c.Kind != "func" && c.Kind != "interface" {
			continue
		}
		hit := fs.NArg() == 0
		for _, a := range fs.Args() {
			if strings.Contains(n, a) {
				hit = true
			}
			for _, p := range c.Props {
				if p == a {
					hit = true
				}
			}
		}
		if hit {
			t0 := time.Now()
			if c.Kind == "interface" {
				us = append(us, genRefines(prog, specs, c)...)
				continue
			}
			u := genUnit(prog, specs, c)
			if d := time.Since(t0); d > time.Second {
				fmt.Printf("generation of %s took %v\n", n, d)
			}
			us = append(us, u)
		}
	}
	lem := lemmaUnits(prog, specs, us)
	us = append(us, lem)
	t0 := time.Now()
	discharge(us, 8, *quick, *slow)
	if *vac {
		vacDeep = true
		vacuity(us, 8, 5)
	}
	bad := 0
	for _, u := range us {
		if u.Bind != "" {
			fmt.Printf("BIND  %s: %s\n", u.Contract.Func, u.Bind)
			bad++
			continue
		}
		triv := 0
		maxs := 0.0
		for _, o := range u.Obls {
			if o.Trivial {
				triv++
			}
			if o.Secs > maxs {
				maxs = o.Secs
			}
		}
		fmt.Printf("%s %s: %d obligations (%d trivial), %d failed, max %.1fs total %.1fs\n", map[bool]string{true: "OK   ", false: "FAIL "}[len(u.Failed) == 0], u.Contract.Func, len(u.Obls), triv, len(u.Failed), maxs, u.Secs)
		for _, v := range u.Vacuous {
			fmt.Println("   VACUOUS", v)
		}
		for _, o := range u.Obls {
			if o.Result != "unsat" {
				bad++
				fmt.Printf("   %-8s [%s] %s (%s) %.1fs\n", o.Result, o.Kind, o.Name, o.Pos, o.Secs)
				if o.Model != "" && *verbose || o.Result == "error" {
					fmt.Println("      " + strings.ReplaceAll(clip(o.Model, 600), "\n", "\n      "))
				}
			} else if *verbose {
				fmt.Printf("   ok       [%s] %s (%s) %s %.1fs\n", o.Kind, o.Name, o.Pos, o.Solver, o.Secs)
			}
		}
		if *verbose {
			fmt.Println("   assumptions:", strings.Join(u.Assumptions, "; "))
			fmt.Println("   inlined:", u.Inlined, "called:", u.Called)
		}
	}
	fmt.Printf("wall %.1fs, %d problems\n", time.Since(t0).Seconds(), bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// axiomsCmd looks for a contradiction in the axioms every proof may use: the built-in ones about strings, and the
// ones of the contract files. Finding none is no proof of consistency, but the solvers get every axiom at once.
func axiomsCmd(args []string) int {
	fs := flag.NewFlagSet("axioms", flag.ExitOnError)
	sec := fs.Int("sec", 20, "")
	fs.Parse(args)
	dir, _ := os.MkdirTemp("", "gocv")
	defer os.RemoveAll(dir)
	env, err := workspaceEnv(dir)
	if err != nil {
		panic(err)
	}
	prog, err := Load(env)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	specs, err := LoadSpecs(verifDir + "/contracts")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	x := NewExec(prog, specs)
	x.contract = &Contract{Func: "axioms", Options: map[string]string{}, Loops: map[int]*LoopSpec{}}
	ax := specAxioms(x)
	a, b := VarT("seed.a", SStr), VarT("seed.b", SStr)
	i, j, row := VarT("seed.i", SInt), VarT("seed.j", SInt), VarT("seed.row", ArrS(SInt, SInt))
	var seed []*Term
	mention := func(t *Term) { seed = append(seed, UF("seed."+string(t.sort), SBool, t)) }
	long := UF("sconcat", SStr, a, b)
	for _, t := range []*Term{UF("slen", SInt, long), UF("sat", SInt, a, i), UF("ssub", SStr, long, i, j), UF("bstr", SStr, row, i, j),
		UF("bstr", SStr, UF("strrow", ArrS(SInt, SInt), a), i, j), UF("slt", SBool, a, b), UF("itoa", SStr, i)} {
		mention(t)
	}
	// extreme values: bytes out of range, lengths beyond memory, negative positions
	big1 := bstr(row, IntT(0), Add(BigT(maxLen), IntT(1)))
	wild := ConstArr(ArrS(SInt, SInt), IntT(300))
	for _, t := range []*Term{big1, bstr(row, IntT(-1), IntT(2)), bstr(row, IntT(0), IntT(-1)), UF("sconcat", SStr, big1, big1), UF("ssub", SStr, big1, IntT(-1), IntT(3)),
		UF("ssub", SStr, UF("sconcat", SStr, a, big1), IntT(2), IntT(1)), bstr(wild, IntT(0), IntT(1)), UF("itoa", SStr, IntT(-1)), UF("itoa", SStr, BigT(maxLen))} {
		mention(UF("slen", SInt, t))
		for _, n := range []int64{-1, 0, 1} {
			mention(UF("sat", SInt, t, IntT(n)))
		}
	}
	type set struct {
		name string
		ts   []*Term
	}
	sets := []set{{"built-in axioms", seed}, {"built-in axioms and all contract axioms", append(append([]*Term{}, seed...), ax...)}, {"all contract axioms", ax}}
	for n, t := range ax {
		sets = append(sets, set{fmt.Sprintf("built-in axioms and contract axiom %d", n), append([]*Term{t}, seed...)})
	}
	bad := 0
	for _, s := range sets {
		for n := range s.ts {
			s.ts[n] = elimAlt(s.ts[n])
		}
		q := SMT(s.ts, nil)
		hit := make(chan string, len(solvers))
		for _, sc := range solvers {
			sc := sc
			go func() {
				r, _ := runSolver(context.Background(), sc, q, *sec)
				if r == "unsat" {
					hit <- sc.name
				} else {
					hit <- ""
				}
			}()
		}
		by := ""
		for range solvers {
			if h := <-hit; h != "" {
				by = h
			}
		}
		if by != "" {
			bad++
			fmt.Printf("CONTRADICTION in %s (%s)\n", s.name, by)
			os.WriteFile("/tmp/contradiction.smt2", []byte(q), 0o644)
		} else {
			fmt.Printf("no contradiction found in %s\n", s.name)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// harnessCmd: development command; runs the harness of the given properties only.
func harnessCmd(args []string) {
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.Parse(args)
	dir, _ := os.MkdirTemp("", "gocv")
	defer os.RemoveAll(dir)
	env, err := workspaceEnv(dir)
	if err != nil {
		panic(err)
	}
	for _, id := range fs.Args() {
		for _, h := range runHarness(context.Background(), env, dir, id, *tier, *seed, "", 900) {
			fmt.Printf("%s: built %v, %d cases, %d distinct, %.1fs\n", id, h.Built, h.Cases, h.Distinct, h.Secs)
			if !h.Built {
				fmt.Println(h.Out)
			}
			for _, f := range h.Fails {
				fmt.Println("  FAIL", f.Key, clip(f.Text, 1500))
			}
		}
	}
}
