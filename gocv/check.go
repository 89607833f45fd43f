package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check decides one property: every obligation of every function under contract for it (and
// of the contracted functions those call), then the executable form of the contracts on the
// real code (harness), whose failing inputs serve as replays.

type proveResult struct {
	units []*UnitResult
	vac   []string
}

func unitsFor(prog *Program, specs *Specs, id string) []*UnitResult {
	var us []*UnitResult
	done := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		c := specs.Contracts[n]
		if c == nil {
			return
		}
		var nu []*UnitResult
		switch c.Kind {
		case "func":
			nu = []*UnitResult{genUnit(prog, specs, c)}
		case "interface":
			nu = genRefines(prog, specs, c)
		}
		us = append(us, nu...)
		for _, u := range nu {
			for _, k := range u.Called {
				add(k)
			}
		}
	}
	for _, n := range sortedKeys(specs.Contracts) {
		for _, p := range specs.Contracts[n].Props {
			if p == id {
				add(n)
			}
		}
	}
	return us
}

type harnessFail struct{ Key, Text string }

type harnessResult struct {
	Files    []string
	Built    bool
	Cases    int
	Distinct int
	Samples  []string
	Fails    []harnessFail
	Out      string
	Cmd      string
	Secs     float64
}

const harnessUtil = `package %s

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
)

var (
	vMu       sync.Mutex
	vFails    = map[string]int{}
	vSamples  int
	vDistinct = map[string]map[string]bool{}
)

// vSeed is the seed given to the check.
func vSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vRand() *rand.Rand { return rand.New(rand.NewSource(vSeed()*7919 + 17)) }
func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
// vN scales a case count with the tier.
func vN(quick int) int { if vThorough() { return quick * 20 }; return quick }
// vCase counts one input; sig distinguishes it from the others, "" if it is trivial.
func vCase(t *testing.T, sig string) {
	vMu.Lock(); defer vMu.Unlock()
	m := vDistinct[t.Name()]
	if m == nil { m = map[string]bool{}; vDistinct[t.Name()] = m }
	fmt.Println("VERIF-CASE")
	if sig != "" && len(m) < 2000000 { m[sig] = true }
	if sig != "" && vSamples < 3 { vSamples++; fmt.Printf("VERIF-SAMPLE %%q\n", t.Name()+": "+sig) }
}
func vDone(t *testing.T, n int) {
	vMu.Lock(); defer vMu.Unlock()
	fmt.Printf("VERIF-CASES %%d %%d\n", n, len(vDistinct[t.Name()]))
}
// vSig counts an input without printing a line for it.
func vSig(t *testing.T, sig string) {
	vMu.Lock(); defer vMu.Unlock()
	m := vDistinct[t.Name()]
	if m == nil { m = map[string]bool{}; vDistinct[t.Name()] = m }
	if sig != "" && len(m) < 2000000 { m[sig] = true }
	if sig != "" && vSamples < 3 { vSamples++; fmt.Printf("VERIF-SAMPLE %%q\n", t.Name()+": "+sig) }
}
// vFail reports an input on which the real code breaks the property.
func vFail(t *testing.T, key, format string, args ...interface{}) {
	t.Helper()
	vMu.Lock(); defer vMu.Unlock()
	vFails[key]++
	if vFails[key] <= 3 { fmt.Printf("VERIF-FAIL %%q %%q\n", key, fmt.Sprintf(format, args...)) }
	t.Fail()
}
// vCatch runs f and reports a panic in it as a failing input.
func vCatch(t *testing.T, key string, desc func() string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil { vFail(t, key, "panic: %%v on %%s", r, desc()) }
	}()
	f()
}

var _ = vCatch
var _ = vSig
var _ = vDone
var _ = vCase
var _ = vN
var _ = vRand
`

var pkgClause = regexp.MustCompile(`(?m)^package (\w+)`)

func harnessFiles(id string) map[string][]string {
	out := map[string][]string{} // package dir relative to /repo -> files
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b := filepath.Base(p)
		if strings.HasPrefix(b, strings.ToLower(id)+"_") && strings.HasSuffix(b, "_test.go") {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			out[rel] = append(out[rel], p)
		}
		return nil
	})
	return out
}

func runHarness(ctx context.Context, env []string, scratch, id, tier string, seed int, hints string, secs int) []*harnessResult {
	var res []*harnessResult
	dirs := harnessFiles(id)
	for _, dir := range sortedKeys(dirs) {
		files := dirs[dir]
		t0 := time.Now()
		h := &harnessResult{Files: files}
		res = append(res, h)
		repl := map[string]string{}
		old, _ := filepath.Glob(filepath.Join(repoDir, dir, "*_test.go"))
		for _, o := range old {
			repl[o] = ""
		}
		b, _ := os.ReadFile(files[0])
		m := pkgClause.FindSubmatch(b)
		if m == nil {
			continue
		}
		pkg := string(m[1])
		util := filepath.Join(scratch, "util_"+sanitize(dir)+"_test.go")
		os.WriteFile(util, []byte(fmt.Sprintf(harnessUtil, pkg)), 0o644)
		repl[filepath.Join(repoDir, dir, "zz_verif_util_test.go")] = util
		for _, f := range files {
			repl[filepath.Join(repoDir, dir, "zz_verif_"+filepath.Base(f))] = f
		}
		shared, _ := filepath.Glob(filepath.Join(filepath.Dir(files[0]), "shared_*_test.go"))
		for _, f := range shared {
			repl[filepath.Join(repoDir, dir, "zz_verif_"+filepath.Base(f))] = f
		}
		ov := filepath.Join(scratch, "overlay_"+sanitize(dir)+".json")
		js, _ := json.Marshal(map[string]any{"Replace": repl})
		os.WriteFile(ov, js, 0o644)
		args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerif" + id + "([^0-9].*)?$", "-v",
			fmt.Sprintf("-timeout=%ds", secs), "./" + dir}
		h.Cmd = "go " + strings.Join(args, " ")
		cctx, cancel := context.WithTimeout(ctx, time.Duration(secs+240)*time.Second)
		cmd := exec.CommandContext(cctx, "go", args...)
		cmd.Dir = repoDir
		tmp := filepath.Join(scratch, "tmp_"+sanitize(dir))
		os.MkdirAll(tmp, 0o755)
		cmd.Env = append(append([]string{}, env...), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_MODEL="+hints,
			"VERIF_TMP="+tmp, "VERIF_DATA="+filepath.Dir(files[0]))
		cmd.WaitDelay = 5 * time.Second
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		cancel()
		h.Secs = time.Since(t0).Seconds()
		h.Built = true
		var keep []string
		for _, l := range strings.Split(out.String(), "\n") {
			f := strings.Fields(l)
			switch {
			case strings.HasPrefix(l, "VERIF-CASES ") && len(f) == 3:
				a, _ := strconv.Atoi(f[1])
				b, _ := strconv.Atoi(f[2])
				h.Cases += a
				h.Distinct += b
			case strings.HasPrefix(l, "VERIF-CASE"):
				h.Cases++
			case strings.HasPrefix(l, "VERIF-SAMPLE "):
				if s, err := strconv.Unquote(strings.TrimPrefix(l, "VERIF-SAMPLE ")); err == nil {
					h.Samples = append(h.Samples, clip(s, 400))
				}
			case strings.HasPrefix(l, "VERIF-FAIL "):
				rest := strings.TrimPrefix(l, "VERIF-FAIL ")
				k, e1 := strconv.QuotedPrefix(rest)
				if e1 == nil {
					key, _ := strconv.Unquote(k)
					txt, _ := strconv.Unquote(strings.TrimSpace(rest[len(k):]))
					h.Fails = append(h.Fails, harnessFail{key, txt})
				}
			default:
				keep = append(keep, l)
			}
		}
		h.Out = strings.Join(keep, "\n")
		if err != nil && len(h.Fails) == 0 {
			o := h.Out
			switch {
			case strings.Contains(o, "[build failed]") || strings.Contains(o, "[setup failed]") || strings.Contains(o, "no required module"):
				h.Built = false
			case strings.Contains(o, "test timed out"):
				h.Fails = append(h.Fails, harnessFail{"timeout", "the harness did not finish: " + clip(tail(o, 3000), 3000)})
			case strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:"):
				i := strings.Index(o, "panic:")
				if i < 0 {
					i = strings.Index(o, "fatal error:")
				}
				h.Fails = append(h.Fails, harnessFail{"panic", clip(o[i:], 3000)})
			case strings.Contains(o, "--- FAIL"):
				h.Fails = append(h.Fails, harnessFail{"fail", clip(tail(o, 3000), 3000)})
			default:
				h.Built = false
			}
		}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type knownFinding struct{ Key, Text string }

// knownFindings reads lines "known: property=<id> key=<key> <text>".
func knownFindings(id string) []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out = append(out, knownFinding{strings.TrimPrefix(f[2], "key="), strings.Join(f[3:], " ")})
		}
	}
	return out
}

func checkCmd(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gocv check ID [--tier quick|thorough]")
		return 2
	}
	id := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tierF := fs.String("tier", "", "")
	noProof := fs.Bool("noproof", false, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.Parse(args[1:])
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 1
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o777)
	env, err := workspaceEnv(scratch)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	ctx := context.Background()
	hsecs := 200
	if tier == "thorough" {
		hsecs = 1800
	}
	har := runHarness(ctx, env, scratch, id, tier, seed, "", hsecs)
	failedHarness := false
	for _, h := range har {
		if len(h.Fails) > 0 {
			failedHarness = true
		}
	}
	var us []*UnitResult
	var specs *Specs
	loadErr := ""
	if !*noProof {
		prog, err := Load(env)
		if err != nil {
			loadErr = err.Error()
		} else {
			specs, err = LoadSpecs(verifDir + "/contracts")
			if err != nil {
				fmt.Println("contracts:", err)
				return 1
			}
			us = unitsFor(prog, specs, id)
			us = append(us, lemmaUnits(prog, specs, us))
			quick, slow, budget := 6, 45, 480*time.Second
			if tier == "thorough" {
				quick, slow, budget = 10, 240, 3*time.Hour
			}
			if failedHarness {
				slow = 0
			}
			deadline = time.Now().Add(budget)
			discharge(us, 8, quick, slow)
			vacDeep = tier == "thorough"
			vacuity(us, 8, 3)
		}
	}
	rep := &report{id: id, tier: tier, seed: seed, har: har, us: us, specs: specs, loadErr: loadErr, t0: t0, noProof: *noProof}
	// replay of solver models against the real code
	if !failedHarness {
		if hints := modelHints(us); hints != "" {
			h2 := runHarness(ctx, env, scratch, id, tier, seed+1, hints, hsecs)
			for _, h := range h2 {
				if len(h.Fails) > 0 {
					rep.har = h2
					break
				}
			}
		}
	}
	return rep.finish()
}

// modelHints lists the integers of solver models, as inputs for the harness.
func modelHints(us []*UnitResult) string {
	var hs []string
	for _, u := range us {
		for _, o := range u.Failed {
			if o.Result != "sat" {
				hs = append(hs, "")
				continue
			}
			i := strings.Index(o.Model, "((")
			if i < 0 {
				hs = append(hs, "")
				continue
			}
			for _, m := range modelNum.FindAllStringSubmatch(o.Model[i:], -1) {
				if m[1] != "" {
					hs = append(hs, "-"+m[1])
				} else if m[2] != "" {
					hs = append(hs, m[2])
				}
			}
		}
	}
	if len(hs) == 0 {
		return ""
	}
	if len(hs) > 400 {
		hs = hs[:400]
	}
	return "," + strings.Join(hs, ",")
}

type report struct {
	id, tier string
	seed     int
	har      []*harnessResult
	us       []*UnitResult
	specs    *Specs
	loadErr  string
	t0       time.Time
	noProof  bool
	buildMsg string
}

func (r *report) finish() int {
	known := knownFindings(r.id)
	knownHit := map[string]bool{}
	var lines []string
	violations := 0
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	writeReplay := func(name string, v any) string {
		p := filepath.Join(replayDir, r.id+"-"+sanitize(name)+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		return p
	}
	// failing inputs on the real code
	perKey := map[string][]string{}
	var order []string
	cmds := map[string]string{}
	outs := map[string]string{}
	built, cases, distinct := true, 0, 0
	samples := []string{}
	hsecs := 0.0
	var hfiles []string
	for _, h := range r.har {
		for _, f := range h.Files {
			hfiles = append(hfiles, strings.TrimPrefix(f, verifDir+"/"))
		}
		if !h.Built {
			built = false
			r.buildMsg = clip(h.Out, 500)
		}
		cases += h.Cases
		distinct += h.Distinct
		samples = append(samples, h.Samples...)
		hsecs += h.Secs
		for _, f := range h.Fails {
			if perKey[f.Key] == nil {
				order = append(order, f.Key)
			}
			perKey[f.Key] = append(perKey[f.Key], f.Text)
			cmds[f.Key] = h.Cmd
			outs[f.Key] = h.Out
		}
	}
	for _, k := range order {
		isKnown := false
		for _, kf := range known {
			if kf.Key == k {
				isKnown = true
				knownHit[k] = true
			}
		}
		if isKnown {
			continue
		}
		violations++
		p := writeReplay(k, map[string]any{"property": r.id, "kind": "failing input on the real code", "key": k, "inputs": perKey[k],
			"seed": r.seed, "tier": r.tier, "command": cmds[k], "output": tail(outs[k], 6000)})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", r.id, p))
		fmt.Printf("%s: %s\n", k, clip(perKey[k][0], 600))
	}
	haveInput := violations > 0
	// obligations
	total, discharged, nfuncs := 0, 0, 0
	backends := map[string]int{}
	var funcs []map[string]any
	assum := map[string]bool{}
	trusted := map[string]bool{}
	var unbound []string
	solverSecs := 0.0
	for _, u := range r.us {
		name := u.Contract.Func
		if u.Bind != "" {
			unbound = append(unbound, name+": "+u.Bind)
			continue
		}
		if name != "lemmas" {
			nfuncs++
		}
		ok := 0
		kinds := map[string]int{}
		for _, o := range u.Obls {
			total++
			kinds[o.Kind]++
			if o.Result == "unsat" {
				discharged++
				ok++
				backends[o.Solver]++
			}
		}
		solverSecs += u.Secs
		if len(u.Obls) > 0 || name != "lemmas" {
			funcs = append(funcs, map[string]any{"function": name, "obligations": len(u.Obls), "discharged": ok, "kinds": kinds, "solver_s": round2(u.Secs),
				"inlined": u.Inlined, "contracts_used": u.Called})
		}
		for _, a := range u.Assumptions {
			assum[a] = true
		}
		for _, k := range u.Called {
			if r.specs != nil {
				if c := r.specs.Contracts[k]; c != nil && c.Kind == "extern" {
					trusted["contract assumed for "+k] = true
				}
			}
		}
		for _, v := range u.Vacuous {
			unbound = append(unbound, name+": contract is vacuous at "+v)
		}
	}
	// failed obligations
	var proofFails []*Obligation
	var proofUnits []*UnitResult
	for _, u := range r.us {
		for _, o := range u.Failed {
			proofFails = append(proofFails, o)
			proofUnits = append(proofUnits, u)
		}
	}
	if len(proofFails) > 0 && !haveInput {
		seen := map[string]bool{}
		for i, o := range proofFails {
			nm := proofUnits[i].Contract.Func + " " + o.Kind + " " + o.Name
			if seen[nm] {
				continue
			}
			seen[nm] = true
			if len(seen) > 5 {
				break
			}
			violations++
			p := writeReplay(fmt.Sprintf("obligation-%d", len(seen)), map[string]any{"property": r.id, "kind": "obligation not discharged", "function": proofUnits[i].Contract.Func,
				"obligation": o.Name, "obligation_kind": o.Kind, "position": o.Pos, "result": o.Result, "solver": o.Solver, "verifier_output": clip(o.Model, 4000), "path": o.Trace})
			fmt.Printf("obligation not discharged: %s [%s] %s (%s): %s\n", proofUnits[i].Contract.Func, o.Kind, o.Name, o.Pos, o.Result)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", r.id, p))
		}
	}
	standin := ""
	if r.loadErr != "" && !haveInput {
		violations++
		p := writeReplay("load", map[string]any{"property": r.id, "kind": "the source could not be loaded", "error": clip(r.loadErr, 4000)})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", r.id, p))
	}
	if len(unbound) > 0 && violations == 0 && !haveInput {
		if built && len(r.har) > 0 && cases > 0 {
			standin = "contracts that could not be attached to the current source; only the bounded harness stood in for them on this run: " + strings.Join(unbound, "; ")
			fmt.Println("BOUNDED property=" + r.id + " " + standin)
		} else {
			violations++
			p := writeReplay("unbound", map[string]any{"property": r.id, "kind": "contract cannot be attached to the source", "contracts": unbound})
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", r.id, p))
			fmt.Println("contract cannot be attached:", strings.Join(unbound, "; "))
		}
	}
	for _, kf := range known {
		if knownHit[kf.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, kf.Text)
		}
	}
	// evidence
	level := levelOf(r.id)
	if standin != "" {
		assum[standin] = true
	}
	tb := []string{"gocv (/verif/gocv): the translation of Go's semantics to logic", "SMT solvers z3, z3-new and cvc5 (an obligation counts when one of them answers unsat)",
		"go/types and the Go toolchain's front end"}
	tb = append(tb, sortedKeys(trusted)...)
	as := sortedKeys(assum)
	sort.Strings(as)
	if !built {
		as = append(as, "the harness did not build against the current source on this run")
	}
	cov := map[string]any{
		"obligations": total, "discharged": discharged, "checker_cmd": "cd /verif && ./check.sh " + r.id + " " + r.tier,
		"trusted_base": tb, "functions_under_contract": nfuncs, "functions": funcs, "backends": backends, "solver_s": round2(solverSecs),
		"harness": map[string]any{"label": "bounded: executes the contracts' statements on the real code; supplies failing inputs, never counted as proved",
			"files": hfiles, "evaluations": cases, "wall_s": round2(hsecs)},
		"evaluations": cases, "distinct_nontrivial": distinct, "rule": "harness inputs: exhaustive small domains plus seeded random ones; non-trivial inputs are those the harness gives a signature, counted once per signature",
		"samples": samples, "not_attached": unbound,
	}
	if len(samples) == 0 {
		delete(cov, "samples")
	}
	ev := map[string]any{"property": r.id, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov, "assumptions": as,
		"wall_s": round2(time.Since(r.t0).Seconds()), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 1
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if !built {
		fmt.Printf("%s: note: the harness did not build against the current source (%s)\n", r.id, r.buildMsg)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d harness evaluations, %.1fs\n", r.id, nfuncs, discharged, total, cases, time.Since(r.t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func levelOf(id string) string {
	b, _ := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	var m struct {
		Checks []struct{ Property, Level string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == id {
			return c.Level
		}
	}
	return "proof"
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
