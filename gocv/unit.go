package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// UnitResult is what generating obligations for one function produced.
type UnitResult struct {
	Contract    *Contract
	Fn          *FuncInfo
	Obls        []*Obligation
	Bind        string // contract could not be attached / construct unsupported
	Assumptions []string
	Inlined     []string
	Called      []string
	Facts       []*Term
	Reach       []reachPoint
	LoopsUsed   map[string]bool
	Axioms      []*Term
	Failed      []*Obligation
	Vacuous     []string
	Secs        float64
}

func NewExec(prog *Program, specs *Specs) *Exec {
	return &Exec{prog: prog, specs: specs, leafCache: map[string][]leaf{}, heapSort: map[string]Sort{}, heapInit: map[string]*Term{},
		keyLeaf: map[string]leaf{}, funcTab: map[*Term]FuncV{}, locTab: map[*Term]LocV{}, dynTab: map[*Term]dynVal{},
		assumptions: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, loopOrd: map[ast.Node]int{},
		loopUse: map[string]bool{}, factSeen: map[*Term]bool{}}
}

func genUnit(prog *Program, specs *Specs, c *Contract) (res *UnitResult) {
	res = &UnitResult{Contract: c}
	fi := prog.Funcs[c.Func]
	if fi == nil || fi.Decl.Body == nil {
		res.Bind = "function not found in the source"
		return
	}
	res.Fn = fi
	x := NewExec(prog, specs)
	x.unit, x.contract = fi, c
	x.unitTag = sanitize(c.Func)
	_, x.bytesVal = c.Options["bytesval"]
	x.noOverflow = c.Options["overflow"] == "assume"
	_, x.goSync = c.Options["gosync"]
	collectRes := func() {
		res.Obls = x.obls
		for _, a := range sortedKeys(x.assumptions) {
			res.Assumptions = append(res.Assumptions, a)
		}
		res.Inlined = sortedKeys(x.inlined)
		res.Called = sortedKeys(x.called)
		res.Facts = x.globalFacts
		res.Reach = x.reach
		res.LoopsUsed = x.loopUse
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Err:
				res.Bind = e.msg
			case BindErr:
				res.Bind = e.Error()
			default:
				if debugPanics {
					panic(r)
				}
				res.Bind = fmt.Sprintf("internal: %v", r)
			}
			collectRes()
			res.Obls = nil
		}
	}()
	x.alloc0 = Fresh("alloc0", SInt)
	st := &State{store: map[varKey]Value{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, alloc: x.alloc0}
	x.fact(Lt(IntT(0), x.alloc0))
	sig := fi.Obj.Type().(*types.Signature)
	fr := x.newFrame(fi.Decl, nil, fi.Pkg, fi, sig)
	fr.spec = c
	// generics: an opaque scalar type for each parameter, or the one named in options
	addTP := func(l *types.TypeParamList) {
		if l == nil {
			return
		}
		if fr.tsub == nil {
			fr.tsub = map[*types.TypeParam]types.Type{}
		}
		for i := 0; i < l.Len(); i++ {
			tn := l.At(i).Obj().Name()
			var t types.Type
			switch c.Options["inst."+tn] {
			case "int":
				t = tInt
			case "string":
				t = tString
			default:
				t = types.NewNamed(types.NewTypeName(token.NoPos, fi.Pkg.Pkg, "opaque"+tn, nil), tInt, nil)
			}
			fr.tsub[l.At(i)] = t
		}
		fr.sig = substType(sig, fr.tsub).(*types.Signature)
	}
	addTP(sig.TypeParams())
	addTP(sig.RecvTypeParams())
	var recv Value
	fr.params = map[string]Value{}
	mkParamIn := func(st *State, name string, t types.Type) Value {
		v := x.freshValue(name, t)
		for _, f := range x.typeFacts(v, t, st.alloc) {
			x.assume(st, f)
		}
		x.watchVal(name, v)
		return v
	}
	mkParam := func(name string, t types.Type) Value { return mkParamIn(st, name, t) }
	if r := sig.Recv(); r != nil {
		rt := x.subst(fr, r.Type())
		recv = mkParam("recv", rt)
		if _, isP := under(rt).(*types.Pointer); isP {
			if _, ok := c.Options["nilrecv"]; !ok {
				x.assume(st, Neq(recv.(SV).T, IntT(0)))
			}
		}
		x.bindRecv(st, fr, fi, recv)
	}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mkParam(n, x.subst(fr, p.Type())))
	}
	fr.params = x.contractParams(c, fi, fi.Obj, FuncV{Recv: recv}, args)
	x.bindParams(st, fr, fi.Decl.Type, args)
	enter := func(st *State, since *Term) {
		env := &specEnv{x: x, st: st, params: fr.params, pkg: fi.Pkg.Pkg, contract: c}
		for _, l := range c.Lets {
			env.let(l)
		}
		fr.lets = env.lets
		for _, r := range c.Requires {
			x.assume(st, env.boolTerm(r.E))
		}
		fr.old = st.clone()
		env.old = fr.old
		for _, d := range c.Dec {
			x.entryDec = append(x.entryDec, env.intTerm(d.E))
		}
		x.reach = append(x.reach, reachPoint{"entry", st.hyps()})
		fm := frameMods{alloc: since, label: "the contract"}
		for _, m := range c.Modifies {
			fm.mods = append(fm.mods, x.modLocs(st, env, m.E)...)
		}
		st.frames = []frameMods{fm}
	}
	x.stack = []string{c.Func}
	nret := 0
	finish := func(st *State, rsig *types.Signature, vals []Value) {
		nret++
		env2 := &specEnv{x: x, st: st, old: fr.old, params: fr.params, pkg: fi.Pkg.Pkg, contract: c, lets: fr.lets}
		env2.setResults(c, rsig, vals)
		x.reach = append(x.reach, reachPoint{fmt.Sprintf("return %d", nret), st.hyps()})
		var sets []*Term
		for _, g := range c.Sets {
			sets = append(sets, env2.scalar(g.E))
		}
		for i, g := range c.Sets {
			env2.ev(ast.NewIdent(g.Name))
			x.setHeap(st, "G|"+g.Name+"|", sets[i])
		}
		for _, h := range c.Hints {
			t := env2.boolTerm(h.E)
			x.hint(st, "hint "+h.Src, fi.Decl.Pos(), t)
		}
		if c.Pure != nil {
			v := env2.eval(c.Pure.E)
			x.oblige(st, "ensures", "pure definition", fi.Decl.Pos(), env2.eq(vals[0], retypeIfScalar(v, valType(vals[0]))))
		}
		for _, en := range c.Ensures {
			t := env2.boolTerm(en.E)
			s2 := st.clone()
			x.oblige(s2, "ensures", "postcondition "+en.Name, fi.Decl.Pos(), t)
		}
	}
	_, closure := c.Options["closure"]
	if !closure {
		enter(st, x.alloc0)
		x.runBody(st, fr, fi.Decl.Body, func(st *State, vals []Value) { finish(st, fr.sig, vals) })
	} else {
		// the contract speaks about the function returned: its body is run on fresh arguments,
		// and "old" is the state in which it is called
		x.assumptions["what "+c.Func+" was given stays as it was while the function it returns is in use"] = true
		x.runBody(st, fr, fi.Decl.Body, func(st *State, vals []Value) {
			f, ok := vals[0].(FuncV)
			if !ok || f.Lit == nil || len(vals) != 1 {
				unsupported("%s does not return a function literal", c.Func)
			}
			x.noCapturedWrites(f)
			lsig := under(f.Typ).(*types.Signature)
			var args []Value
			saved := map[string]Value{}
			for n, v := range fr.params {
				saved[n] = v
			}
			for i := 0; i < lsig.Params().Len(); i++ {
				p := lsig.Params().At(i)
				n := fmt.Sprintf("arg%d", i)
				v := mkParamIn(st, n, x.subst(fr, p.Type()))
				if _, isP := under(p.Type()).(*types.Pointer); isP {
					x.assume(st, Neq(v.(SV).T, IntT(0)))
				}
				args = append(args, v)
				fr.params[n] = v
			}
			enter(st, st.alloc)
			x.callLit(st, fr, f, args, func(st *State, vals []Value) { finish(st, lsig, vals) })
			fr.params = saved
		})
	}
	for n := range c.Loops {
		if !x.loopUse[fmt.Sprintf("%s#loop%d", c.Func, n)] {
			bindFail("loop %d named in the contract was not reached", n)
		}
	}
	if nret == 0 {
		bindFail("no return is reachable")
	}
	collectRes()
	res.Axioms = specAxioms(x)
	return
}

// noCapturedWrites: a returned function that keeps state of its own between calls is outside the closure rule.
func (x *Exec) noCapturedWrites(f FuncV) {
	info := f.Frame.pkg.Info
	outside := func(e ast.Expr) {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return
		}
		if o := info.Uses[id]; o != nil && (o.Pos() < f.Lit.Pos() || o.Pos() >= f.Lit.End()) {
			unsupported("the returned function writes %s, which it shares between calls", id.Name)
		}
	}
	ast.Inspect(f.Lit.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				outside(l)
			}
		case *ast.IncDecStmt:
			outside(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				outside(n.X)
			}
		}
		return true
	})
}

func (x *Exec) watchVal(name string, v Value) {
	switch v := v.(type) {
	case SV:
		if v.T.sort == SInt || v.T.sort == SBool || v.T.sort == SReal {
			x.watch = append(x.watch, v.T)
			x.watchN = append(x.watchN, name)
		} else if v.T.sort == SStr {
			x.watch = append(x.watch, slen(v.T))
			x.watchN = append(x.watchN, "len("+name+")")
		}
	case SliceV:
		x.watch = append(x.watch, v.Len)
		x.watchN = append(x.watchN, "len("+name+")")
	case BytesV:
		x.watch = append(x.watch, slen(v.S))
		x.watchN = append(x.watchN, "len("+name+")")
	case StructV:
		for i, f := range v.F {
			x.watchVal(name+"."+under(v.Typ).(*types.Struct).Field(i).Name(), f)
		}
	}
}

// specAxioms evaluates the axioms and lemmas of the contract files.
func specAxioms(x *Exec) []*Term {
	var out []*Term
	for _, r := range x.specs.Recs {
		t, _, err := recTerm(x, r)
		if err == nil {
			out = append(out, t)
		}
	}
	uses, limited := x.contract.Options["uses"]
	for _, a := range x.specs.Axioms {
		// lemmas named ..._ind only serve the lemma that follows them; "uses" names the lemmas a unit needs
		if a.Lemma && (strings.HasSuffix(a.Name, "_ind") || limited && !strings.Contains("+"+uses+"+", "+"+a.Name+"+")) {
			continue
		}
		t, err := axiomTerm(x, a)
		if err == nil {
			out = append(out, t)
		}
	}
	return out
}

func axiomTerm(x *Exec, a AxiomDecl) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	st := &State{store: map[varKey]Value{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, alloc: IntT(1)}
	env := &specEnv{x: x, st: st}
	if k, body, ok := inductParts(a.E); ok {
		if c := a.E.(*ast.CallExpr); len(c.Args) == 3 { // induct(k, value of k, body)
			src := regexp.MustCompile(`\b`+k+`\b`).ReplaceAllString(exprStr(body), "("+exprStr(c.Args[1])+")")
			e, err := parser.ParseExpr(src)
			if err != nil {
				return nil, err
			}
			return env.boolTerm(e), nil
		}
		b := BVar(k, SInt)
		bt := env.with(k, SV{b, tInt}).boolTerm(body)
		return Forall([]*Term{b}, Implies(Le(IntT(0), b), bt)), nil
	}
	return env.boolTerm(a.E), nil
}

// recTerm gives the defining axiom of a recursive specification function (unfolded once per occurrence)
// and the obligations that its measure decreases at every recursive call.
func recTerm(x *Exec, r *RecDecl) (t *Term, wf []*Term, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	st := &State{store: map[varKey]Value{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, alloc: IntT(1)}
	env := &specEnv{x: x, st: st}
	typ := func(s Sort) types.Type {
		switch s {
		case SStr:
			return tString
		case SBool:
			return tBool
		}
		return tInt
	}
	bind := func(mkv func(n string, s Sort) *Term) ([]*Term, *specEnv) {
		var bs []*Term
		e := env
		for i, p := range r.Params {
			b := mkv(p, r.Sorts[i])
			bs = append(bs, b)
			e = e.with(p, bvValue(b, typ(r.Sorts[i])))
		}
		return bs, e
	}
	bs, e := bind(BVar)
	e.limit = r.Name
	body := e.scalar(r.Body)
	app, lim := UF(r.Name, r.Res, bs...), UF(r.Name+"_lim", r.Res, bs...)
	t = Forall(bs, And(Eq(app, body), Eq(app, lim)), []*Term{app})
	_, e = bind(Fresh)
	m0 := e.intTerm(r.Measure)
	var walk func(n ast.Expr, path []*Term)
	walk = func(n ast.Expr, path []*Term) {
		switch n := n.(type) {
		case *ast.ParenExpr:
			walk(n.X, path)
		case *ast.UnaryExpr:
			walk(n.X, path)
		case *ast.BinaryExpr:
			walk(n.X, path)
			switch n.Op {
			case token.LAND:
				path = append(append([]*Term{}, path...), e.boolTerm(n.X))
			case token.LOR:
				path = append(append([]*Term{}, path...), Not(e.boolTerm(n.X)))
			}
			walk(n.Y, path)
		case *ast.CallExpr:
			f, _ := n.Fun.(*ast.Ident)
			if f != nil && f.Name == "ite" {
				walk(n.Args[0], path)
				c := e.boolTerm(n.Args[0])
				walk(n.Args[1], append(append([]*Term{}, path...), c))
				walk(n.Args[2], append(append([]*Term{}, path...), Not(c)))
				return
			}
			if f != nil && f.Name == "implies" {
				walk(n.Args[0], path)
				walk(n.Args[1], append(append([]*Term{}, path...), e.boolTerm(n.Args[0])))
				return
			}
			if f != nil && (strings.HasPrefix(f.Name, "forall") || strings.HasPrefix(f.Name, "exists")) {
				bindFail("quantifier in a recursive definition")
			}
			for _, a := range n.Args {
				walk(a, path)
			}
			if f != nil && f.Name == r.Name {
				e2 := env
				for i, p := range r.Params {
					e2 = e2.with(p, e.ev(n.Args[i]))
				}
				m1 := e2.intTerm(r.Measure)
				wf = append(wf, Implies(And(path...), And(Le(IntT(0), m1), Lt(m1, m0))))
			}
			if f != nil && x.specs.Macros[f.Name] != nil && strings.Contains(exprStr(x.specs.Macros[f.Name].E), r.Name+"(") {
				bindFail("recursion through a define in %s", r.Name)
			}
		}
	}
	walk(r.Body, nil)
	return
}

func inductParts(e ast.Expr) (string, ast.Expr, bool) {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) < 2 || len(c.Args) > 3 {
		return "", nil, false
	}
	if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "induct" {
		return "", nil, false
	}
	return c.Args[0].(*ast.Ident).Name, c.Args[len(c.Args)-1], true
}

// lemmaUnits makes proof obligations for the lemmas of the contract files.
// Only the definitions and lemmas that the given units can use are checked.
func lemmaUnits(prog *Program, specs *Specs, us []*UnitResult) *UnitResult {
	c := &Contract{Func: "lemmas", Options: map[string]string{}, Loops: map[int]*LoopSpec{}}
	res := &UnitResult{Contract: c}
	x := NewExec(prog, specs)
	x.contract = c
	var query []*Term
	for _, u := range us {
		for _, o := range u.Obls {
			query = append(query, o.Goal)
			query = append(query, o.Hyps...)
		}
		query = append(query, u.Facts...)
	}
	rel := map[*Term]bool{}
	var all []*Term
	recT := map[string]*Term{}
	recWF := map[string][]*Term{}
	axT := map[string]*Term{}
	for _, r := range specs.Recs {
		t, wf, err := recTerm(x, r)
		if err != nil {
			res.Bind = "rec " + r.Name + ": " + err.Error()
			return res
		}
		recT[r.Name], recWF[r.Name] = t, wf
		all = append(all, t)
	}
	for _, a := range specs.Axioms {
		t, err := axiomTerm(x, a)
		if err != nil {
			res.Bind = "lemma " + a.Name + ": " + err.Error()
			return res
		}
		axT[a.Name] = t
		all = append(all, t)
	}
	for _, t := range relevant(all, query) {
		rel[t] = true
	}
	var prev []*Term
	for _, r := range specs.Recs {
		if !rel[recT[r.Name]] {
			continue
		}
		t, wf := recT[r.Name], recWF[r.Name]
		for i, g := range wf {
			res.Obls = append(res.Obls, &Obligation{Unit: "lemma", Kind: "lemma", Name: fmt.Sprintf("%s is well-founded (call %d)", r.Name, i+1), Hyps: append([]*Term{}, prev...), Goal: g})
		}
		prev = append(prev, t)
	}
	for _, a := range specs.Axioms {
		t := axT[a.Name]
		if !rel[t] {
			continue
		}
		if a.Lemma {
			add := func(n string, hyps []*Term, g *Term) {
				res.Obls = append(res.Obls, &Obligation{Unit: "lemma", Kind: "lemma", Name: a.Name + n, Hyps: append(append([]*Term{}, prev...), hyps...), Goal: g})
			}
			if k, body, ok := inductParts(a.E); ok {
				st := &State{store: map[varKey]Value{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, alloc: IntT(1)}
				env := &specEnv{x: x, st: st}
				kk := Fresh(k, SInt)
				add(" (base)", nil, env.with(k, SV{IntT(0), tInt}).boolTerm(body))
				add(" (step)", []*Term{Le(IntT(0), kk), env.with(k, SV{kk, tInt}).boolTerm(body)}, env.with(k, SV{Add(kk, IntT(1)), tInt}).boolTerm(body))
			} else {
				add("", nil, t)
			}
		} else {
			res.Assumptions = append(res.Assumptions, "axiom "+a.Name+" (definition of a specification function)")
		}
		prev = append(prev, t)
	}
	res.Facts = x.globalFacts
	return res
}

// relevant keeps the axioms that share uninterpreted functions with the query, transitively.
func relevant(ax []*Term, query []*Term) []*Term {
	syms := func(ts []*Term) map[string]bool {
		m := map[string]bool{}
		collect(ts, func(t *Term) {
			if t.op == "uf" {
				m[t.name] = true
			}
		})
		return m
	}
	have := syms(query)
	used := make([]bool, len(ax))
	axs := make([]map[string]bool, len(ax))
	for i, a := range ax {
		axs[i] = syms([]*Term{a})
	}
	builtin := map[string]bool{"slen": true, "sat": true, "sconcat": true, "ssub": true, "slt": true, "itoa": true, "atoi": true, "isnum": true, "bstr": true, "dyntype": true, "errIs": true}
	for {
		ch := false
		for i := range ax {
			if used[i] {
				continue
			}
			for s := range axs[i] {
				if have[s] && !builtin[s] {
					used[i] = true
					ch = true
					for s2 := range axs[i] {
						have[s2] = true
					}
					break
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, a := range ax {
		if used[i] {
			out = append(out, elimAlt(a))
		}
	}
	return out
}

var debugPanics = false

func shortFn(s string) string { return s }

func sortStrings(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var _ = strings.Contains
