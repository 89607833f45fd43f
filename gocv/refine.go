package main

import (
	"fmt"
	"go/types"
	"strings"
)

// implementersOf lists the repository's types (as method receivers) that implement the interface of an interface
// contract "(pkg.Iface).Method"; types that embed the interface and only promote its method are left out.
func implementersOf(prog *Program, c *Contract) (iface *types.Named, method *types.Func, impls []types.Type, err error) {
	name := strings.TrimPrefix(c.Func, "(")
	tn, mn, ok := strings.Cut(name, ").")
	i := strings.LastIndexByte(tn, '.')
	if !ok || i < 0 {
		return nil, nil, nil, fmt.Errorf("not an interface method")
	}
	pi := prog.Pkgs[tn[:i]]
	if pi == nil {
		return nil, nil, nil, fmt.Errorf("package not found in the source")
	}
	obj, _ := pi.Pkg.Scope().Lookup(tn[i+1:]).(*types.TypeName)
	if obj == nil {
		return nil, nil, nil, fmt.Errorf("interface not found in the source")
	}
	iface, _ = obj.Type().(*types.Named)
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil, nil, nil, fmt.Errorf("not an interface")
	}
	o, _, _ := types.LookupFieldOrMethod(iface, false, pi.Pkg, mn)
	method, ok = o.(*types.Func)
	if !ok {
		return nil, nil, nil, fmt.Errorf("method not found in the source")
	}
	for _, pn := range sortedKeys(prog.Pkgs) {
		sc := prog.Pkgs[pn].Pkg.Scope()
		for _, nm := range sc.Names() {
			t, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || t.IsAlias() {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			var rt types.Type
			if types.Implements(nt, it) {
				rt = nt
			} else if types.Implements(types.NewPointer(nt), it) {
				rt = types.NewPointer(nt)
			} else {
				continue
			}
			m, _, _ := types.LookupFieldOrMethod(rt, true, t.Pkg(), mn)
			if f, ok := m.(*types.Func); ok && prog.Funcs[f.FullName()] == nil && prog.Funcs[strings.ReplaceAll(f.FullName(), "*", "")] == nil {
				continue // promoted from the interface itself
			}
			impls = append(impls, rt)
		}
	}
	return iface, method, impls, nil
}

// genRefines: every implementation must satisfy the interface contract: its precondition follows, what it
// may modify is permitted, and its postcondition gives the interface's.
func genRefines(prog *Program, specs *Specs, c *Contract) []*UnitResult {
	iface, method, impls, err := implementersOf(prog, c)
	if err == nil && len(impls) == 0 {
		err = fmt.Errorf("nothing implements it")
	}
	if err != nil {
		return []*UnitResult{{Contract: c, Bind: err.Error()}}
	}
	var out []*UnitResult
	for _, rt := range impls {
		out = append(out, genRefine(prog, specs, c, iface, method, rt))
	}
	return out
}

func genRefine(prog *Program, specs *Specs, c *Contract, iface *types.Named, method *types.Func, rt types.Type) (res *UnitResult) {
	cc := *c
	cc.Func = types.TypeString(rt, nil) + " refines " + c.Func
	res = &UnitResult{Contract: &cc}
	obj, _, _ := types.LookupFieldOrMethod(rt, true, method.Pkg(), method.Name())
	m := obj.(*types.Func)
	x := NewExec(prog, specs)
	x.contract = &cc
	x.unitTag = sanitize(cc.Func)
	_, x.bytesVal = c.Options["bytesval"]
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Err:
				res.Bind = e.msg
			case BindErr:
				res.Bind = e.Error()
			default:
				if debugPanics {
					panic(r)
				}
				res.Bind = fmt.Sprintf("internal: %v", r)
			}
			res.Obls = nil
		}
	}()
	x.alloc0 = Fresh("alloc0", SInt)
	st := &State{store: map[varKey]Value{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, alloc: x.alloc0}
	x.fact(Lt(IntT(0), x.alloc0))
	fi := prog.Funcs[m.FullName()]
	if fi == nil {
		fi = prog.Funcs[strings.ReplaceAll(m.FullName(), "*", "")]
	}
	if fi == nil {
		bindFail("implementation %s not found", m.FullName())
	}
	x.unit = fi
	sig := m.Type().(*types.Signature)
	fr := x.newFrame(fi.Decl, nil, fi.Pkg, fi, sig)
	mk := func(name string, t types.Type) Value {
		v := x.freshValue(name, t)
		for _, f := range x.typeFacts(v, t, x.alloc0) {
			x.assume(st, f)
		}
		return v
	}
	recv := mk("recv", rt)
	if _, isP := under(rt).(*types.Pointer); isP {
		x.assume(st, Neq(recv.(SV).T, IntT(0)))
	}
	isig := method.Type().(*types.Signature)
	var args []Value
	for i := 0; i < isig.Params().Len(); i++ {
		args = append(args, mk(fmt.Sprintf("arg%d", i), isig.Params().At(i).Type()))
	}
	bx := x.box(st, recv, rt)
	irecv := SV{bx, iface}
	params := x.contractParams(c, nil, method, FuncV{Recv: irecv}, args)
	env := &specEnv{x: x, st: st, params: params, pkg: method.Pkg(), contract: c}
	for _, l := range c.Lets {
		env.let(l)
	}
	for _, r := range c.Requires {
		x.assume(st, env.boolTerm(r.E))
	}
	// the representation the type keeps between calls (its constructors' and methods' contracts)
	repParams := map[string]Value{"recv": recv}
	var reps []Clause
	tname := rt
	if p, ok := tname.(*types.Pointer); ok {
		tname = p.Elem()
	}
	for _, r := range c.Rep {
		if r.Name == tname.(*types.Named).Obj().Name() {
			reps = append(reps, r)
			renv := &specEnv{x: x, st: st, params: repParams, pkg: fi.Pkg.Pkg, contract: c}
			x.assume(st, renv.boolTerm(r.E))
		}
	}
	old := st.clone()
	env.old = old
	fr.old = old
	x.reach = append(x.reach, reachPoint{"entry", st.hyps()})
	fm := frameMods{alloc: x.alloc0, label: "the contract"}
	for _, mo := range c.Modifies {
		fm.mods = append(fm.mods, x.modLocs(st, env, mo.E)...)
	}
	st.frames = []frameMods{fm}
	x.stack = []string{cc.Func}
	dv := x.adjustRecv(st, dynVal{V: recv, Typ: rt}, m)
	nret := 0
	x.apply(st, fr, FuncV{Fn: m, Recv: dv}, args, nil, func(st *State, vals []Value) {
		nret++
		env2 := &specEnv{x: x, st: st, old: old, params: params, pkg: method.Pkg(), contract: c, lets: env.lets}
		env2.setResults(c, isig, vals)
		x.reach = append(x.reach, reachPoint{fmt.Sprintf("return %d", nret), st.hyps()})
		for _, en := range c.Ensures {
			x.oblige(st.clone(), "refines", "interface postcondition "+en.Name, fi.Decl.Pos(), env2.boolTerm(en.E))
		}
		for _, r := range reps {
			renv := &specEnv{x: x, st: st, old: old, params: repParams, pkg: fi.Pkg.Pkg, contract: c}
			x.oblige(st.clone(), "refines", "representation is kept", fi.Decl.Pos(), renv.boolTerm(r.E))
		}
	})
	if nret == 0 {
		bindFail("no return is reachable")
	}
	res.Obls = x.obls
	for _, a := range sortedKeys(x.assumptions) {
		res.Assumptions = append(res.Assumptions, a)
	}
	res.Inlined, res.Called, res.Facts, res.Reach, res.LoopsUsed = sortedKeys(x.inlined), sortedKeys(x.called), x.globalFacts, x.reach, x.loopUse
	res.Axioms = specAxioms(x)
	return res
}
