package main

import (
	"fmt"
	"go/ast"
	"go/types"
)

// Calls to functions of a dependency that run a callback: on every entry of a collection
// (each) or inside a transaction (runs). The callback's own code is executed, not abstracted.

func calleeIdent(c *ast.CallExpr) *ast.Ident {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		return f
	case *ast.SelectorExpr:
		return f.Sel
	}
	return nil
}

func (x *Exec) callWithCallback(st *State, fr *Frame, c *Contract, fi *FuncInfo, fn *types.Func, f FuncV, args []Value, e *ast.CallExpr, k func(*State, []Value)) {
	params := x.contractParams(c, fi, fn, f, args)
	env := &specEnv{x: x, st: st, old: st, params: params, pkg: fn.Pkg(), contract: c}
	x.assumptions["contract of "+c.Func+" (dependency) is assumed, not proved"] = true
	for _, r := range c.Requires {
		x.oblige(st, "precondition", "precondition "+r.Name+" of "+c.Func, e.Pos(), env.boolTerm(r.E))
	}
	if len(c.Runs) > 0 {
		cb, ok := params[c.Runs[0]].(FuncV)
		if !ok {
			unsupported("%s is not given a function", c.Func)
		}
		x.runsCall(st, fr, c, env, cb, len(c.Runs) > 1 && c.Runs[1] == "twice", e, k)
		return
	}
	cb, ok := env.eval(c.Each[0].E).(FuncV)
	if !ok {
		unsupported("%s is not given a function", c.Func)
	}
	x.eachCall(st, fr, env.scalar(c.Each[1].E), env.scalar(c.Each[2].E), cb, e, k)
}

func (x *Exec) setGhost(st *State, name string, t *Term) {
	key := "G|" + name + "|"
	x.regKey(key, x.specs.Ghosts[name], leaf{})
	x.checkWriteAll(st, key)
	x.setHeap(st, key, t)
}

// runsCall: the transaction may not start; it runs the callback; it keeps its effects only
// when the callback succeeds and the commit does. With "twice" it may first be run and
// rolled back once.
func (x *Exec) runsCall(st *State, fr *Frame, c *Contract, env *specEnv, cb FuncV, twice bool, e *ast.CallExpr, k func(*State, []Value)) {
	for _, g := range c.Sets {
		x.setGhost(st, g.Name, env.scalar(g.E))
	}
	saved := map[string]*Term{}
	for _, g := range c.Rollback {
		s, ok := x.specs.Ghosts[g]
		if !ok {
			bindFail("rollback of undeclared ghost %q", g)
		}
		saved[g] = x.heapGet(st, "G|"+g+"|", s)
	}
	restore := func(st *State) {
		for _, g := range c.Rollback {
			if x.heapGet(st, "G|"+g+"|", x.specs.Ghosts[g]) != saved[g] {
				x.setGhost(st, g, saved[g])
			}
		}
	}
	fail := func(st *State, base string) { // the postconditions say which errors are the transaction's own
		err := SV{x.freshErr(st, base), errT()}
		e2 := *env
		e2.st, e2.results = st, map[string]Value{"result": err, "result0": err}
		for _, c := range c.Ensures {
			x.assume(st, e2.boolTerm(c.E))
		}
		k(st, []Value{err})
	}
	run := func(st *State, k2 func(*State, *Term)) {
		sig := under(cb.Typ).(*types.Signature)
		var as []Value
		for i := 0; i < sig.Params().Len(); i++ {
			v := x.freshTyped(st, "tx", sig.Params().At(i).Type())
			if s, ok := v.(SV); ok {
				x.assume(st, Lt(IntT(0), s.T))
			}
			as = append(as, v)
		}
		if len(c.Gives) > 0 { // what the callback is given
			e2 := *env
			e2.st, e2.old = st, st
			e2.params = map[string]Value{}
			for n, v := range env.params {
				e2.params[n] = v
			}
			for i, a := range as {
				e2.params[fmt.Sprintf("arg%d", i)] = a
			}
			for _, g := range c.Gives {
				x.assume(st, e2.boolTerm(g.E))
			}
		}
		x.apply(st, fr, cb, as, nil, func(st *State, rs []Value) { k2(st, scalarOf(rs[0])) })
	}
	last := func(st *State) {
		run(st, func(st *State, err *Term) {
			x.branch(st, Eq(err, IntT(0)), func(st *State) {
				s2 := st.clone()
				restore(s2)
				fail(s2, "commit")
				k(st, []Value{SV{IntT(0), errT()}})
			}, func(st *State) {
				restore(st)
				k(st, []Value{SV{err, errT()}})
			})
		})
	}
	fail(st.clone(), "tx")
	if twice {
		s2 := st.clone()
		if _, exact := x.contract.Options["exactretry"]; exact {
			run(s2, func(st *State, _ *Term) {
				restore(st)
				last(st)
			})
		} else { // what the first, undone run wrote in program memory is unknown
			saveK, saveV, saveP, saveObl := x.dryKeys, x.dryVars, x.paths, len(x.obls)
			x.dryKeys, x.dryVars = map[string]bool{}, map[varKey]bool{}
			x.quiet++
			run(st.clone(), func(*State, *Term) {})
			x.quiet--
			keys, vars := x.dryKeys, x.dryVars
			x.dryKeys, x.dryVars = saveK, saveV
			x.paths = saveP
			x.obls = x.obls[:saveObl]
			pre := st
			s2.alloc = Fresh("alloc", SInt)
			x.assume(s2, Le(pre.alloc, s2.alloc))
			for kk := range vars {
				v, ok := s2.store[kk]
				if x.dryVars != nil {
					x.dryVars[kk] = true
				}
				if !ok {
					continue
				}
				if _, b := v.(boxed); b {
					continue
				}
				if t := valType(v); t != nil {
					s2.store[kk] = x.freshTyped(s2, kk.obj.Name(), t)
				}
			}
			for _, key := range sortedKeys(keys) {
				undone := false
				for _, g := range c.Rollback {
					undone = undone || key == "G|"+g+"|"
				}
				if undone {
					continue
				}
				old := x.heapGet(pre, key, x.heapSort[key])
				nw := Fresh("H:"+key, x.heapSort[key])
				x.setHeap(s2, key, nw)
				x.assumeFrame(s2, key, old, nw, s2.frames)
				for _, f := range x.wfHeapFacts(key, nw, s2.alloc) {
					x.assume(s2, f)
				}
			}
			last(s2)
		}
	}
	last(st)
}

// eachCall runs cb on every key of the set dom0 (with its value), in an order not specified,
// until cb returns an error.
func (x *Exec) eachCall(st *State, fr *Frame, dom0, vals *Term, cb FuncV, e *ast.CallExpr, k func(*State, []Value)) {
	ks := SStr
	vs := ArrS(ks, SBool)
	x.instCnt++
	visKey := varKey{types.NewVar(e.Pos(), nil, "visited", types.Typ[types.Int]), -x.instCnt}
	itKey := varKey{types.NewVar(e.Pos(), nil, "iter", types.Typ[types.Int]), -x.instCnt - 1}
	x.instCnt++
	st.store[visKey] = GhostV{ConstArr(vs, TFalse)}
	st.store[itKey] = SV{IntT(0), types.Typ[types.Int]}
	len0 := UF("card", SInt, dom0)
	lc := &loopCtx{}
	getVis := func(st *State) *Term { return st.store[visKey].(GhostV).T }
	setIter := func(st *State) {
		lc.iter = st.store[itKey].(SV).T
		lc.visited = getVis(st)
	}
	sig := under(cb.Typ).(*types.Signature)
	var key, val Value
	bytesOf := func(t *Term, typ types.Type) Value {
		if !x.bytesVal {
			unsupported("iteration over stored entries without bytesval")
		}
		return BytesV{S: t, Nil: TFalse, Typ: typ}
	}
	head := func(st *State, kb, ke K) {
		vis := getVis(st)
		q := BVar("k", ks)
		s2 := st.clone()
		kk := Fresh("key", ks)
		lc.key = kk
		x.assume(st, Select(dom0, kk))
		x.assume(st, Not(Select(vis, kk)))
		x.assume(st, Lt(st.store[itKey].(SV).T, len0))
		st.store[visKey] = GhostV{Store(vis, kk, TTrue)}
		key = bytesOf(kk, sig.Params().At(0).Type())
		val = bytesOf(Select(vals, kk), sig.Params().At(1).Type())
		kb(st)
		x.assume(s2, Forall([]*Term{q}, Implies(Select(dom0, q), Select(vis, q)), []*Term{Select(vis, q)}))
		x.assume(s2, Eq(vis, dom0))
		x.assume(s2, Eq(s2.store[itKey].(SV).T, len0))
		ke(s2)
	}
	body := func(st *State, kk konts) {
		x.apply(st, fr, cb, []Value{key, val}, nil, func(st *State, rs []Value) {
			err := scalarOf(rs[0])
			x.branch(st, Eq(err, IntT(0)), kk.next, func(st *State) { kk.ret(st, []Value{SV{err, errT()}}) })
		})
	}
	post := func(st *State, k K) {
		st.store[itKey] = SV{Add(st.store[itKey].(SV).T, IntT(1)), types.Typ[types.Int]}
		setIter(st)
		k(st)
	}
	auto := func(st *State) []*Term {
		setIter(st)
		q := BVar("k", ks)
		vis := getVis(st)
		return []*Term{Le(IntT(0), lc.iter), Le(lc.iter, len0),
			Forall([]*Term{q}, Implies(Select(vis, q), Select(dom0, q)), []*Term{Select(vis, q)})}
	}
	havocExtra := func(st *State) {
		st.store[visKey] = GhostV{Fresh("visited", vs)}
		setIter(st)
	}
	x.assume(st, Le(IntT(0), len0))
	loopFr := fr
	x.runLoop(st, loopFr, e, "", nil, []varKey{itKey}, lc, auto, havocExtra, head, body, post, konts{
		next: func(st *State) { k(st, []Value{SV{IntT(0), errT()}}) },
		ret:  func(st *State, v []Value) { k(st, v) },
		brk:  func(*State, string) {}, cont: func(*State, string) {},
	})
}
