package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type reachPoint struct {
	name string
	hyps []*Term
}

type callRun func(*State, func(*State, []Value))

// ignorable: logging and metrics with no effect on the modelled state.
func (x *Exec) ignorableCall(fr *Frame, call *ast.CallExpr) bool {
	fn := x.calleeFunc(fr, call)
	if fn == nil {
		return false
	}
	return ignorableName(FuncName(fn))
}

var ignorablePkgs = []string{"common/logs.", "(*common/logs.", "(common/logs.", "github.com/sirupsen/logrus.", "(github.com/sirupsen/logrus.",
	"log.", "common/util.LogErr", "common/util.LogErrWithPre", "common/util.CloseAndLog", "(sync.Mutex).", "(sync.RWMutex).", "(sync.Locker).", "common/graceful.Recover", "fmt.Print", "(sync.WaitGroup).Done", "(sync.WaitGroup).Add", "(sync.WaitGroup).Wait"}

func ignorableName(n string) bool {
	for _, p := range ignorablePkgs {
		if strings.HasPrefix(n, p) {
			if strings.HasPrefix(n, "(sync.") && strings.Contains(n, "Try") {
				return false
			}
			return true
		}
	}
	return false
}

func (x *Exec) calleeFunc(fr *Frame, call *ast.CallExpr) *types.Func {
	info := fr.pkg.Info
	fun := ast.Unparen(call.Fun)
	switch f := fun.(type) {
	case *ast.IndexExpr:
		fun = f.X
	case *ast.IndexListExpr:
		fun = f.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		o, _ := info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[f]; ok {
			o, _ := sel.Obj().(*types.Func)
			return o
		}
		o, _ := info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

func (x *Exec) call(st *State, fr *Frame, e *ast.CallExpr, k func(*State, []Value)) {
	info := fr.pkg.Info
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		to := x.subst(fr, tv.Type)
		x.expr(st, fr, e.Args[0], func(st *State, v Value) {
			k(st, []Value{x.conversion(st, v, x.typeOf(fr, e.Args[0]), to, e.Pos())})
		})
		return
	}
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			x.builtin(st, fr, e, b.Name(), k)
			return
		}
	}
	if x.ignorableCall(fr, e) { // what it does is left out, evaluating its arguments is not
		x.exprList1(st, fr, effectful(e.Args), func(st *State, _ []Value) { x.ignoredResults(st, fr, e, k) })
		return
	}
	x.prepareCall(st, fr, e, func(st *State, run func(*State, func(*State, []Value))) { run(st, k) })
}

func effectful(es []ast.Expr) []ast.Expr {
	var out []ast.Expr
	for _, e := range es {
		switch ast.Unparen(e).(type) {
		case *ast.Ident, *ast.BasicLit, *ast.FuncLit:
			continue
		}
		out = append(out, e)
	}
	return out
}

func (x *Exec) ignoredResults(st *State, fr *Frame, e *ast.CallExpr, k func(*State, []Value)) {
	t := x.typeOf(fr, e)
	if tup, ok := t.(*types.Tuple); ok {
		var vs []Value
		for i := 0; i < tup.Len(); i++ {
			vs = append(vs, x.freshTyped(st, "ign", tup.At(i).Type()))
		}
		k(st, vs)
		return
	}
	k(st, []Value{x.freshTyped(st, "ign", t)})
}

func (x *Exec) freshTyped(st *State, base string, t types.Type) Value {
	v := x.freshValue(base, t)
	for _, f := range x.typeFacts(v, t, st.alloc) {
		x.assume(st, f)
	}
	return v
}

// prepareCall evaluates the callee and arguments; run performs the call.
func (x *Exec) prepareCall(st *State, fr *Frame, e *ast.CallExpr, k func(*State, func(*State, func(*State, []Value)))) {
	fun := ast.Unparen(e.Fun)
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel, ok := fr.pkg.Info.Selections[se]; ok && sel.Kind() == types.MethodVal {
			x.recvFor(st, fr, se, sel, func(st *State, fn *types.Func, recv Value) {
				x.args(st, fr, e, x.subst(fr, fn.Type()).(*types.Signature), func(st *State, args []Value) {
					f := FuncV{Fn: fn, Recv: recv}
					k(st, func(st *State, k func(*State, []Value)) { x.apply(st, fr, f, args, e, k) })
				})
			})
			return
		}
	}
	x.expr(st, fr, e.Fun, func(st *State, fv Value) {
		f, ok := fv.(FuncV)
		if !ok {
			unsupported("call of %T at %s", fv, x.at(e.Pos()))
		}
		sig, ok := under(x.typeOf(fr, e.Fun)).(*types.Signature)
		if !ok {
			unsupported("callee type at %s", x.at(e.Pos()))
		}
		// inferred instantiation
		x.args(st, fr, e, sig, func(st *State, args []Value) {
			k(st, func(st *State, k func(*State, []Value)) { x.apply(st, fr, f, args, e, k) })
		})
	})
}

func (x *Exec) args(st *State, fr *Frame, e *ast.CallExpr, sig *types.Signature, k func(*State, []Value)) {
	np := sig.Params().Len()
	x.exprList(st, fr, e.Args, func(st *State, vals []Value) {
		if len(e.Args) == 0 {
			vals = nil
		}
		var out []Value
		if sig.Variadic() && !e.Ellipsis.IsValid() {
			for i := 0; i < np-1; i++ {
				out = append(out, x.convert(st, vals[i], sig.Params().At(i).Type()))
			}
			st0 := sig.Params().At(np - 1).Type()
			et := under(st0).(*types.Slice).Elem()
			n := len(vals) - (np - 1)
			if n == 0 {
				out = append(out, x.zeroValue(st0))
			} else if x.bytesVal && isByteSlice(st0) {
				unsupported("variadic bytes")
			} else {
				r := x.newRef(st)
				x.zeroBlock(st, r, et)
				for i := 0; i < n; i++ {
					x.storeLoc(st, Loc{kind: "elem", ref: r, idx: IntT(int64(i)), typ: et, rtyp: et}, x.convert(st, vals[np-1+i], et))
				}
				out = append(out, SliceV{r, IntT(0), IntT(int64(n)), IntT(int64(n)), st0})
			}
			k(st, out)
			return
		}
		for i := 0; i < np; i++ {
			out = append(out, x.convert(st, vals[i], sig.Params().At(i).Type()))
		}
		k(st, out)
	})
}

// apply calls a function value.
func (x *Exec) apply(st *State, fr *Frame, f FuncV, args []Value, e *ast.CallExpr, k func(*State, []Value)) {
	pos := token.NoPos
	if e != nil {
		pos = e.Pos()
	}
	if f.Lit != nil {
		x.callLit(st, fr, f, args, k)
		return
	}
	if f.Intr != "" {
		x.intrinsicValue(st, fr, f, args, k)
		return
	}
	if f.Fn == nil {
		x.callUnknown(st, fr, f, args, pos, k)
		return
	}
	fn := f.Fn
	name := FuncName(fn)
	sig := fn.Type().(*types.Signature)
	if ignorableName(name) {
		k(st, x.havocResults(st, fr, fn, f, e))
		return
	}
	if r := sig.Recv(); r != nil {
		if _, isI := under(r.Type()).(*types.Interface); isI {
			// interface method: concrete receiver known?
			sv := f.Recv.(SV)
			if d, ok := x.dynTab[sv.T]; ok {
				obj, _, _ := types.LookupFieldOrMethod(d.Typ, true, fn.Pkg(), fn.Name())
				if m, ok := obj.(*types.Func); ok {
					x.apply(st, fr, FuncV{Fn: m, Recv: x.adjustRecv(st, d, m)}, args, e, k)
					return
				}
			}
			if d, ok := x.dynOption(st, sv, e, fr); ok {
				if m, ok := lookupMethod(d.Typ, fn); ok {
					x.oblige(st, "nil", "interface receiver is not nil", pos, Neq(sv.T, IntT(0)))
					x.oblige(st, "dyntype", "the interface value is a "+typeKey(d.Typ), pos, Eq(dynType(sv.T), typeID(d.Typ)))
					x.apply(st, fr, FuncV{Fn: m, Recv: x.adjustRecv(st, d, m)}, args, e, k)
					return
				}
			}
			if d, ok := x.devirt(st, sv); ok {
				obj, _, _ := types.LookupFieldOrMethod(d.Typ, true, fn.Pkg(), fn.Name())
				if m, ok := obj.(*types.Func); ok {
					x.oblige(st, "nil", "interface receiver is not nil", pos, Neq(sv.T, IntT(0)))
					x.apply(st, fr, FuncV{Fn: m, Recv: x.adjustRecv(st, d, m)}, args, e, k)
					return
				}
			}
			// contract by the static interface type at the call site, then by declaring interface
			if e != nil {
				if se, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
					bt := x.typeOf(fr, se.X)
					if n, ok := bt.(*types.Named); ok && n.Obj().Pkg() != nil {
						nm := "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + fn.Name()
						if c := x.specs.Contracts[nm]; c != nil {
							x.oblige(st, "nil", "interface receiver is not nil", pos, Neq(sv.T, IntT(0)))
							x.called[nm] = true
							x.callContract(st, fr, c, nil, fn, f, args, pos, k)
							return
						}
					}
				}
			}
			if n, ok := sv.Typ.(*types.Named); ok && hasPrefix(n.Obj().Name(), "opaque") {
				x.assumptions["values of a type parameter accept their method calls"] = true
			} else {
				x.oblige(st, "nil", "interface receiver is not nil", pos, Neq(sv.T, IntT(0)))
			}
		}
	}
	if x.intrinsic(st, fr, name, f, args, e, k) {
		return
	}
	c := x.specs.Contracts[name]
	if c != nil && c.Options["static"] != "" {
		c = nil // only where the static type is this very interface
	}
	fi := x.prog.Funcs[name]
	if c != nil && c.Kind == "func" && x.pureDepth > 0 && c.Pure == nil && fi != nil && fi.Decl.Body != nil && len(c.Loops) == 0 {
		c = nil // inside a specification: the body itself
	}
	if c != nil && c.Kind != "inline" {
		if len(c.Props) > 0 {
			x.called[name] = true
		}
		if len(c.Each) > 0 || len(c.Runs) > 0 {
			x.callWithCallback(st, fr, c, fi, fn, f, args, e, k)
			return
		}
		x.callContract(st, fr, c, fi, fn, f, args, pos, k)
		return
	}
	if fi != nil && fi.Decl.Body != nil {
		for _, s := range x.stack {
			if s == name {
				unsupported("recursive call of %s without a contract", name)
			}
		}
		if len(x.stack) > 24 {
			unsupported("call depth")
		}
		x.inlined[name] = true
		x.inlineCall(st, fi, f, args, fr, e, k)
		return
	}
	x.assumptions["calls to "+name+" return any result and change nothing modelled"] = true
	k(st, x.havocResults(st, fr, fn, f, e))
}

func (x *Exec) adjustRecv(st *State, d dynVal, m *types.Func) Value {
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return d.V
	}
	_, wantPtr := under(r.Type()).(*types.Pointer)
	_, havePtr := under(d.Typ).(*types.Pointer)
	if havePtr && !wantPtr {
		if _, isI := under(r.Type()).(*types.Interface); !isI {
			return x.load(st, x.derefLoc(st, d.V, token.NoPos))
		}
	}
	return d.V
}

func (x *Exec) havocResults(st *State, fr *Frame, fn *types.Func, f FuncV, e *ast.CallExpr) []Value {
	var vs []Value
	if e != nil && fr != nil {
		if t := fr.pkg.Info.TypeOf(e); t != nil {
			t = x.subst(fr, t)
			if tup, ok := t.(*types.Tuple); ok {
				for i := 0; i < tup.Len(); i++ {
					vs = append(vs, x.freshTyped(st, fn.Name(), tup.At(i).Type()))
				}
				return vs
			}
			return []Value{x.freshTyped(st, fn.Name(), t)}
		}
	}
	sig := fn.Type().(*types.Signature)
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, x.freshTyped(st, fn.Name(), sig.Results().At(i).Type()))
	}
	return vs
}

// callUnknown: a function value about which nothing is known. With option purefn its
// results are functions of its arguments (and of nothing else).
func (x *Exec) callUnknown(st *State, fr *Frame, f FuncV, args []Value, pos token.Pos, k func(*State, []Value)) {
	sig, ok := under(f.Typ).(*types.Signature)
	if !ok {
		unsupported("call of unknown function at %s", x.at(pos))
	}
	x.oblige(st, "nil", "function value is not nil", pos, Neq(f.ID, IntT(0)))
	var vs []Value
	if _, pure := x.contract.Options["purefn"]; pure {
		x.assumptions["function arguments of "+x.contract.Func+" are side-effect free and deterministic"] = true
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, x.applyUF(st, f, args, sig, i))
		}
	} else {
		x.assumptions["function values called in "+x.contract.Func+" change nothing modelled"] = true
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, x.freshTyped(st, "fnres", sig.Results().At(i).Type()))
		}
	}
	k(st, vs)
}

func (x *Exec) applyUF(st *State, f FuncV, args []Value, sig *types.Signature, i int) Value {
	ts := []*Term{x.funcID(f)}
	for _, a := range args {
		ts = append(ts, x.toLeaves(a)...)
	}
	rt := sig.Results().At(i).Type()
	ls := x.leaves(rt)
	os := make([]*Term, len(ls))
	for j, l := range ls {
		os[j] = UF(fmt.Sprintf("apply.%d.%d.%d.%s", len(ts), i, j, l.sort), l.sort, ts...)
	}
	v, _ := x.fromLeaves(rt, os)
	for _, fct := range x.typeFacts(v, rt, st.alloc) {
		x.assume(st, fct)
	}
	return v
}

func (x *Exec) newFrame(node ast.Node, parent *Frame, pkg *PkgInfo, fn *FuncInfo, sig *types.Signature) *Frame {
	x.instCnt++
	return &Frame{node: node, parent: parent, inst: x.instCnt, pkg: pkg, fn: fn, sig: sig}
}

// bindParams declares parameters and result variables.
func (x *Exec) bindParams(st *State, fr *Frame, ft *ast.FuncType, args []Value) {
	info := fr.pkg.Info
	i := 0
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				i++
				continue
			}
			for _, n := range f.Names {
				if n.Name != "_" {
					x.declare(st, fr, info.Defs[n], args[i])
				}
				i++
			}
		}
	}
	fr.res = nil
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			if len(f.Names) == 0 {
				fr.res = append(fr.res, nil)
				continue
			}
			for _, n := range f.Names {
				v, _ := info.Defs[n].(*types.Var)
				fr.res = append(fr.res, v)
				if v != nil && n.Name != "_" {
					x.declare(st, fr, v, x.zeroValue(x.subst(fr, v.Type())))
				}
			}
		}
	}
}

// runBody executes a body with deferred calls, then k with the results.
func (x *Exec) runBody(st *State, fr *Frame, body *ast.BlockStmt, k func(*State, []Value)) {
	finish := func(st *State, vals []Value) {
		ds := st.defers[fr.inst]
		delete(st.defers, fr.inst)
		if len(ds) == 0 {
			k(st, vals)
			return
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i < 0 {
				out := append([]Value{}, vals...)
				for j, r := range fr.res {
					if r != nil && r.Name() != "_" && r.Name() != "" {
						out[j] = x.load(st, x.varLoc(fr, r))
					}
				}
				k(st, out)
				return
			}
			ds[i].run(st, func(st *State) { rec(st, i-1) })
		}
		rec(st, len(ds)-1)
	}
	x.block(st, fr, body.List, konts{
		next: func(st *State) {
			if fr.sig.Results().Len() > 0 && len(fr.res) > 0 && fr.res[0] == nil {
				// unreachable end of a function with results (panics etc.)
				return
			}
			var vals []Value
			for _, r := range fr.res {
				if r != nil && r.Name() != "_" {
					vals = append(vals, x.load(st, x.varLoc(fr, r)))
				}
			}
			if fr.sig.Results().Len() > 0 {
				return
			}
			finish(st, vals)
		},
		ret:  finish,
		brk:  func(*State, string) { unsupported("break outside loop") },
		cont: func(*State, string) { unsupported("continue outside loop") },
	})
}

func (x *Exec) callLit(st *State, fr *Frame, f FuncV, args []Value, k func(*State, []Value)) {
	sig := x.subst(f.Frame, f.Frame.pkg.Info.TypeOf(f.Lit)).(*types.Signature)
	nf := x.newFrame(f.Lit, f.Frame, f.Frame.pkg, f.Frame.fn, sig)
	nf.old = f.Frame.old
	nf.depth = fr.depth + 1
	nf.params, nf.lets = f.Frame.params, f.Frame.lets
	if nf.depth > 40 {
		unsupported("closure call depth")
	}
	x.bindParams(st, nf, f.Lit.Type, args)
	x.runBody(st, nf, f.Lit.Body, k)
}

func (x *Exec) inlineCall(st *State, fi *FuncInfo, f FuncV, args []Value, fr *Frame, e *ast.CallExpr, k func(*State, []Value)) {
	sig := fi.Obj.Type().(*types.Signature)
	nf := x.newFrame(fi.Decl, nil, fi.Pkg, fi, sig)
	nf.depth = fr.depth + 1
	nf.tsub = x.typeArgs(fr, fi, f, e)
	if len(nf.tsub) > 0 {
		nf.sig = substType(sig, nf.tsub).(*types.Signature)
	}
	x.bindRecv(st, nf, fi, f.Recv)
	x.bindParams(st, nf, fi.Decl.Type, args)
	nf.old = st.clone()
	nf.params = x.contractParams(&Contract{}, fi, fi.Obj, f, args)
	x.stack = append(x.stack[:len(x.stack):len(x.stack)], fi.Name)
	depth := len(x.stack)
	x.runBody(st, nf, fi.Decl.Body, func(st *State, vs []Value) {
		saved := x.stack
		x.stack = x.stack[: depth-1 : depth-1]
		k(st, vs)
		x.stack = saved
	})
	x.stack = x.stack[: depth-1 : depth-1]
}

func (x *Exec) bindRecv(st *State, nf *Frame, fi *FuncInfo, recv Value) {
	if fi.Decl.Recv == nil || len(fi.Decl.Recv.List) == 0 || len(fi.Decl.Recv.List[0].Names) == 0 {
		return
	}
	n := fi.Decl.Recv.List[0].Names[0]
	if n.Name == "_" {
		return
	}
	x.declare(st, nf, fi.Pkg.Info.Defs[n], recv)
}

// typeArgs determines the instantiation of a generic callee.
func (x *Exec) typeArgs(fr *Frame, fi *FuncInfo, f FuncV, e *ast.CallExpr) map[*types.TypeParam]types.Type {
	sig := fi.Obj.Type().(*types.Signature)
	m := map[*types.TypeParam]types.Type{}
	if tp := sig.TypeParams(); tp != nil && tp.Len() > 0 {
		inst := f.Inst
		if inst == nil && e != nil {
			var id *ast.Ident
			fun := ast.Unparen(e.Fun)
			switch g := fun.(type) {
			case *ast.IndexExpr:
				fun = g.X
			case *ast.IndexListExpr:
				fun = g.X
			}
			switch g := fun.(type) {
			case *ast.Ident:
				id = g
			case *ast.SelectorExpr:
				id = g.Sel
			}
			if id != nil {
				if in, ok := fr.pkg.Info.Instances[id]; ok {
					for i := 0; i < in.TypeArgs.Len(); i++ {
						inst = append(inst, x.subst(fr, in.TypeArgs.At(i)))
					}
				}
			}
		}
		for i := 0; i < tp.Len() && i < len(inst); i++ {
			m[tp.At(i)] = inst[i]
		}
	}
	if rtp := sig.RecvTypeParams(); rtp != nil && rtp.Len() > 0 && f.Recv != nil {
		t := valType(f.Recv)
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil {
			for i := 0; i < rtp.Len() && i < n.TypeArgs().Len(); i++ {
				m[rtp.At(i)] = n.TypeArgs().At(i)
			}
		}
	}
	return m
}

// ---- builtins ----

func (x *Exec) builtin(st *State, fr *Frame, e *ast.CallExpr, name string, k func(*State, []Value)) {
	one := func(st *State, v Value) { k(st, []Value{v}) }
	switch name {
	case "len", "cap":
		x.expr(st, fr, e.Args[0], func(st *State, v Value) {
			one(st, SV{x.lenOf(st, v, name == "cap"), tInt})
		})
	case "panic":
		x.oblige(st, "panic", "panic is unreachable", e.Pos(), TFalse)
	case "append":
		x.appendCall(st, fr, e, one)
	case "copy":
		x.expr(st, fr, e.Args[0], func(st *State, d Value) {
			x.expr(st, fr, e.Args[1], func(st *State, s Value) {
				one(st, SV{x.copySlice(st, d, s, e.Pos()), tInt})
			})
		})
	case "make":
		t := x.typeOf(fr, e.Args[0])
		switch u := under(t).(type) {
		case *types.Map:
			var rec func(i int, st *State)
			rec = func(i int, st *State) {
				if i >= len(e.Args) {
					one(st, x.newMap(st, t))
					return
				}
				x.expr(st, fr, e.Args[i], func(st *State, _ Value) { rec(i+1, st) })
			}
			rec(1, st)
		case *types.Slice:
			x.expr(st, fr, e.Args[1], func(st *State, n Value) {
				fin := func(st *State, c *Term) {
					nt := n.(SV).T
					x.oblige(st, "make", "make length is valid", e.Pos(), And(Le(IntT(0), nt), Le(nt, c)))
					x.assume(st, Le(c, BigT(maxLen)))
					if x.bytesVal && isByteSlice(t) {
						s := UF("zeros", SStr, nt)
						x.assume(st, Eq(slen(s), nt))
						one(st, BytesV{s, TFalse, t})
						return
					}
					r := x.newRef(st)
					x.zeroBlock(st, r, u.Elem())
					one(st, SliceV{r, IntT(0), nt, c, t})
				}
				if len(e.Args) > 2 {
					x.expr(st, fr, e.Args[2], func(st *State, c Value) { fin(st, c.(SV).T) })
				} else {
					fin(st, n.(SV).T)
				}
			})
		case *types.Chan:
			r := x.newRef(st)
			one(st, SV{r, t})
		default:
			unsupported("make of %s", t)
		}
	case "new":
		t := x.typeOf(fr, e.Args[0])
		r := x.newRef(st)
		x.storeLoc(st, x.objLoc(r, t), x.zeroValue(t))
		one(st, SV{r, types.NewPointer(t)})
	case "delete":
		x.expr(st, fr, e.Args[0], func(st *State, m Value) {
			x.expr(st, fr, e.Args[1], func(st *State, kv Value) {
				mt := under(x.typeOf(fr, e.Args[0])).(*types.Map)
				x.mapDelete(st, m.(SV), x.mapKey(mt.Key(), x.convert(st, kv, mt.Key())))
				k(st, nil)
			})
		})
	case "close":
		x.expr(st, fr, e.Args[0], func(st *State, _ Value) { k(st, nil) })
	case "recover":
		one(st, SV{IntT(0), types.Universe.Lookup("any").Type()})
	case "min", "max":
		x.exprList(st, fr, e.Args, func(st *State, vs []Value) {
			t := x.typeOf(fr, e)
			r := x.convert(st, vs[0], t).(SV).T
			for _, v := range vs[1:] {
				w := x.convert(st, v, t).(SV).T
				if name == "min" {
					r = Ite(Lt(w, r), w, r)
				} else {
					r = Ite(Lt(r, w), w, r)
				}
			}
			one(st, SV{r, t})
		})
	default:
		unsupported("builtin %s", name)
	}
}

func (x *Exec) lenOf(st *State, v Value, capacity bool) *Term {
	switch v := v.(type) {
	case SliceV:
		if capacity {
			return v.Cap
		}
		return v.Len
	case BytesV:
		return slen(v.S)
	case ArrV:
		return IntT(under(v.Typ).(*types.Array).Len())
	case SV:
		if v.T.sort == SStr {
			return slen(v.T)
		}
		switch under(v.Typ).(type) {
		case *types.Map:
			n := x.mapLen(st, v)
			x.assume(st, Le(IntT(0), n))
			return n
		case *types.Chan:
			n := Fresh("chanlen", SInt)
			x.assume(st, Le(IntT(0), n))
			return n
		}
	}
	unsupported("len of %T", v)
	return nil
}

// appendCall models append without branching: the block reused is either the old one
// (when capacity suffices) or a new one, chosen by the runtime when capacity is short.
func (x *Exec) appendCall(st *State, fr *Frame, e *ast.CallExpr, k func(*State, Value)) {
	t := x.typeOf(fr, e)
	x.expr(st, fr, e.Args[0], func(st *State, bv Value) {
		bv = x.convert(st, bv, t)
		if e.Ellipsis.IsValid() {
			x.expr(st, fr, e.Args[1], func(st *State, sv Value) {
				b, isSlice := bv.(SliceV)
				if !isSlice || !x.byteFacts() || !isByteSlice(t) {
					k(st, x.appendSlice(st, bv, sv, t))
					return
				}
				// the text of the result is that of the parts
				was, more := x.bytesToStr(st, b), (*Term)(nil)
				if s, ok := sv.(SV); ok {
					more = s.T
				} else {
					more = x.bytesToStr(st, sv)
				}
				r := x.appendSlice(st, bv, sv, t)
				x.assume(st, Eq(x.bytesToStr(st, r), sconcat(was, more)))
				k(st, r)
			})
			return
		}
		x.exprList1(st, fr, e.Args[1:], func(st *State, vals []Value) {
			k(st, x.appendVals(st, bv, vals, t))
		})
	})
}

func (x *Exec) exprList1(st *State, fr *Frame, es []ast.Expr, k func(*State, []Value)) {
	if len(es) == 0 {
		k(st, nil)
		return
	}
	var rec func(st *State, i int, acc []Value)
	rec = func(st *State, i int, acc []Value) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.expr(st, fr, es[i], func(st *State, v Value) { rec(st, i+1, append(acc[:len(acc):len(acc)], v)) })
	}
	rec(st, 0, nil)
}

// grow returns the slice header with room for n more elements, contents preserved.
func (x *Exec) grow(st *State, s SliceV, n *Term, et types.Type) SliceV {
	newLen := Add(s.Len, n)
	fits := Le(newLen, s.Cap)
	if s.Cap.op == "int" && s.Len.op == "int" && n.op == "int" {
		fits = BoolT(newLen.num.Cmp(s.Cap.num) <= 0)
	}
	if n == IntT(0) {
		return s
	}
	fresh := x.newRef(st)
	ref := Ite(fits, s.Ref, fresh)
	ncap := Fresh("cap", SInt)
	cp := Ite(fits, s.Cap, ncap)
	x.assume(st, And(Le(newLen, ncap), Le(ncap, BigT(maxLen))))
	if fits != TFalse {
		g := st.guard
		x.checkWriteIf(st, fits, "E|"+typeKey(et)+"|", s.Ref)
		st.guard = g
	}
	// The new block (if any) uses the same positions as the old one: the start position of
	// a block is a free choice of representation.
	for _, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		srt := ArrS(SInt, ArrS(SInt, l.sort))
		x.regKey(key, srt, l)
		h := x.heapGet(st, key, srt)
		x.setHeap(st, key, Store(h, ref, Select(h, s.Ref)))
	}
	return SliceV{ref, s.Off, newLen, cp, s.Typ}
}

func (x *Exec) checkWriteIf(st *State, c *Term, key string, ref *Term) {
	if c == TTrue {
		x.checkWrite(st, key, ref)
		return
	}
	g := st.guard
	if g != nil {
		st.guard = And(g, c)
	} else {
		st.guard = c
	}
	x.checkWrite(st, key, ref)
	st.guard = g
}

func (x *Exec) appendVals(st *State, bv Value, vals []Value, t types.Type) Value {
	if b, ok := bv.(BytesV); ok {
		s := b.S
		for _, v := range vals {
			s = sconcat(s, UF("bytestr", SStr, v.(SV).T))
		}
		nilT := b.Nil
		if len(vals) > 0 {
			nilT = TFalse
		}
		return BytesV{s, nilT, t}
	}
	s := bv.(SliceV)
	et := under(t).(*types.Slice).Elem()
	n := x.grow(st, s, IntT(int64(len(vals))), et)
	for i, v := range vals {
		v = x.convert(st, v, et)
		ts := x.toLeaves(v)
		for j, l := range x.leaves(et) {
			key := heapElem(et, l.path)
			srt := ArrS(SInt, ArrS(SInt, l.sort))
			x.regKey(key, srt, l)
			h := x.heapGet(st, key, srt)
			idx := Add(Add(n.Off, s.Len), IntT(int64(i)))
			x.setHeap(st, key, Store(h, n.Ref, Store(Select(h, n.Ref), idx, ts[j])))
		}
	}
	n.Typ = t
	return n
}

func (x *Exec) appendSlice(st *State, bv, sv Value, t types.Type) Value {
	if b, ok := bv.(BytesV); ok {
		var add *Term
		switch s := sv.(type) {
		case BytesV:
			add = s.S
		case SV:
			add = s.T
		default:
			unsupported("append bytes %T", sv)
		}
		return BytesV{sconcat(b.S, add), And(b.Nil, Eq(slen(add), IntT(0))), t}
	}
	s := bv.(SliceV)
	et := under(t).(*types.Slice).Elem()
	if str, ok := sv.(SV); ok && str.T.sort == SStr {
		src := x.strToBytes(st, str.T, types.NewSlice(et)).(SliceV)
		sv = src
	}
	if isNilVal(sv) {
		return s
	}
	src := sv.(SliceV)
	// growing changes no existing row, so the source row can be read before it
	var srcRows []*Term
	for _, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		srt := ArrS(SInt, ArrS(SInt, l.sort))
		x.regKey(key, srt, l)
		srcRows = append(srcRows, Select(x.heapGet(st, key, srt), src.Ref))
	}
	n := x.grow(st, s, src.Len, et)
	for li, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		srt := ArrS(SInt, ArrS(SInt, l.sort))
		h := x.heapGet(st, key, srt)
		srcRow := srcRows[li]
		dst := Select(h, n.Ref)
		row := Fresh("arow", ArrS(SInt, l.sort))
		i := BVar("i", SInt)
		base := Add(n.Off, s.Len)
		in := And(Le(base, i), Lt(i, Add(base, src.Len)))
		x.blockCopy(st, row, srcRow, dst, src.Off, base, src.Len, i, in)
		x.setHeap(st, key, Store(h, n.Ref, row))
	}
	n.Typ = t
	return n
}

// blockCopy: row is dst with n cells at base replaced by those of src at soff.
func (x *Exec) blockCopy(st *State, row, src, dst, soff, base, n, i, in *Term) {
	x.assume(st, Forall([]*Term{i}, Eq(Select(row, i), Ite(in, Select(src, Add(i, Sub(soff, base))), Select(dst, i))), []*Term{Select(row, i)}))
	x.assume(st, Forall([]*Term{i}, Implies(And(Le(soff, i), Lt(i, Add(soff, n))), Eq(Select(row, Add(i, Sub(base, soff))), Select(src, i))), []*Term{Select(src, i)}))
	if dst.op != "constarr" {
		x.assume(st, Forall([]*Term{i}, Implies(Not(in), Eq(Select(row, i), Select(dst, i))), []*Term{Select(dst, i)}))
	}
}

func (x *Exec) copySlice(st *State, d, s Value, pos token.Pos) *Term {
	ds, ok := d.(SliceV)
	if !ok {
		unsupported("copy into %T at %s", d, x.at(pos))
	}
	et := under(ds.Typ).(*types.Slice).Elem()
	if sv, ok := s.(SV); ok && sv.T.sort == SStr {
		s = x.strToBytes(st, sv.T, ds.Typ)
	}
	ss := s.(SliceV)
	n := Ite(Lt(ds.Len, ss.Len), ds.Len, ss.Len)
	x.checkWriteIf(st, Lt(IntT(0), n), "E|"+typeKey(et)+"|", ds.Ref)
	for _, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		srt := ArrS(SInt, ArrS(SInt, l.sort))
		x.regKey(key, srt, l)
		h := x.heapGet(st, key, srt)
		srcRow, dst := Select(h, ss.Ref), Select(h, ds.Ref)
		row := Fresh("crow", ArrS(SInt, l.sort))
		i := BVar("i", SInt)
		in := And(Le(ds.Off, i), Lt(i, Add(ds.Off, n)))
		x.blockCopy(st, row, srcRow, dst, ss.Off, ds.Off, n, i, in)
		x.setHeap(st, key, Store(h, ds.Ref, row))
	}
	return n
}

// ---- modular calls ----

func (x *Exec) contractParams(c *Contract, fi *FuncInfo, fn *types.Func, f FuncV, args []Value) map[string]Value {
	m := map[string]Value{}
	if f.Recv != nil {
		m["recv"] = f.Recv
		if fi != nil && fi.Decl.Recv != nil && len(fi.Decl.Recv.List) > 0 && len(fi.Decl.Recv.List[0].Names) > 0 {
			m[fi.Decl.Recv.List[0].Names[0].Name] = f.Recv
		}
	}
	sig := fn.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		m[fmt.Sprintf("arg%d", i)] = args[i]
		if n := sig.Params().At(i).Name(); n != "" && n != "_" {
			m[n] = args[i]
		}
	}
	for i, n := range c.Params {
		if i < len(args) {
			m[n] = args[i]
		}
	}
	return m
}

func (x *Exec) callContract(st *State, fr *Frame, c *Contract, fi *FuncInfo, fn *types.Func, f FuncV, args []Value, pos token.Pos, k func(*State, []Value)) {
	params := x.contractParams(c, fi, fn, f, args)
	old := st.clone()
	pkg := fn.Pkg()
	env := &specEnv{x: x, st: st, old: old, params: params, pkg: pkg, contract: c}
	if c.Kind == "extern" {
		if len(c.Ensures) > 0 || c.Pure != nil {
			x.assumptions["contract of "+c.Func+" (dependency) is assumed, not proved"] = true
		}
	}
	for _, l := range c.Lets {
		env.let(l)
	}
	for _, r := range c.Requires {
		x.oblige(st, "precondition", "precondition "+r.Name+" of "+c.Func, pos, env.boolTerm(r.E))
	}
	sig := fn.Type().(*types.Signature)
	if fi != nil {
		if ts := x.typeArgs(fr, fi, f, nil); len(ts) > 0 {
			sig = substType(sig, ts).(*types.Signature)
		}
	}
	if c == x.contract && len(c.Dec) > 0 {
		var now []*Term
		for _, d := range c.Dec {
			now = append(now, env.intTerm(d.E))
		}
		for _, d := range x.entryDec {
			x.oblige(st, "termination", "recursion measure is bounded below", pos, Le(IntT(0), d))
		}
		x.oblige(st, "termination", "recursion measure decreases", pos, lexLess(now, x.entryDec))
	}
	// effects
	mods := []modLoc{}
	for _, m := range c.Modifies {
		mods = append(mods, x.modLocs(st, env, m.E)...)
	}
	for _, m := range mods {
		for _, kx := range m.keys {
			_ = kx
		}
		if m.ref != nil {
			x.checkWrite(st, m.prefix, m.ref)
		} else {
			x.checkWriteAll(st, m.prefix)
		}
	}
	havoc := map[string]bool{}
	for _, m := range mods {
		for _, kx := range m.keys {
			x.regKey(kx.key, kx.sort, kx.leaf)
			havoc[kx.key] = true
		}
	}
	_, noalloc := c.Options["noalloc"]
	if c.Pure == nil && !noalloc {
		na := Fresh("alloc", SInt)
		x.assume(st, Le(st.alloc, na))
		st.alloc = na
	}
	for _, key := range sortedKeys(havoc) {
		oldT := x.heapGet(st, key, x.heapSort[key])
		nw := Fresh("H:"+key, x.heapSort[key])
		x.setHeap(st, key, nw)
		x.assumeFrame1c(st, key, oldT, nw, mods, old.alloc)
		for _, fct := range x.wfHeapFacts(key, nw, st.alloc) {
			x.assume(st, fct)
		}
	}
	// results
	var results []Value
	if c.Pure != nil {
		v := env.eval(c.Pure.E)
		results = []Value{x.convert(st, retypeIfScalar(v, sig.Results().At(0).Type()), sig.Results().At(0).Type())}
	} else {
		for i := 0; i < sig.Results().Len(); i++ {
			results = append(results, x.freshTyped(st, "res."+fn.Name(), sig.Results().At(i).Type()))
		}
	}
	env2 := &specEnv{x: x, st: st, old: old, params: params, pkg: pkg, contract: c, lets: env.lets}
	env2.setResults(c, sig, results)
	for _, g := range c.Sets {
		// the value is given in terms of the state before the assignment, so other ghosts set here are not to be named in it
		x.assume(st, Eq(env2.scalar(ast.NewIdent(g.Name)), env2.scalar(g.E)))
	}
	for _, en := range c.Ensures {
		x.assume(st, env2.boolTerm(en.E))
	}
	if c.Options["unreachable"] != "" {
		return
	}
	k(st, results)
}

func retypeIfScalar(v Value, t types.Type) Value {
	if s, ok := v.(SV); ok {
		return SV{s.T, t}
	}
	return v
}

func (x *Exec) checkWriteAll(st *State, prefix string) {
	if x.dryKeys != nil {
		return
	}
	for _, f := range st.frames {
		ok := false
		for _, m := range f.mods {
			if strings.HasPrefix(prefix, m.prefix) && m.ref == nil {
				ok = true
			}
		}
		if !ok {
			x.oblige(st, "frame", "writes only what "+f.label+" permits ("+strings.ReplaceAll(prefix, "|", " ")+")", token.NoPos, TFalse)
		}
	}
}

// assumeFrame1c: after a call, component key changed only at the objects the callee may modify.
func (x *Exec) assumeFrame1c(st *State, key string, old, nw *Term, mods []modLoc, alloc *Term) {
	if key[0] == 'V' || key[0] == 'G' {
		return
	}
	r := BVar("r", SInt)
	var cond []*Term
	for _, m := range mods {
		hit := false
		for _, kx := range m.keys {
			if kx.key == key {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if m.ref == nil {
			return
		}
		cond = append(cond, Neq(r, m.ref))
	}
	cond = append(cond, Lt(r, alloc))
	so, sn := Select(old, r), Select(nw, r)
	x.assume(st, Forall([]*Term{r}, Implies(And(cond...), Eq(sn, so)), []*Term{sn}))
}

func lookupMethod(t types.Type, fn *types.Func) (*types.Func, bool) {
	obj, _, _ := types.LookupFieldOrMethod(t, true, fn.Pkg(), fn.Name())
	m, ok := obj.(*types.Func)
	return m, ok
}

// typeNamed finds a type by name: "pkg/path.T", "*pkg/path.T" or a predeclared one.
func (x *Exec) typeNamed(want string) types.Type {
	ptr := hasPrefix(want, "*")
	q := strings.TrimPrefix(want, "*")
	var t types.Type
	if i := strings.LastIndexByte(q, '.'); i < 0 {
		if tn, ok := types.Universe.Lookup(q).(*types.TypeName); ok {
			t = tn.Type()
		}
	} else {
		for _, p := range x.prog.Pkgs {
			if p.Pkg.Path() == q[:i] {
				if tn, ok := p.Pkg.Scope().Lookup(q[i+1:]).(*types.TypeName); ok {
					t = tn.Type()
				}
				break
			}
		}
		for _, p := range x.prog.Pkgs { // a type of a package the program imports
			if t != nil {
				break
			}
			for _, imp := range p.Pkg.Imports() {
				if imp.Path() == q[:i] {
					if tn, ok := imp.Scope().Lookup(q[i+1:]).(*types.TypeName); ok {
						t = tn.Type()
					}
					break
				}
			}
		}
	}
	if t == nil {
		bindFail("type %s not found", want)
	}
	if ptr {
		t = types.NewPointer(t)
	}
	return t
}

// dynOption: option "dyn.IFACE=TYPE" of the contract being proved says which type the values of
// an interface hold here; each call through it has to prove so from the precondition.
func (x *Exec) dynOption(st *State, v SV, e *ast.CallExpr, fr *Frame) (dynVal, bool) {
	try := func(t types.Type) (dynVal, bool) {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return dynVal{}, false
		}
		want, ok := x.contract.Options["dyn."+n.Obj().Pkg().Path()+"."+n.Obj().Name()]
		if !ok {
			return dynVal{}, false
		}
		nt := x.typeNamed(want)
		return dynVal{x.unbox(st, v, nt), nt}, true
	}
	if d, ok := try(v.Typ); ok {
		return d, true
	}
	if e != nil && fr != nil {
		if se, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
			return try(x.typeOf(fr, se.X))
		}
	}
	return dynVal{}, false
}

// devirt: an interface declared (in the contract files) to have one implementing type;
// the claim is checked against every type of the loaded program.
func (x *Exec) devirt(st *State, v SV) (dynVal, bool) {
	n, ok := v.Typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || len(x.specs.Impls) == 0 {
		return dynVal{}, false
	}
	want, ok := x.specs.Impls[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	if !ok {
		return dynVal{}, false
	}
	iface, ok := n.Underlying().(*types.Interface)
	if !ok {
		return dynVal{}, false
	}
	var found types.Type
	for _, p := range x.prog.Pkgs {
		sc := p.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			var t types.Type
			if types.Implements(nt, iface) {
				t = nt
			} else if types.Implements(types.NewPointer(nt), iface) {
				t = types.NewPointer(nt)
			} else {
				continue
			}
			if found != nil || typeKey(t) != want {
				bindFail("interface %s is implemented by %s as well", n.Obj().Name(), typeKey(t))
			}
			found = t
		}
	}
	if found == nil {
		return dynVal{}, false
	}
	x.assumptions["interface "+n.Obj().Name()+" values hold the only implementing type in the program, "+typeKey(found)+" (checked against all loaded packages)"] = true
	return dynVal{x.unbox(st, v, found), found}, true
}

// byteFacts: the contract asks for what slicing and appending of bytes mean for their text.
func (x *Exec) byteFacts() bool {
	_, ok := x.contract.Options["bytefacts"]
	return ok && !x.bytesVal
}
