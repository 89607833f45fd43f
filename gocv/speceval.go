package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Evaluation of specification expressions.

type specEnv struct {
	x        *Exec
	st       *State
	old      *State
	fr       *Frame
	lc       *loopCtx
	params   map[string]Value
	results  map[string]Value
	lets     map[string]Value
	bound    map[string]Value
	pkg      *types.Package
	contract *Contract
	resVals  []Value
	inOld    bool
	limit    string // the recursive function being defined
}

type BindErr struct{ msg string }

func (b BindErr) Error() string { return "cannot bind: " + b.msg }

func bindFail(f string, a ...any) { panic(BindErr{fmt.Sprintf(f, a...)}) }

type heapKey struct {
	key  string
	sort Sort
	leaf leaf
}

func (env *specEnv) let(c Clause) {
	n := map[string]Value{}
	for k, v := range env.lets {
		n[k] = v
	}
	n[c.Name] = env.eval(c.E)
	env.lets = n
}

func (env *specEnv) setResults(c *Contract, sig *types.Signature, results []Value) {
	env.results = map[string]Value{}
	env.resVals = results
	for i, r := range results {
		env.results[fmt.Sprintf("result%d", i)] = r
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			env.results[n] = r
		}
	}
	if len(results) > 0 {
		env.results["result"] = results[0]
	}
	for i, n := range c.Results {
		if i < len(results) {
			env.results[n] = results[i]
		}
	}
}

func (x *Exec) specLoop(st *State, fr *Frame, lc *loopCtx, c Clause) *Term {
	env := &specEnv{x: x, st: st, old: fr.old, fr: fr, lc: lc, params: fr.params, lets: fr.lets, pkg: fr.pkg.Pkg}
	return env.boolTerm(c.E)
}
func (x *Exec) specLoopTerm(st *State, fr *Frame, lc *loopCtx, c Clause) *Term {
	env := &specEnv{x: x, st: st, old: fr.old, fr: fr, lc: lc, params: fr.params, lets: fr.lets, pkg: fr.pkg.Pkg}
	return env.intTerm(c.E)
}

func (env *specEnv) with(name string, v Value) *specEnv {
	n := *env
	n.bound = map[string]Value{}
	for k, w := range env.bound {
		n.bound[k] = w
	}
	n.bound[name] = v
	return &n
}

func (env *specEnv) boolTerm(e ast.Expr) *Term {
	t := env.scalar(e)
	if t.sort != SBool {
		bindFail("expected a boolean in %s", exprStr(e))
	}
	return t
}
func (env *specEnv) intTerm(e ast.Expr) *Term { return env.scalar(e) }

func (env *specEnv) scalar(e ast.Expr) *Term {
	v := env.eval(e)
	switch v := v.(type) {
	case SV:
		return v.T
	case GhostV:
		return v.T
	case BytesV:
		return v.S
	case FuncV:
		return env.x.funcID(v)
	case LocV:
		return env.x.toLeaves(v)[0]
	case StructV:
		ls := env.x.toLeaves(v)
		if len(ls) == 1 {
			return ls[0]
		}
	}
	bindFail("expected a scalar in %s, got %T", exprStr(e), v)
	return nil
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (env *specEnv) eval(e ast.Expr) Value {
	env.x.quiet++
	defer func() { env.x.quiet-- }()
	return env.ev(e)
}

func (env *specEnv) lookupLocal(name string) (Value, bool) {
	k, ok := env.localKey(name)
	if !ok {
		return nil, false
	}
	return env.x.load(env.st, Loc{kind: "var", key: k, rtyp: k.obj.Type()}), true
}

func (env *specEnv) localKey(name string) (varKey, bool) {
	if env.fr == nil {
		return varKey{}, false
	}
	pos := token.NoPos
	if env.lc != nil && env.lc.node != nil {
		switch n := env.lc.node.(type) {
		case *ast.ForStmt:
			pos = n.Body.Lbrace + 1
		case *ast.RangeStmt:
			pos = n.Body.Lbrace + 1
		case *ast.CallExpr:
			pos = n.Pos()
		}
	}
	if pos == token.NoPos {
		return varKey{}, false
	}
	for f := env.fr; f != nil; f = f.parent {
		sc := f.pkg.Pkg.Scope().Innermost(pos)
		if sc == nil {
			continue
		}
		_, obj := sc.LookupParent(name, pos)
		v, ok := obj.(*types.Var)
		if !ok || v.Parent() == f.pkg.Pkg.Scope() {
			break
		}
		k := env.x.keyFor(env.fr, v)
		if _, ok := env.st.store[k]; ok {
			return k, true
		}
		break
	}
	return varKey{}, false
}

func (env *specEnv) ident(name string) Value {
	x := env.x
	if v, ok := env.bound[name]; ok {
		return v
	}
	switch name {
	case "true":
		return SV{TTrue, tBool}
	case "false":
		return SV{TFalse, tBool}
	case "nil":
		return SV{IntT(0), types.Typ[types.UntypedNil]}
	}
	if env.lc != nil && !env.inOld {
		if v, ok := env.lookupLocal(name); ok {
			return v
		}
	}
	if v, ok := env.lets[name]; ok {
		return v
	}
	if v, ok := env.results[name]; ok {
		return v
	}
	if v, ok := env.params[name]; ok {
		return v
	}
	if s, ok := x.specs.Ghosts[name]; ok {
		key := "G|" + name + "|"
		x.regKey(key, s, leaf{})
		return GhostV{x.heapGet(env.st, key, s)}
	}
	if m, ok := x.specs.Macros[name]; ok && len(m.Params) == 0 {
		return env.ev(m.E)
	}
	if u, ok := x.specs.UFs[name]; ok && len(u.Args) == 0 {
		return GhostV{UF(name, u.Ret)}
	}
	if v, ok := env.lookupLocal(name); ok {
		return v
	}
	if env.pkg != nil {
		if v, ok := env.pkgMember(env.pkg, name); ok {
			return v
		}
	}
	bindFail("unknown name %s", name)
	return nil
}

func (env *specEnv) pkgMember(p *types.Package, name string) (Value, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return env.x.constValue(o.Val(), o.Type()), true
	case *types.Var:
		fr := &Frame{pkg: env.x.prog.Pkgs[p.Path()]}
		return env.x.loadVar(env.st, fr, o), true
	}
	return nil, false
}

func (env *specEnv) findPkg(name string) *types.Package {
	if env.pkg != nil {
		if env.pkg.Name() == name {
			return env.pkg
		}
		for _, p := range env.pkg.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	var hit *types.Package
	for _, pi := range env.x.prog.Pkgs {
		if pi.Pkg.Name() == name {
			hit = pi.Pkg
		}
		for _, p := range pi.Pkg.Imports() {
			if p.Name() == name && hit == nil {
				hit = p
			}
		}
	}
	return hit
}

func (env *specEnv) ev(e ast.Expr) Value {
	x := env.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.ev(e.X)
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.CHAR {
			n, _ := constant.Int64Val(v)
			return SV{IntT(n), tInt}
		}
		return x.constValue(v, constDefault(v))
	case *ast.Ident:
		return env.ident(e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return SV{Not(env.scalar(e.X)), tBool}
		case token.SUB:
			return SV{Neg(env.scalar(e.X)), tInt}
		}
		bindFail("operator %s", e.Op)
	case *ast.StarExpr:
		v := env.ev(e.X)
		return x.load(env.st, env.deref(v))
	case *ast.BinaryExpr:
		return env.binary(e)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if !env.known(id.Name) {
				if p := env.findPkg(id.Name); p != nil {
					if v, ok := env.pkgMember(p, e.Sel.Name); ok {
						return v
					}
				}
			}
		}
		return env.field(env.ev(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		return env.index(env.ev(e.X), e.Index)
	case *ast.SliceExpr:
		b := env.ev(e.X)
		lo := IntT(0)
		if e.Low != nil {
			lo = env.scalar(e.Low)
		}
		switch s := b.(type) {
		case SV, GhostV, BytesV:
			t := scalarOf(s)
			hi := slen(t)
			if e.High != nil {
				hi = env.scalar(e.High)
			}
			return SV{ssub(t, lo, hi), tString}
		case SliceV:
			hi := s.Len
			if e.High != nil {
				hi = env.scalar(e.High)
			}
			return SliceV{s.Ref, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo), s.Typ}
		}
		bindFail("slice of %T", b)
	case *ast.CallExpr:
		return env.call(e)
	}
	bindFail("specification expression %s", exprStr(e))
	return nil
}

func scalarOf(v Value) *Term {
	switch v := v.(type) {
	case SV:
		return v.T
	case GhostV:
		return v.T
	case BytesV:
		return v.S
	}
	bindFail("not a scalar: %T", v)
	return nil
}

func (env *specEnv) known(name string) bool {
	if _, ok := env.bound[name]; ok {
		return true
	}
	if _, ok := env.lets[name]; ok {
		return true
	}
	if _, ok := env.results[name]; ok {
		return true
	}
	if _, ok := env.params[name]; ok {
		return true
	}
	if _, ok := env.lookupLocal(name); ok {
		return true
	}
	if _, ok := env.x.specs.Macros[name]; ok {
		return true
	}
	return false
}

func (env *specEnv) deref(v Value) Loc {
	switch p := v.(type) {
	case LocV:
		return p.L
	case SV:
		if pt, ok := under(p.Typ).(*types.Pointer); ok {
			return env.x.objLoc(p.T, pt.Elem())
		}
		if d, ok := env.x.dynTab[p.T]; ok {
			return env.deref(d.V)
		}
		if d, ok := env.x.devirt(env.st, p); ok {
			return env.deref(d.V)
		}
	}
	bindFail("dereference of %T", v)
	return Loc{}
}

func (env *specEnv) field(v Value, name string) Value {
	x := env.x
	if t, ok := v.(TupleV); ok {
		i, err := strconv.Atoi(strings.TrimPrefix(name, "v"))
		if err == nil && i < len(t) {
			return t[i]
		}
	}
	t := valType(v)
	if sv, ok := v.(SV); ok && t != nil {
		if _, isI := under(t).(*types.Interface); isI {
			if d, ok := x.dynTab[sv.T]; ok {
				return env.field(d.V, name)
			}
			if d, ok := x.devirt(env.st, sv); ok {
				return env.field(d.V, name)
			}
		}
	}
	if t == nil {
		bindFail("field %s of untyped value", name)
	}
	base := t
	if p, ok := under(t).(*types.Pointer); ok {
		base = p.Elem()
	}
	obj, idx, _ := types.LookupFieldOrMethod(base, true, env.fieldPkg(base), name)
	if _, ok := obj.(*types.Var); !ok {
		bindFail("no field %s in %s", name, t)
	}
	cur := v
	for _, i := range idx {
		ct := valType(cur)
		if p, ok := under(ct).(*types.Pointer); ok {
			l := x.fieldLoc(env.deref(cur), p.Elem(), i)
			l.rtyp = under(p.Elem()).(*types.Struct).Field(i).Type()
			cur = x.load(env.st, l)
			continue
		}
		sv, ok := cur.(StructV)
		if !ok {
			bindFail("field %s of %T", name, cur)
		}
		cur = sv.F[i]
	}
	return cur
}

func (env *specEnv) fieldPkg(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return env.pkg
}

func (env *specEnv) index(b Value, ie ast.Expr) Value {
	x := env.x
	switch s := b.(type) {
	case SliceV:
		et := under(s.Typ).(*types.Slice).Elem()
		return x.load(env.st, Loc{kind: "elem", ref: s.Ref, idx: Add(s.Off, env.scalar(ie)), typ: et, rtyp: et})
	case BytesV:
		return SV{sat(s.S, env.scalar(ie)), tInt}
	case ArrV:
		i := env.scalar(ie)
		ts := make([]*Term, len(s.A))
		for j, a := range s.A {
			ts[j] = Select(a, i)
		}
		v, _ := x.fromLeaves(under(s.Typ).(*types.Array).Elem(), ts)
		return v
	case GhostV:
		if s.T.sort == SStr {
			return SV{sat(s.T, env.scalar(ie)), tInt}
		}
		return ghost(Select(s.T, env.scalar(ie)))
	case SV:
		if s.T.sort == SStr {
			return SV{sat(s.T, env.scalar(ie)), tInt}
		}
		if m, ok := under(s.Typ).(*types.Map); ok {
			return x.mapGet(env.st, s, env.scalar(ie), m.Elem())
		}
	}
	bindFail("index of %T", b)
	return nil
}

func ghost(t *Term) Value {
	switch t.sort {
	case SInt:
		return SV{t, tInt}
	case SBool:
		return SV{t, tBool}
	case SStr:
		return SV{t, tString}
	case SReal:
		return SV{t, types.Typ[types.Float64]}
	}
	return GhostV{t}
}

func (env *specEnv) binary(e *ast.BinaryExpr) Value {
	x := env.x
	switch e.Op {
	case token.LAND:
		a := env.scalar(e.X)
		return SV{And(a, env.scalar(e.Y)), tBool}
	case token.LOR:
		a := env.scalar(e.X)
		return SV{Or(a, env.scalar(e.Y)), tBool}
	case token.EQL, token.NEQ:
		a, b := env.ev(e.X), env.ev(e.Y)
		c := env.eq(a, b)
		if e.Op == token.NEQ {
			c = Not(c)
		}
		return SV{c, tBool}
	}
	a, b := env.scalar(e.X), env.scalar(e.Y)
	switch e.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return SV{x.order(e.Op, a, b), tBool}
	case token.ADD:
		if a.sort == SStr {
			return SV{sconcat(a, b), tString}
		}
		return numV(Add(a, b))
	case token.SUB:
		return numV(Sub(a, b))
	case token.MUL:
		return numV(Mul(a, b))
	case token.QUO:
		if a.sort == SReal {
			return ghost(mk("/", "", SReal, a, b))
		}
		return numV(Div(a, b))
	case token.REM:
		return numV(Mod(a, b))
	case token.SHL:
		if b.op == "int" {
			return numV(Mul(a, BigT(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64())))))
		}
	}
	bindFail("operator %s in %s", e.Op, exprStr(e))
	return nil
}

func numV(t *Term) Value { return ghost(t) }

func (env *specEnv) eq(a, b Value) *Term {
	x := env.x
	if isNilVal(a) || isNilVal(b) {
		if g, ok := a.(GhostV); ok {
			return Eq(g.T, IntT(0))
		}
		return x.cmpEq(env.st, a, b, valType(a), valType(b))
	}
	ta, tb := valType(a), valType(b)
	if ta != nil && tb != nil {
		_, ia := under(ta).(*types.Interface)
		_, ib := under(tb).(*types.Interface)
		if ia && !ib && !isNilVal(b) {
			if sv, ok := b.(SV); !ok || sv.T.sort != SInt || !isUntypedInt(tb) {
				b = SV{x.box(env.st, b, tb), ta}
			}
		} else if ib && !ia {
			if sv, ok := a.(SV); !ok || sv.T.sort != SInt || !isUntypedInt(ta) {
				a = SV{x.box(env.st, a, ta), tb}
			}
		}
	}
	if ba, ok := a.(BytesV); ok {
		if bb, ok := b.(BytesV); ok {
			return Eq(ba.S, bb.S)
		}
		return Eq(ba.S, scalarOf(b))
	}
	if bb, ok := b.(BytesV); ok {
		return Eq(scalarOf(a), bb.S)
	}
	ts, us := x.toLeaves(a), x.toLeaves(b)
	if len(ts) != len(us) {
		bindFail("comparison of different shapes")
	}
	var cs []*Term
	for i := range ts {
		if ts[i].sort != us[i].sort && !(ts[i].sort == SReal || us[i].sort == SReal) {
			bindFail("comparison of %s and %s", ts[i].sort, us[i].sort)
		}
		cs = append(cs, Eq(ts[i], us[i]))
	}
	return And(cs...)
}

func isUntypedInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func (env *specEnv) call(e *ast.CallExpr) Value {
	x := env.x
	boolV := func(t *Term) Value { return SV{t, tBool} }
	if se, ok := e.Fun.(*ast.SelectorExpr); ok {
		// pkg.Func with a pure contract
		if id, ok := se.X.(*ast.Ident); ok {
			if p := env.findPkg(id.Name); p != nil {
				if v, ok := env.pureCall(p.Path()+"."+se.Sel.Name, e.Args, p); ok {
					return v
				}
			}
		}
		bindFail("call %s", exprStr(e))
	}
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		bindFail("call %s", exprStr(e))
	}
	name := id.Name
	switch name {
	case "old":
		n := *env
		if env.old == nil {
			bindFail("old() without entry state")
		}
		n.st = env.old
		n.inOld = true
		return n.ev(e.Args[0])
	case "atentry": // value at loop entry
		n := *env
		if env.lc == nil || env.lc.entry == nil {
			bindFail("atentry outside loop")
		}
		n.st = env.lc.entry
		return n.ev(e.Args[0])
	case "implies":
		c := env.scalar(e.Args[0])
		if c == TFalse {
			return boolV(TTrue)
		}
		return boolV(Implies(c, env.scalar(e.Args[1])))
	case "iff":
		return boolV(Eq(env.scalar(e.Args[0]), env.scalar(e.Args[1])))
	case "ite":
		c := env.scalar(e.Args[0])
		a, b := env.ev(e.Args[1]), env.ev(e.Args[2])
		ts, us := x.toLeaves(a), x.toLeaves(b)
		if len(ts) == 1 {
			if sv, ok := a.(SV); ok && sv.Typ != nil {
				return SV{Ite(c, ts[0], us[0]), sv.Typ}
			}
			return ghost(Ite(c, ts[0], us[0]))
		}
		out := make([]*Term, len(ts))
		for i := range ts {
			out[i] = Ite(c, ts[i], us[i])
		}
		v, _ := x.fromLeaves(valType(a), out)
		return v
	case "forall", "exists", "forallstr", "existsstr", "forallbool", "forallarr", "forallstrarr", "forallset", "forallmap":
		return boolV(env.quant(name, e))
	case "len":
		v := env.ev(e.Args[0])
		if g, ok := v.(GhostV); ok {
			return SV{slen(g.T), tInt}
		}
		return SV{x.lenOf(env.st, v, false), tInt}
	case "cap":
		return SV{x.lenOf(env.st, env.ev(e.Args[0]), true), tInt}
	case "has": // map membership
		m := env.ev(e.Args[0])
		if g, ok := m.(GhostV); ok {
			return boolV(Select(g.T, env.scalar(e.Args[1])))
		}
		return boolV(x.mapHas(env.st, m.(SV), env.scalar(e.Args[1])))
	case "mapkey": // mapkey(m, field...): the key of map m with these fields
		m := env.ev(e.Args[0]).(SV)
		var ts []*Term
		for _, a := range e.Args[1:] {
			ts = append(ts, env.scalar(a))
		}
		return ghost(x.mapKeyOf(under(m.Typ).(*types.Map).Key(), ts))
	case "dom":
		m := env.ev(e.Args[0]).(SV)
		return GhostV{x.mapDom(env.st, m)}
	case "vals": // the values of a map whose values have one component, per key
		m := env.ev(e.Args[0]).(SV)
		ls := x.leaves(under(m.Typ).(*types.Map).Elem())
		if len(ls) != 1 {
			bindFail("vals of a map of composite values")
		}
		_, h := x.mapValHeap(env.st, m.Typ, ls[0])
		return GhostV{Select(h, m.T)}
	case "emptyset":
		return GhostV{ConstArr(ArrS(SStr, SBool), TFalse)}
	case "ceil":
		n := mk("-", "", SReal, RealT("0"), env.scalar(e.Args[0]))
		return ghost(Neg(mk("to_int", "", SInt, n)))
	case "sel":
		return ghost(Select(env.scalar(e.Args[0]), env.scalar(e.Args[1])))
	case "sto":
		return GhostV{Store(env.scalar(e.Args[0]), env.scalar(e.Args[1]), env.scalar(e.Args[2]))}
	case "fresh", "ours": // fresh: allocated since the contract's entry state; ours: since the function being proved was entered
		v := env.ev(e.Args[0])
		var r *Term
		switch s := v.(type) {
		case SliceV:
			r = s.Ref
		case SV:
			r = s.T
		default:
			bindFail("fresh of %T", v)
		}
		if name == "ours" {
			return boolV(And(Le(x.alloc0, r), Lt(r, env.st.alloc)))
		}
		if env.old == nil {
			bindFail("fresh without entry state")
		}
		return boolV(And(Le(env.old.alloc, r), Lt(r, env.st.alloc)))
	case "mark": // instantiate quantified facts at this value (no logical content)
		var cs []*Term
		for _, a := range e.Args {
			v := env.ev(a)
			if sv, ok := v.(SV); ok {
				cs = append(cs, markT(sv.T))
			}
		}
		return boolV(And(cs...))
	case "freshin": // allocated since this loop was entered
		var r *Term
		switch s := env.ev(e.Args[0]).(type) {
		case SliceV:
			r = s.Ref
		case SV:
			r = s.T
		}
		if env.lc == nil || env.lc.entry == nil || r == nil {
			bindFail("freshin outside loop")
		}
		return boolV(And(Le(env.lc.entry.alloc, r), Lt(r, env.st.alloc)))
	case "allocated": // reference exists in this state
		v := env.ev(e.Args[0])
		var r *Term
		switch s := v.(type) {
		case SliceV:
			r = s.Ref
		case SV:
			r = s.T
		}
		return boolV(And(Le(IntT(0), r), Lt(r, env.st.alloc)))
	case "ref":
		switch s := env.ev(e.Args[0]).(type) {
		case SliceV:
			return SV{s.Ref, tInt}
		case SV:
			return SV{s.T, tInt}
		case FuncV:
			return SV{x.funcID(s), tInt}
		case LocV:
			return SV{x.locID(s), tInt}
		}
		bindFail("ref of non-reference")
	case "off":
		if s, ok := env.ev(e.Args[0]).(SliceV); ok {
			return SV{s.Off, tInt}
		}
		bindFail("off of non-slice")
	case "eachkey": // the key last given to the callback of an "each" call
		if env.lc == nil || env.lc.key == nil {
			bindFail("eachkey outside a call that runs a callback on every entry")
		}
		return SV{env.lc.key, tString}
	case "iter":
		if env.lc == nil || env.lc.iter == nil {
			bindFail("iter() outside range loop")
		}
		return SV{env.lc.iter, tInt}
	case "ranged": // the value ranged over
		if env.lc == nil || env.lc.over == nil {
			bindFail("ranged() outside range loop")
		}
		return env.lc.over
	case "visited":
		if env.lc == nil || env.lc.visited == nil {
			bindFail("visited() outside map range")
		}
		if len(e.Args) == 1 {
			return boolV(Select(env.lc.visited, env.scalar(e.Args[0])))
		}
		return GhostV{env.lc.visited}
	case "abs":
		a := env.scalar(e.Args[0])
		return numV(Ite(Lt(a, IntT(0)), Neg(a), a))
	case "min", "max":
		a, b := env.scalar(e.Args[0]), env.scalar(e.Args[1])
		if name == "min" {
			return numV(Ite(Le(a, b), a, b))
		}
		return numV(Ite(Le(a, b), b, a))
	case "row": // contents array of a slice's block (single-leaf element types)
		s, ok := env.ev(e.Args[0]).(SliceV)
		if !ok {
			bindFail("row of non-slice")
		}
		return GhostV{x.elemRow(env.st, s)}
	case "str": // byte slice as a string value
		v := env.ev(e.Args[0])
		if g, ok := v.(SV); ok {
			return g
		}
		return SV{x.bytesToStr(env.st, v), tString}
	case "bstr":
		return SV{bstr(env.scalar(e.Args[0]), env.scalar(e.Args[1]), env.scalar(e.Args[2])), tString}
	case "sext": // lemma: strings with equal lengths and characters are equal
		a, b := env.scalar(e.Args[0]), env.scalar(e.Args[1])
		i := BVar("i", SInt)
		same := And(Eq(slen(a), slen(b)), Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, slen(a))), Eq(UF("sat", SInt, a, i), UF("sat", SInt, b, i))), []*Term{UF("sat", SInt, a, i)}))
		x.fact(Implies(same, Eq(a, b)))
		return boolV(TTrue)
	case "slt":
		return boolV(slt(env.scalar(e.Args[0]), env.scalar(e.Args[1])))
	case "itoa":
		return SV{itoa(env.scalar(e.Args[0])), tString}
	case "hasprefix":
		s, p := env.scalar(e.Args[0]), env.scalar(e.Args[1])
		return boolV(hasPrefixT(s, p))
	case "toreal", "float64", "float32":
		return SV{ToReal(env.scalar(e.Args[0])), types.Typ[types.Float64]}
	case "int", "int64", "uint64", "int32", "uint32", "uint8", "byte", "uint", "rune", "int8", "int16", "uint16":
		return SV{env.scalar(e.Args[0]), tInt}
	case "string":
		v := env.ev(e.Args[0])
		switch v.(type) {
		case SliceV, BytesV:
			return SV{x.bytesToStr(env.st, v), tString}
		}
		return SV{scalarOf(v), tString}
	case "errIs":
		return boolV(errIs(env.scalar(e.Args[0]), env.scalar(e.Args[1])))
	case "box":
		v := env.ev(e.Args[0])
		return SV{x.box(env.st, v, valType(v)), types.Universe.Lookup("any").Type()}
	case "unboxed": // the concrete value in an interface with one implementing type
		v := env.ev(e.Args[0]).(SV)
		if d, ok := x.dynTab[v.T]; ok {
			return d.V
		}
		if d, ok := x.dynOption(env.st, v, nil, nil); ok {
			return d.V
		}
		if d, ok := x.devirt(env.st, v); ok {
			return d.V
		}
		bindFail("unboxed(): not a single-implementation interface")
		return nil
	case "as": // as(v, "pkg.T"): the value of that type in an interface
		lit := e.Args[1].(*ast.BasicLit)
		s, _ := strconv.Unquote(lit.Value)
		v := env.ev(e.Args[0]).(SV)
		if d, ok := x.dynTab[v.T]; ok && typeKey(d.Typ) == s {
			return d.V
		}
		nt := x.typeNamed(s)
		ls := x.leaves(nt)
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = UF(fmt.Sprintf("unbox.%s.%d", typeKey(nt), i), l.sort, v.T)
		}
		r, _ := x.fromLeaves(nt, ts)
		return r
	case "dyntype": // dyntype(v, "pkg.T")
		lit := e.Args[1].(*ast.BasicLit)
		s, _ := strconv.Unquote(lit.Value)
		tid, ok := typeIDs[s]
		if !ok {
			tid = int64(len(typeIDs) + 1)
			typeIDs[s] = tid
		}
		t := env.scalar(e.Args[0])
		if d, ok := x.dynTab[t]; ok {
			return boolV(BoolT(typeKey(d.Typ) == s))
		}
		return boolV(Eq(dynType(t), IntT(tid)))
	case "isa": // isa(v, "pkg.Iface"): the value is of a type that has the interface's methods
		lit := e.Args[1].(*ast.BasicLit)
		s, _ := strconv.Unquote(lit.Value)
		nt := x.typeNamed(s)
		iface, ok := under(nt).(*types.Interface)
		if !ok {
			bindFail("%s is not an interface", s)
		}
		v := env.ev(e.Args[0])
		t := scalarOf(v)
		if d, ok := x.dynTab[t]; ok {
			return boolV(BoolT(types.Implements(d.Typ, iface)))
		}
		for _, d := range x.dynTab {
			x.fact(Eq(UF("implements."+typeKey(nt), SBool, typeID(d.Typ)), BoolT(types.Implements(d.Typ, iface))))
		}
		u := UF("implements."+typeKey(nt), SBool, dynType(t))
		if vt := valType(v); vt != nil {
			if si, ok := under(vt).(*types.Interface); ok && types.Implements(si, iface) {
				u = TTrue
				if !t.free {
					x.fact(Implies(Neq(t, IntT(0)), UF("implements."+typeKey(nt), SBool, dynType(t))))
				}
			}
		}
		return boolV(And(Neq(t, IntT(0)), u))
	case "apply": // apply(f, args...): pure function value
		f, ok := env.ev(e.Args[0]).(FuncV)
		if !ok {
			bindFail("apply of non-function")
		}
		var args []Value
		for _, a := range e.Args[1:] {
			args = append(args, env.ev(a))
		}
		sig := under(f.Typ).(*types.Signature)
		for i := range args {
			args[i] = x.convert(env.st, args[i], sig.Params().At(i).Type())
		}
		if f.Lit != nil || f.Fn != nil {
			return x.evalPure(env.st, f, args)
		}
		return x.applyUF(env.st, f, args, sig, 0)
	case "isnilslice":
		return boolV(x.cmpEq(env.st, env.ev(e.Args[0]), SV{IntT(0), types.Typ[types.UntypedNil]}, nil, types.Typ[types.UntypedNil]))
	}
	if m, ok := x.specs.Macros[name]; ok {
		if len(m.Params) != len(e.Args) {
			bindFail("macro %s arity", name)
		}
		n := *env
		n.bound = map[string]Value{}
		for k, v := range env.bound {
			n.bound[k] = v
		}
		for i, p := range m.Params {
			n.bound[p] = env.ev(e.Args[i])
		}
		return n.ev(m.E)
	}
	if u, ok := x.specs.UFs[name]; ok {
		if env.limit != "" && name == env.limit {
			name += "_lim"
		}
		var ts []*Term
		for i, a := range e.Args {
			t := env.scalar(a)
			if i < len(u.Args) && u.Args[i] == SReal {
				t = ToReal(t)
			}
			if i >= len(u.Args) || t.sort != u.Args[i] {
				bindFail("argument %d of %s has sort %s", i, name, t.sort)
			}
			ts = append(ts, t)
		}
		return ghost(UF(name, u.Ret, ts...))
	}
	if env.pkg != nil {
		if v, ok := env.pureCall(env.pkg.Path()+"."+name, e.Args, env.pkg); ok {
			return v
		}
	}
	bindFail("unknown function %s", name)
	return nil
}

func (env *specEnv) pureCall(full string, args []ast.Expr, pkg *types.Package) (Value, bool) {
	c := env.x.specs.Contracts[full]
	if c == nil || c.Pure == nil {
		return nil, false
	}
	var fn *types.Func
	if o, ok := pkg.Scope().Lookup(full[strings.LastIndex(full, ".")+1:]).(*types.Func); ok {
		fn = o
	}
	if fn == nil {
		return nil, false
	}
	var vs []Value
	sig := fn.Type().(*types.Signature)
	for i, a := range args {
		v := env.ev(a)
		if i < sig.Params().Len() {
			v = env.x.convert(env.st, v, sig.Params().At(i).Type())
		}
		vs = append(vs, v)
	}
	n := &specEnv{x: env.x, st: env.st, old: env.old, pkg: pkg, contract: c,
		params: env.x.contractParams(c, env.x.prog.Funcs[full], fn, FuncV{}, vs)}
	return n.ev(c.Pure.E), true
}

func hasPrefixT(s, p *Term) *Term {
	return And(Le(slen(p), slen(s)), Eq(ssub(s, IntT(0), slen(p)), p))
}

func itoa(t *Term) *Term {
	if t.op == "int" {
		return StrLit(t.num.String())
	}
	return UF("itoa", SStr, t)
}

func errIs(e, t *Term) *Term {
	return Or(Eq(e, t), UF("errIs", SBool, e, t))
}

func bvValue(b *Term, typ types.Type) Value {
	if strings.HasPrefix(string(b.sort), "(Array") {
		return GhostV{b}
	}
	return SV{b, typ}
}

func (env *specEnv) quant(name string, e *ast.CallExpr) *Term {
	args := e.Args
	// forall(i, body) | forall(i, lo, hi, body) | several variables: forall(i, forall(j, ...)) ; trig(...) before body
	id, ok := args[0].(*ast.Ident)
	if !ok {
		bindFail("quantifier variable in %s", exprStr(e))
	}
	sort := SInt
	var typ types.Type = tInt
	switch name {
	case "forallstr", "existsstr":
		sort, typ = SStr, tString
	case "forallbool":
		sort, typ = SBool, tBool
	case "forallarr":
		sort = ArrS(SInt, SInt)
	case "forallstrarr":
		sort = ArrS(SInt, SStr)
	case "forallset": // a set of strings
		sort = ArrS(SStr, SBool)
	case "forallmap": // an integer per string
		sort = ArrS(SStr, SInt)
	}
	b := BVar(id.Name, sort)
	env2 := env.with(id.Name, bvValue(b, typ))
	rest := args[1:]
	body := rest[len(rest)-1]
	rest = rest[:len(rest)-1]
	var pats [][]*Term
	if len(rest) > 0 {
		if c, ok := rest[len(rest)-1].(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "trig" {
				var ps []*Term
				for _, a := range c.Args {
					ps = append(ps, env2.scalar(a))
				}
				pats = append(pats, ps)
				rest = rest[:len(rest)-1]
			}
		}
	}
	bt := env2.scalar(body)
	if len(rest) == 2 {
		g := And(Le(env2.scalar(rest[0]), b), Lt(b, env2.scalar(rest[1])))
		if name == "exists" {
			bt = And(g, bt)
		} else {
			bt = Implies(g, bt)
		}
	}
	if strings.HasPrefix(name, "exists") {
		return normExists([]*Term{b}, bt)
	}
	if len(pats) == 0 {
		return normForall([]*Term{b}, bt)
	}
	return Forall([]*Term{b}, bt, pats...)
}

// modLocs evaluates a modifies clause item.
func (x *Exec) modLocs(st *State, env *specEnv, e ast.Expr) []modLoc {
	x.quiet++
	defer func() { x.quiet-- }()
	src := exprStr(e)
	elemKeys := func(et types.Type) []heapKey {
		var ks []heapKey
		for _, l := range x.leaves(et) {
			ks = append(ks, heapKey{heapElem(et, l.path), ArrS(SInt, ArrS(SInt, l.sort)), l})
		}
		return ks
	}
	objKeys := func(root types.Type, part types.Type, path string) []heapKey {
		var ks []heapKey
		for _, l := range x.subLeaves(part, path) {
			ks = append(ks, heapKey{heapField(root, l.path), ArrS(SInt, l.sort), l})
		}
		return ks
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.modLocs(st, env, e.X)
	case *ast.CallExpr:
		f := e.Fun.(*ast.Ident).Name
		switch f {
		case "elems", "anyelems":
			s, ok := env.ev(e.Args[0]).(SliceV)
			if !ok {
				bindFail("modifies %s", src)
			}
			et := under(s.Typ).(*types.Slice).Elem()
			m := modLoc{prefix: "E|" + typeKey(et) + "|", ref: s.Ref, src: src, keys: elemKeys(et)}
			if f == "anyelems" {
				m.ref = nil
			}
			return []modLoc{m}
		case "mapof":
			mv, ok := env.ev(e.Args[0]).(SV)
			if !ok {
				bindFail("modifies %s", src)
			}
			d, l, ks, vt, kt := x.mapKeys(mv.Typ)
			keys := []heapKey{{d, ArrS(SInt, ArrS(ks, SBool)), leaf{}}, {l, ArrS(SInt, SInt), leaf{}}}
			for _, lf := range x.leaves(vt) {
				keys = append(keys, heapKey{"MV|" + typeKey(kt) + "|" + typeKey(vt) + "|" + lf.path, ArrS(SInt, ArrS(ks, lf.sort)), lf})
			}
			return []modLoc{{prefix: "M|" + typeKey(kt) + "|" + typeKey(vt), ref: mv.T, src: src, keys: keys}}
		case "allobjs", "allmaps": // every object of a struct type; every map of the type of one of its fields
			nt := x.namedType(e.Args[0])
			if f == "allobjs" {
				return []modLoc{{prefix: "F|" + typeKey(nt) + "|", src: src, keys: objKeys(nt, nt, "")}}
			}
			fs, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
			o, _, _ := types.LookupFieldOrMethod(nt, true, nt.Obj().Pkg(), fs)
			fv, ok := o.(*types.Var)
			if !ok {
				bindFail("modifies %s: no such field", src)
			}
			d, l, ks, vt, kt := x.mapKeys(fv.Type())
			keys := []heapKey{{d, ArrS(SInt, ArrS(ks, SBool)), leaf{}}, {l, ArrS(SInt, SInt), leaf{}}}
			for _, lf := range x.leaves(vt) {
				keys = append(keys, heapKey{"MV|" + typeKey(kt) + "|" + typeKey(vt) + "|" + lf.path, ArrS(SInt, ArrS(ks, lf.sort)), lf})
			}
			return []modLoc{{prefix: "M|" + typeKey(kt) + "|" + typeKey(vt), src: src, keys: keys}}
		case "dynobj": // the struct behind an interface value of statically known dynamic type
			v, ok := env.ev(e.Args[0]).(SV)
			if !ok {
				bindFail("modifies %s", src)
			}
			d, ok := x.dynTab[v.T]
			if !ok {
				bindFail("modifies %s: dynamic type not known here", src)
			}
			l := env.deref(d.V)
			return x.locMods(l, src)
		case "anyobj":
			v := env.ev(e.Args[0])
			l := env.deref(v)
			return []modLoc{{prefix: "F|" + typeKey(l.typ) + "|", src: src, keys: objKeys(l.typ, l.typ, "")}}
		}
		bindFail("modifies %s", src)
	case *ast.StarExpr:
		l := env.deref(env.ev(e.X))
		return x.locMods(l, src)
	case *ast.Ident:
		if s, ok := x.specs.Ghosts[e.Name]; ok {
			key := "G|" + e.Name + "|"
			return []modLoc{{prefix: key, src: src, keys: []heapKey{{key, s, leaf{}}}}}
		}
		if env.pkg != nil {
			if v, ok := env.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
				var ks []heapKey
				pre := "V|" + env.pkg.Path() + "." + v.Name() + "|"
				for _, l := range x.leaves(v.Type()) {
					ks = append(ks, heapKey{pre + l.path, l.sort, l})
				}
				return []modLoc{{prefix: pre, src: src, keys: ks}}
			}
		}
		if k, ok := env.localKey(e.Name); ok { // a local variable whose address is taken
			if b, ok := st.store[k].(boxed); ok {
				return x.locMods(x.objLoc(b.ref, b.typ), src)
			}
			return nil
		}
		bindFail("modifies %s", src)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := env.bound[id.Name]; !bound {
				if p := env.findPkg(id.Name); p != nil && env.params[id.Name] == nil {
					if _, ok := p.Scope().Lookup(e.Sel.Name).(*types.Var); ok {
						n := *env
						n.pkg = p
						return x.modLocs(st, &n, e.Sel)
					}
				}
			}
		}
		b := env.ev(e.X)
		t := valType(b)
		p, ok := under(t).(*types.Pointer)
		if !ok {
			bindFail("modifies %s", src)
		}
		obj, idx, _ := types.LookupFieldOrMethod(p.Elem(), true, env.fieldPkg(p.Elem()), e.Sel.Name)
		if _, ok := obj.(*types.Var); !ok {
			bindFail("modifies %s: no such field", src)
		}
		var out []modLoc
		x.followPath(st, env.deref(b), p.Elem(), idx, token.NoPos, func(_ *State, l Loc) { out = x.locMods(l, src) })
		return out
	}
	bindFail("modifies %s", src)
	return nil
}

func (x *Exec) locMods(l Loc, src string) []modLoc {
	switch l.kind {
	case "obj":
		var ks []heapKey
		for _, lf := range x.subLeaves(l.rtyp, l.path) {
			ks = append(ks, heapKey{heapField(l.typ, lf.path), ArrS(SInt, lf.sort), lf})
		}
		return []modLoc{{prefix: "F|" + typeKey(l.typ) + "|" + l.path, ref: l.ref, src: src, keys: ks}}
	case "elem":
		var ks []heapKey
		for _, lf := range x.subLeaves(l.rtyp, l.path) {
			ks = append(ks, heapKey{heapElem(l.typ, lf.path), ArrS(SInt, ArrS(SInt, lf.sort)), lf})
		}
		return []modLoc{{prefix: "E|" + typeKey(l.typ) + "|" + l.path, ref: l.ref, src: src, keys: ks}}
	}
	bindFail("modifies %s", src)
	return nil
}

// evalPure evaluates a side-effect free closure as a term, merging its paths.
func (x *Exec) evalPure(st *State, f FuncV, args []Value) Value {
	x.pureDepth++
	defer func() { x.pureDepth-- }()
	type res struct {
		c *Term
		v Value
	}
	var rs []res
	s2 := st.clone()
	base := s2.conds
	s2.guard = nil
	fr := f.Frame
	if fr == nil {
		fr = &Frame{pkg: x.unit.Pkg, fn: x.unit, node: x.unit.Decl}
	}
	x.apply(s2, fr, FuncV{Lit: f.Lit, Frame: f.Frame, Fn: f.Fn, Recv: f.Recv, Inst: f.Inst}, args, nil, func(st *State, vs []Value) {
		var cs []*Term
		for n := st.conds; n != base; n = n.next {
			cs = append(cs, n.t)
		}
		if len(vs) == 0 {
			unsupported("closure without result used as a pure function")
		}
		rs = append(rs, res{And(cs...), vs[0]})
	})
	if len(rs) == 0 {
		unsupported("closure never returns")
	}
	out := x.toLeaves(rs[len(rs)-1].v)
	for i := len(rs) - 2; i >= 0; i-- {
		ts := x.toLeaves(rs[i].v)
		no := make([]*Term, len(ts))
		for j := range ts {
			no[j] = Ite(rs[i].c, ts[j], out[j])
		}
		out = no
	}
	v, _ := x.fromLeaves(valType(rs[0].v), out)
	return v
}

// namedType resolves "path/of/pkg.Type".
func (x *Exec) namedType(e ast.Expr) *types.Named {
	b, ok := e.(*ast.BasicLit)
	if !ok {
		bindFail("type name expected")
	}
	s, _ := strconv.Unquote(b.Value)
	i := strings.LastIndexByte(s, '.')
	if i > 0 {
		if pi := x.prog.Pkgs[s[:i]]; pi != nil {
			if tn, ok := pi.Pkg.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					return nt
				}
			}
		}
	}
	bindFail("type %s not found", s)
	return nil
}
