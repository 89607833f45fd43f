package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (x *Exec) constValue(v constant.Value, t types.Type) Value {
	t = defaultType(t, v)
	switch under(t).(type) {
	case *types.Interface:
		// untyped constant assigned to an interface: keep the default type
		return x.constValue(v, constDefault(v))
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		unsupported("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SV{BoolT(constant.BoolVal(v)), t}
	case b.Info()&types.IsString != 0:
		return SV{StrLit(constant.StringVal(v)), t}
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(v)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			unsupported("integer constant %s", v)
		}
		return SV{BigT(n), t}
	case b.Info()&types.IsFloat != 0:
		f := constant.ToFloat(v)
		return SV{RealT(constant.ToFloat(f).ExactString()), t}
	}
	unsupported("constant %s", v)
	return nil
}

func constDefault(v constant.Value) types.Type {
	switch v.Kind() {
	case constant.Bool:
		return tBool
	case constant.String:
		return tString
	case constant.Int:
		return tInt
	}
	return types.Typ[types.Float64]
}

func defaultType(t types.Type, v constant.Value) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		if b.Kind() == types.UntypedRune {
			return types.Typ[types.Int32]
		}
		return types.Default(t)
	}
	return t
}

// expr evaluates a single-valued expression.
func (x *Exec) expr(st *State, fr *Frame, e ast.Expr, k func(*State, Value)) {
	x.exprMulti(st, fr, e, func(st *State, vs []Value) {
		if len(vs) != 1 {
			unsupported("multi-value in single-value context at %s", x.at(e.Pos()))
		}
		k(st, vs[0])
	})
}

func (x *Exec) exprMulti(st *State, fr *Frame, e ast.Expr, k func(*State, []Value)) {
	x.tick()
	info := fr.pkg.Info
	one := func(st *State, v Value) { k(st, []Value{v}) }
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		one(st, x.constValue(tv.Value, x.subst(fr, tv.Type)))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.exprMulti(st, fr, e.X, k)
	case *ast.Ident:
		obj := info.Uses[e]
		if obj == nil {
			obj = info.Defs[e]
		}
		switch o := obj.(type) {
		case *types.Nil:
			one(st, SV{IntT(0), types.Typ[types.UntypedNil]})
		case *types.Var:
			one(st, x.loadVar(st, fr, o))
		case *types.Func:
			one(st, x.funcRef(fr, e, o))
		default:
			unsupported("identifier %s (%T)", e.Name, obj)
		}
	case *ast.FuncLit:
		one(st, FuncV{Lit: e, Frame: fr, Typ: x.typeOf(fr, e)})
	case *ast.SelectorExpr:
		x.selector(st, fr, e, one)
	case *ast.StarExpr:
		x.expr(st, fr, e.X, func(st *State, v Value) {
			one(st, x.load(st, x.derefLoc(st, v, e.Pos())))
		})
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			x.expr(st, fr, e.X, func(st *State, ch Value) {
				x.assumptions["channel operations: a receive yields any value of the element type, a send or close has no modelled effect, and which ready case a select takes is unconstrained"] = true
				v := x.freshTyped(st, "recv", under(valType(ch)).(*types.Chan).Elem())
				if _, two := info.TypeOf(e).(*types.Tuple); two {
					k(st, []Value{v, SV{Fresh("recvok", SBool), types.Typ[types.Bool]}})
					return
				}
				one(st, v)
			})
			return
		}
		x.unary(st, fr, e, one)
	case *ast.BinaryExpr:
		x.binary(st, fr, e, one)
	case *ast.CallExpr:
		x.call(st, fr, e, k)
	case *ast.IndexExpr:
		x.index(st, fr, e, k)
	case *ast.IndexListExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if f, ok := info.Uses[id].(*types.Func); ok {
				one(st, x.funcRef(fr, id, f))
				return
			}
		}
		if se, ok := e.X.(*ast.SelectorExpr); ok {
			if f, ok := info.Uses[se.Sel].(*types.Func); ok {
				one(st, x.funcRef(fr, se.Sel, f))
				return
			}
		}
		unsupported("index list")
	case *ast.SliceExpr:
		x.sliceExpr(st, fr, e, one)
	case *ast.TypeAssertExpr:
		x.expr(st, fr, e.X, func(st *State, v Value) {
			t := x.typeOf(fr, e)
			sv := v.(SV)
			if tup, ok := t.(*types.Tuple); ok {
				tt := tup.At(0).Type()
				ok := x.isType(st, sv, tt)
				x.branch(st, ok, func(st *State) {
					k(st, []Value{x.unbox(st, sv, tt), SV{TTrue, tBool}})
				}, func(st *State) {
					k(st, []Value{x.zeroValue(tt), SV{TFalse, tBool}})
				})
				return
			}
			x.oblige(st, "assert", "type assertion succeeds", e.Pos(), x.isType(st, sv, t))
			one(st, x.unbox(st, sv, t))
		})
	case *ast.CompositeLit:
		x.composite(st, fr, e, x.typeOf(fr, e), one)
	default:
		unsupported("expression %T at %s", e, x.at(e.Pos()))
	}
}

func (x *Exec) funcRef(fr *Frame, id *ast.Ident, o *types.Func) Value {
	f := FuncV{Fn: o, Typ: x.typeOf(fr, id)}
	if in, ok := fr.pkg.Info.Instances[id]; ok {
		for i := 0; i < in.TypeArgs.Len(); i++ {
			f.Inst = append(f.Inst, x.subst(fr, in.TypeArgs.At(i)))
		}
	}
	return f
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var sentinelIdx = map[string]int{}
var sentinelName = map[*Term]string{}

func (x *Exec) sentinel(o *types.Var) *Term {
	n := o.Pkg().Path() + "." + o.Name()
	i, ok := sentinelIdx[n]
	if !ok {
		// deterministic number independent of visiting order would need a hash; order is deterministic per run
		i = len(sentinelIdx)
		sentinelIdx[n] = i
	}
	t := IntT(int64(-1000000 - i))
	sentinelName[t] = n
	return t
}

func (x *Exec) loadVar(st *State, fr *Frame, o *types.Var) Value {
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		if isErrorType(o.Type()) && x.prog.GlobalWrites[o] == 0 {
			return SV{x.sentinel(o), o.Type()}
		}
		if gi, ok := x.prog.GlobalInit[o]; ok && x.prog.GlobalWrites[o] == 0 {
			if tv, ok := gi.Pkg.Info.Types[gi.E]; ok && tv.Value != nil {
				return x.constValue(tv.Value, o.Type())
			}
			if id, ok := gi.E.(*ast.Ident); ok {
				if f, ok := gi.Pkg.Info.Uses[id].(*types.Func); ok {
					return FuncV{Fn: f, Typ: o.Type()}
				}
			}
		}
		// exported sentinel pointers etc.
		v := x.load(st, x.varLoc(fr, o))
		if sv, ok := v.(SliceV); ok {
			x.constTable(st, o, sv)
		}
		if _, isPtr := under(o.Type()).(*types.Pointer); isPtr && x.prog.GlobalWrites[o] == 0 {
			if gi, ok := x.prog.GlobalInit[o]; ok {
				switch ge := gi.E.(type) {
				case *ast.UnaryExpr:
					if ge.Op == token.AND {
						x.assume(st, Lt(IntT(0), v.(SV).T))
					}
				case *ast.CallExpr:
					if id, ok := ge.Fun.(*ast.Ident); ok && (id.Name == "new" || hasPrefix(id.Name, "New")) {
						x.assumptions["package variable "+o.Name()+" is initialised to a non-nil pointer"] = true
						x.assume(st, Lt(IntT(0), v.(SV).T))
					}
				}
			}
		}
		return v
	}
	l := x.varLoc(fr, o)
	return x.load(st, l)
}

// constTable states the contents of a package-level table of constants that is only ever read.
func (x *Exec) constTable(st *State, o *types.Var, v SliceV) {
	gi, ok := x.prog.GlobalInit[o]
	if !ok || x.prog.GlobalWrites[o] != 0 || x.prog.GlobalUses[o] != x.prog.GlobalReads[o] {
		return
	}
	cl, ok := gi.E.(*ast.CompositeLit)
	if !ok {
		return
	}
	et := under(o.Type()).(*types.Slice).Elem()
	ls := x.leaves(et)
	var facts []*Term
	facts = append(facts, Eq(v.Len, IntT(int64(len(cl.Elts)))), Lt(IntT(0), v.Ref))
	for i, e := range cl.Elts {
		var parts []ast.Expr
		if c, ok := e.(*ast.CompositeLit); ok {
			parts = c.Elts
		} else {
			parts = []ast.Expr{e}
		}
		if len(parts) != len(ls) {
			return
		}
		x.quiet++
		ev := x.load(st, Loc{kind: "elem", ref: v.Ref, idx: Add(v.Off, IntT(int64(i))), typ: et, rtyp: et})
		x.quiet--
		have := x.toLeaves(ev)
		for j, p := range parts {
			tv, ok := gi.Pkg.Info.Types[p]
			if !ok || tv.Value == nil {
				return
			}
			facts = append(facts, Eq(have[j], x.toLeaves(x.constValue(tv.Value, tv.Type))[0]))
		}
	}
	x.assumptions["package table "+o.Name()+" holds its initial constants (checked: only ever read)"] = true
	for _, f := range facts {
		x.assume(st, f)
	}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (x *Exec) selector(st *State, fr *Frame, e *ast.SelectorExpr, k func(*State, Value)) {
	info := fr.pkg.Info
	sel, ok := info.Selections[e]
	if !ok {
		switch o := info.Uses[e.Sel].(type) {
		case *types.Var:
			k(st, x.loadVar(st, fr, o))
		case *types.Func:
			k(st, x.funcRef(fr, e.Sel, o))
		default:
			unsupported("selector %s", e.Sel.Name)
		}
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		bt := x.typeOf(fr, e.X)
		if _, isPtr := under(bt).(*types.Pointer); !isPtr && !x.addressable(fr, e.X) {
			x.expr(st, fr, e.X, func(st *State, v Value) {
				t := bt
				for n, i := range sel.Index() {
					s := under(t).(*types.Struct)
					v = v.(StructV).F[i]
					t = s.Field(i).Type()
					if n+1 < len(sel.Index()) {
						if p, ok := under(t).(*types.Pointer); ok {
							l := x.derefLoc(st, v, e.Pos())
							x.followPath(st, l, p.Elem(), sel.Index()[n+1:], e.Pos(), func(st *State, l Loc) { k(st, x.load(st, l)) })
							return
						}
					}
				}
				k(st, v)
			})
			return
		}
		x.selectorLoc(st, fr, e, sel, func(st *State, l Loc) { k(st, x.load(st, l)) })
	case types.MethodVal:
		x.recvFor(st, fr, e, sel, func(st *State, fn *types.Func, recv Value) {
			k(st, FuncV{Fn: fn, Recv: recv, Typ: x.typeOf(fr, e)})
		})
	default:
		unsupported("method expression")
	}
}

func (x *Exec) addressable(fr *Frame, e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := fr.pkg.Info.Uses[e].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if sel, ok := fr.pkg.Info.Selections[e]; ok {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if _, isPtr := under(x.typeOf(fr, e.X)).(*types.Pointer); isPtr {
				return true
			}
			return x.addressable(fr, e.X)
		}
		_, ok := fr.pkg.Info.Uses[e.Sel].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		bt := x.typeOf(fr, e.X)
		switch under(bt).(type) {
		case *types.Slice:
			if x.bytesVal && isByteSlice(bt) {
				return false
			}
			return true
		case *types.Array:
			return x.addressable(fr, e.X)
		}
	}
	return false
}

// recvFor evaluates the receiver of a method selection, following embedded fields.
func (x *Exec) recvFor(st *State, fr *Frame, e *ast.SelectorExpr, sel *types.Selection, k func(*State, *types.Func, Value)) {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	bt := x.typeOf(fr, e.X)
	idx := sel.Index()
	idx = idx[:len(idx)-1]
	recvPtr := false
	if r := sig.Recv(); r != nil {
		_, recvPtr = under(r.Type()).(*types.Pointer)
	}
	finish := func(st *State, l Loc, t types.Type) {
		// l addresses a value of type t
		if _, isI := under(t).(*types.Interface); isI {
			k(st, fn, x.load(st, l))
			return
		}
		if _, isP := under(t).(*types.Pointer); isP {
			v := x.load(st, l)
			if recvPtr {
				k(st, fn, v)
			} else {
				k(st, fn, x.load(st, x.derefLoc(st, v, e.Pos())))
			}
			return
		}
		if recvPtr {
			k(st, fn, x.addrOf(l))
		} else {
			k(st, fn, x.load(st, l))
		}
	}
	if p, ok := under(bt).(*types.Pointer); ok {
		x.expr(st, fr, e.X, func(st *State, v Value) {
			if len(idx) == 0 {
				if recvPtr {
					k(st, fn, v)
				} else {
					k(st, fn, x.load(st, x.derefLoc(st, v, e.Pos())))
				}
				return
			}
			l := x.derefLoc(st, v, e.Pos())
			x.followPathT(st, l, p.Elem(), idx, e.Pos(), finish)
		})
		return
	}
	if _, ok := under(bt).(*types.Interface); ok && len(idx) == 0 {
		x.expr(st, fr, e.X, func(st *State, v Value) { k(st, fn, v) })
		return
	}
	x.lvalue(st, fr, e.X, func(st *State, l Loc) {
		x.followPathT(st, l, bt, idx, e.Pos(), finish)
	})
}

func (x *Exec) followPathT(st *State, l Loc, t types.Type, idx []int, pos token.Pos, k func(*State, Loc, types.Type)) {
	if len(idx) == 0 {
		k(st, l, t)
		return
	}
	x.followPath(st, l, t, idx, pos, func(st *State, l Loc) { k(st, l, l.rtyp) })
}

// addrOf makes a pointer value to a location.
func (x *Exec) addrOf(l Loc) Value {
	pt := types.NewPointer(l.rtyp)
	if l.kind == "obj" && l.path == "" && types.Identical(l.typ, l.rtyp) {
		return SV{l.ref, pt}
	}
	return LocV{l, pt}
}

func (x *Exec) unary(st *State, fr *Frame, e *ast.UnaryExpr, k func(*State, Value)) {
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			t := x.typeOf(fr, cl)
			x.composite(st, fr, cl, t, func(st *State, v Value) {
				r := x.newRef(st)
				x.storeLoc(st, x.objLoc(r, t), v)
				k(st, SV{r, types.NewPointer(t)})
			})
			return
		}
		x.lvalue(st, fr, e.X, func(st *State, l Loc) { k(st, x.addrOf(l)) })
	case token.NOT:
		x.expr(st, fr, e.X, func(st *State, v Value) { k(st, SV{Not(v.(SV).T), valType(v)}) })
	case token.SUB:
		x.expr(st, fr, e.X, func(st *State, v Value) {
			t := x.typeOf(fr, e)
			z := Value(SV{IntT(0), t})
			if v.(SV).T.sort == SReal {
				z = SV{RealT("0"), t}
			}
			k(st, x.arith(st, token.SUB, z, v, t, e.Pos()))
		})
	case token.ADD:
		x.expr(st, fr, e.X, k)
	case token.XOR:
		x.expr(st, fr, e.X, func(st *State, v Value) {
			t := x.typeOf(fr, e)
			lo, hi, uns, _, ok := intRange(t)
			_ = lo
			if !ok {
				unsupported("complement of %s", t)
			}
			if uns {
				k(st, SV{Sub(BigT(hi), v.(SV).T), t})
			} else {
				k(st, SV{Sub(IntT(-1), v.(SV).T), t})
			}
		})
	default:
		unsupported("unary %s at %s", e.Op, x.at(e.Pos()))
	}
}

func (x *Exec) binary(st *State, fr *Frame, e *ast.BinaryExpr, k func(*State, Value)) {
	switch e.Op {
	case token.LAND, token.LOR:
		if x.simple(fr, e.Y) {
			x.expr(st, fr, e.X, func(st *State, a Value) {
				at := a.(SV).T
				g := at
				if e.Op == token.LOR {
					g = Not(at)
				}
				if g == TFalse {
					k(st, SV{at, tBool})
					return
				}
				old := st.guard
				if old != nil {
					st.guard = And(old, g)
				} else if g != TTrue {
					st.guard = g
				}
				x.expr(st, fr, e.Y, func(st *State, b Value) {
					st.guard = old
					if e.Op == token.LAND {
						k(st, SV{And(at, b.(SV).T), tBool})
					} else {
						k(st, SV{Or(at, b.(SV).T), tBool})
					}
				})
			})
			return
		}
		x.cond(st, fr, e, func(st *State) { k(st, SV{TTrue, tBool}) }, func(st *State) { k(st, SV{TFalse, tBool}) })
		return
	}
	x.expr(st, fr, e.X, func(st *State, a Value) {
		x.expr(st, fr, e.Y, func(st *State, b Value) {
			tx, ty := x.typeOf(fr, e.X), x.typeOf(fr, e.Y)
			switch e.Op {
			case token.EQL, token.NEQ:
				c := x.cmpEq(st, a, b, tx, ty)
				if e.Op == token.NEQ {
					c = Not(c)
				}
				k(st, SV{c, tBool})
				return
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				at, bt := a.(SV).T, b.(SV).T
				k(st, SV{x.order(e.Op, at, bt), tBool})
				return
			}
			t := x.typeOf(fr, e)
			if b2, ok := t.(*types.Basic); ok && b2.Info()&types.IsUntyped != 0 {
				t = types.Default(t)
			}
			if e.Op != token.SHL && e.Op != token.SHR {
				b = x.convert(st, b, t)
			}
			a = x.convert(st, a, t)
			k(st, x.arith(st, e.Op, a, b, t, e.Pos()))
		})
	})
}

func (x *Exec) order(op token.Token, a, b *Term) *Term {
	if a.sort == SStr {
		switch op {
		case token.LSS:
			return slt(a, b)
		case token.LEQ:
			return Not(slt(b, a))
		case token.GTR:
			return slt(b, a)
		default:
			return Not(slt(a, b))
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	default:
		return Le(b, a)
	}
}

func isNilVal(v Value) bool {
	s, ok := v.(SV)
	if !ok {
		return false
	}
	b, ok := s.Typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) cmpEq(st *State, a, b Value, ta, tb types.Type) *Term {
	if isNilVal(a) {
		a, b, ta, tb = b, a, tb, ta
	}
	if isNilVal(b) {
		switch v := a.(type) {
		case SliceV:
			return Eq(v.Ref, IntT(0))
		case BytesV:
			return v.Nil
		case FuncV:
			if v.Lit != nil || v.Fn != nil || v.Intr != "" {
				return TFalse
			}
			return Eq(v.ID, IntT(0))
		case LocV:
			return TFalse
		case SV:
			return Eq(v.T, IntT(0))
		}
		unsupported("comparison of %T with nil", a)
	}
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		b = x.convert(st, b, ta)
	} else if ib && !ia {
		a = x.convert(st, a, tb)
	}
	return x.valEq(st, a, b)
}

func (x *Exec) valEq(st *State, a, b Value) *Term {
	if isNilVal(a) || isNilVal(b) {
		return x.cmpEq(st, a, b, valType(a), valType(b))
	}
	if la, ok := a.(LocV); ok {
		if lb, ok := b.(LocV); ok && la.L.kind == lb.L.kind && la.L.ref == lb.L.ref && la.L.path == lb.L.path && la.L.key == lb.L.key && la.L.idx == lb.L.idx {
			return TTrue
		}
		return TFalse
	}
	ts, us := x.toLeaves(a), x.toLeaves(b)
	if len(ts) != len(us) {
		unsupported("comparison of different shapes")
	}
	var cs []*Term
	for i := range ts {
		cs = append(cs, Eq(ts[i], us[i]))
	}
	return And(cs...)
}

// convert adapts a value to static type t (assignability conversions).
func (x *Exec) convert(st *State, v Value, t types.Type) Value {
	if t == nil || v == nil {
		return v
	}
	if isNilVal(v) {
		return x.zeroValue(t)
	}
	vt := valType(v)
	if vt == nil {
		return v
	}
	if _, ok := t.(*types.Tuple); ok {
		return v
	}
	if _, isI := under(t).(*types.Interface); isI {
		if _, isTP := t.(*types.TypeParam); isTP {
			return v
		}
		if _, vi := under(vt).(*types.Interface); vi {
			return retype(v, t)
		}
		return SV{x.box(st, v, vt), t}
	}
	if sv, ok := v.(SV); ok && sv.T.op == "int" {
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return SV{ToReal(sv.T), t}
		}
	}
	return retype(v, t)
}

var typeIDs = map[string]int64{}

func typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := typeIDs[k]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs[k] = id
	}
	return IntT(id)
}

func dynType(t *Term) *Term { return UF("dyntype", SInt, t) }

// box builds the interface value holding v.
func (x *Exec) box(st *State, v Value, vt types.Type) *Term {
	if b, ok := vt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		vt = types.Default(vt)
	}
	ts := x.toLeaves(v)
	ls := x.leaves(vt)
	t := UF("box."+typeKey(vt), SInt, ts...)
	if !t.free {
		facts := []*Term{Lt(IntT(0), t), Eq(dynType(t), typeID(vt))}
		for i := range ts {
			facts = append(facts, Eq(UF(fmt.Sprintf("unbox.%s.%d", typeKey(vt), i), ls[i].sort, t), ts[i]))
		}
		for _, f := range facts {
			x.fact(f)
		}
		if _, ok := x.dynTab[t]; !ok {
			x.dynTab[t] = dynVal{v, vt}
		}
	}
	return t
}

// fact adds a ground fact valid in every state of the unit.
func (x *Exec) fact(f *Term) {
	if f == TTrue || x.factSeen[f] {
		return
	}
	x.factSeen[f] = true
	x.globalFacts = append(x.globalFacts, f)
}

func (x *Exec) isType(st *State, v SV, t types.Type) *Term {
	if _, isI := under(t).(*types.Interface); isI {
		if d, ok := x.dynTab[v.T]; ok {
			if iface, ok := under(t).(*types.Interface); ok {
				if types.Implements(d.Typ, iface) {
					return TTrue
				}
				return TFalse
			}
		}
		if st, ok := v.Typ.(*types.Named); ok {
			if types.Identical(st, t) {
				return Neq(v.T, IntT(0))
			}
		}
		return And(Neq(v.T, IntT(0)), UF("implements."+typeKey(t), SBool, dynType(v.T)))
	}
	if d, ok := x.dynTab[v.T]; ok {
		return BoolT(types.Identical(d.Typ, t))
	}
	if v.T.op == "int" && v.T.num.Sign() < 0 { // sentinel errors: opaque concrete type
		return Eq(dynType(v.T), typeID(t))
	}
	return And(Neq(v.T, IntT(0)), Eq(dynType(v.T), typeID(t)))
}

func (x *Exec) unbox(st *State, v SV, t types.Type) Value {
	if _, isI := under(t).(*types.Interface); isI {
		return SV{v.T, t}
	}
	if d, ok := x.dynTab[v.T]; ok && types.Identical(d.Typ, t) {
		return d.V
	}
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = UF(fmt.Sprintf("unbox.%s.%d", typeKey(t), i), l.sort, v.T)
	}
	r, _ := x.fromLeaves(t, ts)
	if x.quiet == 0 || true {
		for _, f := range x.typeFacts(r, t, st.alloc) {
			if !f.free {
				x.assume(st, f)
			}
		}
	}
	return r
}

// ---- arithmetic ----

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func (x *Exec) inRange(t types.Type, r *Term) *Term {
	lo, hi, _, _, ok := intRange(t)
	if !ok {
		return TTrue
	}
	return And(Le(BigT(lo), r), Le(r, BigT(hi)))
}

func (x *Exec) wrapTo(t types.Type, r *Term) *Term {
	_, _, uns, bits, ok := intRange(t)
	if !ok {
		return r
	}
	if r.op == "int" {
		m := new(big.Int).Mod(r.num, pow2(bits))
		if !uns && m.Cmp(pow2(bits-1)) >= 0 {
			m.Sub(m, pow2(bits))
		}
		return BigT(m)
	}
	if uns {
		return Mod(r, BigT(pow2(bits)))
	}
	return Sub(Mod(Add(r, BigT(pow2(bits-1))), BigT(pow2(bits))), BigT(pow2(bits-1)))
}

func (x *Exec) overflow(st *State, t types.Type, r *Term, pos token.Pos) {
	c := x.inRange(t, r)
	if c == TTrue {
		return
	}
	if x.noOverflow {
		x.assumptions["signed integer overflow is assumed not to happen (option overflow=assume) in "+x.contract.Func] = true
		x.assume(st, c)
		return
	}
	x.oblige(st, "overflow", "no integer overflow", pos, c)
}

func (x *Exec) arith(st *State, op token.Token, a, b Value, t types.Type, pos token.Pos) Value {
	sa, ok1 := a.(SV)
	sb, ok2 := b.(SV)
	if !ok1 || !ok2 {
		unsupported("arithmetic on %T", a)
	}
	at, bt := sa.T, sb.T
	if at.sort == SStr {
		if op == token.ADD {
			return SV{sconcat(at, bt), t}
		}
		unsupported("string operator %s", op)
	}
	if at.sort == SBool {
		switch op {
		case token.AND:
			return SV{And(at, bt), t}
		case token.OR:
			return SV{Or(at, bt), t}
		}
	}
	if at.sort == SReal || bt.sort == SReal {
		x.assumptions["floating-point arithmetic is treated as exact real arithmetic"] = true
		switch op {
		case token.ADD:
			return SV{Add(at, bt), t}
		case token.SUB:
			return SV{Sub(at, bt), t}
		case token.MUL:
			return SV{Mul(at, bt), t}
		case token.QUO:
			return SV{Div(ToReal(at), ToReal(bt)), t}
		}
		unsupported("float operator %s", op)
	}
	_, hi, uns, bits, isInt := intRange(t)
	if !isInt {
		unsupported("arithmetic on type %s", t)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = Add(at, bt)
		if uns {
			r = Ite(Lt(BigT(hi), r), Sub(r, BigT(pow2(bits))), r)
			return SV{r, t}
		}
	case token.SUB:
		r = Sub(at, bt)
		if uns {
			r = Ite(Lt(at, bt), Add(r, BigT(pow2(bits))), r)
			return SV{r, t}
		}
	case token.MUL:
		r = Mul(at, bt)
		if uns {
			return SV{Ite(Le(r, BigT(hi)), r, Mod(r, BigT(pow2(bits)))), t}
		}
	case token.QUO, token.REM:
		x.oblige(st, "div", "divisor is not zero", pos, Neq(bt, IntT(0)))
		if uns {
			if op == token.QUO {
				return SV{Div(at, bt), t}
			}
			return SV{Mod(at, bt), t}
		}
		if op == token.QUO {
			r = Ite(Le(IntT(0), at), Div(at, bt), Neg(Div(Neg(at), bt)))
			x.overflow(st, t, r, pos)
			return SV{r, t}
		}
		return SV{Ite(Le(IntT(0), at), Mod(at, bt), Neg(Mod(Neg(at), bt))), t}
	case token.SHL:
		if bt.op != "int" {
			x.oblige(st, "shift", "shift count is not negative", pos, Le(IntT(0), bt))
			r = Mul(at, UF("pow2", SInt, bt))
		} else {
			r = Mul(at, BigT(pow2(uint(bt.num.Uint64()))))
		}
		if at.op == "int" && r.op == "int" || !uns && bt.op == "int" {
			x.overflow(st, t, r, pos)
			return SV{r, t}
		}
		return SV{x.wrapTo(t, r), t}
	case token.SHR:
		if bt.op != "int" {
			return SV{Div(at, UF("pow2", SInt, bt)), t}
		}
		return SV{Div(at, BigT(pow2(uint(bt.num.Uint64())))), t}
	case token.AND, token.AND_NOT, token.OR, token.XOR:
		return SV{x.bitop(st, op, at, bt, t, uns, bits), t}
	default:
		unsupported("operator %s", op)
	}
	x.overflow(st, t, r, pos)
	return SV{r, t}
}

func log2exact(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	b := uint(n.BitLen() - 1)
	return b, pow2(b).Cmp(n) == 0
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type, uns bool, bits uint) *Term {
	if a.op == "int" && b.op != "int" && op != token.AND_NOT {
		a, b = b, a
	}
	if a.op == "int" && b.op == "int" {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.num, b.num)
		case token.OR:
			r.Or(a.num, b.num)
		case token.XOR:
			r.Xor(a.num, b.num)
		case token.AND_NOT:
			r.AndNot(a.num, b.num)
		}
		return BigT(r)
	}
	if b.op == "int" {
		n := b.num
		if op == token.AND_NOT { // a &^ n == a & ^n
			c := new(big.Int).Not(n)
			if uns {
				c = new(big.Int).Sub(new(big.Int).Sub(pow2(bits), big.NewInt(1)), n)
			}
			n = c
			op = token.AND
		}
		if op == token.AND {
			if n.Sign() == 0 {
				return IntT(0)
			}
			if k, ok := log2exact(new(big.Int).Add(n, big.NewInt(1))); ok {
				return Mod(a, BigT(pow2(k)))
			}
			// -2^k, or 2^bits - 2^k
			c := new(big.Int).Neg(n)
			if uns {
				c = new(big.Int).Sub(pow2(bits), n)
			}
			if k, ok := log2exact(c); ok {
				return Sub(a, Mod(a, BigT(pow2(k))))
			}
		}
		if op == token.OR && n.Sign() == 0 || op == token.XOR && n.Sign() == 0 {
			return a
		}
	}
	r := UF("bit"+op.String()+fmt.Sprint(bits), SInt, a, b)
	// simple bounds for non-negative operands
	if !r.free {
		switch op {
		case token.AND:
			x.fact(Implies(And(Le(IntT(0), a), Le(IntT(0), b)), And(Le(IntT(0), r), Le(r, a), Le(r, b))))
		case token.OR:
			x.fact(Implies(And(Le(IntT(0), a), Le(IntT(0), b)), And(Le(a, r), Le(b, r), Le(r, Add(a, b)))))
		}
	}
	return r
}

// conversion T(v)
func (x *Exec) conversion(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	fu, tu := under(from), under(to)
	if isNilVal(v) {
		return x.zeroValue(to)
	}
	if _, ok := tu.(*types.Interface); ok {
		return x.convert(st, v, to)
	}
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	if tIsB && fIsB {
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			return retype(v, to)
		}
		sv := v.(SV)
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			lo, hi, _, _, _ := intRange(to)
			flo, fhi, _, _, ok := intRange(from)
			if ok && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return SV{sv.T, to}
			}
			if sv.T.op == "int" && sv.T.num.Cmp(lo) >= 0 && sv.T.num.Cmp(hi) <= 0 {
				return SV{sv.T, to}
			}
			in := x.inRange(to, sv.T)
			if st.has(in) {
				return SV{sv.T, to}
			}
			return SV{Ite(in, sv.T, x.wrapTo(to, sv.T)), to}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsNumeric != 0:
			return SV{ToReal(sv.T), to}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			x.assumptions["float to integer conversions are in range"] = true
			r := sv.T
			fl := mk("to_int", "", SInt, r)
			fln := Neg(mk("to_int", "", SInt, mk("-", "", SReal, RealT("0"), r)))
			t := Ite(Le(RealT("0"), r), fl, fln)
			x.assume(st, x.inRange(to, t))
			return SV{t, to}
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return SV{sv.T, to}
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return SV{UF("runestr", SStr, sv.T), to}
		case tb.Info()&types.IsBoolean != 0:
			return SV{sv.T, to}
		}
		unsupported("conversion %s to %s", from, to)
	}
	if tIsB && tb.Info()&types.IsString != 0 {
		if isByteSlice(from) {
			return SV{x.bytesToStr(st, v), to}
		}
		if s, ok := v.(SliceV); ok { // []rune
			row := x.elemRow(st, s)
			return SV{UF("runes2str", SStr, row, s.Off, s.Len), to}
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if isByteSlice(to) {
			return x.strToBytes(st, v.(SV).T, to)
		}
		if s, ok := tu.(*types.Slice); ok {
			if eb, ok := under(s.Elem()).(*types.Basic); ok && eb.Kind() == types.Int32 {
				str := v.(SV).T
				n := UF("runelen", SInt, str)
				x.assume(st, And(Le(IntT(0), n), Le(n, slen(str)), Eq(Eq(n, IntT(0)), Eq(slen(str), IntT(0)))))
				r := x.newRef(st)
				key := heapElem(s.Elem(), "")
				sort := ArrS(SInt, ArrS(SInt, SInt))
				x.regKey(key, sort, leaf{"", SInt, "int", s.Elem()})
				x.setHeap(st, key, Store(x.heapGet(st, key, sort), r, UF("runesof", ArrS(SInt, SInt), str)))
				return SliceV{r, IntT(0), n, n, to}
			}
		}
	}
	return retype(v, to)
}

// row of an element block for single-leaf element types
func (x *Exec) elemRow(st *State, s SliceV) *Term {
	et := under(s.Typ).(*types.Slice).Elem()
	ls := x.leaves(et)
	if len(ls) != 1 {
		unsupported("row of compound elements")
	}
	key := heapElem(et, ls[0].path)
	sort := ArrS(SInt, ArrS(SInt, ls[0].sort))
	x.regKey(key, sort, ls[0])
	return Select(x.heapGet(st, key, sort), s.Ref)
}

func (x *Exec) bytesToStr(st *State, v Value) *Term {
	switch b := v.(type) {
	case BytesV:
		return b.S
	case SliceV:
		row := x.elemRow(st, b)
		if row.op == "uf" && row.name == "strrow" && b.Off == IntT(0) && b.Len == slen(row.args[0]) {
			return row.args[0]
		}
		return bstr(row, b.Off, b.Len)
	}
	unsupported("bytes %T", v)
	return nil
}

func (x *Exec) strToBytes(st *State, s *Term, to types.Type) Value {
	if x.bytesVal {
		return BytesV{s, TFalse, to}
	}
	et := under(to).(*types.Slice).Elem()
	r := x.newRef(st)
	key := heapElem(et, "")
	sort := ArrS(SInt, ArrS(SInt, SInt))
	x.regKey(key, sort, leaf{"", SInt, "int", et})
	x.setHeap(st, key, Store(x.heapGet(st, key, sort), r, UF("strrow", ArrS(SInt, SInt), s)))
	n := slen(s)
	x.assume(st, And(Le(IntT(0), n), Le(n, BigT(maxLen))))
	return SliceV{r, IntT(0), n, n, to}
}

// ---- index, slice, composite ----

func (x *Exec) index(st *State, fr *Frame, e *ast.IndexExpr, k func(*State, []Value)) {
	one := func(st *State, v Value) { k(st, []Value{v}) }
	info := fr.pkg.Info
	if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
		if f, ok := info.Uses[id].(*types.Func); ok {
			one(st, x.funcRef(fr, id, f))
			return
		}
	}
	if se, ok := ast.Unparen(e.X).(*ast.SelectorExpr); ok {
		if f, ok := info.Uses[se.Sel].(*types.Func); ok {
			one(st, x.funcRef(fr, se.Sel, f))
			return
		}
	}
	bt := x.typeOf(fr, e.X)
	switch u := under(bt).(type) {
	case *types.Map:
		x.expr(st, fr, e.X, func(st *State, m Value) {
			x.expr(st, fr, e.Index, func(st *State, iv Value) {
				kt := x.mapKey(u.Key(), x.convert(st, iv, u.Key()))
				v := x.mapGet(st, m.(SV), kt, u.Elem())
				if _, two := x.typeOf(fr, e).(*types.Tuple); two {
					k(st, []Value{v, SV{x.mapHas(st, m.(SV), kt), tBool}})
					return
				}
				one(st, v)
			})
		})
		return
	case *types.Basic: // string
		x.expr(st, fr, e.X, func(st *State, s Value) {
			x.expr(st, fr, e.Index, func(st *State, iv Value) {
				i, str := iv.(SV).T, s.(SV).T
				x.oblige(st, "bounds", "string index in range", e.Pos(), And(Le(IntT(0), i), Lt(i, slen(str))))
				one(st, SV{sat(str, i), types.Typ[types.Uint8]})
			})
		})
		return
	case *types.Slice:
		if x.bytesVal && isByteSlice(bt) {
			x.expr(st, fr, e.X, func(st *State, s Value) {
				x.expr(st, fr, e.Index, func(st *State, iv Value) {
					i, str := iv.(SV).T, s.(BytesV).S
					x.oblige(st, "bounds", "index in range", e.Pos(), And(Le(IntT(0), i), Lt(i, slen(str))))
					one(st, SV{sat(str, i), u.Elem()})
				})
			})
			return
		}
	}
	x.lvalue(st, fr, e, func(st *State, l Loc) { one(st, x.load(st, l)) })
}

func (x *Exec) optExpr(st *State, fr *Frame, e ast.Expr, k func(*State, *Term)) {
	if e == nil {
		k(st, nil)
		return
	}
	x.expr(st, fr, e, func(st *State, v Value) { k(st, v.(SV).T) })
}

func (x *Exec) sliceExpr(st *State, fr *Frame, e *ast.SliceExpr, k func(*State, Value)) {
	bt := x.typeOf(fr, e.X)
	x.expr(st, fr, e.X, func(st *State, b Value) {
		x.optExpr(st, fr, e.Low, func(st *State, lo *Term) {
			x.optExpr(st, fr, e.High, func(st *State, hi *Term) {
				x.optExpr(st, fr, e.Max, func(st *State, mx *Term) {
					if lo == nil {
						lo = IntT(0)
					}
					switch v := b.(type) {
					case SV:
						if v.T.sort != SStr {
							unsupported("slicing of %s", bt)
						}
						n := slen(v.T)
						if hi == nil {
							hi = n
						}
						x.oblige(st, "bounds", "slice bounds in range", e.Pos(), And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)))
						k(st, SV{ssub(v.T, lo, hi), v.Typ})
					case BytesV:
						n := slen(v.S)
						if hi == nil {
							hi = n
						}
						// capacity is not modelled for value bytes: the bound is the length
						x.oblige(st, "bounds", "slice bounds in range", e.Pos(), And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)))
						k(st, BytesV{ssub(v.S, lo, hi), v.Nil, v.Typ})
					case SliceV:
						if hi == nil {
							hi = v.Len
						}
						cp := v.Cap
						if mx != nil {
							x.oblige(st, "bounds", "slice capacity in range", e.Pos(), And(Le(hi, mx), Le(mx, v.Cap)))
							cp = mx
						}
						x.oblige(st, "bounds", "slice bounds in range", e.Pos(), And(Le(IntT(0), lo), Le(lo, hi), Le(hi, cp)))
						r := SliceV{v.Ref, Add(v.Off, lo), Sub(hi, lo), Sub(cp, lo), v.Typ}
						if x.byteFacts() && isByteSlice(v.Typ) {
							x.assume(st, Implies(Le(hi, v.Len), Eq(x.bytesToStr(st, r), ssub(x.bytesToStr(st, v), lo, hi))))
						}
						k(st, r)
					default:
						unsupported("slicing of %s", bt)
					}
				})
			})
		})
	})
}

func (x *Exec) composite(st *State, fr *Frame, e *ast.CompositeLit, t types.Type, k func(*State, Value)) {
	switch u := under(t).(type) {
	case *types.Struct:
		v := x.zeroValue(t)
		sv, ok := v.(StructV)
		if !ok {
			if len(e.Elts) == 0 {
				k(st, v)
				return
			}
			unsupported("composite literal of opaque %s", t)
		}
		fs := append([]Value{}, sv.F...)
		var rec func(st *State, i int, fs []Value)
		rec = func(st *State, i int, fs []Value) {
			if i == len(e.Elts) {
				k(st, StructV{t, fs})
				return
			}
			fi := i
			ve := e.Elts[i]
			if kv, ok := ve.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				fi = -1
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						fi = j
					}
				}
				ve = kv.Value
			}
			x.elemExpr(st, fr, ve, u.Field(fi).Type(), func(st *State, v Value) {
				nf := append([]Value{}, fs...)
				nf[fi] = x.convert(st, v, u.Field(fi).Type())
				rec(st, i+1, nf)
			})
		}
		rec(st, 0, fs)
	case *types.Pointer:
		// elided &T in a composite
		x.composite(st, fr, e, u.Elem(), func(st *State, v Value) {
			r := x.newRef(st)
			x.storeLoc(st, x.objLoc(r, u.Elem()), v)
			k(st, SV{r, t})
		})
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		type item struct {
			i int64
			v Value
		}
		next := int64(0)
		max := int64(0)
		var rec func(st *State, i int, acc []item)
		rec = func(st *State, i int, acc []item) {
			if i == len(e.Elts) {
				n := max
				if s, ok := u.(*types.Slice); ok {
					if x.bytesVal && isByteSlice(t) {
						if n == 0 {
							k(st, BytesV{StrLit(""), TFalse, t})
							return
						}
						unsupported("byte slice literal under bytesval")
					}
					r := x.newRef(st)
					x.zeroBlock(st, r, et)
					for _, it := range acc {
						x.storeLoc(st, Loc{kind: "elem", ref: r, idx: IntT(it.i), typ: s.Elem(), rtyp: s.Elem()}, it.v)
					}
					k(st, SliceV{r, IntT(0), IntT(n), IntT(n), t})
					return
				}
				av := x.zeroValue(t).(ArrV)
				for _, it := range acc {
					ts := x.toLeaves(it.v)
					na := make([]*Term, len(av.A))
					for j := range na {
						na[j] = Store(av.A[j], IntT(it.i), ts[j])
					}
					av = ArrV{t, na}
				}
				k(st, av)
				return
			}
			ve := e.Elts[i]
			if kv, ok := ve.(*ast.KeyValueExpr); ok {
				tv := fr.pkg.Info.Types[kv.Key]
				if tv.Value == nil {
					unsupported("non-constant index in literal")
				}
				next, _ = constant.Int64Val(tv.Value)
				ve = kv.Value
			}
			at := next
			next++
			if next > max {
				max = next
			}
			x.elemExpr(st, fr, ve, et, func(st *State, v Value) {
				rec(st, i+1, append(acc[:len(acc):len(acc)], item{at, x.convert(st, v, et)}))
			})
		}
		rec(st, 0, nil)
	case *types.Map:
		m := x.newMap(st, t)
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(e.Elts) {
				k(st, m)
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.elemExpr(st, fr, kv.Key, u.Key(), func(st *State, kk Value) {
				x.elemExpr(st, fr, kv.Value, u.Elem(), func(st *State, v Value) {
					x.mapSet(st, m, x.mapKey(u.Key(), x.convert(st, kk, u.Key())), x.convert(st, v, u.Elem()))
					rec(st, i+1)
				})
			})
		}
		rec(st, 0)
	default:
		unsupported("composite literal of %s", t)
	}
}

func (x *Exec) elemExpr(st *State, fr *Frame, e ast.Expr, t types.Type, k func(*State, Value)) {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		x.composite(st, fr, cl, t, k)
		return
	}
	x.expr(st, fr, e, k)
}

// zeroBlock initialises every cell of a fresh block.
func (x *Exec) zeroBlock(st *State, r *Term, et types.Type) {
	for _, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		s := ArrS(SInt, ArrS(SInt, l.sort))
		x.regKey(key, s, l)
		x.setHeap(st, key, Store(x.heapGet(st, key, s), r, ConstArr(ArrS(SInt, l.sort), x.zeroLeaf(l))))
	}
}
