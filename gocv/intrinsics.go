package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// Models of standard-library and helper functions, applied at call sites.
// Every model used is listed in the evidence as an assumption.

func (x *Exec) intrinsicValue(st *State, fr *Frame, f FuncV, args []Value, k func(*State, []Value)) {
	unsupported("intrinsic function value %s", f.Intr)
}

func (x *Exec) freshErr(st *State, base string) *Term {
	t := Fresh(base, SInt)
	x.assume(st, Lt(IntT(0), t))
	// a type of the library: none that a contract can name
	id, ok := typeIDs["library error"]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs["library error"] = id
	}
	x.assume(st, Eq(dynType(t), IntT(id)))
	return t
}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

func (x *Exec) intrinsic(st *State, fr *Frame, name string, f FuncV, args []Value, e *ast.CallExpr, k func(*State, []Value)) bool {
	one := func(v Value) { k(st, []Value{v}) }
	str := func(t *Term) Value { return SV{t, tString} }
	boolv := func(t *Term) Value { return SV{t, tBool} }
	intv := func(t *Term) Value { return SV{t, tInt} }
	sc := func(i int) *Term { return args[i].(SV).T }
	used := func(s string) { x.assumptions["model of "+s] = true }
	switch name {
	case "errors.New":
		one(SV{x.freshErr(st, "err"), errT()})
	case "fmt.Errorf":
		t := x.freshErr(st, "errf")
		// %w wrapping
		if e != nil && len(e.Args) > 0 {
			if tv, ok := fr.pkg.Info.Types[e.Args[0]]; ok && tv.Value != nil && strings.Contains(constant.StringVal(tv.Value), "%w") {
				for _, a := range variadicArgs(x, st, args[1]) {
					tgt := BVar("t", SInt)
					ae := a
					x.assume(st, Forall([]*Term{tgt}, Implies(Or(Eq(ae, tgt), UF("errIs", SBool, ae, tgt)), UF("errIs", SBool, t, tgt)), []*Term{UF("errIs", SBool, t, tgt)}))
				}
			}
		}
		one(SV{t, errT()})
	case "errors.Is":
		used("errors.Is (identity or recorded wrapping)")
		one(boolv(Or(Eq(sc(0), sc(1)), And(Not(Eq(sc(0), IntT(0))), errIs(sc(0), sc(1))))))
	case "strconv.Itoa":
		one(str(itoa(sc(0))))
	case "strconv.FormatInt", "strconv.FormatUint":
		if sc(1) == IntT(10) {
			one(str(itoa(sc(0))))
		} else {
			one(str(UF("itoab", SStr, sc(0), sc(1))))
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		used("strconv parsing (decimal inverse of formatting)")
		s := sc(0)
		ok := UF("isnum", SBool, s)
		v := UF("atoi", SInt, s)
		var rt types.Type = tInt
		okc := ok
		switch name {
		case "strconv.ParseInt":
			rt = types.Typ[types.Int64]
			if b := sc(2); b.op == "int" && b.num.Sign() > 0 {
				n := uint(b.num.Uint64())
				okc = And(ok, Le(BigT(neg2(n-1)), v), Lt(v, BigT(pow2(n-1))))
			}
		case "strconv.ParseUint":
			rt = types.Typ[types.Uint64]
			okc = And(ok, Le(IntT(0), v))
			if b := sc(2); b.op == "int" && b.num.Sign() > 0 {
				okc = And(okc, Lt(v, BigT(pow2(uint(b.num.Uint64())))))
			}
		}
		okc = And(okc, x.inRange(rt, v))
		_ = UF("itoa", SStr, IntT(0))
		x.branch(st, okc, func(st *State) {
			k(st, []Value{SV{v, rt}, SV{IntT(0), errT()}})
		}, func(st *State) {
			k(st, []Value{SV{Fresh("parsed", SInt), rt}, SV{x.freshErr(st, "perr"), errT()}})
		})
	case "strings.HasPrefix":
		one(boolv(hasPrefixT(sc(0), sc(1))))
	case "strings.HasSuffix":
		s, p := sc(0), sc(1)
		one(boolv(And(Le(slen(p), slen(s)), Eq(ssub(s, Sub(slen(s), slen(p)), slen(s)), p))))
	case "strings.TrimPrefix":
		s, p := sc(0), sc(1)
		one(str(Ite(hasPrefixT(s, p), ssub(s, slen(p), slen(s)), s)))
	case "strings.ToUpper":
		one(str(UF("toupper", SStr, sc(0))))
	case "strings.ToLower":
		one(str(UF("tolower", SStr, sc(0))))
	case "strings.TrimSpace":
		one(str(UF("trimspace", SStr, sc(0))))
	case "strings.Contains":
		one(boolv(UF("scontains", SBool, sc(0), sc(1))))
	case "strings.EqualFold":
		one(boolv(UF("equalfold", SBool, sc(0), sc(1))))
	case "strings.LastIndexByte", "strings.IndexByte", "bytes.LastIndexByte", "bytes.IndexByte":
		used(name)
		var s *Term
		if strings.HasPrefix(name, "bytes.") {
			s = x.bytesToStr(st, args[0])
		} else {
			s = sc(0)
		}
		c := sc(1)
		r := Fresh("idx", SInt)
		i := BVar("i", SInt)
		x.assume(st, And(Le(IntT(-1), r), Lt(r, slen(s))))
		x.assume(st, Implies(Le(IntT(0), r), Eq(sat(s, r), c)))
		rng := And(Lt(r, i), Lt(i, slen(s)))
		if strings.HasSuffix(name, ".IndexByte") {
			rng = And(Le(IntT(0), i), Lt(i, slen(s)), Or(Lt(i, r), Eq(r, IntT(-1))))
		}
		x.assume(st, Forall([]*Term{i}, Implies(rng, Neq(UF("sat", SInt, s, i), c)), []*Term{UF("sat", SInt, s, i)}))
		one(intv(r))
	case "strings.Compare":
		a, b := sc(0), sc(1)
		one(intv(Ite(Eq(a, b), IntT(0), Ite(slt(a, b), IntT(-1), IntT(1)))))
	case "bytes.Equal":
		one(boolv(Eq(x.bytesToStr(st, args[0]), x.bytesToStr(st, args[1]))))
	case "bytes.HasPrefix":
		one(boolv(hasPrefixT(x.bytesToStr(st, args[0]), x.bytesToStr(st, args[1]))))
	case "common/util.StrToBytes":
		one(x.strToBytes(st, sc(0), types.NewSlice(types.Typ[types.Uint8])))
	case "common/util.BytesToStr":
		one(str(x.bytesToStr(st, args[0])))
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		return x.sprint(st, fr, name, args, e, k)
	case "sort.Search":
		x.sortSearch(st, fr, args, k)
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(st, fr, args, k)
	case "sort.Sort", "sort.Stable":
		x.sortSort(st, fr, args, k)
	case "sort.IsSorted":
		unsupported("sort.IsSorted")
	case "(sync.Mutex).TryLock":
		t := Fresh("trylock", SBool)
		one(boolv(t))
	case "time.Now":
		one(x.freshTyped(st, "now", f.Fn.Type().(*types.Signature).Results().At(0).Type()))
	case "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixNano":
		one(SV{UF("unix."+f.Fn.Name(), SInt, x.toLeaves(f.Recv)[0]), types.Typ[types.Int64]})
	case "math.Ceil", "math.Floor":
		used("math rounding on exact reals")
		r := sc(0)
		fl := mk("to_real", "", SReal, mk("to_int", "", SInt, r))
		if name == "math.Ceil" {
			n := mk("-", "", SReal, RealT("0"), r)
			fl = mk("-", "", SReal, RealT("0"), mk("to_real", "", SReal, mk("to_int", "", SInt, n)))
		}
		one(SV{fl, types.Typ[types.Float64]})
	case "math.Max", "math.Min":
		a, b := sc(0), sc(1)
		c := Le(b, a)
		if name == "math.Min" {
			c = Le(a, b)
		}
		one(SV{Ite(c, a, b), types.Typ[types.Float64]})
	case "math.Abs":
		one(SV{Ite(Le(RealT("0"), sc(0)), sc(0), mk("-", "", SReal, RealT("0"), sc(0))), types.Typ[types.Float64]})
	case "sync/atomic.AddInt32", "sync/atomic.AddInt64", "sync/atomic.AddUint64", "sync/atomic.AddUint32",
		"sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "sync/atomic.LoadUint32",
		"sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64",
		"sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint64":
		used("sync/atomic operations as single indivisible steps")
		l := x.derefLoc(st, args[0], posOf(e))
		cur := x.load(st, l).(SV)
		switch {
		case strings.Contains(name, "atomic.Load"):
			one(cur)
		case strings.Contains(name, "atomic.Store"):
			x.storeLoc(st, l, SV{sc(1), cur.Typ})
			k(st, nil)
		case strings.Contains(name, "atomic.Add"):
			r := SV{x.wrapTo(cur.Typ, Add(cur.T, sc(1))), cur.Typ}
			if in := x.inRange(cur.Typ, Add(cur.T, sc(1))); true {
				r.T = Ite(in, Add(cur.T, sc(1)), r.T)
			}
			x.storeLoc(st, l, r)
			one(r)
		default:
			x.branch(st, Eq(cur.T, sc(1)), func(st *State) {
				x.storeLoc(st, l, SV{sc(2), cur.Typ})
				k(st, []Value{boolv(TTrue)})
			}, func(st *State) { k(st, []Value{boolv(TFalse)}) })
		}
	case "(sync/atomic.Int32).Load", "(sync/atomic.Int64).Load", "(sync/atomic.Uint64).Load", "(sync/atomic.Bool).Load":
		l := x.derefLoc(st, f.Recv, posOf(e))
		v := x.load(st, l).(SV)
		rt := f.Fn.Type().(*types.Signature).Results().At(0).Type()
		if v.T.sort == SInt && isBool(rt) {
			one(boolv(Neq(v.T, IntT(0))))
		} else {
			one(SV{v.T, rt})
		}
	case "(sync/atomic.Int32).Store", "(sync/atomic.Int64).Store", "(sync/atomic.Uint64).Store", "(sync/atomic.Uint32).Store",
		"(sync/atomic.Int32).Add", "(sync/atomic.Int64).Add", "(sync/atomic.Int32).Swap", "(sync/atomic.Int64).Swap",
		"(sync/atomic.Int32).CompareAndSwap", "(sync/atomic.Int64).CompareAndSwap", "(sync/atomic.Uint32).CompareAndSwap", "(sync/atomic.Uint64).CompareAndSwap":
		used("sync/atomic operations as single indivisible steps")
		l := x.derefLoc(st, f.Recv, posOf(e))
		cur := x.load(st, l).(SV)
		pt := f.Fn.Type().(*types.Signature).Params().At(0).Type()
		switch {
		case strings.HasSuffix(name, ".Store"):
			x.storeLoc(st, l, SV{sc(0), cur.Typ})
			k(st, nil)
		case strings.HasSuffix(name, ".Swap") && !strings.HasSuffix(name, "AndSwap"):
			x.storeLoc(st, l, SV{sc(0), cur.Typ})
			one(SV{cur.T, pt})
		case strings.HasSuffix(name, ".Add"):
			t := Add(cur.T, sc(0))
			t = Ite(x.inRange(pt, t), t, x.wrapTo(pt, t))
			x.storeLoc(st, l, SV{t, cur.Typ})
			one(SV{t, pt})
		default:
			x.branch(st, Eq(cur.T, sc(0)), func(st *State) {
				x.storeLoc(st, l, SV{sc(1), cur.Typ})
				k(st, []Value{boolv(TTrue)})
			}, func(st *State) { k(st, []Value{boolv(TFalse)}) })
		}
	default:
		return false
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func variadicArgs(x *Exec, st *State, v Value) []*Term {
	s, ok := v.(SliceV)
	if !ok || s.Len.op != "int" {
		return nil
	}
	et := under(s.Typ).(*types.Slice).Elem()
	var out []*Term
	x.quiet++
	for i := int64(0); i < s.Len.num.Int64(); i++ {
		out = append(out, x.load(st, Loc{kind: "elem", ref: s.Ref, idx: Add(s.Off, IntT(i)), typ: et, rtyp: et}).(SV).T)
	}
	x.quiet--
	return out
}

// sprint models formatting of strings and integers; other operands are opaque functions of the value.
func (x *Exec) sprint(st *State, fr *Frame, name string, args []Value, e *ast.CallExpr, k func(*State, []Value)) bool {
	show := func(t *Term) (*Term, bool, bool) { // text, known, isString
		d, ok := x.dynTab[t]
		if !ok {
			return UF("show", SStr, t), false, false
		}
		if sv, ok := d.V.(SV); ok {
			if b, ok := under(d.Typ).(*types.Basic); ok {
				// types with a String method print through it
				if _, named := d.Typ.(*types.Named); named {
					if o, _, _ := types.LookupFieldOrMethod(d.Typ, true, nil, "String"); o != nil {
						return UF("show."+typeKey(d.Typ), SStr, sv.T), false, false
					}
				}
				switch {
				case b.Info()&types.IsString != 0:
					return sv.T, true, true
				case b.Info()&types.IsInteger != 0:
					return itoa(sv.T), true, false
				case b.Info()&types.IsBoolean != 0:
					return Ite(sv.T, StrLit("true"), StrLit("false")), true, false
				}
			}
			return UF("show."+typeKey(d.Typ), SStr, sv.T), false, false
		}
		return UF("show", SStr, t), false, false
	}
	switch name {
	case "fmt.Sprint":
		vs := variadicArgs(x, st, args[0])
		if vs == nil {
			return false
		}
		x.assumptions["model of fmt formatting of strings and integers"] = true
		res := StrLit("")
		prevStr := true
		for i, v := range vs {
			t, _, isS := show(v)
			if i > 0 && !prevStr && !isS {
				res = sconcat(res, StrLit(" "))
			}
			res = sconcat(res, t)
			prevStr = isS
		}
		k(st, []Value{SV{res, tString}})
		return true
	case "fmt.Sprintf":
		fs, ok := strLitVal(args[0].(SV).T)
		vs := variadicArgs(x, st, args[1])
		if !ok {
			k(st, []Value{SV{Fresh("sprintf", SStr), tString}})
			return true
		}
		x.assumptions["model of fmt formatting of strings and integers"] = true
		res := StrLit("")
		n := 0
		i := 0
		lit := ""
		flush := func() {
			res = sconcat(res, StrLit(lit))
			lit = ""
		}
		for i < len(fs) {
			c := fs[i]
			if c != '%' || i+1 >= len(fs) {
				lit += string(c)
				i++
				continue
			}
			if fs[i+1] == '%' {
				lit += "%"
				i += 2
				continue
			}
			j := i + 1
			for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
				j++
			}
			verb := fs[j]
			flags := fs[i+1 : j]
			flush()
			if n < len(vs) {
				t, known, isS := show(vs[n])
				d := x.dynTab[vs[n]]
				switch {
				case flags == "" && (verb == 'v' || verb == 's' && isS || verb == 'd' && known && !isS):
					res = sconcat(res, t)
				default:
					if sv, ok := d.V.(SV); ok && sv.T.sort == SReal && flags == ".0" && verb == 'f' {
						n := mk("to_int", "", SInt, sv.T)
						res = sconcat(res, Ite(Eq(ToReal(n), sv.T), itoa(n), UF("fmt.%.0f", SStr, sv.T)))
					} else if ok {
						res = sconcat(res, UF("fmt.%"+flags+string(verb)+"."+string(sv.T.sort), SStr, sv.T))
					} else {
						res = sconcat(res, UF("fmt.%"+flags+string(verb), SStr, vs[n]))
					}
				}
				n++
			} else {
				lit += "%!" + string(verb) + "(MISSING)"
			}
			i = j + 1
		}
		if n < len(vs) { // extra operands
			for ; n < len(vs); n++ {
				flush()
				res = sconcat(res, UF("fmt.EXTRA", SStr, vs[n]))
			}
		}
		flush()
		k(st, []Value{SV{res, tString}})
		return true
	}
	return false
}

// sort.Search(n, f): the real binary search; for a monotone predicate the result is the
// first index where it holds. The contract assumed is the one the library documents plus
// what the algorithm guarantees for any predicate: f is false just before the result and
// true at it (when those indices exist).
func (x *Exec) sortSearch(st *State, fr *Frame, args []Value, k func(*State, []Value)) {
	x.assumptions["model of sort.Search (binary search: predicate false just before, true at the result; first such index for a monotone predicate)"] = true
	n := args[0].(SV).T
	f := args[1].(FuncV)
	r := Fresh("search", SInt)
	x.assume(st, And(Le(IntT(0), r), Or(Le(r, n), Eq(r, IntT(0)))))
	at := func(i *Term) *Term { return x.evalPure(st, f, []Value{SV{i, tInt}}).(SV).T }
	// calls happen only on indices in [0,n): closure obligations at a generic index
	{
		s2 := st.clone()
		gi := Fresh("si", SInt)
		x.assume(s2, And(Le(IntT(0), gi), Lt(gi, n)))
		x.apply(s2, fr, f, []Value{SV{gi, tInt}}, nil, func(*State, []Value) {})
	}
	x.assume(st, Implies(And(Le(IntT(0), r), Lt(r, n)), at(r)))
	x.assume(st, Implies(And(Lt(IntT(0), r), Le(r, n)), Not(at(Sub(r, IntT(1))))))
	// monotone predicate: everything before is false, everything after is true
	i, j := BVar("i", SInt), BVar("j", SInt)
	mono := normForall([]*Term{i, j}, Implies(And(Le(IntT(0), i), Le(i, j), Lt(j, n), at(i)), at(j)))
	q := BVar("q", SInt)
	aq := at(q)
	x.assume(st, Implies(mono, normForall([]*Term{q}, Implies(And(Le(IntT(0), q), Lt(q, n)), Eq(aq, Le(r, q))))))
	k(st, []Value{SV{r, tInt}})
}

// sort.Slice: contents become a permutation of the old contents, ordered by less.
func (x *Exec) sortSlice(st *State, fr *Frame, args []Value, k func(*State, []Value)) {
	sv := args[0].(SV)
	d, ok := x.dynTab[sv.T]
	if !ok {
		unsupported("sort.Slice of unknown value")
	}
	s := d.V.(SliceV)
	f := args[1].(FuncV)
	x.strictWeak(st, s.Len, func(st *State, i, j *Term) *Term {
		return x.evalPure(st, f, []Value{SV{i, tInt}, SV{j, tInt}}).(SV).T
	})
	x.permute(st, s)
	i, j := BVar("i", SInt), BVar("j", SInt)
	lt := x.evalPure(st, f, []Value{SV{j, tInt}, SV{i, tInt}}).(SV).T
	x.assume(st, normForall([]*Term{i, j}, Implies(And(Le(IntT(0), i), Lt(i, j), Lt(j, s.Len)), Not(lt))))
	x.assumptions["model of sort.Sort/sort.Slice (a permutation, ordered by Less)"] = true
	k(st, nil)
}

func (x *Exec) sortSort(st *State, fr *Frame, args []Value, k func(*State, []Value)) {
	sv := args[0].(SV)
	d, ok := x.dynTab[sv.T]
	if !ok {
		unsupported("sort.Sort of unknown value")
	}
	s, ok := d.V.(SliceV)
	if !ok {
		unsupported("sort.Sort of %T", d.V)
	}
	// Len and Swap must be the obvious ones for the permutation model; Less is evaluated.
	less, _, _ := types.LookupFieldOrMethod(d.Typ, true, nil, "Less")
	var lf *types.Func
	if l, ok := less.(*types.Func); ok {
		lf = l
	} else if n, ok := d.Typ.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == "Less" {
				lf = n.Method(i)
			}
		}
	}
	if lf == nil {
		unsupported("sort.Sort: no Less")
	}
	x.sortMethodsOK(d.Typ)
	x.strictWeak(st, s.Len, func(st *State, i, j *Term) *Term {
		return x.evalPure(st, FuncV{Fn: lf, Recv: s}, []Value{SV{i, tInt}, SV{j, tInt}}).(SV).T
	})
	x.permute(st, s)
	i, j := BVar("i", SInt), BVar("j", SInt)
	lt := x.evalPure(st, FuncV{Fn: lf, Recv: s}, []Value{SV{j, tInt}, SV{i, tInt}}).(SV).T
	x.assume(st, normForall([]*Term{i, j}, Implies(And(Le(IntT(0), i), Lt(i, j), Lt(j, s.Len)), Not(lt))))
	x.assumptions["model of sort.Sort/sort.Slice (a permutation, ordered by Less)"] = true
	k(st, nil)
}

// sortMethodsOK checks that Len and Swap carry contracts (proved elsewhere) in the contract files.
func (x *Exec) sortMethodsOK(t types.Type) {
	n, ok := t.(*types.Named)
	if !ok {
		unsupported("sort.Sort of %s", t)
	}
	base := "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")."
	for _, m := range []string{"Len", "Swap"} {
		c := x.specs.Contracts[base+m]
		if c == nil || len(c.Props) == 0 {
			unsupported("sort.Sort needs contracts for %s%s", base, m)
		}
		x.called[base+m] = true
	}
}

// permute replaces the slice's contents by an unknown permutation of them.
func (x *Exec) permute(st *State, s SliceV) {
	et := under(s.Typ).(*types.Slice).Elem()
	x.checkWriteIf(st, Lt(IntT(1), s.Len), "E|"+typeKey(et)+"|", s.Ref)
	x.instCnt++
	x.permCnt++
	pn := "perm" + itoaGo(x.permCnt) + "." + x.unitTag
	perm := func(i *Term) *Term { return UF(pn, SInt, i) }
	inv := func(i *Term) *Term { return UF(pn+".inv", SInt, i) }
	// absolute positions in the backing row
	i := BVar("i", SInt)
	in := func(i *Term) *Term { return And(Le(s.Off, i), Lt(i, Add(s.Off, s.Len))) }
	x.assume(st, Forall([]*Term{i}, Implies(in(i), And(in(perm(i)), Eq(inv(perm(i)), i))), []*Term{perm(i)}))
	x.assume(st, Forall([]*Term{i}, Implies(in(i), And(in(inv(i)), Eq(perm(inv(i)), i))), []*Term{inv(i)}))
	for _, l := range x.leaves(et) {
		key := heapElem(et, l.path)
		srt := ArrS(SInt, ArrS(SInt, l.sort))
		x.regKey(key, srt, l)
		h := x.heapGet(st, key, srt)
		oldRow := Select(h, s.Ref)
		row := Fresh("sorted", ArrS(SInt, l.sort))
		q := BVar("q", SInt)
		inblk := in(q)
		x.assume(st, Forall([]*Term{q}, Eq(Select(row, q), Select(oldRow, Ite(inblk, perm(q), q))), []*Term{Select(row, q)}))
		// old positions reappear
		x.assume(st, Forall([]*Term{q}, Implies(inblk, Eq(Select(oldRow, q), Select(row, inv(q)))), []*Term{Select(oldRow, q)}))
		x.setHeap(st, key, Store(h, s.Ref, row))
	}
}

// strictWeak obliges the comparison to be a strict weak order on the elements: without
// that the sort model would promise something no algorithm can deliver.
func (x *Exec) strictWeak(st *State, n *Term, lt func(st *State, i, j *Term) *Term) {
	i, j, k := Fresh("wi", SInt), Fresh("wj", SInt), Fresh("wk", SInt)
	s2 := st.clone()
	for _, t := range []*Term{i, j, k} {
		x.assume(s2, And(Le(IntT(0), t), Lt(t, n)))
	}
	ij, ji, jk, ik := lt(s2, i, j), lt(s2, j, i), lt(s2, j, k), lt(s2, i, k)
	x.oblige(s2, "order", "comparison is asymmetric", token.NoPos, Not(And(ij, ji)))
	x.oblige(s2, "order", "comparison is transitive", token.NoPos, Implies(And(ij, jk), ik))
	x.oblige(s2, "order", "incomparability is transitive", token.NoPos, Implies(And(Not(ij), Not(jk)), Not(ik)))
}
