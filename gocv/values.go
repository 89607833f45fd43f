package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

type Value interface{}

type SV struct { // scalar: integers, booleans, strings, floats, references, interfaces, maps
	T   *Term
	Typ types.Type
}
type StructV struct {
	Typ types.Type
	F   []Value
}
type SliceV struct {
	Ref, Off, Len, Cap *Term
	Typ                types.Type
}
type BytesV struct { // []byte as an immutable value (option bytesval)
	S, Nil *Term
	Typ    types.Type
}
type ArrV struct { // [N]T: one SMT array per leaf of T
	Typ types.Type
	A   []*Term
}
type FuncV struct {
	Lit   *ast.FuncLit
	Frame *Frame
	Fn    *types.Func
	Inst  []types.Type
	Recv  Value
	Intr  string // intrinsic function value
	Typ   types.Type
	ID    *Term
}
type TupleV []Value
type LocV struct { // pointer to a location that is not a heap object of its own
	L   Loc
	Typ types.Type // pointer type
}
type GhostV struct { // specification-only value (SMT array etc.)
	T *Term
}

// interface values are SV with an Int term; the concrete value, when known, is kept in a side table.
type dynVal struct {
	V   Value
	Typ types.Type
}

type leaf struct {
	path string
	sort Sort
	kind string // "int","bool","str","real","ref","iface","func","slen" (non-negative), "arr"
	typ  types.Type
}

type Err struct{ msg string }

func (e Err) Error() string { return e.msg }

func unsupported(f string, a ...any) { panic(Err{"unsupported: " + fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func typeKey(t types.Type) string {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	// the predeclared aliases name the same types
	if strings.Contains(k, "byte") || strings.Contains(k, "rune") || strings.Contains(k, "any") {
		k = aliasByte.ReplaceAllString(k, "${1}uint8")
		k = aliasRune.ReplaceAllString(k, "${1}int32")
		k = aliasAny.ReplaceAllString(k, "${1}interface{}")
	}
	return k
}

var (
	aliasByte = regexp.MustCompile(`(^|[^\w./])byte\b`)
	aliasRune = regexp.MustCompile(`(^|[^\w./])rune\b`)
	aliasAny  = regexp.MustCompile(`(^|[^\w./])any\b`)
)

func (x *Exec) leaves(t types.Type) []leaf {
	k := typeKey(t)
	if x.bytesVal {
		k = "b:" + k
	}
	if l, ok := x.leafCache[k]; ok {
		return l
	}
	l := x.leaves1(t, 0)
	x.leafCache[k] = l
	return l
}

func (x *Exec) leaves1(t types.Type, depth int) []leaf {
	if depth > 12 {
		unsupported("type nesting %s", t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, "bool", t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt, "int", t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, "str", t}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", SReal, "real", t}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, "ref", t}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", SInt, "ref", t}}
		}
		unsupported("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", SInt, "ref", t}}
	case *types.Interface:
		return []leaf{{"", SInt, "iface", t}}
	case *types.Signature:
		return []leaf{{"", SInt, "func", t}}
	case *types.Slice:
		if x.bytesVal && isByteSlice(t) {
			return []leaf{{".s", SStr, "str", t}, {".nil", SBool, "bool", t}}
		}
		return []leaf{{".ref", SInt, "ref", t}, {".off", SInt, "slen", t}, {".len", SInt, "slen", t}, {".cap", SInt, "slen", t}}
	case *types.Struct:
		if x.opaqueStruct(t) {
			return []leaf{{"", SInt, "int", t}}
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range x.leaves1(f.Type(), depth+1) {
				out = append(out, leaf{"." + f.Name() + l.path, l.sort, l.kind, l.typ})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range x.leaves1(u.Elem(), depth+1) {
			out = append(out, leaf{".arr" + l.path, ArrS(SInt, l.sort), "arr", t})
		}
		return out
	case *types.TypeParam:
		unsupported("type parameter %s", t)
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range x.leaves1(u.At(i).Type(), depth+1) {
				out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.kind, l.typ})
			}
		}
		return out
	}
	unsupported("type %s", t)
	return nil
}

// opaque structs are external types whose fields the program never touches (time.Time, sync.Mutex, ...)
func (x *Exec) opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if _, mine := x.prog.Pkgs[p]; mine {
		return false
	}
	switch p + "." + n.Obj().Name() {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "time.Time", "sync/atomic.Bool", "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64", "sync/atomic.Pointer":
		return true
	}
	// any struct with unexported fields from outside the repository
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				return true
			}
		}
	}
	return false
}

// fromLeaves rebuilds a value from its leaf terms.
func (x *Exec) fromLeaves(t types.Type, ts []*Term) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		if x.bytesVal && isByteSlice(t) {
			return BytesV{ts[0], ts[1], t}, ts[2:]
		}
		return SliceV{ts[0], ts[1], ts[2], ts[3], t}, ts[4:]
	case *types.Struct:
		if x.opaqueStruct(t) {
			return SV{ts[0], t}, ts[1:]
		}
		sv := StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = x.fromLeaves(u.Field(i).Type(), ts)
			sv.F = append(sv.F, f)
		}
		return sv, ts
	case *types.Array:
		n := len(x.leaves(u.Elem()))
		return ArrV{t, append([]*Term{}, ts[:n]...)}, ts[n:]
	case *types.Signature:
		if f, ok := x.funcTab[ts[0]]; ok {
			return f, ts[1:]
		}
		return FuncV{Typ: t, ID: ts[0]}, ts[1:]
	case *types.Pointer:
		if l, ok := x.locTab[ts[0]]; ok {
			return l, ts[1:]
		}
		return SV{ts[0], t}, ts[1:]
	case *types.Tuple:
		var out TupleV
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ts = x.fromLeaves(u.At(i).Type(), ts)
			out = append(out, f)
		}
		return out, ts
	}
	return SV{ts[0], t}, ts[1:]
}

func (x *Exec) toLeaves(v Value) []*Term {
	switch v := v.(type) {
	case SV:
		return []*Term{v.T}
	case GhostV:
		return []*Term{v.T}
	case SliceV:
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	case BytesV:
		return []*Term{v.S, v.Nil}
	case StructV:
		var out []*Term
		for _, f := range v.F {
			out = append(out, x.toLeaves(f)...)
		}
		return out
	case ArrV:
		return append([]*Term{}, v.A...)
	case TupleV:
		var out []*Term
		for _, f := range v {
			out = append(out, x.toLeaves(f)...)
		}
		return out
	case FuncV:
		return []*Term{x.funcID(v)}
	case LocV:
		return []*Term{x.locID(v)}
	case nil:
		unsupported("missing value")
	}
	unsupported("value %T", v)
	return nil
}

func (x *Exec) funcID(v FuncV) *Term {
	if v.ID != nil {
		return v.ID
	}
	id := Fresh("fn", SInt)
	v.ID = id
	x.funcTab[id] = v
	x.globalFacts = append(x.globalFacts, Lt(IntT(0), id))
	return id
}
func (x *Exec) locID(v LocV) *Term {
	id := Fresh("loc", SInt)
	x.locTab[id] = v
	x.globalFacts = append(x.globalFacts, Lt(id, IntT(0))) // distinct from heap objects and nil
	return id
}

func intRange(t types.Type) (lo, hi *big.Int, unsigned bool, bits uint, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Int64, types.Int:
		bits = 64
	case types.Uint8:
		bits, unsigned = 8, true
	case types.Uint16:
		bits, unsigned = 16, true
	case types.Uint32:
		bits, unsigned = 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		bits, unsigned = 64, true
	default:
		return
	}
	one := big.NewInt(1)
	if unsigned {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	} else {
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
	}
	ok = true
	return
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// leafFact is the type invariant of one leaf value.
func (x *Exec) leafFact(l leaf, t *Term, alloc *Term) *Term {
	switch l.kind {
	case "int":
		if lo, hi, _, _, ok := intRange(l.typ); ok {
			return And(Le(BigT(lo), t), Le(t, BigT(hi)))
		}
	case "ref":
		return And(Le(IntT(0), t), Lt(t, alloc))
	case "slen":
		return And(Le(IntT(0), t), Le(t, BigT(maxLen)))
	}
	return TTrue
}

// typeFacts: invariants for a whole value (slice shape included)
func (x *Exec) typeFacts(v Value, t types.Type, alloc *Term) []*Term {
	ls := x.leaves(t)
	ts := x.toLeaves(v)
	var out []*Term
	for i, l := range ls {
		if f := x.leafFact(l, ts[i], alloc); f != TTrue {
			out = append(out, f)
		}
		if l.kind == "ref" && strings.HasSuffix(l.path, ".ref") && i+3 < len(ts) && ls[i+3].kind == "slen" {
			out = append(out, Le(ts[i+2], ts[i+3]))
			out = append(out, Implies(Eq(ts[i], IntT(0)), And(Eq(ts[i+2], IntT(0)), Eq(ts[i+3], IntT(0)))))
		}
	}
	return out
}

func (x *Exec) freshValue(base string, t types.Type) Value {
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Fresh(base+l.path, l.sort)
	}
	v, _ := x.fromLeaves(t, ts)
	return v
}

func (x *Exec) zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SBool:
		if l.kind == "bool" && strings.HasSuffix(l.path, ".nil") && isByteSlice(l.typ) {
			return TTrue
		}
		return TFalse
	case SInt:
		return IntT(0)
	case SReal:
		return RealT("0")
	case SStr:
		return StrLit("")
	}
	_, vs := arrSorts(l.sort)
	return ConstArr(l.sort, x.zeroLeaf(leaf{"", vs, "", l.typ}))
}

func (x *Exec) zeroValue(t types.Type) Value {
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = x.zeroLeaf(l)
	}
	v, _ := x.fromLeaves(t, ts)
	return v
}

// retype changes the static type attached to a value with an identical representation.
func retype(v Value, t types.Type) Value {
	switch v := v.(type) {
	case SV:
		v.Typ = t
		return v
	case SliceV:
		v.Typ = t
		return v
	case StructV:
		v.Typ = t
		return v
	case BytesV:
		v.Typ = t
		return v
	case ArrV:
		v.Typ = t
		return v
	case FuncV:
		v.Typ = t
		return v
	case LocV:
		v.Typ = t
		return v
	}
	return v
}

func valType(v Value) types.Type {
	switch v := v.(type) {
	case SV:
		return v.Typ
	case SliceV:
		return v.Typ
	case StructV:
		return v.Typ
	case BytesV:
		return v.Typ
	case ArrV:
		return v.Typ
	case FuncV:
		return v.Typ
	case LocV:
		return v.Typ
	}
	return nil
}

// Locations.

type Loc struct {
	kind string // "var","field","elem","global","arrelem","mapelem","deref"
	key  varKey
	ref  *Term      // object reference
	idx  *Term      // element index within block
	typ  types.Type // type of the whole object addressed by ref (struct for deref; elem type for elem)
	path string     // leaf path prefix within it
	rtyp types.Type // type of the addressed part
	base *Loc       // for arrelem
	m    SV         // map
	mkey *Term
}

func heapField(t types.Type, path string) string { return "F|" + typeKey(t) + "|" + path }
func heapElem(t types.Type, path string) string  { return "E|" + typeKey(t) + "|" + path }

func (x *Exec) heapGet(st *State, key string, sort Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	// initial heap value: shared between states through a deterministic name
	t := VarT("H0:"+x.unitTag+":"+key, sort)
	x.heapSort[key] = sort
	if _, seen := x.heapInit[key]; !seen {
		x.heapInit[key] = t
		x.wfHeap(key, t, x.alloc0)
	}
	st.heap[key] = t
	return t
}

// wfHeap adds well-formedness facts for every value stored in heap component t.
func (x *Exec) wfHeap(key string, t *Term, alloc *Term) {
	x.globalFacts = append(x.globalFacts, x.wfHeapFacts(key, t, alloc)...)
}

func (x *Exec) wfHeapFacts(key string, t *Term, alloc *Term) []*Term {
	l, ok := x.keyLeaf[key]
	if !ok {
		return nil
	}
	var out []*Term
	switch key[0] {
	case 'F', 'P':
		r := BVar("r", SInt)
		sel := Select(t, r)
		if f := x.leafFact(l, sel, alloc); f != TTrue {
			out = append(out, Forall([]*Term{r}, Implies(Lt(r, alloc), f), []*Term{sel}))
		}
	case 'E':
		r, i := BVar("r", SInt), BVar("i", SInt)
		sel := Select(Select(t, r), i)
		if f := x.leafFact(l, sel, alloc); f != TTrue {
			out = append(out, Forall([]*Term{r, i}, Implies(Lt(r, alloc), f), []*Term{sel}))
		}
	case 'V':
		if f := x.leafFact(l, t, alloc); f != TTrue {
			out = append(out, f)
		}
	case 'M':
		if strings.HasPrefix(key, "MV") {
			ks, _ := arrSorts(mustElem(x.heapSort[key]))
			r, k := BVar("r", SInt), BVar("k", ks)
			sel := Select(Select(t, r), k)
			if f := x.leafFact(l, sel, alloc); f != TTrue {
				out = append(out, Forall([]*Term{r, k}, Implies(Lt(r, alloc), f), []*Term{sel}))
			}
		}
		if strings.HasPrefix(key, "ML") {
			r := BVar("r", SInt)
			sel := Select(t, r)
			out = append(out, Forall([]*Term{r}, And(Le(IntT(0), sel), Le(sel, BigT(maxLen))), []*Term{sel}))
		}
	}
	return out
}

func mustElem(s Sort) Sort { _, v := arrSorts(s); return v }

func (x *Exec) regKey(key string, sort Sort, l leaf) {
	if _, ok := x.keyLeaf[key]; !ok {
		x.keyLeaf[key] = l
	}
	x.heapSort[key] = sort
}

// subLeaves lists the leaves of the part at path inside object type t.
func (x *Exec) subLeaves(part types.Type, path string) []leaf {
	ls := x.leaves(part)
	out := make([]leaf, len(ls))
	for i, l := range ls {
		l.path = path + l.path
		out[i] = l
	}
	return out
}

func (x *Exec) load(st *State, l Loc) Value {
	switch l.kind {
	case "var":
		v, ok := st.store[l.key]
		if !ok {
			unsupported("variable %v not in store", l.key.obj)
		}
		if b, ok := v.(boxed); ok {
			return x.load(st, x.objLoc(b.ref, b.typ))
		}
		return v
	case "varfield":
		v := x.load(st, *l.base)
		sv := v.(StructV)
		return sv.F[l.idxInt()]
	case "arrelem":
		v := x.load(st, *l.base).(ArrV)
		ts := make([]*Term, len(v.A))
		for i, a := range v.A {
			ts[i] = Select(a, l.idx)
		}
		r, _ := x.fromLeaves(l.rtyp, ts)
		return r
	case "obj":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := make([]*Term, len(ls))
		for i, lf := range ls {
			key := heapField(l.typ, lf.path)
			s := ArrS(SInt, lf.sort)
			x.regKey(key, s, lf)
			ts[i] = Select(x.heapGet(st, key, s), l.ref)
			x.note(st, lf, ts[i])
		}
		v, _ := x.fromLeaves(l.rtyp, ts)
		x.noteSlice(st, v)
		return v
	case "elem":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := make([]*Term, len(ls))
		for i, lf := range ls {
			key := heapElem(l.typ, lf.path)
			s := ArrS(SInt, ArrS(SInt, lf.sort))
			x.regKey(key, s, lf)
			ts[i] = Select(Select(x.heapGet(st, key, s), l.ref), l.idx)
			x.note(st, lf, ts[i])
		}
		v, _ := x.fromLeaves(l.rtyp, ts)
		x.noteSlice(st, v)
		return v
	case "global":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := make([]*Term, len(ls))
		for i, lf := range ls {
			key := "V|" + l.key.obj.Pkg().Path() + "." + l.key.obj.Name() + "|" + lf.path
			x.regKey(key, lf.sort, lf)
			ts[i] = x.heapGet(st, key, lf.sort)
		}
		v, _ := x.fromLeaves(l.rtyp, ts)
		return v
	case "mapelem":
		return x.mapGet(st, l.m, l.mkey, l.rtyp)
	}
	unsupported("load from %s", l.kind)
	return nil
}

func (l Loc) idxInt() int { return int(l.idx.num.Int64()) }

// note records type facts of loaded heap values (ground only)
func (x *Exec) note(st *State, lf leaf, t *Term) {
	if t.free || x.quiet > 0 {
		return
	}
	if t.op == "select" {
		if f := x.leafFact(lf, t, st.alloc); f != TTrue && f != TFalse {
			x.assume(st, f)
		}
	}
}
func (x *Exec) noteSlice(st *State, v Value) {
	if x.quiet > 0 {
		return
	}
	switch s := v.(type) {
	case SliceV:
		if s.Len.op == "select" && !s.Len.free {
			x.assume(st, Le(s.Len, s.Cap))
			x.assume(st, Implies(Eq(s.Ref, IntT(0)), And(Eq(s.Len, IntT(0)), Eq(s.Cap, IntT(0)))))
		}
	case StructV:
		for _, f := range s.F {
			x.noteSlice(st, f)
		}
	}
}

func (x *Exec) storeLoc(st *State, l Loc, v Value) {
	switch l.kind {
	case "var":
		if b, ok := st.store[l.key].(boxed); ok {
			x.storeLoc(st, x.objLoc(b.ref, b.typ), v)
			return
		}
		st.store[l.key] = v
		if x.dryVars != nil {
			x.dryVars[l.key] = true
		}
	case "varfield":
		bv := x.load(st, *l.base).(StructV)
		nf := append([]Value{}, bv.F...)
		nf[l.idxInt()] = v
		x.storeLoc(st, *l.base, StructV{bv.Typ, nf})
	case "arrelem":
		bv := x.load(st, *l.base).(ArrV)
		ts := x.toLeaves(v)
		na := make([]*Term, len(bv.A))
		for i := range na {
			na[i] = Store(bv.A[i], l.idx, ts[i])
		}
		x.storeLoc(st, *l.base, ArrV{bv.Typ, na})
	case "obj":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := x.toLeaves(v)
		x.checkWrite(st, "F|"+typeKey(l.typ)+"|"+l.path, l.ref)
		for i, lf := range ls {
			key := heapField(l.typ, lf.path)
			s := ArrS(SInt, lf.sort)
			x.regKey(key, s, lf)
			x.setHeap(st, key, Store(x.heapGet(st, key, s), l.ref, ts[i]))
		}
	case "elem":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := x.toLeaves(v)
		x.checkWrite(st, "E|"+typeKey(l.typ)+"|"+l.path, l.ref)
		for i, lf := range ls {
			key := heapElem(l.typ, lf.path)
			s := ArrS(SInt, ArrS(SInt, lf.sort))
			x.regKey(key, s, lf)
			h := x.heapGet(st, key, s)
			x.setHeap(st, key, Store(h, l.ref, Store(Select(h, l.ref), l.idx, ts[i])))
		}
	case "global":
		ls := x.subLeaves(l.rtyp, l.path)
		ts := x.toLeaves(v)
		x.checkWrite(st, "V|"+l.key.obj.Pkg().Path()+"."+l.key.obj.Name()+"|", IntT(0))
		for i, lf := range ls {
			key := "V|" + l.key.obj.Pkg().Path() + "." + l.key.obj.Name() + "|" + lf.path
			x.regKey(key, lf.sort, lf)
			x.setHeap(st, key, ts[i])
		}
	case "mapelem":
		x.mapSet(st, l.m, l.mkey, v)
	default:
		unsupported("store to %s", l.kind)
	}
}

func (x *Exec) setHeap(st *State, key string, t *Term) {
	st.heap[key] = t
	if x.dryKeys != nil {
		x.dryKeys[key] = true
	}
}

// boxed marks a local variable that lives in the heap because its address is taken.
type boxed struct {
	ref *Term
	typ types.Type
}

// objLoc addresses a whole heap object of type t (struct fields, or a single cell).
func (x *Exec) objLoc(ref *Term, t types.Type) Loc {
	return Loc{kind: "obj", ref: ref, typ: t, path: "", rtyp: t}
}

// field of a location
func (x *Exec) fieldLoc(l Loc, structT types.Type, i int) Loc {
	f := under(structT).(*types.Struct).Field(i)
	switch l.kind {
	case "var", "varfield", "arrelem", "mapelem":
		b := l
		return Loc{kind: "varfield", base: &b, idx: IntT(int64(i)), rtyp: f.Type()}
	case "obj", "elem", "global":
		n := l
		n.path = l.path + "." + f.Name()
		n.rtyp = f.Type()
		return n
	}
	unsupported("field of %s", l.kind)
	return Loc{}
}

// ---- maps ----

func (x *Exec) mapKeys(m types.Type) (dom, ln string, ks Sort, vt types.Type, kt types.Type) {
	mt := under(m).(*types.Map)
	kl := x.leaves(mt.Key())
	if len(kl) == 1 {
		ks = kl[0].sort
	} else {
		// A struct key is one integer that stands for its fields; see mapKey.
		ks = SInt
		str := false
		for _, lf := range kl {
			str = str || lf.sort == SStr
		}
		if _, ok := under(mt.Key()).(*types.Struct); !ok || !str {
			unsupported("map key type %s", mt.Key())
		}
	}
	n := typeKey(mt.Key()) + "|" + typeKey(mt.Elem())
	return "MD|" + n, "ML|" + n, ks, mt.Elem(), mt.Key()
}

// The term of a key. A struct with a string field is numbered: an uninterpreted function of the fields with an
// inverse for each of them (there are as many such structs as numbers).
func (x *Exec) mapKey(kt types.Type, v Value) *Term { return x.mapKeyOf(kt, x.toLeaves(v)) }
func (x *Exec) mapKeyOf(kt types.Type, ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	n := typeKey(kt)
	var qs []*Term
	for i, t := range ts {
		qs = append(qs, BVar(fmt.Sprintf("f%d", i), t.sort))
	}
	mk := UF("mapkey|"+n, SInt, qs...)
	var es []*Term
	for i, q := range qs {
		es = append(es, Eq(UF(fmt.Sprintf("mapkey|%s|%d", n, i), q.sort, mk), q))
	}
	x.fact(Forall(qs, And(es...), []*Term{mk}))
	return UF("mapkey|"+n, SInt, ts...)
}

// The value of a key term: its fields, of which the key is the number.
func (x *Exec) mapKeyVal(st *State, kt types.Type, k *Term) Value {
	ls := x.leaves(kt)
	if len(ls) == 1 {
		v, _ := x.fromLeaves(kt, []*Term{k})
		return v
	}
	var ts []*Term
	for i, lf := range ls {
		ts = append(ts, UF(fmt.Sprintf("mapkey|%s|%d", typeKey(kt), i), lf.sort, k))
	}
	x.assume(st, Eq(x.mapKeyOf(kt, ts), k))
	v, _ := x.fromLeaves(kt, ts)
	return v
}

// The representation of maps: MD the keys present, ML the number of entries, MV the values.
// Keys that are absent have the zero value in MV, and the nil map (reference 0) has no keys;
// every map operation preserves this, so it is a choice of representation.
func (x *Exec) mapDomHeap(st *State, t types.Type) (*Term, Sort) {
	d, _, ks, _, _ := x.mapKeys(t)
	s := ArrS(SInt, ArrS(ks, SBool))
	x.regKey(d, s, leaf{})
	h := x.heapGet(st, d, s)
	if h.op == "var" {
		x.fact(Eq(Select(h, IntT(0)), ConstArr(ArrS(ks, SBool), TFalse)))
	}
	return h, ks
}
func (x *Exec) mapDom(st *State, m SV) *Term {
	h, _ := x.mapDomHeap(st, m.Typ)
	return Select(h, m.T)
}
func (x *Exec) mapLenHeap(st *State, t types.Type) *Term {
	_, l, _, _, _ := x.mapKeys(t)
	s := ArrS(SInt, SInt)
	x.regKey(l, s, leaf{})
	h := x.heapGet(st, l, s)
	if h.op == "var" {
		x.fact(Eq(Select(h, IntT(0)), IntT(0)))
	}
	return h
}
func (x *Exec) mapLen(st *State, m SV) *Term {
	n := Select(x.mapLenHeap(st, m.Typ), m.T)
	if !n.free && x.quiet == 0 {
		x.assume(st, Le(IntT(0), n))
		_, _, ks, _, _ := x.mapKeys(m.Typ)
		q := BVar("k", ks)
		in := Select(x.mapDom(st, m), q)
		x.assume(st, Forall([]*Term{q}, Implies(in, Le(IntT(1), n)), []*Term{in}))
	}
	return n
}
func (x *Exec) mapValHeap(st *State, t types.Type, lf leaf) (string, *Term) {
	_, _, ks, vt, kt := x.mapKeys(t)
	key := "MV|" + typeKey(kt) + "|" + typeKey(vt) + "|" + lf.path
	s := ArrS(SInt, ArrS(ks, lf.sort))
	x.regKey(key, s, lf)
	h := x.heapGet(st, key, s)
	if h.op == "var" {
		if dh, _ := x.mapDomHeap(st, t); dh.op == "var" {
			r, k := BVar("r", SInt), BVar("k", ks)
			v := Select(Select(h, r), k)
			x.fact(Forall([]*Term{r, k}, Implies(Not(Select(Select(dh, r), k)), Eq(v, x.zeroLeaf(lf))), []*Term{v}))
		}
	}
	return key, h
}
func (x *Exec) mapValTerms(st *State, m SV, k *Term) []*Term {
	_, _, _, vt, _ := x.mapKeys(m.Typ)
	var ts []*Term
	for _, lf := range x.leaves(vt) {
		_, h := x.mapValHeap(st, m.Typ, lf)
		t := Select(Select(h, m.T), k)
		ts = append(ts, t)
		x.note(st, lf, t)
	}
	return ts
}
func (x *Exec) mapHas(st *State, m SV, k *Term) *Term {
	return Select(x.mapDom(st, m), k)
}
func (x *Exec) mapGet(st *State, m SV, k *Term, vt types.Type) Value {
	v, _ := x.fromLeaves(vt, x.mapValTerms(st, m, k))
	if s, ok := v.(SliceV); ok && !s.Len.free && x.quiet == 0 {
		x.assume(st, And(Le(IntT(0), s.Len), Le(s.Len, s.Cap), Le(s.Cap, BigT(maxLen)), Le(IntT(0), s.Off)))
	}
	return v
}
func (x *Exec) mapSet(st *State, m SV, k *Term, v Value) {
	d, l, _, vt, kt := x.mapKeys(m.Typ)
	x.checkWrite(st, "M|"+typeKey(kt)+"|"+typeKey(vt), m.T)
	has := Select(x.mapDom(st, m), k)
	dh, _ := x.mapDomHeap(st, m.Typ)
	lh := x.mapLenHeap(st, m.Typ)
	ln := Select(lh, m.T)
	ts := x.toLeaves(v)
	for i, lf := range x.leaves(vt) {
		key, h := x.mapValHeap(st, m.Typ, lf)
		x.setHeap(st, key, Store(h, m.T, Store(Select(h, m.T), k, ts[i])))
	}
	x.setHeap(st, l, Store(lh, m.T, Ite(has, ln, Add(ln, IntT(1)))))
	x.setHeap(st, d, Store(dh, m.T, Store(Select(dh, m.T), k, TTrue)))
}
func (x *Exec) mapDelete(st *State, m SV, k *Term) {
	d, l, _, vt, kt := x.mapKeys(m.Typ)
	x.checkWrite(st, "M|"+typeKey(kt)+"|"+typeKey(vt), m.T)
	has := x.mapHas(st, m, k)
	dh, _ := x.mapDomHeap(st, m.Typ)
	lh := x.mapLenHeap(st, m.Typ)
	for _, lf := range x.leaves(vt) {
		key, h := x.mapValHeap(st, m.Typ, lf)
		x.setHeap(st, key, Store(h, m.T, Store(Select(h, m.T), k, x.zeroLeaf(lf))))
	}
	x.setHeap(st, l, Store(lh, m.T, Ite(has, Sub(Select(lh, m.T), IntT(1)), Select(lh, m.T))))
	x.setHeap(st, d, Store(dh, m.T, Store(Select(dh, m.T), k, TFalse)))
}
func (x *Exec) newMap(st *State, t types.Type) SV {
	r := x.newRef(st)
	m := SV{r, t}
	d, l, ks, vt, _ := x.mapKeys(t)
	dh, _ := x.mapDomHeap(st, t)
	lh := x.mapLenHeap(st, t)
	for _, lf := range x.leaves(vt) {
		key, h := x.mapValHeap(st, t, lf)
		x.setHeap(st, key, Store(h, r, ConstArr(ArrS(ks, lf.sort), x.zeroLeaf(lf))))
	}
	x.setHeap(st, l, Store(lh, r, IntT(0)))
	x.setHeap(st, d, Store(dh, r, ConstArr(ArrS(ks, SBool), TFalse)))
	return m
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, IntT(1))
	return r
}
