package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type varKey struct {
	obj  types.Object
	inst int
}

type Frame struct {
	node   ast.Node // *ast.FuncDecl or *ast.FuncLit
	parent *Frame
	inst   int
	pkg    *PkgInfo
	fn     *FuncInfo // enclosing declared function
	tsub   map[*types.TypeParam]types.Type
	sig    *types.Signature
	res    []*types.Var // result variables (named or synthetic)
	spec   *Contract
	old    *State // state at entry, for old() in loop invariants
	params map[string]Value
	depth  int
	lets   map[string]Value
}

type pcNode struct {
	t    *Term
	next *pcNode
}

type State struct {
	store  map[varKey]Value
	heap   map[string]*Term
	pc     *pcNode
	alloc  *Term
	defers map[int][]deferred
	trace  []string
	frames []frameMods // active write permissions
	guard  *Term
	conds  *pcNode // branch conditions while evaluating a pure closure
}

type deferred struct {
	run func(st *State, k func(*State))
}

type frameMods struct {
	alloc *Term
	mods  []modLoc
	label string
}
type modLoc struct {
	prefix string // heap key prefix
	keys   []heapKey
	ref    *Term // nil: any object
	src    string
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, trace: s.trace[:len(s.trace):len(s.trace)], frames: s.frames, guard: s.guard, conds: s.conds}
	n.store = make(map[varKey]Value, len(s.store)+4)
	for k, v := range s.store {
		n.store[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	return n
}

type Obligation struct {
	Unit    string
	Name    string
	Kind    string
	Pos     string
	Hyps    []*Term
	Goal    *Term
	Trace   []string
	Trivial bool
	Result  string
	Solver  string
	Secs    float64
	Model   string
	Watch   []*Term
	WatchN  []string
}

type Exec struct {
	prog  *Program
	specs *Specs

	unit     *FuncInfo
	contract *Contract
	unitTag  string
	alloc0   *Term

	leafCache   map[string][]leaf
	heapSort    map[string]Sort
	heapInit    map[string]*Term
	keyLeaf     map[string]leaf
	globalFacts []*Term
	funcTab     map[*Term]FuncV
	locTab      map[*Term]LocV
	dynTab      map[*Term]dynVal
	bytesVal    bool
	noOverflow  bool
	goSync      bool

	obls    []*Obligation
	oblIdx  map[string]int
	quiet   int // >0: no obligations, no assumptions (dry runs, spec evaluation)
	dryKeys map[string]bool
	dryVars map[varKey]bool

	instCnt     int
	stack       []string
	assumptions map[string]bool
	inlined     map[string]bool
	called      map[string]bool
	paths       int
	watch       []*Term
	watchN      []string
	exitHyps    [][]*Term
	loopOrd     map[ast.Node]int
	loopUse     map[string]bool
	steps       int
	notes       []string
	factSeen    map[*Term]bool
	reach       []reachPoint
	entryMods   []modLoc
	entryDec    []*Term
	permCnt     int
	pureDepth   int
}

const maxPaths = 4000
const maxSteps = 400000

func (x *Exec) assume(st *State, t *Term) {
	if t == TTrue {
		return
	}
	if t.free {
		return
	}
	if st.guard != nil {
		g := st.guard
		st.guard = nil
		x.assume(st, Implies(g, t))
		st.guard = g
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	st.pc = &pcNode{t, st.pc}
}

func (st *State) hyps() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := st.pc; n != nil; n = n.next {
		if !seen[n.t] {
			seen[n.t] = true
			out = append(out, n.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) has(t *Term) bool {
	if t == TTrue {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !st.has(a) {
				return false
			}
		}
		return true
	}
	for n := st.pc; n != nil; n = n.next {
		if n.t == t {
			return true
		}
	}
	return false
}

// obligation: record that goal must follow; afterwards assume it.
func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if x.quiet > 0 {
		return
	}
	if x.pureDepth > 0 {
		return
	}
	o := &Obligation{Unit: x.contract.Func, Kind: kind, Name: name, Goal: goal, Trace: st.trace}
	if pos.IsValid() {
		p := x.prog.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	}
	if st.guard != nil {
		goal = Implies(st.guard, goal)
		o.Goal = goal
	}
	if st.has(goal) {
		o.Trivial = true
	} else {
		o.Hyps = st.hyps()
		o.Watch, o.WatchN = x.watch, x.watchN
	}
	x.obls = append(x.obls, o)
	x.assume(st, goal)
}

func (x *Exec) at(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}

// checkWrite: the location must be writable under every active frame.
func (x *Exec) checkWrite(st *State, key string, ref *Term) {
	if x.dryKeys != nil {
		return
	}
	if x.specs.Ignore[key] {
		x.assumptions["writes to "+strings.ReplaceAll(key[2:], "|", "")+" are taken to have no effect"] = true
		return
	}
	for _, f := range st.frames {
		ok := Or(Le(f.alloc, ref), Eq(ref, IntT(0))) // nil has no contents
		if key[0] == 'V' {
			ok = TFalse
		}
		for _, m := range f.mods {
			if strings.HasPrefix(key, m.prefix) || strings.HasPrefix(m.prefix, key) {
				if m.ref == nil {
					ok = TTrue
				} else {
					ok = Or(ok, Eq(ref, m.ref))
				}
			}
		}
		if ok == TTrue {
			continue
		}
		x.oblige(st, "frame", "writes only what "+f.label+" permits ("+strings.ReplaceAll(key, "|", " ")+")", token.NoPos, ok)
	}
}

// ---- types ----

func (x *Exec) subst(fr *Frame, t types.Type) types.Type {
	if t == nil || fr == nil {
		return t
	}
	m := map[*types.TypeParam]types.Type{}
	for f := fr; f != nil; f = f.parent {
		for k, v := range f.tsub {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	return substType(t, m)
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
		return t
	case *types.Pointer:
		return types.NewPointer(substType(u.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substType(u.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(u.Elem(), m), u.Len())
	case *types.Map:
		return types.NewMap(substType(u.Key(), m), substType(u.Elem(), m))
	case *types.Chan:
		return types.NewChan(u.Dir(), substType(u.Elem(), m))
	case *types.Named:
		if u.TypeArgs() == nil || u.TypeArgs().Len() == 0 {
			return t
		}
		var as []types.Type
		for i := 0; i < u.TypeArgs().Len(); i++ {
			as = append(as, substType(u.TypeArgs().At(i), m))
		}
		r, err := types.Instantiate(nil, u.Origin(), as, false)
		if err != nil {
			return t
		}
		return r
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substTuple(u.Params(), m), substTuple(u.Results(), m), u.Variadic())
	case *types.Tuple:
		return substTuple(u, m)
	}
	return t
}
func substTuple(t *types.Tuple, m map[*types.TypeParam]types.Type) *types.Tuple {
	if t == nil {
		return nil
	}
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		v := t.At(i)
		vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
	}
	return types.NewTuple(vs...)
}

func (x *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	t := fr.pkg.Info.TypeOf(e)
	if t == nil {
		unsupported("no type for expression at %s", x.at(e.Pos()))
	}
	return x.subst(fr, t)
}

func (x *Exec) keyFor(fr *Frame, obj types.Object) varKey {
	for f := fr; f != nil; f = f.parent {
		if f.node.Pos() <= obj.Pos() && obj.Pos() < f.node.End() {
			return varKey{obj, f.inst}
		}
	}
	return varKey{obj, fr.inst}
}

// needsBox: the variable's address is taken somewhere in its function.
func (x *Exec) needsBox(fr *Frame, obj types.Object) bool {
	if v, ok := x.boxCache()[obj]; ok {
		return v
	}
	res := false
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	info := fr.pkg.Info
	isOpaque := func() bool {
		defer func() { recover() }()
		t := x.subst(fr, obj.Type())
		if x.opaqueStruct(t) {
			return true
		}
		return false
	}()
	var rootObj func(e ast.Expr) types.Object
	rootObj = func(e ast.Expr) types.Object {
		switch e := ast.Unparen(e).(type) {
		case *ast.Ident:
			return info.Uses[e]
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[e]; ok && sel.Kind() == types.FieldVal {
				if _, isPtr := under(sel.Recv()).(*types.Pointer); isPtr {
					return nil
				}
				return rootObj(e.X)
			}
		}
		return nil
	}
	ast.Inspect(root.node, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND && rootObj(n.X) == obj {
				res = true
			}
		case *ast.SelectorExpr:
			sel, ok := info.Selections[n]
			if ok && sel.Kind() == types.MethodVal && rootObj(n.X) == obj {
				if f, ok := sel.Obj().(*types.Func); ok {
					if r := f.Type().(*types.Signature).Recv(); r != nil {
						_, pr := r.Type().(*types.Pointer)
						_, pv := under(sel.Recv()).(*types.Pointer)
						if pr && !pv && !isOpaque {
							res = true
						}
					}
				}
			}
		}
		return true
	})
	x.boxCache()[obj] = res
	return res
}

var boxTab = map[types.Object]bool{}

func (x *Exec) boxCache() map[types.Object]bool { return boxTab }

// declare introduces a variable with an initial value.
func (x *Exec) declare(st *State, fr *Frame, obj types.Object, v Value) {
	if obj == nil || obj.Name() == "_" {
		return
	}
	k := x.keyFor(fr, obj)
	t := x.subst(fr, obj.Type())
	if x.needsBox(fr, obj) {
		r := x.newRef(st)
		st.store[k] = boxed{r, t}
		x.storeLoc(st, x.objLoc(r, t), x.convert(st, v, t))
		return
	}
	st.store[k] = x.convert(st, v, t)
	if x.dryVars != nil {
		x.dryVars[k] = true
	}
}

// ---- statements (continuation passing) ----

type K func(*State)
type konts struct {
	next K
	ret  func(*State, []Value)
	brk  func(*State, string)
	cont func(*State, string)
	fall K
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > maxSteps {
		unsupported("function too large for path enumeration (%d steps)", maxSteps)
	}
}

func (x *Exec) block(st *State, fr *Frame, ss []ast.Stmt, k konts) {
	if len(ss) == 0 {
		k.next(st)
		return
	}
	k2 := k
	k2.next = func(st *State) { x.block(st, fr, ss[1:], k) }
	x.stmt(st, fr, ss[0], k2)
}

func (x *Exec) stmt(st *State, fr *Frame, s ast.Stmt, k konts) {
	x.tick()
	switch s := s.(type) {
	case nil:
		k.next(st)
	case *ast.EmptyStmt:
		k.next(st)
	case *ast.BlockStmt:
		x.block(st, fr, s.List, k)
	case *ast.ExprStmt:
		x.exprMulti(st, fr, s.X, func(st *State, _ []Value) { k.next(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k.next(st)
			return
		}
		x.varSpecs(st, fr, gd.Specs, k.next)
	case *ast.AssignStmt:
		x.assign(st, fr, s, k.next)
	case *ast.IncDecStmt:
		x.lvalue(st, fr, s.X, func(st *State, l Loc) {
			v := x.load(st, l)
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			t := x.typeOf(fr, s.X)
			one := Value(SV{IntT(1), t})
			if sv, ok := v.(SV); ok && sv.T.sort == SReal {
				one = SV{RealT("1"), t}
			}
			r := x.arith(st, op, v, one, t, s.Pos())
			x.storeLoc(st, l, r)
			k.next(st)
		})
	case *ast.IfStmt:
		x.stmt(st, fr, s.Init, konts{next: func(st *State) {
			x.cond(st, fr, s.Cond, func(st *State) {
				x.stmt(st, fr, s.Body, k)
			}, func(st *State) {
				if s.Else == nil {
					k.next(st)
				} else {
					x.stmt(st, fr, s.Else, k)
				}
			})
		}, ret: k.ret, brk: k.brk, cont: k.cont})
	case *ast.ReturnStmt:
		x.ret(st, fr, s, k)
	case *ast.ForStmt:
		x.forStmt(st, fr, s, "", k)
	case *ast.RangeStmt:
		x.rangeStmt(st, fr, s, "", k)
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt:
			x.forStmt(st, fr, b, s.Label.Name, k)
		case *ast.RangeStmt:
			x.rangeStmt(st, fr, b, s.Label.Name, k)
		default:
			x.stmt(st, fr, s.Stmt, k)
		}
	case *ast.BranchStmt:
		lb := ""
		if s.Label != nil {
			lb = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			k.brk(st, lb)
		case token.CONTINUE:
			k.cont(st, lb)
		case token.FALLTHROUGH:
			if k.fall == nil {
				unsupported("fallthrough")
			}
			k.fall(st)
		default:
			unsupported("goto")
		}
	case *ast.SwitchStmt:
		x.switchStmt(st, fr, s, k)
	case *ast.TypeSwitchStmt:
		x.typeSwitch(st, fr, s, k)
	case *ast.DeferStmt:
		x.deferStmt(st, fr, s, k.next)
	case *ast.GoStmt:
		x.goStmt(st, fr, s, k.next)
	case *ast.SelectStmt:
		x.selectStmt(st, fr, s, k)
	case *ast.SendStmt:
		x.assumptions["channel operations: a receive yields any value of the element type, a send or close has no modelled effect, and which ready case a select takes is unconstrained"] = true
		x.expr(st, fr, s.Chan, func(st *State, _ Value) {
			x.expr(st, fr, s.Value, func(st *State, _ Value) { k.next(st) })
		})
	default:
		unsupported("statement %T", s)
	}
}

func (x *Exec) varSpecs(st *State, fr *Frame, specs []ast.Spec, next K) {
	if len(specs) == 0 {
		next(st)
		return
	}
	vs := specs[0].(*ast.ValueSpec)
	rest := func(st *State) { x.varSpecs(st, fr, specs[1:], next) }
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			obj := fr.pkg.Info.Defs[n]
			x.declare(st, fr, obj, x.zeroValue(x.subst(fr, obj.Type())))
		}
		rest(st)
		return
	}
	x.exprList(st, fr, vs.Values, func(st *State, vals []Value) {
		for i, n := range vs.Names {
			x.declare(st, fr, fr.pkg.Info.Defs[n], vals[i])
		}
		rest(st)
	})
}

// exprList evaluates a list; a single call with several results is spread.
func (x *Exec) exprList(st *State, fr *Frame, es []ast.Expr, k func(*State, []Value)) {
	if len(es) == 1 {
		x.exprMulti(st, fr, es[0], k)
		return
	}
	var rec func(st *State, i int, acc []Value)
	rec = func(st *State, i int, acc []Value) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.expr(st, fr, es[i], func(st *State, v Value) {
			rec(st, i+1, append(acc[:len(acc):len(acc)], v))
		})
	}
	rec(st, 0, nil)
}

func (x *Exec) assign(st *State, fr *Frame, s *ast.AssignStmt, next K) {
	info := fr.pkg.Info
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		x.lvalue(st, fr, s.Lhs[0], func(st *State, l Loc) {
			x.expr(st, fr, s.Rhs[0], func(st *State, v Value) {
				cur := x.load(st, l)
				t := x.typeOf(fr, s.Lhs[0])
				r := x.arith(st, ops[s.Tok], cur, x.convert(st, v, t), t, s.Pos())
				x.storeLoc(st, l, r)
				next(st)
			})
		})
		return
	}
	if s.Tok == token.DEFINE {
		x.exprList(st, fr, s.Rhs, func(st *State, vals []Value) {
			if len(vals) != len(s.Lhs) {
				unsupported("assignment count at %s", x.at(s.Pos()))
			}
			for i, lh := range s.Lhs {
				id := lh.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if obj := info.Defs[id]; obj != nil {
					x.declare(st, fr, obj, vals[i])
				} else {
					obj := info.Uses[id]
					l := x.varLoc(fr, obj)
					x.storeLoc(st, l, x.convert(st, vals[i], x.subst(fr, obj.Type())))
				}
			}
			next(st)
		})
		return
	}
	// plain assignment: evaluate lvalues then values, then store
	var locs []*Loc
	var lrec func(st *State, i int)
	lrec = func(st *State, i int) {
		if i == len(s.Lhs) {
			saved := append([]*Loc{}, locs...)
			x.exprList(st, fr, s.Rhs, func(st *State, vals []Value) {
				for j, l := range saved {
					if l == nil {
						continue
					}
					x.storeLoc(st, *l, x.convert(st, vals[j], x.typeOf(fr, s.Lhs[j])))
				}
				next(st)
			})
			return
		}
		if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
			locs = append(locs[:i:i], nil)
			lrec(st, i+1)
			return
		}
		x.lvalue(st, fr, s.Lhs[i], func(st *State, l Loc) {
			locs = append(locs[:i:i], &l)
			lrec(st, i+1)
		})
	}
	lrec(st, 0)
}

func (x *Exec) varLoc(fr *Frame, obj types.Object) Loc {
	if v, ok := obj.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return Loc{kind: "global", key: varKey{obj: obj}, rtyp: obj.Type(), typ: obj.Type()}
	}
	return Loc{kind: "var", key: x.keyFor(fr, obj), rtyp: x.subst(fr, obj.Type())}
}

// lvalue evaluates an assignable expression to a location.
func (x *Exec) lvalue(st *State, fr *Frame, e ast.Expr, k func(*State, Loc)) {
	info := fr.pkg.Info
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		obj := info.Uses[e]
		if obj == nil {
			obj = info.Defs[e]
		}
		if obj == nil {
			unsupported("identifier %s", e.Name)
		}
		l := x.varLoc(fr, obj)
		if l.kind == "var" {
			if b, ok := st.store[l.key].(boxed); ok {
				l = x.objLoc(b.ref, b.typ)
			}
		}
		k(st, l)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[e]; ok {
			x.selectorLoc(st, fr, e, sel, k)
			return
		}
		// package-qualified variable
		obj := info.Uses[e.Sel]
		k(st, x.varLoc(fr, obj))
	case *ast.IndexExpr:
		bt := x.typeOf(fr, e.X)
		if p, ok := under(bt).(*types.Pointer); ok {
			bt = p.Elem()
		}
		switch u := under(bt).(type) {
		case *types.Slice:
			x.expr(st, fr, e.X, func(st *State, b Value) {
				x.expr(st, fr, e.Index, func(st *State, iv Value) {
					i := iv.(SV).T
					bs, ok := b.(SliceV)
					if !ok {
						unsupported("index of value bytes as location")
					}
					x.oblige(st, "bounds", "index in range", e.Pos(), And(Le(IntT(0), i), Lt(i, bs.Len)))
					k(st, Loc{kind: "elem", ref: bs.Ref, idx: Add(bs.Off, i), typ: u.Elem(), rtyp: u.Elem()})
				})
			})
		case *types.Array:
			x.lvalue(st, fr, e.X, func(st *State, b Loc) {
				x.expr(st, fr, e.Index, func(st *State, iv Value) {
					i := iv.(SV).T
					x.oblige(st, "bounds", "index in range", e.Pos(), And(Le(IntT(0), i), Lt(i, IntT(u.Len()))))
					bb := b
					k(st, Loc{kind: "arrelem", base: &bb, idx: i, rtyp: u.Elem()})
				})
			})
		case *types.Map:
			x.expr(st, fr, e.X, func(st *State, b Value) {
				x.expr(st, fr, e.Index, func(st *State, iv Value) {
					kv := x.convert(st, iv, u.Key())
					m := b.(SV)
					x.oblige(st, "nil", "map is not nil on write", e.Pos(), Neq(m.T, IntT(0)))
					k(st, Loc{kind: "mapelem", m: m, mkey: x.mapKey(u.Key(), kv), rtyp: u.Elem()})
				})
			})
		default:
			unsupported("index location of %s", bt)
		}
	case *ast.StarExpr:
		x.expr(st, fr, e.X, func(st *State, v Value) {
			k(st, x.derefLoc(st, v, e.Pos()))
		})
	default:
		// a temporary: evaluate into an anonymous variable
		x.expr(st, fr, e, func(st *State, v Value) {
			x.instCnt++
			key := varKey{types.NewVar(e.Pos(), nil, fmt.Sprintf("tmp%d", x.instCnt), x.typeOf(fr, e)), -x.instCnt}
			st.store[key] = v
			k(st, Loc{kind: "var", key: key, rtyp: x.typeOf(fr, e)})
		})
	}
}

func (x *Exec) derefLoc(st *State, v Value, pos token.Pos) Loc {
	switch p := v.(type) {
	case LocV:
		return p.L
	case SV:
		pt, ok := under(p.Typ).(*types.Pointer)
		if !ok {
			unsupported("dereference of %s", p.Typ)
		}
		x.oblige(st, "nil", "pointer is not nil", pos, Neq(p.T, IntT(0)))
		return x.objLoc(p.T, pt.Elem())
	}
	unsupported("dereference of %T", v)
	return Loc{}
}

// selectorLoc follows a field selection (with embedded fields).
func (x *Exec) selectorLoc(st *State, fr *Frame, e *ast.SelectorExpr, sel *types.Selection, k func(*State, Loc)) {
	if sel.Kind() != types.FieldVal {
		unsupported("method value as location")
	}
	bt := x.typeOf(fr, e.X)
	follow := func(st *State, l Loc, t types.Type) {
		x.followPath(st, l, t, sel.Index(), e.Pos(), k)
	}
	if _, ok := under(bt).(*types.Pointer); ok {
		x.expr(st, fr, e.X, func(st *State, v Value) {
			l := x.derefLoc(st, v, e.Pos())
			follow(st, l, under(bt).(*types.Pointer).Elem())
		})
		return
	}
	x.lvalue(st, fr, e.X, func(st *State, l Loc) { follow(st, l, bt) })
}

func (x *Exec) followPath(st *State, l Loc, t types.Type, index []int, pos token.Pos, k func(*State, Loc)) {
	for n, i := range index {
		l = x.fieldLoc(l, t, i)
		t = under(t).(*types.Struct).Field(i).Type()
		if n+1 < len(index) {
			if p, ok := under(t).(*types.Pointer); ok {
				v := x.load(st, l)
				l = x.derefLoc(st, v, pos)
				t = p.Elem()
			}
		}
	}
	l.rtyp = t
	k(st, l)
}

func (x *Exec) ret(st *State, fr *Frame, s *ast.ReturnStmt, k konts) {
	n := fr.sig.Results().Len()
	if len(s.Results) == 0 {
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = x.load(st, x.varLoc(fr, fr.res[i]))
		}
		k.ret(st, vals)
		return
	}
	x.exprList(st, fr, s.Results, func(st *State, vals []Value) {
		if len(vals) != n {
			unsupported("return count")
		}
		out := make([]Value, n)
		for i := range vals {
			out[i] = x.convert(st, vals[i], x.subst(fr, fr.sig.Results().At(i).Type()))
			if len(fr.res) > i && fr.res[i] != nil && fr.res[i].Name() != "" && fr.res[i].Name() != "_" {
				x.storeLoc(st, x.varLoc(fr, fr.res[i]), out[i])
			}
		}
		k.ret(st, out)
	})
}

// cond evaluates a boolean expression and branches.
func (x *Exec) cond(st *State, fr *Frame, e ast.Expr, kt, kf K) {
	switch c := ast.Unparen(e).(type) {
	case *ast.BinaryExpr:
		if c.Op == token.LAND && !x.simple(fr, c.Y) {
			x.cond(st, fr, c.X, func(st *State) { x.cond(st, fr, c.Y, kt, kf) }, kf)
			return
		}
		if c.Op == token.LOR && !x.simple(fr, c.Y) {
			x.cond(st, fr, c.X, kt, func(st *State) { x.cond(st, fr, c.Y, kt, kf) })
			return
		}
	case *ast.UnaryExpr:
		if c.Op == token.NOT {
			x.cond(st, fr, c.X, kf, kt)
			return
		}
	}
	x.expr(st, fr, e, func(st *State, v Value) {
		x.branch(st, v.(SV).T, kt, kf)
	})
}

func (x *Exec) branch(st *State, t *Term, kt, kf K) {
	if t == TTrue || st.has(t) {
		kt(st)
		return
	}
	if t == TFalse || st.has(Not(t)) {
		kf(st)
		return
	}
	x.paths++
	if x.paths > maxPaths {
		unsupported("too many paths")
	}
	s2 := st.clone()
	if x.pureDepth > 0 {
		st.conds = &pcNode{t, st.conds}
		s2.conds = &pcNode{Not(t), s2.conds}
	}
	x.assume(st, t)
	if !x.infeasible(st) {
		kt(st)
	}
	x.assume(s2, Not(t))
	if !x.infeasible(s2) {
		kf(s2)
	}
}

// infeasible: cheap syntactic contradiction test on the newest facts.
func (x *Exec) infeasible(st *State) bool {
	if st.pc == nil {
		return false
	}
	t := st.pc.t
	if t == TFalse {
		return true
	}
	nt := Not(t)
	for n := st.pc.next; n != nil; n = n.next {
		if n.t == nt {
			return true
		}
	}
	return false
}

// simple: no calls, so the operands of && and || can be evaluated as plain terms.
func (x *Exec) simple(fr *Frame, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, has := fr.pkg.Info.Types[n.Fun]; has && tv.IsType() {
				return true
			}
			if id, isID := ast.Unparen(n.Fun).(*ast.Ident); isID {
				if b, isB := fr.pkg.Info.Uses[id].(*types.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			ok = false
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (x *Exec) switchStmt(st *State, fr *Frame, s *ast.SwitchStmt, k konts) {
	x.stmt(st, fr, s.Init, konts{next: func(st *State) {
		run := func(st *State, tag Value) {
			var clauses []*ast.CaseClause
			var def = -1
			for i, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				clauses = append(clauses, cc)
				if cc.List == nil {
					def = i
				}
			}
			inner := k
			inner.brk = func(st *State, lb string) {
				if lb == "" {
					k.next(st)
				} else {
					k.brk(st, lb)
				}
			}
			var body func(st *State, i int)
			body = func(st *State, i int) {
				kk := inner
				kk.next = k.next
				if i+1 < len(clauses) {
					kk.fall = func(st *State) { body(st, i+1) }
				}
				x.block(st, fr, clauses[i].Body, kk)
			}
			var try func(st *State, i, j int)
			try = func(st *State, i, j int) {
				if i == len(clauses) {
					if def >= 0 {
						body(st, def)
					} else {
						k.next(st)
					}
					return
				}
				if j >= len(clauses[i].List) {
					try(st, i+1, 0)
					return
				}
				e := clauses[i].List[j]
				if tag == nil {
					x.cond(st, fr, e, func(st *State) { body(st, i) }, func(st *State) { try(st, i, j+1) })
					return
				}
				x.expr(st, fr, e, func(st *State, v Value) {
					c := x.valEq(st, tag, x.convert(st, v, valType(tag)))
					x.branch(st, c, func(st *State) { body(st, i) }, func(st *State) { try(st, i, j+1) })
				})
			}
			try(st, 0, 0)
		}
		if s.Tag == nil {
			run(st, nil)
		} else {
			x.expr(st, fr, s.Tag, func(st *State, v Value) { run(st, x.convert(st, v, types.Default(x.typeOf(fr, s.Tag)))) })
		}
	}, ret: k.ret, brk: k.brk, cont: k.cont})
}

// selectStmt tries every case: which one is taken is unconstrained.
func (x *Exec) selectStmt(st *State, fr *Frame, s *ast.SelectStmt, k konts) {
	inner := k
	inner.brk = func(st *State, lb string) {
		if lb == "" {
			k.next(st)
		} else {
			k.brk(st, lb)
		}
	}
	take := func(st *State, c *ast.CommClause) {
		x.stmt(st, fr, c.Comm, konts{next: func(st *State) { x.block(st, fr, c.Body, inner) }, ret: k.ret, brk: k.brk, cont: k.cont})
	}
	var try func(st *State, i int)
	try = func(st *State, i int) {
		c := s.Body.List[i].(*ast.CommClause)
		if i+1 == len(s.Body.List) {
			take(st, c)
			return
		}
		x.branch(st, Fresh("select", SBool), func(st *State) { take(st, c) }, func(st *State) { try(st, i+1) })
	}
	if len(s.Body.List) > 0 {
		try(st, 0)
	}
}

func (x *Exec) typeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt, k konts) {
	x.stmt(st, fr, s.Init, konts{next: func(st *State) {
		var ex ast.Expr
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ex = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			ex = a.Rhs[0].(*ast.TypeAssertExpr).X
		}
		x.expr(st, fr, ex, func(st *State, v Value) {
			inner := k
			inner.brk = func(st *State, lb string) {
				if lb == "" {
					k.next(st)
				} else {
					k.brk(st, lb)
				}
			}
			inner.next = k.next
			var def *ast.CaseClause
			var rec func(st *State, i int)
			rec = func(st *State, i int) {
				if i == len(s.Body.List) {
					if def != nil {
						if o := fr.pkg.Info.Implicits[def]; o != nil {
							x.declare(st, fr, o, v)
						}
						x.block(st, fr, def.Body, inner)
					} else {
						k.next(st)
					}
					return
				}
				cc := s.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					rec(st, i+1)
					return
				}
				var conds []*Term
				var last types.Type
				for _, te := range cc.List {
					if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
						conds = append(conds, Eq(v.(SV).T, IntT(0)))
						last = nil
						continue
					}
					last = x.typeOf(fr, te)
					conds = append(conds, x.isType(st, v.(SV), last))
				}
				x.branch(st, Or(conds...), func(st *State) {
					if o := fr.pkg.Info.Implicits[cc]; o != nil {
						if len(cc.List) == 1 && last != nil {
							x.declare(st, fr, o, x.unbox(st, v.(SV), last))
						} else {
							x.declare(st, fr, o, v)
						}
					}
					x.block(st, fr, cc.Body, inner)
				}, func(st *State) { rec(st, i+1) })
			}
			rec(st, 0)
		})
	}, ret: k.ret, brk: k.brk, cont: k.cont})
}

func (x *Exec) deferStmt(st *State, fr *Frame, s *ast.DeferStmt, next K) {
	root := fr
	call := s.Call
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		d := deferred{run: func(st *State, k func(*State)) {
			x.callLit(st, fr, FuncV{Lit: lit, Frame: fr}, nil, func(st *State, _ []Value) { k(st) })
		}}
		st.defers[root.inst] = append(st.defers[root.inst], d)
		next(st)
		return
	}
	if x.ignorableCall(fr, call) {
		x.exprList1(st, fr, effectful(call.Args), func(st *State, _ []Value) { next(st) })
		return
	}
	// arguments and receiver are evaluated now
	x.prepareCall(st, fr, call, func(st *State, run func(*State, func(*State, []Value))) {
		d := deferred{run: func(st *State, k func(*State)) { run(st, func(st *State, _ []Value) { k(st) }) }}
		st.defers[root.inst] = append(st.defers[root.inst], d)
		next(st)
	})
}

func (x *Exec) goStmt(st *State, fr *Frame, s *ast.GoStmt, next K) {
	if !x.goSync {
		unsupported("go statement at %s", x.at(s.Pos()))
	}
	x.assumptions["goroutines started in "+fr.fn.Name+" are treated as if they ran to completion where they are started (no interference with other goroutines)"] = true
	x.exprMulti(st, fr, s.Call, func(st *State, _ []Value) { next(st) })
}

// ---- loops ----

func (x *Exec) loopSpec(fr *Frame, n ast.Node) (*LoopSpec, string) {
	ord := x.loopOrdinal(fr, n)
	name := fmt.Sprintf("%s#loop%d", fr.fn.Name, ord)
	if c := x.specs.Contracts[fr.fn.Name]; c != nil {
		if l := c.Loops[ord]; l != nil {
			x.loopUse[name] = true
			return l, name
		}
	}
	return &LoopSpec{}, name
}

func (x *Exec) loopOrdinal(fr *Frame, n ast.Node) int {
	if o, ok := x.loopOrd[n]; ok {
		return o
	}
	i := 0
	ast.Inspect(fr.fn.Decl, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			i++
			x.loopOrd[m] = i
		case *ast.CallExpr: // a call that runs a function literal on every element counts as a loop
			if f, ok := fr.pkg.Info.Uses[calleeIdent(m)].(*types.Func); ok {
				if c := x.specs.Contracts[FuncName(f)]; c != nil && len(c.Each) > 0 {
					i++
					x.loopOrd[m] = i
				}
			}
		}
		return true
	})
	return x.loopOrd[n]
}

// assignedVars collects variables assigned inside nodes.
func (x *Exec) assignedVars(st *State, fr *Frame, nodes ...ast.Node) map[varKey]bool {
	out := map[varKey]bool{}
	info := fr.pkg.Info
	add := func(e ast.Expr) {
		for {
			switch y := ast.Unparen(e).(type) {
			case *ast.Ident:
				if obj, ok := info.Uses[y].(*types.Var); ok && obj.Parent() != nil && obj.Pkg() != nil && obj.Parent() != obj.Pkg().Scope() {
					out[x.keyFor(fr, obj)] = true
				}
				return
			case *ast.SelectorExpr:
				if t := info.TypeOf(y.X); t != nil {
					if _, ok := under(t).(*types.Pointer); ok {
						return
					}
				}
				e = y.X
			case *ast.IndexExpr:
				if t := info.TypeOf(y.X); t != nil {
					switch under(t).(type) {
					case *types.Slice, *types.Map, *types.Pointer:
						return
					}
				}
				e = y.X
			default:
				return
			}
		}
	}
	visit := func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(s.X)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					add(s.Key)
				}
				if s.Value != nil {
					add(s.Value)
				}
			}
		}
		return true
	}
	for _, n := range nodes {
		if n != nil {
			ast.Inspect(n, visit)
		}
	}
	return out
}

type loopCtx struct {
	iter    *Term // completed iterations (range loops)
	over    Value
	visited *Term
	key     *Term // the key last visited by an each call
	entry   *State
	node    ast.Node
	pos     token.Pos
}

// runLoop is the common part: head(st, kbody, kexit) evaluates the loop condition.
func (x *Exec) runLoop(st *State, fr *Frame, n ast.Node, label string, bodyNodes []ast.Node,
	extraVars []varKey, lc *loopCtx, auto func(*State) []*Term,
	havocExtra func(*State),
	head func(st *State, kbody K, kexit K),
	body func(st *State, k konts), post func(st *State, k K), k konts) {

	spec, name := x.loopSpec(fr, n)
	entry := st.clone()
	lc.entry = entry
	lc.node = n
	lc.pos = n.Pos()
	inv := func(st *State) []namedTerm {
		var out []namedTerm
		for i, a := range auto(st) {
			out = append(out, namedTerm{fmt.Sprintf("auto%d", i+1), a})
		}
		for _, c := range spec.Inv {
			out = append(out, namedTerm{c.Name, x.specLoop(st, fr, lc, c)})
		}
		return out
	}
	// initially
	for _, i := range inv(st) {
		x.oblige(st, "invariant", name+" invariant "+i.n+" holds initially", n.Pos(), i.t)
	}
	// havoc variables
	vars := x.assignedVars(st, fr, bodyNodes...)
	for _, v := range extraVars {
		vars[v] = true
	}
	st = st.clone()
	havocVars := func(st *State, extra map[varKey]bool) {
		var ks []varKey
		for kk := range vars {
			ks = append(ks, kk)
		}
		for kk := range extra {
			if !vars[kk] {
				ks = append(ks, kk)
			}
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].obj.Pos() != ks[j].obj.Pos() {
				return ks[i].obj.Pos() < ks[j].obj.Pos()
			}
			return ks[i].inst < ks[j].inst
		})
		for _, kk := range ks {
			v, ok := st.store[kk]
			if !ok {
				continue
			}
			if _, b := v.(boxed); b {
				continue
			}
			t := valType(v)
			if t == nil {
				continue
			}
			nv := x.freshValue(kk.obj.Name(), t)
			st.store[kk] = nv
		}
		havocExtra(st)
	}
	// discover written heap components by dry runs
	keys := map[string]bool{}
	dvars := map[varKey]bool{}
	for round := 0; round < 4; round++ {
		saveK, saveV, saveP, saveObl := x.dryKeys, x.dryVars, x.paths, len(x.obls)
		x.dryKeys, x.dryVars = map[string]bool{}, map[varKey]bool{}
		x.quiet++
		ds := st.clone()
		havocVars(ds, dvars)
		for kk := range keys {
			ds.heap[kk] = Fresh("dry", x.heapSort[kk])
		}
		ds.alloc = Fresh("dalloc", SInt)
		stop := func(*State) {}
		stopL := func(*State, string) {}
		head(ds, func(st *State) {
			body(st, konts{next: func(st *State) { post(st, stop) }, ret: func(*State, []Value) {}, brk: stopL,
				cont: func(st *State, lb string) { post(st, stop) }})
		}, stop)
		x.quiet--
		got, gotV := x.dryKeys, x.dryVars
		x.dryKeys, x.dryVars = saveK, saveV
		x.paths = saveP
		x.obls = x.obls[:saveObl]
		grew := false
		for kk := range got {
			if !keys[kk] {
				keys[kk] = true
				grew = true
			}
			if x.dryKeys != nil {
				x.dryKeys[kk] = true
			}
		}
		for kk := range gotV {
			if !dvars[kk] {
				if _, inSt := st.store[kk]; inSt {
					dvars[kk] = true
					grew = true
				}
			}
			if x.dryVars != nil {
				x.dryVars[kk] = true
			}
		}
		if !grew {
			break
		}
	}
	havocVars(st, dvars)
	pre := entry
	st.alloc = Fresh("alloc", SInt)
	x.assume(st, Le(pre.alloc, st.alloc))
	fa := frameMods{alloc: IntT(0), label: "loop"}
	if spec.HasMods {
		fa.alloc = pre.alloc
		fa.label = name
		for _, m := range spec.Mods {
			fa.mods = append(fa.mods, x.modLocs(entry, &specEnv{x: x, st: entry, old: fr.old, fr: fr, lc: lc, params: fr.params, lets: fr.lets, pkg: fr.pkg.Pkg}, m.E)...)
		}
		st.frames = append(st.frames[:len(st.frames):len(st.frames)], fa)
	}
	for _, key := range sortedKeys(keys) {
		old := x.heapGet(pre, key, x.heapSort[key])
		nw := Fresh("H:"+key, x.heapSort[key])
		st.heap[key] = nw
		x.assumeFrame(st, key, old, nw, st.frames)
		for _, f := range x.wfHeapFacts(key, nw, st.alloc) {
			x.assume(st, f)
		}
	}
	// range facts of havocked scalars
	for kk := range st.store {
		if vars[kk] || dvars[kk] {
			v := st.store[kk]
			if _, b := v.(boxed); b {
				continue
			}
			if t := valType(v); t != nil {
				for _, f := range x.typeFacts(v, t, st.alloc) {
					x.assume(st, f)
				}
			}
		}
	}
	for _, i := range inv(st) {
		x.assume(st, i.t)
	}
	for _, c := range spec.Free {
		x.assumptions["assumed at "+name+": "+c.Src] = true
		x.assume(st, x.specLoop(st, fr, lc, c))
	}
	head1 := st.clone()
	if x.quiet == 0 {
		x.exitHyps = append(x.exitHyps, nil) // placeholder keeps index; reachability recorded below
		x.exitHyps[len(x.exitHyps)-1] = append(st.hyps(), TTrue)
		x.notes = append(x.notes, name)
	}
	var dec0 []*Term
	exit := func(st *State) {
		if spec.HasMods {
			st.frames = st.frames[:len(st.frames)-1]
		}
		k.next(st)
	}
	pop := func(st *State) {
		if spec.HasMods {
			st.frames = st.frames[:len(st.frames)-1]
		}
	}
	finish := func(st *State) {
		post(st, func(st *State) {
			for _, c := range spec.Hints {
				t := x.specLoop(st, fr, lc, c)
				x.hint(st, name+" hint "+c.Src, n.Pos(), t)
			}
			for _, i := range inv(st) {
				x.oblige(st, "invariant", name+" invariant "+i.n+" is preserved", n.Pos(), i.t)
			}
			if len(dec0) > 0 {
				var now []*Term
				for _, c := range spec.Dec {
					now = append(now, x.specLoopTerm(st, fr, lc, c))
				}
				x.oblige(st, "termination", name+" measure decreases", n.Pos(), lexLess(now, dec0))
			}
		})
	}
	head(st, func(st *State) {
		for _, c := range spec.Dec {
			dec0 = append(dec0, x.specLoopTerm(head1, fr, lc, c))
		}
		if len(dec0) > len(spec.Dec) {
			dec0 = dec0[:len(spec.Dec)]
		}
		for _, d := range dec0 {
			x.oblige(st, "termination", name+" measure is bounded below", n.Pos(), Le(IntT(0), d))
		}
		body(st, konts{
			next: finish,
			ret:  func(st *State, v []Value) { pop(st); k.ret(st, v) },
			brk: func(st *State, lb string) {
				if lb == "" || lb == label {
					exit(st)
				} else {
					pop(st)
					k.brk(st, lb)
				}
			},
			cont: func(st *State, lb string) {
				if lb == "" || lb == label {
					finish(st)
				} else {
					pop(st)
					k.cont(st, lb)
				}
			},
		})
	}, exit)
}

// hint proves a stepping stone and keeps it; marks carry no content and are only kept.
func (x *Exec) hint(st *State, name string, pos token.Pos, t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			x.hint(st, name, pos, a)
		}
		return
	}
	if t.op == "uf" && strings.HasPrefix(t.name, "mark.") {
		x.assume(st, t)
		return
	}
	x.oblige(st, "hint", name, pos, t)
}

type namedTerm struct {
	n string
	t *Term
}

func lexLess(a, b []*Term) *Term {
	res := TFalse
	for i := len(a) - 1; i >= 0; i-- {
		res = Or(Lt(a[i], b[i]), And(Eq(a[i], b[i]), res))
	}
	return res
}

// assumeFrame: component key may only have changed at permitted objects.
func (x *Exec) assumeFrame(st *State, key string, old, nw *Term, frames []frameMods) {
	if key[0] == 'V' {
		for _, f := range frames {
			ok := false
			for _, m := range f.mods {
				if strings.HasPrefix(key, m.prefix) {
					ok = true
				}
			}
			if !ok {
				x.assume(st, Eq(old, nw))
				return
			}
		}
		return
	}
	for _, f := range frames {
		x.assumeFrame1(st, key, old, nw, f)
	}
}

func (x *Exec) assumeFrame1(st *State, key string, old, nw *Term, f frameMods) {
	ks := SInt
	if strings.HasPrefix(string(old.sort), "(Array") {
		ks, _ = arrSorts(old.sort)
	} else {
		ks = "" // a single value
	}
	if ks != SInt {
		ok := false
		for _, m := range f.mods {
			if strings.HasPrefix(key, m.prefix) {
				ok = true
			}
		}
		if !ok {
			x.assume(st, Eq(old, nw))
		}
		return
	}
	r := BVar("r", SInt)
	cond := []*Term{Lt(r, f.alloc)}
	mk := key
	if key[0] == 'M' {
		p := strings.SplitN(key, "|", 4)
		mk = "M|" + p[1] + "|" + p[2]
	}
	for _, m := range f.mods {
		if strings.HasPrefix(mk, m.prefix) || strings.HasPrefix(m.prefix, mk) && m.prefix[0] == 'M' {
			if m.ref == nil {
				return
			}
			cond = append(cond, Neq(r, m.ref))
		}
	}
	so, sn := Select(old, r), Select(nw, r)
	x.assume(st, Forall([]*Term{r}, Implies(And(cond...), Eq(sn, so)), []*Term{sn}))
}

func (x *Exec) forStmt(st *State, fr *Frame, s *ast.ForStmt, label string, k konts) {
	x.stmt(st, fr, s.Init, konts{next: func(st *State) {
		spec, _ := x.loopSpec(fr, s)
		head := func(st *State, kb, ke K) {
			if s.Cond == nil {
				kb(st)
				return
			}
			x.cond(st, fr, s.Cond, kb, ke)
		}
		body := func(st *State, k konts) { x.stmt(st, fr, s.Body, k) }
		post := func(st *State, k K) { x.stmt(st, fr, s.Post, konts{next: k}) }
		if n, ok := x.constTrip(st, fr, s); len(spec.Inv) == 0 && ok && n <= 70 || spec.Unroll > 0 {
			lim := 80
			if spec.Unroll > 0 {
				lim = spec.Unroll + 1
			}
			x.unroll(st, label, lim, head, body, post, k, s.Pos())
			return
		}
		// iter() counts the completed iterations; a plain counting loop is related to it
		x.instCnt++
		itKey := varKey{types.NewVar(s.Pos(), nil, "iter", types.Typ[types.Int]), -x.instCnt}
		st.store[itKey] = SV{IntT(0), types.Typ[types.Int]}
		lc := &loopCtx{iter: IntT(0)}
		setIter := func(st *State) { lc.iter = st.store[itKey].(SV).T }
		post2 := func(st *State, k K) {
			st.store[itKey] = SV{Add(st.store[itKey].(SV).T, IntT(1)), types.Typ[types.Int]}
			if x.dryVars != nil {
				x.dryVars[itKey] = true
			}
			post(st, func(st *State) {
				setIter(st)
				k(st)
			})
		}
		counter := x.counting(st, fr, s)
		auto := func(st *State) []*Term {
			setIter(st)
			ts := []*Term{Le(IntT(0), lc.iter)}
			if counter != nil {
				ts = append(ts, counter(st, lc.iter)...)
			}
			return []*Term{And(ts...)}
		}
		x.runLoop(st, fr, s, label, []ast.Node{s.Body, s.Post, s.Cond}, []varKey{itKey}, lc,
			auto, setIter, head, body, post2, k)
	}, ret: k.ret, brk: k.brk, cont: k.cont})
}

// counting recognises "for i := a; i < b; i++" where nothing else assigns i: then i is a plus the iterations done,
// and does not pass b if b is a constant, a local that is not assigned in the loop, or the length of one.
func (x *Exec) counting(st *State, fr *Frame, s *ast.ForStmt) func(*State, *Term) []*Term {
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return nil
	}
	id, ok := inc.X.(*ast.Ident)
	if !ok {
		return nil
	}
	local := func(id *ast.Ident) (varKey, bool) {
		v, ok := fr.pkg.Info.Uses[id].(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return varKey{}, false
		}
		k := x.keyFor(fr, v)
		if _, isBoxed := st.store[k].(boxed); isBoxed || st.store[k] == nil {
			return varKey{}, false
		}
		return k, true
	}
	assigned := x.assignedVars(st, fr, s.Body, s.Cond)
	k, ok := local(id)
	if !ok || assigned[k] {
		return nil
	}
	v0, ok := st.store[k].(SV)
	if !ok || v0.T.sort != SInt {
		return nil
	}
	var bound *Term
	if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LSS {
		if bi, ok := b.X.(*ast.Ident); ok && fr.pkg.Info.Uses[bi] == fr.pkg.Info.Uses[id] {
			e := ast.Unparen(b.Y)
			if tv := fr.pkg.Info.Types[e]; tv.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
					bound = IntT(n)
				}
			} else if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
					if a, ok := ast.Unparen(c.Args[0]).(*ast.Ident); ok {
						if ak, ok := local(a); ok && !assigned[ak] {
							switch sv := st.store[ak].(type) {
							case SliceV:
								bound = sv.Len
							}
						}
					}
				}
			} else if a, ok := e.(*ast.Ident); ok {
				if ak, ok := local(a); ok && !assigned[ak] {
					if sv, ok := st.store[ak].(SV); ok && sv.T.sort == SInt {
						bound = sv.T
					}
				}
			}
		}
	}
	return func(st *State, iter *Term) []*Term {
		v, ok := st.store[k].(SV)
		if !ok {
			return nil
		}
		ts := []*Term{Eq(v.T, Add(v0.T, iter))}
		if bound != nil {
			ts = append(ts, Or(Le(v.T, bound), Eq(iter, IntT(0))))
		}
		return ts
	}
}

// constTrip recognises loops whose trip count is a constant.
func (x *Exec) constTrip(st *State, fr *Frame, s *ast.ForStmt) (int, bool) {
	b, ok := s.Cond.(*ast.BinaryExpr)
	if !ok {
		return 0, false
	}
	id, ok := b.X.(*ast.Ident)
	if !ok {
		return 0, false
	}
	obj := fr.pkg.Info.Uses[id]
	if obj == nil {
		return 0, false
	}
	v, ok := st.store[x.keyFor(fr, obj)].(SV)
	if !ok || v.T.op != "int" {
		return 0, false
	}
	tv := fr.pkg.Info.Types[b.Y]
	if tv.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(tv.Value))
	if !ok {
		return 0, false
	}
	d := n - v.T.num.Int64()
	if d < 0 {
		d = -d
	}
	return int(d), true
}

func (x *Exec) unroll(st *State, label string, lim int, head func(*State, K, K), body func(*State, konts), post func(*State, K), k konts, pos token.Pos) {
	if lim == 0 {
		x.oblige(st, "unwind", "loop unrolled far enough", pos, TFalse)
		return
	}
	again := func(st *State) {
		post(st, func(st *State) { x.unroll(st, label, lim-1, head, body, post, k, pos) })
	}
	head(st, func(st *State) {
		body(st, konts{next: again, ret: k.ret,
			brk: func(st *State, lb string) {
				if lb == "" || lb == label {
					k.next(st)
				} else {
					k.brk(st, lb)
				}
			},
			cont: func(st *State, lb string) {
				if lb == "" || lb == label {
					again(st)
				} else {
					k.cont(st, lb)
				}
			}})
	}, k.next)
}

func (x *Exec) rangeStmt(st *State, fr *Frame, s *ast.RangeStmt, label string, k konts) {
	t := x.typeOf(fr, s.X)
	info := fr.pkg.Info
	bind := func(st *State, e ast.Expr, v Value) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			x.declare(st, fr, info.Defs[e.(*ast.Ident)], v)
			return
		}
		x.lvalue(st, fr, e, func(st *State, l Loc) { x.storeLoc(st, l, x.convert(st, v, x.typeOf(fr, e))) })
	}
	x.expr(st, fr, s.X, func(st *State, over Value) {
		x.instCnt++
		itKey := varKey{types.NewVar(s.Pos(), nil, "iter", types.Typ[types.Int]), -x.instCnt}
		st.store[itKey] = SV{IntT(0), types.Typ[types.Int]}
		lc := &loopCtx{over: over}
		getIter := func(st *State) *Term { return st.store[itKey].(SV).T }
		var lenT *Term
		var elem func(st *State, i *Term) Value
		switch u := under(t).(type) {
		case *types.Slice:
			if bv, ok := over.(BytesV); ok {
				lenT = slen(bv.S)
				elem = func(st *State, i *Term) Value { return SV{sat(bv.S, i), u.Elem()} }
				break
			}
			sl := over.(SliceV)
			lenT = sl.Len
			elem = func(st *State, i *Term) Value {
				return x.load(st, Loc{kind: "elem", ref: sl.Ref, idx: Add(sl.Off, i), typ: u.Elem(), rtyp: u.Elem()})
			}
		case *types.Array:
			av := over.(ArrV)
			lenT = IntT(u.Len())
			elem = func(st *State, i *Term) Value {
				ts := make([]*Term, len(av.A))
				for j, a := range av.A {
					ts[j] = Select(a, i)
				}
				v, _ := x.fromLeaves(u.Elem(), ts)
				return v
			}
		case *types.Pointer:
			unsupported("range over pointer to array")
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				lenT = over.(SV).T
				elem = nil
			} else {
				unsupported("range over string at %s", x.at(s.Pos()))
			}
		case *types.Map:
			x.rangeMap(st, fr, s, label, over.(SV), u, bind, itKey, lc, k)
			return
		default:
			unsupported("range over %s", t)
		}
		setIter := func(st *State) { lc.iter = getIter(st) }
		head := func(st *State, kb, ke K) {
			i := getIter(st)
			x.branch(st, Lt(i, lenT), func(st *State) {
				bind(st, s.Key, SV{i, types.Typ[types.Int]})
				if s.Value != nil && elem != nil {
					if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
						bind(st, s.Value, elem(st, i))
					}
				}
				kb(st)
			}, ke)
		}
		body := func(st *State, k konts) { x.stmt(st, fr, s.Body, k) }
		post := func(st *State, k K) {
			st.store[itKey] = SV{Add(getIter(st), IntT(1)), types.Typ[types.Int]}
			if x.dryVars != nil {
				x.dryVars[itKey] = true
			}
			setIter(st)
			k(st)
		}
		lc.iter = IntT(0)
		if lenT.op == "int" && lenT.num.IsInt64() && lenT.num.Int64() <= 16 {
			spec, _ := x.loopSpec(fr, s)
			if len(spec.Inv) == 0 {
				x.unroll(st, label, 20, head, body, post, k, s.Pos())
				return
			}
		}
		lc.over = over
		lcIterSet := func(st *State) []*Term {
			setIter(st)
			i := getIter(st)
			return []*Term{And(Le(IntT(0), i), Or(Le(i, lenT), Eq(i, IntT(0))))}
		}
		x.runLoop(st, fr, s, label, []ast.Node{s.Body, rangeAssign(s)}, []varKey{itKey}, lc, lcIterSet, func(st *State) {
			setIter(st)
		}, head, body, post, k)
	})
}

func rangeAssign(s *ast.RangeStmt) ast.Node {
	if s.Tok == token.ASSIGN {
		return &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: s.X, Body: &ast.BlockStmt{}}
	}
	return s.X
}

// rangeMap iterates over the entries present when the loop starts, in any order.
func (x *Exec) rangeMap(st *State, fr *Frame, s *ast.RangeStmt, label string, m SV, u *types.Map,
	bind func(*State, ast.Expr, Value), itKey varKey, lc *loopCtx, k konts) {
	_, _, ks, _, _ := x.mapKeys(m.Typ)
	vs := ArrS(ks, SBool)
	x.instCnt++
	visKey := varKey{types.NewVar(s.Pos(), nil, "visited", types.Typ[types.Int]), -x.instCnt}
	st.store[visKey] = GhostV{ConstArr(vs, TFalse)}
	dom0 := x.mapDom(st, m)
	len0 := x.mapLen(st, m)
	getVis := func(st *State) *Term { return st.store[visKey].(GhostV).T }
	var curKey *Term
	head := func(st *State, kb, ke K) {
		vis := getVis(st)
		q := BVar("k", ks)
		done := Forall([]*Term{q}, Implies(Select(dom0, q), Select(vis, q)), []*Term{Select(vis, q)})
		s2 := st.clone()
		// one more entry
		kk := Fresh("key", ks)
		x.assume(st, Select(dom0, kk))
		x.assume(st, Not(Select(vis, kk)))
		x.assume(st, x.mapHas(st, m, kk))
		x.assume(st, Lt(st.store[itKey].(SV).T, len0))
		curKey = kk
		st.store[visKey] = GhostV{Store(vis, kk, TTrue)}
		kv := x.mapKeyVal(st, u.Key(), kk)
		for _, f := range x.typeFacts(kv, u.Key(), st.alloc) {
			x.assume(st, f)
		}
		bind(st, s.Key, kv)
		if s.Value != nil {
			bind(st, s.Value, x.mapGet(st, m, kk, u.Elem()))
		}
		kb(st)
		// finished
		x.assume(s2, done)
		x.assume(s2, Eq(vis, dom0)) // only keys of the map are visited
		x.assume(s2, Eq(s2.store[itKey].(SV).T, len0))
		ke(s2)
	}
	_ = curKey
	setIter := func(st *State) {
		lc.iter = st.store[itKey].(SV).T
		lc.visited = getVis(st)
	}
	body := func(st *State, k konts) { x.stmt(st, fr, s.Body, k) }
	post := func(st *State, k K) {
		st.store[itKey] = SV{Add(st.store[itKey].(SV).T, IntT(1)), types.Typ[types.Int]}
		setIter(st)
		k(st)
	}
	auto := func(st *State) []*Term {
		setIter(st)
		q := BVar("k", ks)
		vis := getVis(st)
		return []*Term{Le(IntT(0), lc.iter), Le(lc.iter, len0),
			Forall([]*Term{q}, Implies(Select(vis, q), Select(dom0, q)), []*Term{Select(vis, q)})}
	}
	havocExtra := func(st *State) {
		st.store[visKey] = GhostV{Fresh("visited", vs)}
		setIter(st)
	}
	x.assumptions["maps do not change while ranged over (entries visited are those present at loop start)"] = true
	x.runLoop(st, fr, s, label, []ast.Node{s.Body}, []varKey{itKey}, lc, auto, havocExtra, head, body, post, k)
}

var _ = big.NewInt
