package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Hash-consed first-order terms with light simplification.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SStr  Sort = "Str"
)

func ArrS(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrSorts splits "(Array K V)".
func arrSorts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	id    int
	op    string // "int","real","str","var","bvar","true","false", operators, "uf", "forall","exists"
	name  string
	num   *big.Int
	args  []*Term
	sort  Sort
	bound []*Term // quantifiers
	pats  [][]*Term
	free  bool // contains bound variables
}

var termTab = map[string]*Term{}
var termCnt int

func mk(op, name string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, op: op, name: name, sort: sort, args: args}
	if op == "bvar" {
		t.free = true
	}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	termTab[k] = t
	return t
}

var (
	TTrue  = mk("true", "", SBool)
	TFalse = mk("false", "", SBool)
)

func IntT(n int64) *Term { return BigT(big.NewInt(n)) }
func BigT(n *big.Int) *Term {
	t := mk("int", n.String(), SInt)
	t.num = n
	return t
}
func RealT(s string) *Term { return mk("real", s, SReal) }
func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

var freshCnt = map[string]int{}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	n := freshCnt[base]
	freshCnt[base]++
	return mk("var", fmt.Sprintf("%s!%d", base, n), s)
}
func VarT(name string, s Sort) *Term { return mk("var", name, s) }

var bvCnt int

func BVar(base string, s Sort) *Term {
	bvCnt++
	return mk("bvar", fmt.Sprintf("%s?%d", sanitize(base), bvCnt), s)
}

func UF(name string, s Sort, args ...*Term) *Term { return mk("uf", name, s, args...) }

// string literal constants
var strLits = map[string]*Term{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk("str", fmt.Sprintf("%q", s), SStr)
	strLits[s] = t
	return t
}
func strLitVal(t *Term) (string, bool) {
	if t.op != "str" {
		return "", false
	}
	for k, v := range strLits {
		if v == t {
			return k, true
		}
	}
	return "", false
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	case "<":
		return Le(a.args[1], a.args[0])
	case "<=":
		return Lt(a.args[1], a.args[0])
	}
	return mk("not", "", SBool, a)
}

func flat(op string, in []*Term) []*Term {
	var out []*Term
	for _, a := range in {
		if a.op == op {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func And(in ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range flat("and", in) {
		if a == TTrue || seen[a] {
			continue
		}
		if a == TFalse {
			return TFalse
		}
		if seen[Not(a)] {
			return TFalse
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return TTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(in ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range flat("or", in) {
		if a == TFalse || seen[a] {
			continue
		}
		if a == TTrue {
			return TTrue
		}
		if seen[Not(a)] {
			return TTrue
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return TFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	if a == b {
		return TTrue
	}
	return mk("=>", "", SBool, a, b)
}

// splitLin returns (base, const) with t == base+const, base nil for constants.
// linear normal form of integer terms
type linTerm struct {
	atom *Term
	coef *big.Int
}

func linOf(t *Term) ([]linTerm, *big.Int) {
	switch {
	case t.op == "int":
		return nil, t.num
	case t.op == "+" && t.sort == SInt:
		if l, ok := linMemo[t]; ok {
			return l.ts, l.c
		}
	case t.op == "*" && t.sort == SInt && t.args[1].op == "int":
		return []linTerm{{t.args[0], t.args[1].num}}, bigZero
	}
	return []linTerm{{t, bigOne}}, bigZero
}

var bigZero, bigOne = big.NewInt(0), big.NewInt(1)

type linRec struct {
	ts []linTerm
	c  *big.Int
}

var linMemo = map[*Term]linRec{}

func linCombine(a, b *Term, kb *big.Int) ([]linTerm, *big.Int) {
	la, ca := linOf(a)
	lb, cb := linOf(b)
	out := make([]linTerm, 0, len(la)+len(lb))
	i, j := 0, 0
	for i < len(la) || j < len(lb) {
		switch {
		case j >= len(lb) || i < len(la) && la[i].atom.id < lb[j].atom.id:
			out = append(out, la[i])
			i++
		case i >= len(la) || lb[j].atom.id < la[i].atom.id:
			out = append(out, linTerm{lb[j].atom, new(big.Int).Mul(kb, lb[j].coef)})
			j++
		default:
			c := new(big.Int).Add(la[i].coef, new(big.Int).Mul(kb, lb[j].coef))
			if c.Sign() != 0 {
				out = append(out, linTerm{la[i].atom, c})
			}
			i++
			j++
		}
	}
	return out, new(big.Int).Add(ca, new(big.Int).Mul(kb, cb))
}

func linBuild(ts []linTerm, c *big.Int) *Term {
	if len(ts) == 0 {
		return BigT(c)
	}
	var args []*Term
	for _, l := range ts {
		if l.coef.Cmp(bigOne) == 0 {
			args = append(args, l.atom)
		} else {
			args = append(args, mk("*", "", SInt, l.atom, BigT(l.coef)))
		}
	}
	if c.Sign() != 0 {
		args = append(args, BigT(c))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := mk("+", "", SInt, args...)
	if _, ok := linMemo[t]; !ok {
		linMemo[t] = linRec{ts, c}
	}
	return t
}

// linDiff returns a-b when it is a constant.
func linDiff(a, b *Term) (*big.Int, bool) {
	if a == b {
		return bigZero, true
	}
	la, _ := linOf(a)
	lb, _ := linOf(b)
	if len(la) != len(lb) {
		return nil, false
	}
	ts, c := linCombine(a, b, big.NewInt(-1))
	if len(ts) == 0 {
		return c, true
	}
	return nil, false
}

// distinctness of terms known syntactically
func knownDistinct(a, b *Term) bool {
	if a.sort == SInt {
		if d, ok := linDiff(a, b); ok && d.Sign() != 0 {
			return true
		}
		// fresh allocation references (positive) versus constants <= 0
		return false
	}
	if a.op == "str" && b.op == "str" && a != b {
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort == SReal && b.op == "int" {
		b = ToReal(b)
	}
	if b.sort == SReal && a.op == "int" {
		a = ToReal(a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s %s / %s %s", a, a.sort, b, b.sort))
	}
	if knownDistinct(a, b) {
		return TFalse
	}
	if a.sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	}
	if a.op == "ite" && b.op == "int" {
		if a.args[1].op == "int" && a.args[2].op == "int" {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		if a.sort == SReal {
			b = ToReal(b)
		} else if b.sort == SReal {
			a = ToReal(a)
		} else {
			panic(fmt.Sprintf("Ite sort mismatch %s %s", a.sort, b.sort))
		}
	}
	if a.sort == SBool {
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, c, a, b)
}

func ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if a.op == "int" {
		return RealT(a.num.String())
	}
	return mk("to_real", "", SReal, a)
}

func Add(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("+", "", SReal, ToReal(a), ToReal(b))
	}
	return linBuild(linCombine(a, b, bigOne))
}

func Sub(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("-", "", SReal, ToReal(a), ToReal(b))
	}
	return linBuild(linCombine(a, b, big.NewInt(-1)))
}

func Mul(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("*", "", SReal, ToReal(a), ToReal(b))
	}
	if a.op == "int" && b.op == "int" {
		return BigT(new(big.Int).Mul(a.num, b.num))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.num.Sign() == 0 {
			return IntT(0)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		ts, c := linOf(a)
		out := make([]linTerm, len(ts))
		for i, l := range ts {
			out[i] = linTerm{l.atom, new(big.Int).Mul(l.coef, b.num)}
		}
		return linBuild(out, new(big.Int).Mul(c, b.num))
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// Div and Mod are SMT-LIB (Euclidean) div/mod.
func Div(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("/", "", SReal, ToReal(a), ToReal(b))
	}
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return BigT(q)
	}
	if b.op == "int" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("div", "", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return BigT(m)
	}
	return mk("mod", "", SInt, a, b)
}
func Neg(a *Term) *Term {
	if a.sort == SReal {
		return mk("-", "", SReal, RealT("0"), a)
	}
	return Sub(IntT(0), a)
}

func Lt(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("<", "", SBool, ToReal(a), ToReal(b))
	}
	if d, ok := linDiff(a, b); ok {
		return BoolT(d.Sign() < 0)
	}
	return mk("<", "", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return mk("<=", "", SBool, ToReal(a), ToReal(b))
	}
	if d, ok := linDiff(a, b); ok {
		return BoolT(d.Sign() <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func Select(a, i *Term) *Term {
	_, vs := arrSorts(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if knownDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", "", vs, a, i)
}
func Store(a, i, v *Term) *Term {
	ks, vs := arrSorts(a.sort)
	if ks != i.sort || vs != v.sort {
		panic(fmt.Sprintf("Store sorts: %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func Quant(op string, bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	args := append([]*Term{body}, bound...)
	name := ""
	for _, p := range pats {
		for _, q := range p {
			name += fmt.Sprintf("%d,", q.id)
		}
		name += ";"
	}
	t := mk(op, name, SBool, args...)
	t.bound = bound
	t.pats = pats
	// recompute freeness
	t.free = hasFree(body, map[*Term]bool{}, bound)
	return t
}
func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", bound, pats, body)
}
func Exists(bound []*Term, body *Term) *Term { return Quant("exists", bound, nil, body) }

func hasFree(t *Term, seen map[*Term]bool, bound []*Term) bool {
	if !t.free {
		return false
	}
	if t.op == "bvar" {
		for _, b := range bound {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.op == "forall" || t.op == "exists" {
		return hasFree(t.args[0], seen, append(append([]*Term{}, bound...), t.bound...))
	}
	for _, a := range t.args {
		if hasFree(a, seen, bound) {
			return true
		}
	}
	return false
}

// Subst replaces variables (by identity) in a term.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, e := range p {
					q = append(q, rec(e))
				}
				pats = append(pats, q)
			}
			r = Quant(t.op, t.bound, pats, rec(t.args[0]))
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Implies(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = Add(r, a)
		}
		return r
	case "-":
		return Sub(as[0], as[1])
	case "*":
		return Mul(as[0], as[1])
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	return mk(t.op, t.name, t.sort, as...)
}

func (t *Term) String() string { return pr(t, nil) }

func symq(s string) string {
	return "|" + symRepl.Replace(s) + "|"
}

var symRepl = strings.NewReplacer("|", "!", "\\", "/")

func pr(t *Term, names map[*Term]string) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.num.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.num).String() + ")"
		}
		return t.num.String()
	case "real":
		s := t.name
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if strings.Contains(s, "/") {
			p := strings.SplitN(s, "/", 2)
			s = "(/ " + p[0] + ".0 " + p[1] + ".0)"
		} else if !strings.Contains(s, ".") {
			s += ".0"
		}
		if neg {
			return "(- " + s + ")"
		}
		return s
	case "str":
		return fmt.Sprintf("strlit.%d", t.id)
	case "var", "bvar":
		return symq(t.name)
	case "uf":
		if len(t.args) == 0 {
			return symq(t.name)
		}
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(&sb, "(%s %s)", symq(b.name), b.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(pr(t.args[0], names))
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, q := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(pr(q, names))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case "uf":
		sb.WriteString(symq(t.name))
	case "constarr":
		if a := t.args[0]; a.op == "str" {
			return fmt.Sprintf("constarr.%d", t.id)
		}
		sb.WriteString("(as const " + string(t.sort) + ")")
	default:
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(pr(a, names))
	}
	sb.WriteByte(')')
	return sb.String()
}

// collect walks all subterms once.
func collect(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				rec(q)
			}
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// SMT renders a satisfiability query for the conjunction of ts.
func SMT(ts []*Term, getvals []*Term) string {
	ts = append(append([]*Term{}, ts...), axiomsFor(append(append([]*Term{}, ts...), getvals...))...)
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n(declare-sort Str 0)\n")
	decl := map[string]bool{}
	cnt := map[*Term]int{}
	var lits []*Term
	var tail []string
	collect(append(append([]*Term{}, ts...), getvals...), func(t *Term) {
		switch t.op {
		case "var":
			if !decl[t.name] {
				decl[t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symq(t.name), t.sort)
			}
		case "uf":
			k := "uf:" + t.name
			if !decl[k] {
				decl[k] = true
				var as []string
				for _, a := range t.args {
					as = append(as, string(a.sort))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symq(t.name), strings.Join(as, " "), t.sort)
			}
		case "str":
			lits = append(lits, t)
			fmt.Fprintf(&sb, "(declare-fun strlit.%d () Str)\n", t.id)
		case "constarr":
			if a := t.args[0]; a.op == "str" { // cvc5 wants a value in a constant array
				fmt.Fprintf(&sb, "(declare-fun constarr.%d () %s)\n", t.id, t.sort)
				ix, _ := arrSorts(t.sort)
				tail = append(tail, fmt.Sprintf("(assert (forall ((i %s)) (! (= (select constarr.%d i) strlit.%d) :pattern ((select constarr.%d i)))))\n", ix, t.id, a.id, t.id))
			}
		}
		for _, a := range t.args {
			cnt[a]++
		}
	})
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			fmt.Fprintf(&sb, " strlit.%d", l.id)
		}
		sb.WriteString("))\n")
	}
	names := map[*Term]string{}
	n := 0
	collect(ts, func(t *Term) {
		if cnt[t] > 1 && !t.free && len(t.args) > 0 {
			s := pr(t, names)
			if len(s) < 24 {
				return
			}
			n++
			nm := fmt.Sprintf("$d%d", n)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, t.sort, s)
			names[t] = nm
		}
	})
	for _, t := range ts {
		fmt.Fprintf(&sb, "(assert %s)\n", pr(t, names))
	}
	for _, l := range tail {
		sb.WriteString(l)
	}
	sb.WriteString("(check-sat)\n")
	if len(getvals) > 0 {
		sb.WriteString("(get-value (")
		for _, g := range getvals {
			sb.WriteString(" " + pr(g, names))
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
