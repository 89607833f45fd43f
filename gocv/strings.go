package main

// Strings and byte sequences: an uninterpreted sort Str with length, indexing,
// concatenation and substring. Axioms are added to a query only when the functions occur.

func slen(s *Term) *Term {
	if v, ok := strLitVal(s); ok {
		return IntT(int64(len(v)))
	}
	switch s.op {
	case "uf":
		switch s.name {
		case "sconcat":
			return Add(slen(s.args[0]), slen(s.args[1]))
		}
	}
	return UF("slen", SInt, s)
}

func sat(s, i *Term) *Term {
	if v, ok := strLitVal(s); ok && i.op == "int" && i.num.IsInt64() {
		if n := i.num.Int64(); n >= 0 && n < int64(len(v)) {
			return IntT(int64(v[n]))
		}
	}
	return UF("sat", SInt, s, i)
}

func sconcat(a, b *Term) *Term {
	va, oka := strLitVal(a)
	vb, okb := strLitVal(b)
	if oka && va == "" {
		return b
	}
	if okb && vb == "" {
		return a
	}
	if oka && okb {
		return StrLit(va + vb)
	}
	if a.op == "uf" && a.name == "sconcat" { // right-associate
		return sconcat(a.args[0], sconcat(a.args[1], b))
	}
	if b.op == "uf" && b.name == "sconcat" && oka {
		if v0, ok := strLitVal(b.args[0]); ok {
			return sconcat(StrLit(va+v0), b.args[1])
		}
	}
	return UF("sconcat", SStr, a, b)
}

func ssub(s, i, j *Term) *Term {
	if v, ok := strLitVal(s); ok && i.op == "int" && j.op == "int" {
		a, b := i.num.Int64(), j.num.Int64()
		if 0 <= a && a <= b && b <= int64(len(v)) {
			return StrLit(v[a:b])
		}
	}
	if i == IntT(0) && j == slen(s) {
		return s
	}
	return UF("ssub", SStr, s, i, j)
}

func slt(a, b *Term) *Term {
	va, oka := strLitVal(a)
	vb, okb := strLitVal(b)
	if oka && okb {
		return BoolT(va < vb)
	}
	if a == b {
		return TFalse
	}
	return UF("slt", SBool, a, b)
}

func bstr(row, off, n *Term) *Term { return UF("bstr", SStr, row, off, n) }

// axiomsFor returns the axioms about symbols occurring in the terms.
func axiomsFor(ts []*Term) []*Term {
	used := map[string]bool{}
	var lits, held []*Term
	ground := map[*Term]bool{}
	scan := func(ts []*Term) {
		collect(ts, func(t *Term) {
			g := t.op != "bvar"
			for _, a := range t.args {
				g = g && ground[a]
			}
			ground[t] = g
			if g && t.sort == SStr && (t.op == "var" || t.op == "select") {
				held = append(held, t)
			}
			if t.op == "uf" {
				used[t.name] = true
			}
			if t.op == "str" {
				lits = append(lits, t)
			}
		})
	}
	scan(ts)
	var out []*Term
	s, u := BVar("s", SStr), BVar("u", SStr)
	i, j, k, l := BVar("i", SInt), BVar("j", SInt), BVar("k", SInt), BVar("l", SInt)
	if used["bstr"] {
		row := BVar("row", ArrS(SInt, SInt))
		b := bstr(row, i, j)
		used["slen"], used["sat"] = true, true
		out = append(out, Forall([]*Term{row, i, j}, Implies(Le(IntT(0), j), Eq(UF("slen", SInt, b), j)), []*Term{b}))
		out = append(out, Forall([]*Term{row, i, j, k}, Implies(And(Le(IntT(0), k), Lt(k, j), Le(IntT(0), Select(row, Add(i, k))), Le(Select(row, Add(i, k)), IntT(255))), Eq(UF("sat", SInt, b, k), Select(row, Add(i, k)))), []*Term{UF("sat", SInt, b, k)}))
	}
	if used["strrow"] {
		used["sat"] = true
		r := UF("strrow", ArrS(SInt, SInt), s)
		out = append(out, Forall([]*Term{s, i}, Eq(Select(r, i), UF("sat", SInt, s, i)), []*Term{Select(r, i)}))
		if used["bstr"] {
			used["ssub"] = true
			b := bstr(r, i, j)
			out = append(out, Forall([]*Term{s, i, j}, Implies(And(Le(IntT(0), i), Le(IntT(0), j), Le(Add(i, j), UF("slen", SInt, s))),
				Eq(b, UF("ssub", SStr, s, i, Add(i, j)))), []*Term{b}))
		}
	}
	if used["sconcat"] || used["ssub"] {
		used["slen"] = true
	}
	if used["slen"] {
		n := UF("slen", SInt, s)
		out = append(out, Forall([]*Term{s}, And(Le(IntT(0), n), Implies(Eq(n, IntT(0)), Eq(s, StrLit("")))), []*Term{n}))
		// strings held by the program fit in memory (not all strings: the sort has strings of every length)
		for _, t := range held {
			out = append(out, Le(UF("slen", SInt, t), BigT(maxLen)))
		}
		hasEmpty := false
		for _, t := range lits {
			v, _ := strLitVal(t)
			if v == "" {
				hasEmpty = true
			}
			out = append(out, Eq(mk("uf", "slen", SInt, t), IntT(int64(len(v)))))
		}
		if !hasEmpty {
			out = append(out, Eq(mk("uf", "slen", SInt, StrLit("")), IntT(0)))
		}
	}
	if used["sat"] {
		c := UF("sat", SInt, s, i)
		out = append(out, Forall([]*Term{s, i}, And(Le(IntT(0), c), Le(c, IntT(255))), []*Term{c}))
		for _, t := range lits {
			v, _ := strLitVal(t)
			if len(v) <= 64 {
				for n := 0; n < len(v); n++ {
					out = append(out, Eq(mk("uf", "sat", SInt, t, IntT(int64(n))), IntT(int64(v[n]))))
				}
			}
		}
	}
	if used["sconcat"] {
		c := UF("sconcat", SStr, s, u)
		ls, lu := UF("slen", SInt, s), UF("slen", SInt, u)
		out = append(out, Forall([]*Term{s, u}, Eq(UF("slen", SInt, c), Add(ls, lu)), []*Term{c}))
		out = append(out, Forall([]*Term{s, u}, And(Implies(Eq(ls, IntT(0)), Eq(c, u)), Implies(Eq(lu, IntT(0)), Eq(c, s))), []*Term{c}))
		if used["sat"] {
			at := UF("sat", SInt, c, i)
			out = append(out, Forall([]*Term{s, u, i}, Implies(Le(IntT(0), i), Eq(at, Ite(Lt(i, ls), UF("sat", SInt, s, i), UF("sat", SInt, u, Sub(i, ls))))), []*Term{at}))
		}
		// cancellation
		out = append(out, Forall([]*Term{s, u}, Eq(UF("stail", SStr, c, ls), u), []*Term{c}))
		out = append(out, Forall([]*Term{s, u}, Eq(UF("shead", SStr, c, ls), s), []*Term{c}))
		v := BVar("v", SStr)
		cc := UF("sconcat", SStr, c, v)
		out = append(out, Forall([]*Term{s, u, v}, Eq(cc, UF("sconcat", SStr, s, UF("sconcat", SStr, u, v))), []*Term{cc}))
		if used["ssub"] {
			b := UF("ssub", SStr, c, i, j)
			out = append(out, Forall([]*Term{s, u, i, j}, And(
				Implies(And(Le(IntT(0), i), Le(i, j), Le(j, ls)), Eq(b, UF("ssub", SStr, s, i, j))),
				Implies(And(Le(ls, i), Le(i, j), Le(j, Add(ls, lu))), Eq(b, UF("ssub", SStr, u, Sub(i, ls), Sub(j, ls))))), []*Term{b}))
		}
	}
	if used["ssub"] {
		b := UF("ssub", SStr, s, i, j)
		ls := UF("slen", SInt, s)
		ok := And(Le(IntT(0), i), Le(i, j), Le(j, ls))
		out = append(out, Forall([]*Term{s, i, j}, Implies(ok, Eq(UF("slen", SInt, b), Sub(j, i))), []*Term{b}))
		out = append(out, Forall([]*Term{s, i, j}, Implies(And(Eq(i, IntT(0)), Eq(j, ls)), Eq(b, s)), []*Term{b}))
		if used["sat"] {
			at := UF("sat", SInt, b, k)
			out = append(out, Forall([]*Term{s, i, j, k}, Implies(And(ok, Le(IntT(0), k), Lt(k, Sub(j, i))), Eq(at, UF("sat", SInt, s, Add(i, k)))), []*Term{at}))
		}
		bb := UF("ssub", SStr, b, k, l)
		out = append(out, Forall([]*Term{s, i, j, k, l}, Implies(And(ok, Le(IntT(0), k), Le(k, l), Le(l, Sub(j, i))),
			Eq(bb, UF("ssub", SStr, s, Add(i, k), Add(i, l)))), []*Term{bb}))
	}
	if used["slt"] {
		a, b, c := BVar("a", SStr), BVar("b", SStr), BVar("c", SStr)
		ab, bc, ba := UF("slt", SBool, a, b), UF("slt", SBool, b, c), UF("slt", SBool, b, a)
		out = append(out, Forall([]*Term{a, b}, Not(And(ab, ba)), []*Term{ab, ba}))
		out = append(out, Forall([]*Term{a}, Not(UF("slt", SBool, a, a)), []*Term{UF("slt", SBool, a, a)}))
		out = append(out, Forall([]*Term{a, b}, Or(ab, ba, Eq(a, b)), []*Term{ab}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(And(ab, bc), UF("slt", SBool, a, c)), []*Term{ab, bc}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(And(Not(ab), Not(bc)), Not(UF("slt", SBool, a, c))), []*Term{ab, bc}))
	}
	if used["itoa"] || used["atoi"] {
		n := UF("itoa", SStr, i)
		out = append(out, Forall([]*Term{i}, And(Eq(UF("atoi", SInt, n), i), UF("isnum", SBool, n)), []*Term{n}))
	}
	return out
}
