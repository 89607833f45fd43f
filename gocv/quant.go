package main

// Normal forms for quantified formulas written in contracts: nested universals are merged,
// conjunctions are split, and index variables are shifted so that array reads can serve as
// instantiation patterns without arithmetic in them. All are equivalences.

func normForall(bound []*Term, body *Term) *Term {
	if body.op == "alt" {
		body = body.args[0]
	}
	if body.op == "=>" && body.args[1].op == "alt" {
		body = Implies(body.args[0], body.args[1].args[0])
	}
	switch {
	case body.op == "forall" && patsCover(body.pats, bound):
		return Forall(append(append([]*Term{}, bound...), body.bound...), body.args[0], body.pats...)
	case body.op == "=>" && body.args[1].op == "forall" && patsCover(body.args[1].pats, bound):
		in := body.args[1]
		return Forall(append(append([]*Term{}, bound...), in.bound...), Implies(body.args[0], in.args[0]), in.pats...)
	case body.op == "forall" && len(body.pats) == 0:
		return normForall(append(append([]*Term{}, bound...), body.bound...), body.args[0])
	case body.op == "=>" && body.args[1].op == "forall" && len(body.args[1].pats) == 0:
		in := body.args[1]
		return normForall(append(append([]*Term{}, bound...), in.bound...), Implies(body.args[0], in.args[0]))
	case body.op == "=>" && body.args[1].op == "=>":
		return normForall(bound, Implies(And(body.args[0], body.args[1].args[0]), body.args[1].args[1]))
	case body.op == "and":
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, normForall(bound, a))
		}
		return And(cs...)
	case body.op == "=>" && body.args[1].op == "and":
		var cs []*Term
		for _, a := range body.args[1].args {
			cs = append(cs, normForall(bound, Implies(body.args[0], a)))
		}
		return And(cs...)
	}
	var bs []*Term
	for _, b := range bound {
		if occurs(body, b) {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	bss, bodies := variants(bs, body)
	var out []*Term
	for i, bs := range bss {
		body := bodies[i]
		if ms := marks(bs, body); ms != TTrue {
			body = Implies(ms, body)
		}
		out = append(out, Forall(bs, body))
	}
	return alt(out)
}

// patsCover: every pattern mentions every one of the variables, so it can serve for a merged quantifier.
func patsCover(pats [][]*Term, bound []*Term) bool {
	for _, ps := range pats {
		for _, b := range bound {
			in := false
			for _, p := range ps {
				in = in || occurs(p, b)
			}
			if !in {
				return false
			}
		}
	}
	return len(pats) > 0
}

func normExists(bound []*Term, body *Term) *Term {
	if body.op == "alt" {
		body = body.args[0]
	}
	if body.op == "exists" {
		return normExists(append(append([]*Term{}, bound...), body.bound...), body.args[0])
	}
	if body.op == "or" {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, normExists(bound, a))
		}
		return Or(cs...)
	}
	var bs []*Term
	for _, b := range bound {
		if occurs(body, b) {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	bss, bodies := variants(bs, body)
	var out []*Term
	for i, bs := range bss {
		out = append(out, Exists(bs, And(marks(bs, bodies[i]), bodies[i])))
	}
	return alt(out)
}

func occurs(t, b *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == b {
			return true
		}
		if !t.free || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// offsets lists the closed terms t such that the index variable b is used as b+t.
func offsets(b *Term, later []*Term, body *Term) []*Term {
	var order []*Term
	seen := map[*Term]bool{}
	collect([]*Term{body}, func(t *Term) {
		if t.op != "select" {
			return
		}
		idx := t.args[1]
		d := IntT(0)
		if idx != b {
			if idx.op != "+" {
				return
			}
			d = Sub(idx, b)
			if occurs(d, b) {
				return
			}
			for _, l := range later {
				if occurs(d, l) {
					return
				}
			}
		}
		if !seen[d] {
			seen[d] = true
			order = append(order, d)
		}
	})
	var closed []*Term
	for _, d := range order {
		if !d.free {
			closed = append(closed, d)
		}
	}
	if len(closed) > 0 {
		return closed
	}
	return order
}

// variants gives forms of a quantified body in which an index variable i used as i+t is
// replaced by q with i = q-t, so that array reads can serve as patterns; one form for each
// array the variable indexes. All are equivalent.
func variants(bound []*Term, body *Term) (bss [][]*Term, bodies []*Term) {
	for v, n := 0, 1; v < n && v < 3; v++ {
		out := append([]*Term{}, bound...)
		bd := body
		for k, b := range bound {
			if b.sort != SInt {
				continue
			}
			o := offsets(b, bound[k+1:], bd)
			if len(o) == 0 {
				continue
			}
			if len(o) > n {
				n = len(o)
			}
			d := o[min(v, len(o)-1)]
			if d == IntT(0) {
				continue
			}
			q := BVar("q", SInt)
			bd = Subst(bd, map[*Term]*Term{b: Sub(q, d)})
			out[k] = q
		}
		bss = append(bss, out)
		bodies = append(bodies, bd)
	}
	return
}

// alt groups equivalent formulas; elimAlt keeps all of them where that helps the solver and
// one where it does not.
func alt(ts []*Term) *Term {
	for _, t := range ts[1:] {
		if t.op != ts[0].op {
			return ts[0]
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("alt", "", SBool, ts...)
}

type polKey struct {
	t   *Term
	pol int
}

func elimAlt(t *Term) *Term { return elimPol(t, 1, map[polKey]*Term{}) }

func elimPol(t *Term, pol int, memo map[polKey]*Term) *Term {
	if t.sort != SBool || len(t.args) == 0 {
		return t
	}
	if r, ok := memo[polKey{t, pol}]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "alt":
		all := pol == 1 && t.args[0].op == "forall" || pol == -1 && t.args[0].op == "exists"
		if all {
			var cs []*Term
			for _, a := range t.args {
				cs = append(cs, elimPol(a, pol, memo))
			}
			if pol == 1 {
				r = And(cs...)
			} else {
				r = Or(cs...)
			}
		} else {
			r = elimPol(t.args[0], pol, memo)
		}
	case "not":
		r = Not(elimPol(t.args[0], -pol, memo))
	case "and", "or":
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, elimPol(a, pol, memo))
		}
		if t.op == "and" {
			r = And(cs...)
		} else {
			r = Or(cs...)
		}
	case "=>":
		r = Implies(elimPol(t.args[0], -pol, memo), elimPol(t.args[1], pol, memo))
	case "=":
		if t.args[0].sort != SBool {
			return t
		}
		if !hasAlt(t) {
			r = t
		} else {
			a, b := t.args[0], t.args[1]
			r = And(Implies(elimPol(a, -pol, memo), elimPol(b, pol, memo)), Implies(elimPol(b, -pol, memo), elimPol(a, pol, memo)))
		}
	case "ite":
		r = Ite(elimPol(t.args[0], 0, memo), elimPol(t.args[1], pol, memo), elimPol(t.args[2], pol, memo))
	case "forall", "exists":
		r = Quant(t.op, t.bound, t.pats, elimPol(t.args[0], pol, memo))
	default:
		if !hasAlt(t) {
			r = t
		} else {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = elimPol(a, 0, memo)
			}
			r = rebuild(t, as)
		}
	}
	memo[polKey{t, pol}] = r
	return r
}

func hasAlt(t *Term) bool {
	q := false
	collect([]*Term{t}, func(t *Term) {
		if t.op == "alt" {
			q = true
		}
	})
	return q
}

// marks guards variables that occur in no array read or function application with an
// uninterpreted predicate, so that instances are triggered by other marked values. A formula
// valid for every interpretation of the predicate is valid for the always-true one, which is
// the formula as written.
func marks(bound []*Term, body *Term) *Term {
	var cs []*Term
	for _, b := range bound {
		found := false
		collect([]*Term{body}, func(t *Term) {
			switch t.op {
			case "select":
				if t.args[1] == b {
					found = true
				}
			case "uf":
				for _, a := range t.args {
					if a == b {
						found = true
					}
				}
			}
		})
		if !found {
			cs = append(cs, markT(b))
		}
	}
	return And(cs...)
}

func markT(t *Term) *Term { return UF("mark."+sanitize(string(t.sort)), SBool, t) }

// splitGoal breaks a goal into sequents (extra hypotheses, goal) whose conjunction is
// equivalent to it: conjunctions, implications, equivalences and universal quantifiers.
type sequent struct {
	hyps []*Term
	goal *Term
}

func splitGoal(g *Term, hyps []*Term, depth int) []sequent {
	with := func(h ...*Term) []*Term { return append(append([]*Term{}, hyps...), h...) }
	if depth > 12 {
		return []sequent{{hyps, g}}
	}
	switch g.op {
	case "true":
		return nil
	case "alt":
		return splitGoal(g.args[0], hyps, depth+1)
	case "and":
		var out []sequent
		for _, a := range g.args {
			out = append(out, splitGoal(a, hyps, depth+1)...)
		}
		return out
	case "=>":
		return splitGoal(g.args[1], with(g.args[0]), depth+1)
	case "not":
		if a := g.args[0]; a.op == "or" {
			var out []sequent
			for _, d := range a.args {
				out = append(out, splitGoal(Not(d), hyps, depth+1)...)
			}
			return out
		}
		if a := g.args[0]; a.op == "alt" {
			return splitGoal(Not(a.args[0]), hyps, depth+1)
		}
		if a := g.args[0]; a.op == "exists" {
			m := map[*Term]*Term{}
			for _, b := range a.bound {
				m[b] = Fresh("sk", b.sort)
			}
			return splitGoal(Not(Subst(a.args[0], m)), hyps, depth+1)
		}
	case "=":
		if g.args[0].sort == SBool && quantified(g) {
			a, b := g.args[0], g.args[1]
			return append(splitGoal(b, with(a), depth+1), splitGoal(a, with(b), depth+1)...)
		}
	case "ite":
		if quantified(g) {
			return append(splitGoal(g.args[1], with(g.args[0]), depth+1), splitGoal(g.args[2], with(Not(g.args[0])), depth+1)...)
		}
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range g.bound {
			m[b] = Fresh("sk", b.sort)
		}
		return splitGoal(Subst(g.args[0], m), hyps, depth+1)
	}
	return []sequent{{hyps, g}}
}

func quantified(t *Term) bool {
	q := false
	collect([]*Term{t}, func(t *Term) {
		if t.op == "forall" || t.op == "exists" {
			q = true
		}
	})
	return q
}
