package hashslot

import (
	"fmt"
	"testing"
)

func vSet(rs []vRange, max int) []bool {
	b := make([]bool, max+2)
	for _, r := range rs {
		for s := r.s; s < r.e && s < len(b); s++ {
			if s >= 0 {
				b[s] = true
			}
		}
	}
	return b
}

func vTabular(rs []vRange) bool {
	for i, r := range rs {
		if r.s >= r.e || (i > 0 && rs[i-1].e > r.s) {
			return false
		}
	}
	return true
}

func vMoves(t *testing.T, a, b []vRange, max int, spare int) {
	desc := func() string { return vStr(a) + " | " + vStr(b) }
	sa, sb := vSet(a, max), vSet(b, max)
	mk := func(rs []vRange) EdgeList {
		el := make(EdgeList, 0, len(rs)+spare)
		return append(el, vEdges(rs)...)
	}
	vCatch(t, "panic", desc, func() {
		got := vOf(CombineEdges(mk(a), mk(b)))
		sg := vSet(got, max)
		for s := range sg {
			if sg[s] != (sa[s] || sb[s]) {
				vFail(t, "union", "CombineEdges(%s | %s) = %s: slot %d", vStr(a), vStr(b), vStr(got), s)
				break
			}
		}
		if !vTabular(got) {
			vFail(t, "union", "CombineEdges(%s | %s) = %s is not sorted and disjoint", vStr(a), vStr(b), vStr(got))
		}
	})
	vCatch(t, "panic", desc, func() {
		ea, eb := mk(a), mk(b)
		got := vOf(RemoveEdges(ea, eb))
		sg := vSet(got, max)
		for s := range sg {
			if sg[s] != (sa[s] && !sb[s]) {
				vFail(t, "difference", "RemoveEdges(%s | %s) = %s: slot %d", vStr(a), vStr(b), vStr(got), s)
				break
			}
		}
		if !vTabular(got) {
			vFail(t, "difference", "RemoveEdges(%s | %s) = %s is not sorted and disjoint", vStr(a), vStr(b), vStr(got))
		}
		if !vSame(vOf(ea), a) || !vSame(vOf(eb), b) {
			vFail(t, "inputs", "RemoveEdges(%s | %s) leaves its inputs as %s | %s", vStr(a), vStr(b), vStr(vOf(ea)), vStr(vOf(eb)))
		}
		for _, g := range got {
			found := false
			for _, x := range a {
				found = found || (x.s <= g.s && g.e <= x.e && x.owner == g.owner)
			}
			if !found {
				vFail(t, "difference", "RemoveEdges(%s | %s) = %s: owner of %d-%d", vStr(a), vStr(b), vStr(got), g.s, g.e)
			}
		}
	})
}

func TestVerifH03Small(t *testing.T) {
	var all [][]vRange
	vTables(6, []string{""}, 3, func(rs []vRange) { all = append(all, append([]vRange(nil), rs...)) })
	n := 0
	for _, a := range all {
		for _, b := range all {
			n++
			vSig(t, vStr(a)+"|"+vStr(b))
			vMoves(t, a, b, 8, n%5)
		}
	}
	vDone(t, n)
}

func TestVerifH03Random(t *testing.T) {
	r := vRand()
	n := vN(4000)
	for i := 0; i < n; i++ {
		max := 40
		if i%4 == 0 {
			max = 16384
		}
		a, b := vRandTable(r, 1+r.Intn(14), max, 1), vRandTable(r, 1+r.Intn(14), max, 1)
		vSig(t, vStr(a)+"|"+vStr(b))
		vMoves(t, a, b, max, r.Intn(30))
		// a move there and back
		vCatch(t, "panic", func() string { return fmt.Sprint(a, b) }, func() {
			rest := RemoveEdges(vEdges(a), vEdges(b))
			back := CombineEdges(RemoveEdges(vEdges(a), rest), rest)
			x, y := vSet(vOf(back), max), vSet(a, max)
			for s := range x {
				if x[s] != y[s] {
					vFail(t, "difference", "%s given away as %s and taken back is %s", vStr(a), vStr(b), vStr(vOf(back)))
					break
				}
			}
		})
	}
	vDone(t, n)
}
