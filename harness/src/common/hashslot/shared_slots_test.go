package hashslot

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

type vRange struct {
	s, e  int
	owner string
}

// vTables calls f with every set of disjoint non-empty ranges over bounds 0..n, in increasing
// order, with every assignment of the owners.
func vTables(n int, owners []string, maxRanges int, f func([]vRange)) {
	var rec func(from int, acc []vRange)
	rec = func(from int, acc []vRange) {
		f(acc)
		if len(acc) == maxRanges {
			return
		}
		for s := from; s < n; s++ {
			for e := s + 1; e <= n; e++ {
				for _, o := range owners {
					rec(e, append(acc[:len(acc):len(acc)], vRange{s, e, o}))
				}
			}
		}
	}
	rec(0, nil)
}

// vRandTable is a random table of up to n ranges below max.
func vRandTable(r *rand.Rand, n, max, owners int) []vRange {
	k := r.Intn(n + 1)
	set := map[int]bool{}
	for i := 0; i < 2*k; i++ {
		set[r.Intn(max+1)] = true
	}
	var ps []int
	for p := range set {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	var out []vRange
	for i := 0; i+1 < len(ps); {
		out = append(out, vRange{ps[i], ps[i+1], fmt.Sprintf("S%d", r.Intn(owners))})
		if r.Intn(3) == 0 {
			i++ // the next range touches this one
		} else {
			i += 2
		}
	}
	return out
}

func vMap(rs []vRange) map[string][]string {
	m := map[string][]string{}
	for _, r := range rs {
		m[r.owner] = append(m[r.owner], fmt.Sprintf("%d-%d", r.s, r.e))
	}
	return m
}

func vStr(rs []vRange) string {
	var b []string
	for _, r := range rs {
		b = append(b, fmt.Sprintf("%s:%d-%d", r.owner, r.s, r.e))
	}
	return strings.Join(b, " ")
}

func vEdges(rs []vRange) EdgeList {
	el := make(EdgeList, 0, len(rs))
	for _, r := range rs {
		el = append(el, &Edge{r.s, r.e, r.owner})
	}
	return el
}

func vOf(el EdgeList) []vRange {
	var out []vRange
	for _, e := range el {
		if e == nil {
			out = append(out, vRange{-1, -1, "<nil>"})
			continue
		}
		out = append(out, vRange{e.Start, e.End, e.Value})
	}
	return out
}

func vSame(a, b []vRange) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vOwner(rs []vRange, slot int) (string, bool) {
	for _, r := range rs {
		if r.s <= slot && slot < r.e {
			return r.owner, true
		}
	}
	return "", false
}

// vCut is the pieces of the table in [s,e).
func vCut(rs []vRange, s, e int) (out []vRange, fully bool) {
	left := e - s
	for _, r := range rs {
		a, b := r.s, r.e
		if a < s {
			a = s
		}
		if b > e {
			b = e
		}
		if a < b {
			out = append(out, vRange{a, b, r.owner})
			left -= b - a
		}
	}
	return out, left == 0
}
