package hashslot

import (
	"testing"
)

func vTable(t *testing.T, rs []vRange) IEdgeProvider {
	m := vMap(rs)
	if len(m) == 0 {
		m["none"] = nil
	}
	p, err := WrapSlots(m)
	if err != nil {
		vFail(t, "table", "table %s is refused: %v", vStr(rs), err)
		return nil
	}
	return p
}

func vLookup(t *testing.T, rs []vRange, slot int, p IEdgeProvider, el EdgeList) {
	o, ok := vOwner(rs, slot)
	got, err := GetSlotIdentify(slot, p)
	if ok != (err == nil) || (ok && got != o) {
		vFail(t, "lookup", "slot %d in %s: got %q, error %v; the owner is %q (covered: %v)", slot, vStr(rs), got, err, o, ok)
	}
	if in := IsSlotInEdges(slot, el); in != ok {
		vFail(t, "member", "IsSlotInEdges(%d, %s) = %v", slot, vStr(rs), in)
	}
}

func vQuery(t *testing.T, rs []vRange, s, e int, p IEdgeProvider) {
	want, full := vCut(rs, s, e)
	got, fully := FindRangeCurrentData(s, e, p)
	if !vSame(vOf(got), want) || full != fully {
		vFail(t, "range", "FindRangeCurrentData(%d, %d) on %s = %s, %v; expected %s, %v", s, e, vStr(rs), vStr(vOf(got)), fully, vStr(want), full)
	}
}

func vValid(t *testing.T, rs []vRange, s, e int, o string, p IEdgeProvider) {
	want := false
	for _, r := range rs {
		want = want || (r.s <= s && e <= r.e && r.owner == o)
	}
	if got := IsValidEdge(&Edge{s, e, o}, p); got != want {
		vFail(t, "member", "IsValidEdge(%s:%d-%d) on %s = %v", o, s, e, vStr(rs), got)
	}
}

func vCopy(t *testing.T, rs []vRange, o string, p IEdgeProvider) {
	var want []vRange
	for _, r := range rs {
		if o == "" || r.owner == o {
			want = append(want, r)
		}
	}
	c := CopyOfEdges(o, p)
	if !vSame(vOf(c), want) {
		vFail(t, "copy", "CopyOfEdges(%q) of %s = %s", o, vStr(rs), vStr(vOf(c)))
	}
	for _, e := range c {
		e.Start, e.End, e.Value = -5, -4, "changed"
	}
	if !vSame(vOf(CopyOfEdges("", p)), rs) {
		vFail(t, "copy", "changing a copy of %s changes the table", vStr(rs))
	}
}

func TestVerifH02Small(t *testing.T) {
	n := 0
	vTables(6, []string{"A", "B"}, 3, func(rs []vRange) {
		rs = append([]vRange(nil), rs...)
		vCatch(t, "panic", func() string { return vStr(rs) }, func() {
			p := vTable(t, rs)
			if p == nil {
				return
			}
			vSig(t, vStr(rs))
			el := vEdges(rs)
			for s := -1; s <= 7; s++ {
				n++
				vLookup(t, rs, s, p, el)
				for e := s + 1; e <= 8; e++ {
					n++
					if s >= 0 {
						vQuery(t, rs, s, e, p)
						vValid(t, rs, s, e, "A", p)
						vValid(t, rs, s, e, "B", p)
					}
				}
			}
			vCopy(t, rs, "", p)
		})
		vCatch(t, "panic", func() string { return vStr(rs) }, func() {
			if p := vTable(t, rs); p != nil {
				vCopy(t, rs, "A", p)
			}
		})
	})
	vDone(t, n)
}

func TestVerifH02Random(t *testing.T) {
	r := vRand()
	n := vN(1500)
	for i := 0; i < n; i++ {
		max := 50
		if i%2 == 0 {
			max = 16384
		}
		rs := vRandTable(r, 1+r.Intn(40), max, 1+r.Intn(4))
		vSig(t, vStr(rs))
		vCatch(t, "panic", func() string { return vStr(rs) }, func() {
			p := vTable(t, rs)
			if p == nil {
				return
			}
			el := vEdges(rs)
			for _, x := range rs {
				for d := -1; d <= 1; d++ {
					vLookup(t, rs, x.s+d, p, el)
					vLookup(t, rs, x.e+d, p, el)
				}
			}
			for k := 0; k < 30; k++ {
				s, e := r.Intn(max+2), r.Intn(max+2)
				if len(rs) > 0 && k%3 == 0 {
					s = rs[r.Intn(len(rs))].s
				}
				if len(rs) > 0 && k%4 == 0 {
					e = rs[r.Intn(len(rs))].e
				}
				if s > e {
					s, e = e, s
				}
				if s == e {
					e++
				}
				vLookup(t, rs, s, p, el)
				vQuery(t, rs, s, e, p)
				vValid(t, rs, s, e, "S0", p)
			}
			vCopy(t, rs, []string{"", "S0", "S1", "absent"}[r.Intn(4)], p)
		})
	}
	vDone(t, n)
}

func TestVerifH02Keys(t *testing.T) {
	r := vRand()
	rs := []vRange{{0, 1, "A"}, {1, 4096, "B"}, {4096, 4097, "C"}, {4100, 9000, "A"}, {9000, 16000, "B"}, {16000, 16384, "D"}}
	p := vTable(t, rs)
	if p == nil {
		return
	}
	n := vN(20000)
	for i := 0; i < n; i++ {
		k := r.Intn(40)
		if i < 300 {
			k = i / 20
		}
		b := make([]byte, k, k+r.Intn(8))
		r.Read(b)
		s := string(b)
		slot := CalcBytesSlot(b)
		big := append(append([]byte("xx"), b...), 'y')
		if s2 := CalcBytesSlot(big[2 : 2+k]); s2 != slot || CalcBytesSlot([]byte(s)) != slot {
			vFail(t, "slot", "key %q has slot %d and slot %d", s, slot, s2)
		}
		if slot < 0 || slot > 16383 {
			vFail(t, "slot", "key %q has slot %d", s, slot)
		}
		o, ok := vOwner(rs, slot)
		g1, e1 := GetStringIdentify(s, p)
		g2, e2 := GetDataIdentify(b, p)
		if (e1 == nil) != ok || (e2 == nil) != ok || (ok && (g1 != o || g2 != o)) {
			vFail(t, "key", "key %q (slot %d): string lookup %q %v, bytes lookup %q %v, owner %q (covered %v)", s, slot, g1, e1, g2, e2, o, ok)
		}
		vSig(t, s)
		if string(b) != s {
			vFail(t, "slot", "computing the slot of %q changes the key", s)
		}
	}
	vDone(t, n)
}

