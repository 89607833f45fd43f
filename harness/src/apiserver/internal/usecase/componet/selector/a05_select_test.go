package selector

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"time"
)

func vServersN(n int) []string {
	var ds []string
	for i := 0; i < n; i++ {
		ds = append(ds, fmt.Sprintf("10.0.0.%d:8100", i))
	}
	return ds
}

func vLoads(r *rand.Rand, n int) {
	spaceUsedMap, weightedIOMap = map[string]int64{}, map[string]int32{}
	for _, s := range vServersN(n) {
		if r.Intn(4) > 0 {
			spaceUsedMap[s] = []int64{0, 1, 2, 5, math.MaxInt64, r.Int63()}[r.Intn(6)]
		}
		if r.Intn(4) > 0 {
			weightedIOMap[s] = []int32{0, 1, 2, 5, math.MaxInt32, r.Int31()}[r.Intn(6)]
		}
	}
	spaceUpdatedAt, weightedIOUpdatedAt = time.Now().Add(time.Hour), time.Now().Add(time.Hour)
}

func vLoad(sel Selector, ip string) float64 {
	switch sel.Strategy() {
	case SpaceFirst:
		if v, ok := spaceUsedMap[ip]; ok {
			return float64(v)
		}
		return math.Inf(1)
	case IOFirst:
		if v, ok := weightedIOMap[ip]; ok {
			return float64(v)
		}
		return math.Inf(1)
	}
	return 0
}

func vSorted(a []string) string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return fmt.Sprint(b)
}

func vAllSelectors() []Selector {
	return []Selector{NewSelector("random"), NewSelector("SPACE-first"), NewSelector("io-first")}
}

func TestVerifA05Pop(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(3000); i++ {
		for _, sel := range vAllSelectors() {
			m := 1 + r.Intn(7)
			vLoads(r, m)
			pre := r.Intn(3)
			all := append(make([]string, pre), vServersN(m)...)
			all = append(all, "after")
			r.Shuffle(m, func(a, b int) { all[pre+a], all[pre+b] = all[pre+b], all[pre+a] })
			ds := all[pre : pre+m : pre+m+r.Intn(2)]
			before := append([]string{}, ds...)
			desc := func() string {
				return fmt.Sprintf("%s from %v with loads %v %v", sel.Strategy(), before, spaceUsedMap, weightedIOMap)
			}
			vCase(t, fmt.Sprint(sel.Strategy(), m))
			n++
			check := func(what, ip string) {
				found := false
				for _, s := range before {
					if s == ip {
						found = true
					}
				}
				if !found {
					vFail(t, "invented", "%s: %s chose %q", desc(), what, ip)
				}
				min := math.Inf(1)
				for _, s := range before {
					min = math.Min(min, vLoad(sel, s))
				}
				lim := min
				if vLoad(sel, ip) > lim && !(math.IsInf(vLoad(sel, ip), 1) && (lim == math.MaxInt32 && sel.Strategy() == IOFirst || lim == float64(math.MaxInt64))) {
					vFail(t, "least", "%s: %s chose %q of load %v though %v is the least", desc(), what, ip, vLoad(sel, ip), min)
				}
			}
			vCatch(t, "panic", desc, func() {
				if r.Intn(2) == 0 {
					c := append([]string{}, ds...)
					check("Select", sel.Select(c))
				}
				rest, ip := sel.Pop(ds)
				check("Pop", ip)
				if vSorted(append(append([]string{}, rest...), ip)) != vSorted(before) {
					vFail(t, "rest", "%s: Pop gave %q and left %v", desc(), ip, rest)
				}
				if all[len(all)-1] != "after" || pre > 0 && all[pre-1] != "" {
					vFail(t, "outside", "%s: Pop wrote outside the list: %v", desc(), all)
				}
			})
		}
	}
	vDone(t, n)
}

func TestVerifA05Rotation(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(1500); i++ {
		for _, sel := range vAllSelectors() {
			m := 1 + r.Intn(6)
			vLoads(r, m)
			ds := vServersN(m)
			var lb *IPSelector
			if r.Intn(2) == 0 {
				lb = NewIPSelector(sel, append([]string{}, ds...))
			} else {
				lb = &IPSelector{Selector: sel, IPs: append([]string{}, ds...)}
			}
			k := r.Intn(4*m + 2)
			used := map[string]int{}
			desc := func() string { return fmt.Sprintf("%s: %d of %d servers", sel.Strategy(), k, m) }
			vCase(t, desc())
			n++
			vCatch(t, "panic", desc, func() {
				for j := 1; j <= k; j++ {
					used[lb.Select()]++
					lo, hi := math.MaxInt, 0
					for _, s := range ds {
						if used[s] < lo {
							lo = used[s]
						}
						if used[s] > hi {
							hi = used[s]
						}
					}
					if len(used) > m || hi > lo+1 {
						vFail(t, "rotation", "%s: after %d choices the servers were used %v", desc(), j, used)
						return
					}
				}
			})
		}
	}
	vDone(t, n)
}
