package hashslot

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
)

var vForm = regexp.MustCompile(`^[+]?[0-9]+-[+]?[0-9]+$`)

// vDeclared reads one declared range independently of the code under test.
func vDeclared(s string) (vRange, bool) {
	if !vForm.MatchString(s) {
		return vRange{}, false
	}
	i := strings.IndexByte(s, '-')
	a, e1 := strconv.Atoi(s[:i])
	b, e2 := strconv.Atoi(s[i+1:])
	if e1 != nil || e2 != nil || a >= b {
		return vRange{}, false
	}
	return vRange{a, b, ""}, true
}

// vExpect is the table a declaration stands for, or false if it must be refused.
func vExpect(m map[string][]string) ([]vRange, bool) {
	var rs []vRange
	for o, ss := range m {
		for _, s := range ss {
			r, ok := vDeclared(s)
			if !ok {
				return nil, false
			}
			r.owner = o
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].s < rs[j].s })
	for i := 1; i < len(rs); i++ {
		if rs[i-1].e > rs[i].s {
			return nil, false
		}
	}
	return rs, true
}

func vCheckDecl(t *testing.T, m map[string][]string) {
	vCatch(t, "panic", func() string { return fmt.Sprint(m) }, func() {
		want, ok := vExpect(m)
		p, err := WrapSlots(m)
		if len(m) == 0 {
			if err == nil {
				vFail(t, "accept", "WrapSlots accepts the empty declaration")
			}
			return
		}
		if ok != (err == nil) {
			vFail(t, "accept", "WrapSlots(%q): error %v, but the declaration is valid: %v", m, err, ok)
			return
		}
		if err == nil {
			if got := vOf(CopyOfEdges("", p)); !vSame(got, want) {
				vFail(t, "table", "WrapSlots(%q) = %s, declared %s", m, vStr(got), vStr(want))
			}
		}
	})
	if len(m) != 1 {
		return
	}
	for o, ss := range m {
		vCatch(t, "panic", func() string { return fmt.Sprint(m) }, func() {
			want, ok := vExpect(m)
			el, err := WrapSlotsToEdges(ss, o)
			if ok != (err == nil) {
				vFail(t, "accept", "WrapSlotsToEdges(%q): error %v, but the declaration is valid: %v", ss, err, ok)
				return
			}
			if err != nil {
				return
			}
			if got := vOf(el); !vSame(got, want) {
				vFail(t, "table", "WrapSlotsToEdges(%q) = %s, declared %s", ss, vStr(got), vStr(want))
				return
			}
			txt := el.Strings()
			back, err := WrapSlotsToEdges(txt, o)
			if err != nil || !vSame(vOf(back), want) {
				vFail(t, "text", "table %s renders as %q, which reads back as %s (error %v)", vStr(want), txt, vStr(vOf(back)), err)
			}
		})
	}
}

func TestVerifH01Small(t *testing.T) {
	var decl []string
	for a := 0; a <= 4; a++ {
		for b := 0; b <= 4; b++ {
			decl = append(decl, fmt.Sprintf("%d-%d", a, b))
		}
	}
	decl = append(decl, "-1-3", "1--3", "1", "", "-", "1-", "-3", "a-3", "1-b", "1-2-3", " 1-2", "1 -2", "1-2 ", "0x1-2", "1.0-3", "+1-3", "01-3",
		"99999999999999999999-3", "1-99999999999999999999", "1_0-20", "1–3", "0-0", "5-0")
	n := 0
	run := func(m map[string][]string) {
		n++
		vSig(t, fmt.Sprintf("%q", m))
		vCheckDecl(t, m)
	}
	run(map[string][]string{})
	run(nil)
	run(map[string][]string{"A": nil})
	for _, a := range decl {
		run(map[string][]string{"A": {a}})
		for _, b := range decl {
			run(map[string][]string{"A": {a, b}})
			run(map[string][]string{"A": {a}, "B": {b}})
			run(map[string][]string{"A": {a}, "B": {b}, "C": {}})
		}
	}
	for i := 0; i < 25; i++ {
		for j := 0; j < 25; j++ {
			for k := 0; k < 25; k++ {
				run(map[string][]string{"A": {decl[i], decl[j]}, "B": {decl[k]}})
				run(map[string][]string{"A": {decl[i], decl[j], decl[k]}})
			}
		}
	}
	vDone(t, n)
}

func TestVerifH01Random(t *testing.T) {
	r := vRand()
	n := vN(4000)
	for i := 0; i < n; i++ {
		max := 60
		if i%2 == 0 {
			max = 16384
		}
		rs := vRandTable(r, 1+r.Intn(30), max, 1+r.Intn(4))
		switch {
		case len(rs) > 0 && i%3 == 0: // shift one bound
			k := r.Intn(len(rs))
			d := r.Intn(3) - 1
			if r.Intn(2) == 0 {
				rs[k].s += d
			} else {
				rs[k].e += d
			}
		case len(rs) > 0 && i%7 == 0: // declare one twice, perhaps for another owner
			rs = append(rs, rs[r.Intn(len(rs))])
			rs[len(rs)-1].owner = fmt.Sprintf("S%d", r.Intn(4))
		}
		r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		m := vMap(rs)
		if i%11 == 0 && len(rs) > 0 {
			o := rs[0].owner
			m[o] = append(m[o], []string{"x", "3", "3-", "-1-2", "7-7", "9-4", "1-2-3"}[r.Intn(7)])
		}
		vSig(t, fmt.Sprint(m))
		vCheckDecl(t, m)
	}
	vDone(t, n)
}

