package wildcard

import (
	"fmt"
	"strings"
	"testing"
)

// vWant computes the answer by dynamic programming over the characters of both strings.
func vWant(pattern, name string, simple bool) bool {
	p, s := []rune(pattern), []rune(name)
	ok := make([][]bool, len(s)+1)
	for i := range ok {
		ok[i] = make([]bool, len(p)+1)
	}
	for j := len(p); j >= 0; j-- {
		for i := len(s); i >= 0; i-- {
			switch {
			case j == len(p):
				ok[i][j] = i == len(s)
			case p[j] == '*':
				ok[i][j] = ok[i][j+1] || i < len(s) && ok[i+1][j]
			case p[j] == '?':
				ok[i][j] = i < len(s) && ok[i+1][j+1] || i == len(s) && simple && ok[i][j+1]
			default:
				ok[i][j] = i < len(s) && s[i] == p[j] && ok[i+1][j+1]
			}
		}
	}
	return ok[0][0]
}

func vMatch(t *testing.T, p, s string) {
	vCatch(t, "panic", func() string { return fmt.Sprintf("pattern %q text %q", p, s) }, func() {
		if g, w := Match(p, s), vWant(p, s, false); g != w {
			vFail(t, "match", "Match(%q, %q) = %v", p, s, g)
		}
		if g, w := MatchSimple(p, s), vWant(p, s, true); g != w {
			vFail(t, "simple", "MatchSimple(%q, %q) = %v", p, s, g)
		}
	})
}

func TestVerifC03(t *testing.T) {
	var words func(al []string, n int) []string
	words = func(al []string, n int) []string {
		if n == 0 {
			return []string{""}
		}
		out := []string{""}
		for _, a := range al {
			for _, w := range words(al, n-1) {
				out = append(out, a+w)
			}
		}
		seen := map[string]bool{}
		var u []string
		for _, w := range out {
			if !seen[w] {
				seen[w] = true
				u = append(u, w)
			}
		}
		return u
	}
	np, ns := 5, 5
	if vThorough() {
		np, ns = 6, 7
	}
	ps := words([]string{"a", "b", "*", "?"}, np)
	ss := words([]string{"a", "b"}, ns)
	n := 0
	for _, p := range ps {
		vSig(t, p)
		for _, s := range ss {
			n++
			vMatch(t, p, s)
		}
	}
	for _, p := range words([]string{"é", "*", "?", "\xff", "/"}, 3) {
		for _, s := range words([]string{"é", "*", "?", "\xff", "/", "世"}, 3) {
			n++
			vMatch(t, p, s)
		}
	}
	r := vRand()
	al := "aab?*?*.z/"
	for k := 0; k < vN(20000); k++ {
		var p, s strings.Builder
		for i := r.Intn(12); i > 0; i-- {
			p.WriteByte(al[r.Intn(len(al))])
		}
		if r.Intn(3) > 0 { // a text made from the pattern, then perhaps disturbed
			for _, c := range p.String() {
				switch c {
				case '*':
					for i := r.Intn(4); i > 0; i-- {
						s.WriteByte(al[r.Intn(len(al))])
					}
				case '?':
					s.WriteByte(al[r.Intn(len(al))])
				default:
					s.WriteRune(c)
				}
			}
		} else {
			for i := r.Intn(14); i > 0; i-- {
				s.WriteByte(al[r.Intn(len(al))])
			}
		}
		w := s.String()
		if len(w) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(w))
			w = w[:i] + w[i+r.Intn(2):]
		}
		n++
		vMatch(t, p.String(), w)
	}
	long := strings.Repeat("a", 3000)
	for _, p := range []string{"*", "a*", "*a", long, long + "?", long + "b", "?" + long, "*b", "*a?"} {
		n++
		vMatch(t, p, long)
	}
	vDone(t, n)
}
