// C03: wildcard patterns.
// wm: the characters A[i..n) can be obtained from the pattern B[j..m) by replacing each '*' (42) by some run of
// characters and each '?' (63) by one character; in simple mode a '?' with nothing left to stand for may stand for nothing.
rec wm(A: (Array Int Int), i: Int, n: Int, B: (Array Int Int), j: Int, m: Int, simple: Bool) Bool by max(0, n-i)+max(0, m-j) =
  ite(j >= m, i >= n,
   ite(sel(B, j) == 42, wm(A, i, n, B, j+1, m, simple) || (i < n && wm(A, i+1, n, B, j, m, simple)),
   ite(sel(B, j) == 63, ite(i < n, wm(A, i+1, n, B, j+1, m, simple), simple && wm(A, i, n, B, j+1, m, simple)),
     i < n && sel(A, i) == sel(B, j) && wm(A, i+1, n, B, j+1, m, simple))))
// the characters of a string, as Go's conversion to []rune gives them
uf runesof(Str) (Array Int Int)
uf runelen(Str) Int
axiom runes_star: runelen("*") == 1 && sel(runesof("*"), 0) == 42
axiom runes_empty: runelen("") == 0
axiom runes_nonempty: forallstr(s, trig(runelen(s)), runelen(s) >= 0 && (runelen(s) == 0) == (s == ""))
// '*' alone matches everything
lemma star_ind: induct(k, n-i, forallarr(A, forallarr(B, forall(i, forall(n, forall(j, forall(m, forallbool(s, trig(wm_lim(A, i, n, B, j, m, s)),
  implies(k >= 0 && n-i == k && m == j+1 && sel(B, j) == 42, wm(A, i, n, B, j, m, s) && implies(i == n, wm(A, i, n, B, j+1, m, s)))))))))))
lemma star: forallarr(A, forallarr(B, forall(i, forall(n, forall(j, forall(m, forallbool(s, trig(wm(A, i, n, B, j, m, s)),
  implies(i <= n && m == j+1 && sel(B, j) == 42, wm(A, i, n, B, j, m, s) && implies(i == n, wm(A, i, n, B, j+1, m, s))))))))))
define wmatch(s, p, simple) = wm(runesof(s), 0, runelen(s), runesof(p), 0, runelen(p), simple)

func common/wildcard.deepMatchRune
  property C03
  ensures match: result == wm(row(str), off(str), off(str)+len(str), row(pattern), off(pattern), off(pattern)+len(pattern), simple)
  decreases len(str)+len(pattern)
  loop 1
    invariant rows: row(str) == old(row(str)) && row(pattern) == old(row(pattern))
    invariant rest: wm(row(str), off(str), off(str)+len(str), row(pattern), off(pattern), off(pattern)+len(pattern), simple) == old(wm(row(str), off(str), off(str)+len(str), row(pattern), off(pattern), off(pattern)+len(pattern), simple))
    invariant less: len(str)+len(pattern) <= old(len(str)+len(pattern))
    decreases len(pattern)

func common/wildcard.Match
  property C03
  ensures match: result == wmatch(name, pattern, false)

func common/wildcard.MatchSimple
  property C03
  ensures match: result == wmatch(name, pattern, true)
