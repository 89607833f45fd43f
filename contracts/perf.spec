// T01: sums and averages of what was recorded.

// what the inner store returned: the kind, action and cost of each record
ghost got_n: Int
ghost got_kind: (Array Int Str)
ghost got_act: (Array Int Str)
ghost got_cost: (Array Int Int)
// the sum of the costs, and the number, of the first n records of kind k and action a
rec psum(K: (Array Int Str), A: (Array Int Str), C: (Array Int Int), n: Int, k: Str, a: Str) Int by max(0, n) =
  ite(n <= 0, 0, psum(K, A, C, n-1, k, a) + ite(sel(K, n-1) == k && sel(A, n-1) == a, sel(C, n-1), 0))
rec pcnt(K: (Array Int Str), A: (Array Int Str), n: Int, k: Str, a: Str) Int by max(0, n) =
  ite(n <= 0, 0, pcnt(K, A, n-1, k, a) + ite(sel(K, n-1) == k && sel(A, n-1) == a, 1, 0))
lemma pcnt_range_ind: induct(j, n, forallstrarr(K, forallstrarr(A, forall(n, forallstr(k, forallstr(a, trig(pcnt_lim(K, A, n, k, a)),
  implies(j >= 0 && n == j, 0 <= pcnt(K, A, n, k, a) && pcnt(K, A, n, k, a) <= n)))))))
lemma pcnt_member_ind: induct(j, n, forallstrarr(K, forallstrarr(A, forall(n, forall(i, trig(pcnt_lim(K, A, n, sel(K, i), sel(A, i))),
  implies(j >= 0 && n == j && 0 <= i && i < n, pcnt(K, A, n, sel(K, i), sel(A, i)) >= 1))))))
lemma pcnt_range: forallstrarr(K, forallstrarr(A, forall(n, forallstr(k, forallstr(a, trig(pcnt(K, A, n, k, a)), 0 <= pcnt(K, A, n, k, a) && implies(n >= 0, pcnt(K, A, n, k, a) <= n))))))
lemma pcnt_member: forallstrarr(K, forallstrarr(A, forall(n, forall(i, trig(pcnt(K, A, n, sel(K, i), sel(A, i))),
  implies(0 <= i && i < n, pcnt(K, A, n, sel(K, i), sel(A, i)) >= 1)))))
// division of Go, towards zero
define quotient(a, b) = ite(0 <= a, a / b, 0 - ((0-a) / b))
define costsum(n, k, a) = psum(got_kind, got_act, got_cost, n, k, a)
define costnum(n, k, a) = pcnt(got_kind, got_act, n, k, a)

extern (common/performance.Store).Get
  params kind action
  modifies got_n, got_kind, got_act, got_cost
  ensures size: implies(result1 == nil, len(result0) == got_n && got_n <= 1000000000000)
  ensures items: implies(result1 == nil, forall(i, 0, got_n, result0[i] != nil && result0[i].KindOf == sel(got_kind, i) && result0[i].Action == sel(got_act, i) && result0[i].Cost == sel(got_cost, i)))
  ensures sums_fit: forall(n, forallstr(k, forallstr(a, trig(costsum(n, k, a)), 0-1000000000000000000 <= costsum(n, k, a) && costsum(n, k, a) <= 1000000000000000000)))

func (common/performance.avgSumStore).Sum
  property T01
  requires inner: as.Store != nil
  modifies got_n, got_kind, got_act, got_cost
  ensures sums: implies(result1 == nil, forall(i, 0, len(result0), result0[i].Cost == costsum(got_n, result0[i].KindOf, result0[i].Action) && costnum(got_n, result0[i].KindOf, result0[i].Action) >= 1))
  ensures once: implies(result1 == nil, forall(i, 0, len(result0), forall(j, 0, i, result0[i].KindOf != result0[j].KindOf || result0[i].Action != result0[j].Action)))
  ensures each: implies(result1 == nil, forall(m, 0, got_n, trig(sel(got_kind, m)), exists(i, 0, len(result0), result0[i].KindOf == sel(got_kind, m) && result0[i].Action == sel(got_act, m))))
  loop 1
    invariant sums: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), trig(costsum(iter(), k, a)), totalMap[mapkey(totalMap, k, a)] == costsum(iter(), k, a)))
    invariant next: costsum(iter()+1, sel(got_kind, iter()), sel(got_act, iter())) <= 1000000000000000000 && costnum(iter()+1, sel(got_kind, iter()), sel(got_act, iter())) >= 0
    invariant keys: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), has(totalMap, mapkey(totalMap, k, a)) == (costnum(iter(), k, a) >= 1)))
  loop 2
    invariant keyed: forall(m, 0, got_n, trig(sel(got_kind, m)), mark(costnum(got_n, sel(got_kind, m), sel(got_act, m))) && has(totalMap, mapkey(totalMap, sel(got_kind, m), sel(got_act, m))))
    invariant buf: fresh(res) && (ref(res) == atentry(ref(res)) || freshin(res))
    invariant sums: forall(i, 0, len(res), res[i] != nil && freshin(res[i]) && has(visited(), mapkey(totalMap, res[i].KindOf, res[i].Action)) && res[i].Cost == totalMap[mapkey(totalMap, res[i].KindOf, res[i].Action)])
    invariant once: forall(i, 0, len(res), forall(j, 0, i, res[i] != res[j] && (res[i].KindOf != res[j].KindOf || res[i].Action != res[j].Action)))
    invariant each: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), implies(has(visited(), mapkey(totalMap, k, a)), exists(i, 0, len(res), res[i].KindOf == k && res[i].Action == a))))

func (common/performance.avgSumStore).Average
  property T01
  requires inner: as.Store != nil
  modifies got_n, got_kind, got_act, got_cost
  ensures sums: implies(result1 == nil, forall(i, 0, len(result0), result0[i].Cost == quotient(costsum(got_n, result0[i].KindOf, result0[i].Action), costnum(got_n, result0[i].KindOf, result0[i].Action)) && costnum(got_n, result0[i].KindOf, result0[i].Action) >= 1))
  ensures once: implies(result1 == nil, forall(i, 0, len(result0), forall(j, 0, i, result0[i].KindOf != result0[j].KindOf || result0[i].Action != result0[j].Action)))
  ensures each: implies(result1 == nil, forall(m, 0, got_n, trig(sel(got_kind, m)), exists(i, 0, len(result0), result0[i].KindOf == sel(got_kind, m) && result0[i].Action == sel(got_act, m))))
  loop 1
    invariant sums: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), trig(costsum(iter(), k, a)), totalMap[mapkey(totalMap, k, a)] == costsum(iter(), k, a)))
    invariant counts: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), trig(costnum(iter(), k, a)), sizeMap[mapkey(totalMap, k, a)] == costnum(iter(), k, a)))
    invariant next: costsum(iter()+1, sel(got_kind, iter()), sel(got_act, iter())) <= 1000000000000000000 && costnum(iter()+1, sel(got_kind, iter()), sel(got_act, iter())) >= 0
    invariant keys: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), has(totalMap, mapkey(totalMap, k, a)) == (costnum(iter(), k, a) >= 1)))
  loop 2
    invariant keyed: forall(m, 0, got_n, trig(sel(got_kind, m)), mark(costnum(got_n, sel(got_kind, m), sel(got_act, m))) && has(totalMap, mapkey(totalMap, sel(got_kind, m), sel(got_act, m))))
    invariant buf: fresh(res) && (ref(res) == atentry(ref(res)) || freshin(res))
    invariant sums: forall(i, 0, len(res), res[i] != nil && freshin(res[i]) && has(visited(), mapkey(totalMap, res[i].KindOf, res[i].Action)) && res[i].Cost == quotient(totalMap[mapkey(totalMap, res[i].KindOf, res[i].Action)], sizeMap[mapkey(totalMap, res[i].KindOf, res[i].Action)]))
    invariant totals: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), trig(costsum(got_n, k, a)), totalMap[mapkey(totalMap, k, a)] == costsum(got_n, k, a) && sizeMap[mapkey(totalMap, k, a)] == costnum(got_n, k, a) && has(totalMap, mapkey(totalMap, k, a)) == (costnum(got_n, k, a) >= 1)))
    invariant once: forall(i, 0, len(res), forall(j, 0, i, res[i] != res[j] && (res[i].KindOf != res[j].KindOf || res[i].Action != res[j].Action)))
    invariant each: forallstr(k, forallstr(a, trig(mapkey(totalMap, k, a)), implies(has(visited(), mapkey(totalMap, k, a)), exists(i, 0, len(res), res[i].KindOf == k && res[i].Action == a))))
