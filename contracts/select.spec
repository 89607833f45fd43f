// A05: choosing data servers.

// how often v occurs in A[i..n)
rec cnt(A: (Array Int Str), i: Int, n: Int, v: Str) Int by max(0, n-i) = ite(i >= n, 0, ite(sel(A, i) == v, 1, 0) + cnt(A, i+1, n, v))
lemma cnt_nonneg_ind: induct(k, n-i, forallstrarr(A, forall(i, forall(n, forallstr(v, trig(cnt_lim(A, i, n, v)),
  implies(k >= 0 && n-i == k, 0 <= cnt(A, i, n, v) && cnt(A, i, n, v) <= n-i))))))
lemma cnt_nonneg: forallstrarr(A, forall(i, forall(n, forallstr(v, trig(cnt(A, i, n, v)), 0 <= cnt(A, i, n, v) && implies(i <= n, cnt(A, i, n, v) <= n-i)))))
lemma cnt_member_ind: induct(k, n-i, forallstrarr(A, forall(i, forall(n, forall(m, forallstr(v, trig(cnt_lim(A, i, n, v), sel(A, m)),
  implies(k >= 0 && n-i == k && i <= m && m < n && sel(A, m) == v, cnt(A, i, n, v) >= 1)))))))
lemma cnt_member: forallstrarr(A, forall(i, forall(n, forall(m, forallstr(v, trig(cnt(A, i, n, v), sel(A, m)),
  implies(i <= m && m < n && sel(A, m) == v, cnt(A, i, n, v) >= 1))))))
lemma cnt_split_ind: induct(k, m-i, forallstrarr(A, forall(i, forall(m, forall(n, forallstr(v, trig(cnt_lim(A, i, n, v), cnt(A, i, m, v)),
  implies(k >= 0 && m-i == k && m <= n, cnt(A, i, n, v) == cnt(A, i, m, v) + cnt(A, m, n, v))))))))
lemma cnt_split: forallstrarr(A, forall(i, forall(m, forall(n, forallstr(v, trig(cnt(A, i, n, v), cnt(A, i, m, v)),
  implies(i <= m && m <= n, cnt(A, i, n, v) == cnt(A, i, m, v) + cnt(A, m, n, v)))))))
lemma cnt_snoc: forallstrarr(A, forall(i, forall(m, forall(n, forallstr(v, trig(cnt(A, i, n, v), cnt(A, i, m, v)),
  implies(i <= m && n == m+1 && cnt(A, m, n, v) == cnt(A, m, n, v), cnt(A, i, n, v) == cnt(A, i, m, v) + ite(sel(A, m) == v, 1, 0)))))))
lemma cnt_same_ind: induct(k, n-i, forallstrarr(A, forallstrarr(B, forall(i, forall(n, forall(j, forall(m, forallstr(v, trig(cnt_lim(A, i, n, v), cnt_lim(B, j, m, v)),
  implies(k >= 0 && n-i == k && m-j == k && forall(q, 0, k, sel(A, i+q) == sel(B, j+q)), cnt(A, i, n, v) == cnt(B, j, m, v))))))))))
lemma cnt_store_ind: induct(k, n-i, forallstrarr(A, forall(i, forall(n, forall(m, forallstr(x, forallstr(v, trig(cnt_lim(sto(A, m, x), i, n, v)),
  implies(k >= 0 && n-i == k, cnt(sto(A, m, x), i, n, v) == cnt(A, i, n, v) + ite(i <= m && m < n, ite(x == v, 1, 0) - ite(sel(A, m) == v, 1, 0), 0)))))))))
lemma cnt_store: forallstrarr(A, forall(i, forall(n, forall(m, forallstr(x, forallstr(v, trig(cnt(sto(A, m, x), i, n, v)),
  cnt(sto(A, m, x), i, n, v) == cnt(A, i, n, v) + ite(i <= m && m < n, ite(x == v, 1, 0) - ite(sel(A, m) == v, 1, 0), 0)))))))
lemma cnt_found_ind: induct(k, n-i, forallstrarr(A, forall(i, forall(n, forallstr(v, trig(cnt_lim(A, i, n, v)),
  implies(k >= 0 && n-i == k && cnt(A, i, n, v) >= 1, exists(q, i, n, sel(A, q) == v)))))))
lemma cnt_found: forallstrarr(A, forall(i, forall(n, forallstr(v, trig(cnt(A, i, n, v)), implies(cnt(A, i, n, v) >= 1, exists(q, i, n, sel(A, q) == v))))))

define count(s, v) = cnt(row(s), off(s), off(s)+len(s), v)

func common/util/slices.ExtremalIndex
  property A05
  options purefn
  requires fn: fn != nil
  requires transitive: forall(i, 0, len(arr), forall(j, 0, len(arr), forall(k, 0, len(arr), implies(apply(fn, arr[i], arr[j]) && apply(fn, arr[j], arr[k]), apply(fn, arr[i], arr[k])))))
  requires strict: forall(i, 0, len(arr), !apply(fn, arr[i], arr[i]))
  ensures inb: implies(len(arr) > 0, 0 <= result && result < len(arr))
  ensures least: implies(len(arr) > 0, forall(k, 0, len(arr), !apply(fn, arr[result], arr[k])))
  loop 1
    invariant inb: implies(len(arr) > 0, 0 <= exIdx && exIdx < len(arr)) && exIdx >= 0
    invariant least: forall(k, 0, iter(), !apply(fn, arr[exIdx], arr[k]))

func common/util/slices.Extremal
  property A05
  options purefn
  requires some: len(arr) > 0
  requires fn: fn != nil
  requires transitive: forall(i, 0, len(arr), forall(j, 0, len(arr), forall(k, 0, len(arr), implies(apply(fn, arr[i], arr[j]) && apply(fn, arr[j], arr[k]), apply(fn, arr[i], arr[k])))))
  requires strict: forall(i, 0, len(arr), !apply(fn, arr[i], arr[i]))
  ensures member: exists(i, 0, len(arr), result == arr[i])
  ensures least: forall(k, 0, len(arr), !apply(fn, result, arr[k]))

extern math/rand.Intn
  params n
  requires pos: n > 0
  ensures inb: 0 <= result && result < n

func (apiserver/internal/usecase/componet/selector.RandomSelector).Pop
  property A05
  requires some: len(ds) > 0
  modifies elems(ds)
  ensures one: len(result0) == len(ds) - 1
  ensures others: forallstr(v, trig(old(count(ds, v))), count(result0, v) == old(count(ds, v)) - ite(v == result1, 1, 0))
  ensures same_block: ref(result0) == ref(ds) && off(result0) >= off(ds) && off(result0)+len(result0) <= off(ds)+len(ds)

func (apiserver/internal/usecase/componet/selector.RandomSelector).Select
  property A05
  requires some: len(ds) > 0
  ensures member: exists(i, 0, len(ds), result == ds[i])

extern apiserver/internal/usecase/webapi.StatObject
  params ip
  ensures ok: implies(result1 == nil, result0 != nil)

extern net/http.Header.Get
  params key
  ensures any: true

// the load recorded for a server, the largest possible if none is known
define spaceOf(v) = ite(has(spaceUsedMap, v), spaceUsedMap[v], 9223372036854775807)
define ioOf(v) = ite(has(weightedIOMap, v), weightedIOMap[v], 2147483647)

func (apiserver/internal/usecase/componet/selector.FreeSpaceFirst).fetchSpaceInfo
  property A05
  requires map: spaceUsedMap != nil
  modifies mapof(spaceUsedMap), spaceUpdatedAt
  loop 1
    modifies mapof(spaceUsedMap)

func (apiserver/internal/usecase/componet/selector.FreeSpaceFirst).Pop
  property A05
  requires some: len(ds) > 0 && spaceUsedMap != nil
  modifies elems(ds), mapof(spaceUsedMap), spaceUpdatedAt
  ensures one: len(result0) == len(ds) - 1
  ensures others: forallstr(v, trig(old(count(ds, v))), count(result0, v) == old(count(ds, v)) - ite(v == result1, 1, 0))
  ensures same_block: ref(result0) == ref(ds) && off(result0) >= off(ds) && off(result0)+len(result0) <= off(ds)+len(ds)
  ensures least: forall(k, 0, len(ds), spaceOf(result1) <= spaceOf(old(ds[k])))

func (apiserver/internal/usecase/componet/selector.FreeSpaceFirst).Select
  property A05
  requires some: len(ds) > 0 && spaceUsedMap != nil
  modifies mapof(spaceUsedMap), spaceUpdatedAt
  ensures member: exists(i, 0, len(ds), result == ds[i])
  ensures least: forall(k, 0, len(ds), spaceOf(result) <= spaceOf(ds[k]))

func (apiserver/internal/usecase/componet/selector.WeightedIOFirst).fetchIoInfo
  property A05
  requires map: weightedIOMap != nil
  modifies mapof(weightedIOMap), weightedIOUpdatedAt
  loop 1
    modifies mapof(weightedIOMap)

func (apiserver/internal/usecase/componet/selector.WeightedIOFirst).Pop
  property A05
  requires some: len(ds) > 0 && weightedIOMap != nil
  modifies elems(ds), mapof(weightedIOMap), weightedIOUpdatedAt
  ensures one: len(result0) == len(ds) - 1
  ensures others: forallstr(v, trig(old(count(ds, v))), count(result0, v) == old(count(ds, v)) - ite(v == result1, 1, 0))
  ensures same_block: ref(result0) == ref(ds) && off(result0) >= off(ds) && off(result0)+len(result0) <= off(ds)+len(ds)
  ensures least: forall(k, 0, len(ds), ioOf(result1) <= ioOf(old(ds[k])))

func (apiserver/internal/usecase/componet/selector.WeightedIOFirst).Select
  property A05
  requires some: len(ds) > 0 && weightedIOMap != nil
  modifies elems(ds), mapof(weightedIOMap), weightedIOUpdatedAt
  ensures member: exists(i, 0, len(ds), result == old(ds[i]))
  ensures least: forall(k, 0, len(ds), ioOf(result) <= ioOf(old(ds[k])))

// every policy's Pop gives this much
interface (apiserver/internal/usecase/componet/selector.Selector).Pop
  property A05
  params ds
  requires some: len(ds) > 0 && spaceUsedMap != nil && weightedIOMap != nil
  modifies elems(ds), mapof(spaceUsedMap), spaceUpdatedAt, mapof(weightedIOMap), weightedIOUpdatedAt
  ensures one: len(result0) == len(ds) - 1
  ensures others: forallstr(v, trig(old(count(ds, v))), count(result0, v) == old(count(ds, v)) - ite(v == result1, 1, 0))
  ensures same_block: ref(result0) == ref(ds) && off(result0) >= off(ds) && off(result0)+len(result0) <= off(ds)+len(ds)

// left: the servers not yet used in this round, gone: those used
func (apiserver/internal/usecase/componet/selector.IPSelector).Select
  property A05
  requires some: i.Selector != nil && len(i.IPs) + len(i.used) > 0 && spaceUsedMap != nil && weightedIOMap != nil
  requires apart: ref(i.IPs) != ref(i.used)
  modifies *i, elems(i.IPs), elems(i.used), mapof(spaceUsedMap), spaceUpdatedAt, mapof(weightedIOMap), weightedIOUpdatedAt
  ensures apart: ref(i.IPs) != ref(i.used) && i.Selector == old(i.Selector)
  ensures blocks: (fresh(i.IPs) || ref(i.IPs) == old(ref(i.IPs)) || ref(i.IPs) == old(ref(i.used))) && (fresh(i.used) || ref(i.used) == old(ref(i.IPs)) || ref(i.used) == old(ref(i.used)))
  ensures sizes: len(i.IPs) + len(i.used) == old(len(i.IPs) + len(i.used)) && len(i.used) == ite(old(len(i.IPs)) == 0, 1, old(len(i.used))+1)
  ensures taken: forallstr(v, trig(old(count(i.IPs, v))), count(i.IPs, v) == ite(old(len(i.IPs)) == 0, old(count(i.used, v)), old(count(i.IPs, v))) - ite(v == result, 1, 0))
  ensures used: forallstr(v, trig(old(count(i.used, v))), count(i.used, v) == ite(old(len(i.IPs)) == 0, 0, old(count(i.used, v))) + ite(v == result, 1, 0))

// 1 if v is the address of a live server of that service, else 0: each server has its own address (assumed)
uf serving(Str, Str) Int
axiom serving_once: forallstr(n, forallstr(v, trig(serving(n, v)), serving(n, v) == 0 || serving(n, v) == 1))
extern (common/registry.EtcdDiscovery).GetServices
  params name
  ensures own: fresh(result)
  ensures live: forallstr(v, trig(serving(name, v)), count(result, v) == serving(name, v))

define dsname() = pool.Config.Discovery.DataServName
define chosen(s, i, v) = cnt(row(s), off(s), off(s)+i, v)
define data() = pool.Config.Discovery.DataServName
func (apiserver/internal/usecase/logic.Discovery).SelectDataServer
  property A05
  options uses=cnt_nonneg+cnt_member+cnt_snoc+cnt_store
  requires args: sel != nil && size >= 0 && pool.Config != nil && pool.Discovery != nil && selector.spaceUsedMap != nil && selector.weightedIOMap != nil
  modifies mapof(selector.spaceUsedMap), selector.spaceUpdatedAt, mapof(selector.weightedIOMap), selector.weightedIOUpdatedAt
  ensures all: len(result) == size || len(result) == 0
  ensures live: forallstr(v, trig(serving(data(), v)), implies(serving(data(), v) == 0, count(result, v) == 0))
  ensures even: forallstr(v, forallstr(w, trig(serving(data(), v), serving(data(), w)), implies(serving(data(), v) == 1 && serving(data(), w) == 1, count(result, v) <= count(result, w) + 1)))
  loop 1
    modifies elems(serv), lb, elems(ds), mapof(selector.spaceUsedMap), selector.spaceUpdatedAt, mapof(selector.weightedIOMap), selector.weightedIOUpdatedAt
    invariant sel: iter() <= size && lb.Selector == sel && len(serv) == size
    invariant apart: ref(lb.IPs) != ref(lb.used) && ref(lb.IPs) != ref(serv) && ref(lb.used) != ref(serv)
    invariant own: (fresh(lb.IPs) || ref(lb.IPs) == 0) && (fresh(lb.used) || ref(lb.used) == 0) && (ref(lb.IPs) == ref(ds) || freshin(lb.IPs) || ref(lb.IPs) == 0) && (ref(lb.used) == ref(ds) || freshin(lb.used) || ref(lb.used) == 0)
    invariant all: len(lb.IPs) + len(lb.used) == len(ds) && len(ds) > 0
    invariant round: forallstr(v, trig(serving(data(), v)), count(lb.IPs, v) + count(lb.used, v) == serving(data(), v))
    invariant first: implies(iter() <= len(ds), len(lb.used) == iter() && forallstr(v, trig(serving(data(), v)), chosen(serv, iter(), v) == count(lb.used, v)))
    invariant live: forallstr(v, trig(serving(data(), v)), implies(serving(data(), v) == 0, chosen(serv, iter(), v) == 0))
    invariant even: forallstr(v, forallstr(w, trig(serving(data(), v), serving(data(), w)), implies(serving(data(), v) == 1 && serving(data(), w) == 1,
      chosen(serv, iter(), v) - count(lb.used, v) == chosen(serv, iter(), w) - count(lb.used, w))))
