# M04: bucket definitions, their cache and their listing.

# ---- the cache: what it may contain (entries may be evicted at any time) ----

ghost c_has: (Array Int (Array Str Bool))
ghost c_val: (Array Int (Array Str Str))
define maycached(c, k) = sel(sel(c_has, c), k)
define cached(c, k) = sel(sel(c_val, c), k)

extern (common/cache.ICache).HasGet
  params k
  ensures hit: implies(result1, maycached(recv, k) && str(result0) == cached(recv, k))
  note Entries may be evicted at any time: a miss says nothing.

extern (common/cache.ICache).Set
  params k, v
  modifies c_has, c_val
  ensures has: c_has == sto(old(c_has), recv, sto(sel(old(c_has), recv), k, true))
  ensures val: c_val == sto(old(c_val), recv, sto(sel(old(c_val), recv), k, str(v)))
  note A set that fails drops the entry stored before.

extern (common/cache.ICache).Delete
  params k
  modifies c_has
  ensures has: c_has == sto(old(c_has), recv, sto(sel(old(c_has), recv), k, false))

# ---- the cursor: the keys of a bucket in byte order ----

uf skey((Array Str Bool), Int) Str
uf spos((Array Str Bool), Str) Int
uf pre(Str, Str) Bool
axiom pre0: forallstr(k, forallstr(p, trig(pre(k, p)), implies(len(p) == 0, pre(k, p))))
axiom pre1: forallstr(k, forallstr(p, trig(k[:len(p)]), pre(k, p) == hasprefix(k, p)))
axiom pre2: forallstr(k, forallstr(p, trig(pre(k, p)), implies(pre(k, p), !slt(k, p))))
axiom pre3: forallstr(k, forallstr(j, forallstr(p, trig(pre(k, p), pre(j, p)), implies(!slt(k, p) && !pre(k, p) && !slt(j, k), !pre(j, p)))))
define ordered(z) = forall(i, trig(skey(z, i)), implies(0 <= i && i < card(z), sel(z, skey(z, i)))) && forall(i, forall(j, trig(skey(z, i), skey(z, j)), implies(0 <= i && i < j && j < card(z), slt(skey(z, i), skey(z, j))))) && forallstr(k, trig(sel(z, k)), implies(sel(z, k), 0 <= spos(z, k) && spos(z, k) < card(z) && skey(z, spos(z, k)) == k)) && card(z) >= 0

ghost u_b: (Array Int Int)
ghost u_i: (Array Int Int)
ghost u_s: (Array Int Int)
# where the walk started
define ustart(c) = sel(u_s, c)
define uset(c) = sel(b_has, sel(u_b, c))
define upos(c) = sel(u_i, c)
define athere(c, k, v) = (k == nil) == (upos(c) >= card(uset(c))) && (v == nil) == (k == nil) && implies(k != nil, str(k) == skey(uset(c), upos(c)) && str(v) == kval(sel(u_b, c), str(k)))

extern (go.etcd.io/bbolt.Bucket).Cursor
  requires bucket: recv != nil
  modifies u_b
  ensures new: result != nil && u_b == sto(old(u_b), result, recv)
  ensures ordered: ordered(uset(result))

extern (go.etcd.io/bbolt.Cursor).First
  requires cursor: recv != nil
  modifies u_i, u_s
  ensures start: u_s == sto(old(u_s), recv, 0)
  ensures at: u_i == sto(old(u_i), recv, 0) && athere(recv, result0, result1)

extern (go.etcd.io/bbolt.Cursor).Seek
  params seek
  requires cursor: recv != nil
  modifies u_i, u_s
  ensures moved: u_i == sto(old(u_i), recv, upos(recv)) && u_s == sto(old(u_s), recv, upos(recv))
  ensures range: 0 <= upos(recv) && upos(recv) <= card(uset(recv))
  ensures before: forall(i, trig(skey(uset(recv), i)), implies(0 <= i && i < upos(recv), slt(skey(uset(recv), i), str(seek))))
  ensures first: implies(upos(recv) < card(uset(recv)), !slt(skey(uset(recv), upos(recv)), str(seek)))
  ensures at: athere(recv, result0, result1)

extern (go.etcd.io/bbolt.Cursor).Next
  requires cursor: recv != nil
  requires inside: upos(recv) < card(uset(recv))
  modifies u_i
  ensures at: u_i == sto(old(u_i), recv, old(upos(recv)) + 1) && athere(recv, result0, result1)
  note The keys are those in the bucket at the start of the walk, which the callers must not change; none of these buckets holds another bucket.

# ---- the cache of definitions ----

define broot() = top("go.dfs.bucket.root")
define isb(n) = on(broot()) && khas(broot(), n)
define bval(n) = kval(broot(), n)
uf bname(Str) Str
axiom bname: forallstr(n, bname("bucket_" + n) == n)

# every definition is stored under its own name
define named() = forallstr(n, implies(isb(n), rb_name(bval(n)) == n))
# what the cache may hold of a definition is what is stored
define coherent(c) = forallstr(n, implies(maycached(c, "bucket_" + n), isb(n) && sameb(cached(c, "bucket_" + n), bval(n))))
define cacheof(b) = unboxed(b.cache).cache
define madeb(b) = b.db != nil && b.cache != nil && dyntype(b.cache, "*metaserver/internal/usecase/repo.BucketCacheRepo") && unboxed(b.cache) != nil && cacheof(b) != nil

define othercaches(c) = forall(r, implies(r != c, sel(c_has, r) == sel(old(c_has), r) && sel(c_val, r) == sel(old(c_val), r)))
define otherentries(c, k) = forallstr(j, implies(j != k, maycached(c, j) == old(maycached(c, j)) && cached(c, j) == old(cached(c, j))))

func (metaserver/internal/usecase/repo.BucketCacheRepo).Get
  property M04
  options bytesval
  requires made: b.cache != nil
  ensures hit: implies(result1 == nil, result0 != nil && maycached(b.cache, "bucket_" + name) && bmatch(result0, cached(b.cache, "bucket_" + name)))

func (metaserver/internal/usecase/repo.BucketCacheRepo).GetBytes
  property M04
  options bytesval
  requires made: b.cache != nil
  ensures hit: implies(result1 == nil, maycached(b.cache, "bucket_" + name) && str(result0) == cached(b.cache, "bucket_" + name))

func (metaserver/internal/usecase/repo.BucketCacheRepo).Create
  property M04
  options bytesval
  requires made: b.cache != nil
  requires given: bucket != nil
  modifies c_has, c_val
  ensures ok: result == nil
  ensures stored: maycached(b.cache, "bucket_" + bucket.Name) && bmatch(bucket, cached(b.cache, "bucket_" + bucket.Name))
  ensures rest: otherentries(b.cache, "bucket_" + bucket.Name) && othercaches(b.cache)

func (metaserver/internal/usecase/repo.BucketCacheRepo).Update
  property M04
  options bytesval
  requires made: b.cache != nil
  requires given: bucket != nil
  modifies c_has, c_val
  ensures ok: result == nil
  ensures stored: maycached(b.cache, "bucket_" + bucket.Name) && bmatch(bucket, cached(b.cache, "bucket_" + bucket.Name))
  ensures rest: otherentries(b.cache, "bucket_" + bucket.Name) && othercaches(b.cache)

func (metaserver/internal/usecase/repo.BucketCacheRepo).Remove
  property M04
  options bytesval
  requires made: b.cache != nil
  modifies c_has, c_val
  ensures ok: result == nil
  ensures gone: !maycached(b.cache, "bucket_" + name)
  ensures rest: otherentries(b.cache, "bucket_" + name) && othercaches(b.cache)

# ---- the repositories ----

define keptroots() = forall(r, implies(r != broot(), sel(b_on, r) == sel(old(b_on), r) && sel(b_has, r) == sel(old(b_has), r) && sel(b_val, r) == sel(old(b_val), r) && sel(b_seq, r) == sel(old(b_seq), r)))
define keptbs(n) = forallstr(k, implies(k != n, isb(k) == old(isb(k)) && implies(isb(k), bval(k) == old(bval(k)))))
define keptallb() = forallstr(k, isb(k) == old(isb(k)) && implies(isb(k), bval(k) == old(bval(k))))

func (metaserver/internal/usecase/repo.BucketRepo).Create
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val
  ensures given: implies(bucket == nil, err != nil)
  ensures state: named() && coherent(cacheof(b))
  ensures unnamed: implies(bucket.Name == "", err != nil)
  ensures exists: implies(old(isb(bucket.Name)), err != nil)
  ensures refused: implies(err != nil, keptallb())
  ensures stored: implies(err == nil, isb(bucket.Name) && bmatch(bucket, bval(bucket.Name)))
  ensures others: keptbs(bucket.Name) && keptroots()

func (metaserver/internal/usecase/repo.BucketRepo).Update
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val, bucket.CreateTime
  ensures given: implies(bucket == nil, err != nil)
  ensures state: named() && coherent(cacheof(b))
  ensures unnamed: implies(bucket.Name == "", err != nil)
  ensures absent: implies(!old(isb(bucket.Name)), err != nil)
  ensures newer: implies(old(isb(bucket.Name)) && bucket.UpdateTime <= rb_ut(old(bval(bucket.Name))), err != nil)
  ensures refused: implies(err != nil, keptallb())
  ensures stored: implies(err == nil, isb(bucket.Name) && bmatch0(bucket, bval(bucket.Name)))
  ensures created: implies(err == nil, rb_ct(bval(bucket.Name)) == rb_ct(old(bval(bucket.Name))))
  ensures others: keptbs(bucket.Name) && keptroots()

func (metaserver/internal/usecase/repo.BucketRepo).Remove
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val
  ensures state: named() && coherent(cacheof(b))
  ensures refused: implies(err != nil, keptallb())
  ensures gone: implies(err == nil, !isb(name))
  ensures others: keptbs(name) && keptroots()

func (metaserver/internal/usecase/repo.BatchBucketRepo).Create
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo exactretry
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val
  ensures given: implies(bucket == nil, err != nil)
  ensures state: named() && coherent(cacheof(b))
  ensures unnamed: implies(bucket.Name == "", err != nil)
  ensures exists: implies(old(isb(bucket.Name)), err != nil)
  ensures refused: implies(err != nil, keptallb())
  ensures stored: implies(err == nil, isb(bucket.Name) && bmatch(bucket, bval(bucket.Name)))
  ensures others: keptbs(bucket.Name) && keptroots()

func (metaserver/internal/usecase/repo.BatchBucketRepo).Update
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo exactretry
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val, bucket.CreateTime
  ensures given: implies(bucket == nil, err != nil)
  ensures state: named() && coherent(cacheof(b))
  ensures unnamed: implies(bucket.Name == "", err != nil)
  ensures absent: implies(!old(isb(bucket.Name)), err != nil)
  ensures newer: implies(old(isb(bucket.Name)) && bucket.UpdateTime <= rb_ut(old(bval(bucket.Name))), err != nil)
  ensures refused: implies(err != nil, keptallb())
  ensures stored: implies(err == nil, isb(bucket.Name) && bmatch0(bucket, bval(bucket.Name)))
  ensures created: implies(err == nil, rb_ct(bval(bucket.Name)) == rb_ct(old(bval(bucket.Name))))
  ensures others: keptbs(bucket.Name) && keptroots()

func (metaserver/internal/usecase/repo.BatchBucketRepo).Remove
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo exactretry
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies b_on, b_has, b_val, b_seq, tx_w, c_has, c_val
  ensures state: named() && coherent(cacheof(b))
  ensures refused: implies(err != nil, keptallb())
  ensures gone: implies(err == nil, !isb(name))
  ensures others: keptbs(name) && keptroots()

func (metaserver/internal/usecase/repo.BucketRepo).Get
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies tx_w, c_has, c_val
  ensures state: named() && coherent(cacheof(b))
  ensures found: implies(err == nil, res != nil && isb(name) && bmatch(res, bval(name)))
  ensures absent: implies(!isb(name), err != nil)

func (metaserver/internal/usecase/repo.BucketRepo).GetBytes
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies tx_w
  ensures found: implies(result1 == nil, isb(name) && sameb(str(result0), bval(name)))
  ensures absent: implies(!isb(name), result1 != nil)

inline (metaserver/internal/usecase/logic.BucketCrud).List
  loop 1
    invariant count: upos(cur) == ustart(cur) + len(*res) && 0 <= ustart(cur) && upos(cur) <= card(uset(cur))
    invariant at: athere(cur, k, v)
    invariant own: ours(*res)
    invariant empty: implies(prefix == "", ustart(cur) == 0)
    invariant before: implies(prefix != "", forall(i, trig(skey(uset(cur), i)), implies(0 <= i && i < ustart(cur), slt(skey(uset(cur), i), prefix))))
    invariant after: implies(prefix != "", forall(i, trig(skey(uset(cur), i)), implies(ustart(cur) <= i && i < card(uset(cur)), !slt(skey(uset(cur), i), prefix))))
    invariant some: forall(j, 0, len(*res), (*res)[j] != nil)
    invariant name: forall(j, 0, len(*res), (*res)[j].Name == skey(uset(cur), ustart(cur) + j) && isb((*res)[j].Name))
    invariant match: forall(j, 0, len(*res), bmatch((*res)[j], bval((*res)[j].Name)))
    invariant pre: forall(j, 0, len(*res), pre((*res)[j].Name, prefix))
    invariant sorted: forall(j, 0, len(*res), forall(i, 0, j, slt((*res)[i].Name, (*res)[j].Name)))
    invariant few: len(*res) <= max(limit, 0)
    invariant found: forallstr(q, trig(sel(uset(cur), q)), implies(sel(uset(cur), q) && ustart(cur) <= spos(uset(cur), q) && spos(uset(cur), q) < upos(cur), (*res)[spos(uset(cur), q) - ustart(cur)].Name == q))

func (metaserver/internal/usecase/repo.BucketRepo).List
  property M04
  options bytesval gosync dyn.metaserver/internal/usecase.BucketRepo=*metaserver/internal/usecase/repo.BucketCacheRepo
  requires made: madeb(b)
  requires state: named() && coherent(cacheof(b))
  modifies tx_w, c_has, c_val, u_b, u_i, u_s
  loop 1
    invariant state: named() && coherent(cacheof(b))
    invariant kept: forall(j, 0, len(list), list[j] != nil && isb(list[j].Name) && bmatch(list[j], bval(list[j].Name)))
  ensures state: named() && coherent(cacheof(b))
  ensures few: len(result0) <= max(size, 0)
  ensures stored: implies(result2 == nil, forall(j, 0, len(result0), result0[j] != nil && isb(result0[j].Name) && bmatch(result0[j], bval(result0[j].Name)) && pre(result0[j].Name, prefix)))
  ensures sorted: implies(result2 == nil, forall(j, 0, len(result0), forall(i, 0, j, slt(result0[i].Name, result0[j].Name))))
  ensures complete: implies(result2 == nil, forallstr(k, trig(khas(broot(), k)), implies(isb(k) && pre(k, prefix), exists(j, 0, len(result0), result0[j].Name == k) || len(result0) == max(size, 0) && forall(j, 0, len(result0), slt(result0[j].Name, k)))))
