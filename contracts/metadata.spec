# M01-M03: object records, versions and the two indexes, over a model of the embedded database.
#
# A bucket is named by its place in the file; its content is a set of keys, a value per key and
# a counter. A transaction runs its function and keeps the effects only if it succeeds.

uf top(Str) Int
uf sub(Int, Str) Int
uf topname(Int) Str
uf subpar(Int) Int
uf subname(Int) Str
uf deep(Int) Bool
axiom top: forallstr(s, top(s) > 0 && topname(top(s)) == s && !deep(top(s)))
axiom sub: forall(b, forallstr(s, sub(b, s) > 0 && subpar(sub(b, s)) == b && subname(sub(b, s)) == s && deep(sub(b, s))))

ghost b_on: (Array Int Bool)
ghost b_has: (Array Int (Array Str Bool))
ghost b_val: (Array Int (Array Str Str))
ghost b_seq: (Array Int Int)
ghost tx_w: Bool
ignore go.etcd.io/bbolt.Bucket.FillPercent

# the number of keys of a bucket
uf card((Array Str Bool)) Int
axiom card0: card(emptyset()) == 0
axiom cardpos: forallset(z, forallstr(k, implies(sel(z, k), card(z) > 0)))
uf pick((Array Str Bool)) Str
axiom cardpick: forallset(z, implies(card(z) > 0, sel(z, pick(z))))

define on(b) = sel(b_on, b)
define khas(b, k) = sel(sel(b_has, b), k)
define kval(b, k) = sel(sel(b_val, b), k)
define bseq(b) = sel(b_seq, b)

# errors of the dependencies are not, and do not wrap, the error values of this program
define notours(e) = !dyntype(e, "*common/response.Err") && forall(s, implies(errIs(e, s), !dyntype(s, "*common/response.Err")))

extern (metaserver/internal/usecase/db.Storage).Update
  params fn
  runs fn
  sets tx_w: true
  rollback b_on, b_has, b_val, b_seq
  ensures own: notours(result)

extern (metaserver/internal/usecase/db.Storage).Batch
  params fn
  runs fn twice
  sets tx_w: true
  rollback b_on, b_has, b_val, b_seq
  ensures own: notours(result)

extern (metaserver/internal/usecase/db.Storage).View
  params fn
  runs fn
  sets tx_w: false
  rollback b_on, b_has, b_val, b_seq
  ensures own: notours(result)

extern (go.etcd.io/bbolt.Tx).Writable
  ensures mode: result == tx_w

extern (go.etcd.io/bbolt.Tx).Bucket
  params name
  ensures found: result == ite(on(top(str(name))), top(str(name)), 0)

extern (go.etcd.io/bbolt.Tx).CreateBucketIfNotExists
  params name
  modifies b_on, b_has, b_seq
  ensures made: implies(tx_w && len(name) > 0 && len(name) <= 32768, result1 == nil)
  ensures readonly: implies(!tx_w, result1 != nil)
  ensures bucket: result0 == ite(result1 == nil, top(str(name)), 0)
  ensures on: b_on == ite(result1 == nil, sto(old(b_on), top(str(name)), true), old(b_on))
  ensures content: b_has == ite(result1 == nil && !old(on(top(str(name)))), sto(old(b_has), top(str(name)), emptyset()), old(b_has))
  ensures counter: b_seq == ite(result1 == nil && !old(on(top(str(name)))), sto(old(b_seq), top(str(name)), 0), old(b_seq))

extern (go.etcd.io/bbolt.Bucket).Bucket
  params name
  requires bucket: recv != nil
  ensures found: result == ite(on(sub(recv, str(name))), sub(recv, str(name)), 0)

extern (go.etcd.io/bbolt.Bucket).CreateBucket
  params name
  requires bucket: recv != nil
  modifies b_on, b_has, b_seq
  ensures readonly: implies(!tx_w || old(on(sub(recv, str(name)))), result1 != nil)
  ensures bucket: result0 == ite(result1 == nil, sub(recv, str(name)), 0)
  ensures on: b_on == ite(result1 == nil, sto(old(b_on), sub(recv, str(name)), true), old(b_on))
  ensures content: b_has == ite(result1 == nil, sto(old(b_has), sub(recv, str(name)), emptyset()), old(b_has))
  ensures counter: b_seq == ite(result1 == nil, sto(old(b_seq), sub(recv, str(name)), 0), old(b_seq))

extern (go.etcd.io/bbolt.Bucket).CreateBucketIfNotExists
  params name
  requires bucket: recv != nil
  modifies b_on, b_has, b_seq
  ensures readonly: implies(!tx_w, result1 != nil)
  ensures bucket: result0 == ite(result1 == nil, sub(recv, str(name)), 0)
  ensures on: b_on == ite(result1 == nil, sto(old(b_on), sub(recv, str(name)), true), old(b_on))
  ensures content: b_has == ite(result1 == nil && !old(on(sub(recv, str(name)))), sto(old(b_has), sub(recv, str(name)), emptyset()), old(b_has))
  ensures counter: b_seq == ite(result1 == nil && !old(on(sub(recv, str(name)))), sto(old(b_seq), sub(recv, str(name)), 0), old(b_seq))

extern (go.etcd.io/bbolt.Bucket).DeleteBucket
  params name
  requires bucket: recv != nil
  modifies b_on
  ensures readonly: implies(!tx_w || !old(on(sub(recv, str(name)))), result != nil)
  ensures on: b_on == ite(result == nil, sto(old(b_on), sub(recv, str(name)), false), old(b_on))
  ensures why: errIs(result, ErrBucketNotFound) == (result != nil && tx_w && !old(on(sub(recv, str(name)))))
  note Only buckets without buckets inside are deleted this way.

extern (go.etcd.io/bbolt.Bucket).Get
  params key
  requires bucket: recv != nil
  ensures found: (result == nil) == !khas(recv, str(key))
  ensures value: implies(result != nil, str(result) == kval(recv, str(key)))

extern (go.etcd.io/bbolt.Bucket).Put
  params key, value
  requires bucket: recv != nil
  modifies b_has, b_val
  ensures readonly: implies(!tx_w, result != nil)
  ensures has: b_has == ite(result == nil, sto(old(b_has), recv, sto(sel(old(b_has), recv), str(key), true)), old(b_has))
  ensures val: b_val == ite(result == nil, sto(old(b_val), recv, sto(sel(old(b_val), recv), str(key), str(value))), old(b_val))

extern (go.etcd.io/bbolt.Bucket).Delete
  params key
  requires bucket: recv != nil
  modifies b_has
  ensures readonly: implies(!tx_w, result != nil)
  ensures has: b_has == ite(result == nil, sto(old(b_has), recv, sto(sel(old(b_has), recv), str(key), false)), old(b_has))

extern (go.etcd.io/bbolt.Bucket).NextSequence
  requires bucket: recv != nil
  requires room: bseq(recv) < 18446744073709551615
  modifies b_seq
  ensures ok: (result1 == nil) == tx_w
  ensures next: implies(result1 == nil, result0 == old(bseq(recv)) + 1)
  ensures seq: b_seq == ite(result1 == nil, sto(old(b_seq), recv, old(bseq(recv)) + 1), old(b_seq))

extern (go.etcd.io/bbolt.Bucket).SetSequence
  params v
  requires bucket: recv != nil
  modifies b_seq
  ensures ok: (result == nil) == tx_w
  ensures seq: b_seq == ite(result == nil, sto(old(b_seq), recv, v), old(b_seq))

extern (go.etcd.io/bbolt.Bucket).Sequence
  requires bucket: recv != nil
  ensures seq: result == bseq(recv)

extern (go.etcd.io/bbolt.Bucket).Stats
  requires bucket: recv != nil
  ensures keys: result.KeyN == card(sel(b_has, recv))

extern (go.etcd.io/bbolt.Bucket).ForEach
  params fn
  requires bucket: recv != nil
  each fn, sel(b_has, recv), sel(b_val, recv)
  note The set of keys is the one at the start: the callback must not change this bucket.

# ---- stored records ----

uf rv_cmp(Str) Bool
uf rv_sst(Str) Int
uf rv_ds(Str) Int
uf rv_ps(Str) Int
uf rv_shs(Str) Int
uf rv_size(Str) Int
uf rv_ts(Str) Int
uf rv_seq(Str) Int
uf rv_hash(Str) Str
uf rv_uid(Str) Str
uf rv_locn(Str) Int
uf rv_loc(Str, Int) Str
uf rm_name(Str) Str
uf rm_bucket(Str) Str
uf rm_ct(Str) Int
uf rm_ut(Str) Int

define vrest(v, s) = v.Compress == rv_cmp(s) && v.StoreStrategy == rv_sst(s) && v.DataShards == rv_ds(s) && v.ParityShards == rv_ps(s) && v.ShardSize == rv_shs(s) && v.Size == rv_size(s) && v.Ts == rv_ts(s) && len(v.Locate) == rv_locn(s) && forall(i, 0, len(v.Locate), v.Locate[i] == rv_loc(s, i))
define vmatch(v, s) = vrest(v, s) && v.Sequence == rv_seq(s) && v.Hash == rv_hash(s) && v.UniqueId == rv_uid(s)
define mmatch(v, s) = v.Name == rm_name(s) && v.Bucket == rm_bucket(s) && v.CreateTime == rm_ct(s) && v.UpdateTime == rm_ut(s)

uf rb_ver(Str) Bool
uf rb_ro(Str) Bool
uf rb_cmp(Str) Bool
uf rb_sst(Str) Int
uf rb_ds(Str) Int
uf rb_ps(Str) Int
uf rb_vr(Str) Int
uf rb_ct(Str) Int
uf rb_ut(Str) Int
uf rb_name(Str) Str
uf rb_pols(Str) Int
# a list of strings as a value: what it holds, in order
uf strs((Array Int Str), Int, Int) Int
define bmatch0(v, s) = v.Versioning == rb_ver(s) && v.Readonly == rb_ro(s) && v.Compress == rb_cmp(s) && v.StoreStrategy == rb_sst(s) && v.DataShards == rb_ds(s) && v.ParityShards == rb_ps(s) && v.VersionRemains == rb_vr(s) && v.UpdateTime == rb_ut(s) && v.Name == rb_name(s) && strs(row(v.Policies), off(v.Policies), len(v.Policies)) == rb_pols(s)
define bmatch(v, s) = bmatch0(v, s) && v.CreateTime == rb_ct(s)
define sameb(s, t) = rb_ver(s) == rb_ver(t) && rb_ro(s) == rb_ro(t) && rb_cmp(s) == rb_cmp(t) && rb_sst(s) == rb_sst(t) && rb_ds(s) == rb_ds(t) && rb_ps(s) == rb_ps(t) && rb_vr(s) == rb_vr(t) && rb_ct(s) == rb_ct(t) && rb_ut(s) == rb_ut(t) && rb_name(s) == rb_name(t) && rb_pols(s) == rb_pols(t)

# the stored form of a slot record is a function of its content
uf slotrec(Str, Str, (Array Int Str), Int, Int) Str
define recof(s) = slotrec(s.GroupID, s.ServerID, row(s.Slots), off(s.Slots), len(s.Slots))

extern common/util.EncodeMsgp
  params data
  ensures slot: implies(result1 == nil && dyntype(data, "*common/hashslot.SlotInfo"), str(result0) == recof(unboxed(data)))
  ensures version: implies(dyntype(data, "*common/proto/msg.Version"), implies(result1 == nil, vmatch(unboxed(data), str(result0))))
  ensures metadata: implies(dyntype(data, "*common/proto/msg.Metadata"), implies(result1 == nil, mmatch(unboxed(data), str(result0))))
  ensures entry: implies(dyntype(data, "*metaserver/internal/entity.RaftData"), implies(result1 == nil, rl_ok(str(result0)) && rlmatch(unboxed(data), str(result0))))
  ensures bucket: implies(dyntype(data, "*common/proto/msg.Bucket") && unboxed(data) != nil, result1 == nil && bmatch(unboxed(data), str(result0)))

extern common/util.DecodeMsgp
  params data, bt
  modifies dynobj(data)
  ensures own: implies(result != nil, notours(result) && !dyntype(result, "*metaserver/internal/usecase/raftimpl.FSMResponse"))
  ensures version: implies(dyntype(data, "*common/proto/msg.Version"), implies(result == nil, vmatch(unboxed(data), str(bt))))
  ensures metadata: implies(dyntype(data, "*common/proto/msg.Metadata"), implies(result == nil, mmatch(unboxed(data), str(bt))))
  ensures bucket: implies(dyntype(data, "*common/proto/msg.Bucket"), implies(result == nil, bmatch(unboxed(data), str(bt))))
  ensures credential: implies(dyntype(data, "*apiserver/internal/usecase/componet/auth/credential.AdminCredential"), (result == nil) == cred_ok(str(bt)) && implies(result == nil, unboxed(data).Username == cred_user(str(bt)) && unboxed(data).Password == cred_pass(str(bt))) && implies(result != nil, dyntype(result, "library error")))
  requires empty: implies(dyntype(data, "*metaserver/internal/entity.RaftData"), zerolog(unboxed(data)))
  ensures entry: implies(dyntype(data, "*metaserver/internal/entity.RaftData"), (result == nil) == rl_ok(str(bt)) && implies(result == nil, rlmatch(unboxed(data), str(bt)) && fresh(unboxed(data).Version) && fresh(unboxed(data).Metadata) && fresh(unboxed(data).Bucket)))

# ---- where things are ----

define vroot() = top("go.dfs.version.root")
define mroot() = top("go.dfs.metadata.root")
define hroot() = top("go.dfs.index.hashIndex")
define uroot() = top("go.dfs.index.uniqueIdIndex")
define vb(n) = sub(vroot(), n)
define hb(h) = sub(hroot(), h)
define ub(u) = sub(uroot(), u)
define vkey(n, s) = n + "." + itoa(s)
define hasobj(n) = on(vb(n))
define stored(n, s) = on(vb(n)) && khas(vb(n), vkey(n, s))
define listed(b, k) = on(b) && khas(b, k)

# a bucket inside another exists only while the outer one does
define tree() = forallstr(n, implies(on(vb(n)), on(vroot())) && implies(on(hb(n)), on(hroot())) && implies(on(ub(n)), on(uroot())))

# every stored version has a number of its own, no larger than the counter
uf vnum(Str) Int
uf vname(Str) Str
uf nodots(Str) Bool
axiom nodots: forallstr(s, forall(j, trig(nodots(s), s[j]), implies(nodots(s) && 0 <= j && j < len(s), s[j] != 46)))
axiom vnum: forallstr(n, forall(i, trig(n + "." + itoa(i)), implies(i >= 0, vnum(n + "." + itoa(i)) == i && vname(n + "." + itoa(i)) == n && nodots(itoa(i)) && len(itoa(i)) >= 1)))
define numbered(n) = forallstr(k, implies(khas(vb(n), k), k == vkey(n, vnum(k)) && 0 <= vnum(k) && vnum(k) <= bseq(vb(n)) && rv_seq(kval(vb(n), k)) == vnum(k)) && bseq(vb(n)) >= 0)

# nothing but these three inner buckets changed
define keptelse(x, y, z) = forall(b, implies(deep(b) && b != x && b != y && b != z, sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_val, b) == sel(old(b_val), b) && sel(b_seq, b) == sel(old(b_seq), b)))
define keptall() = forall(b, implies(deep(b), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_val, b) == sel(old(b_val), b) && sel(b_seq, b) == sel(old(b_seq), b)))
define keptobj() = on(mroot()) == old(on(mroot())) && sel(b_has, mroot()) == sel(old(b_has), mroot()) && sel(b_val, mroot()) == sel(old(b_val), mroot())
# index b gained the entry k and keeps the rest
define gained(b, k) = on(b) && forallstr(j, khas(b, j) == (old(listed(b, j)) || j == k))

inline (metaserver/internal/usecase/logic.UniqueIdIndex).GetIndex
  loop 1
    invariant count: len(*res) == iter()
    invariant own: fresh(*res)
    invariant only: forall(i, 0, len(*res), sel(visited(), (*res)[i]))
    invariant all: forallstr(k, implies(sel(visited(), k), exists(i, 0, len(*res), (*res)[i] == k)))
    invariant once: forall(i, 0, len(*res), forall(j, 0, i, (*res)[i] != (*res)[j]))

inline (metaserver/internal/usecase/logic.HashIndexLogic).GetIndex
  loop 1
    invariant count: len(*res) == iter()
    invariant own: fresh(*res)
    invariant only: forall(i, 0, len(*res), sel(visited(), (*res)[i]))
    invariant all: forallstr(k, implies(sel(visited(), k), exists(i, 0, len(*res), (*res)[i] == k)))
    invariant once: forall(i, 0, len(*res), forall(j, 0, i, (*res)[i] != (*res)[j]))

# index b lost the entry k and keeps the rest
define lost(b, k) = forallstr(j, listed(b, j) == (old(listed(b, j)) && j != k))
define ismeta(n) = on(mroot()) && khas(mroot(), n)

func metaserver/internal/usecase/logic.versionOf
  property M01
  options bytesval
  requires key: str(key) == vkey(vname(str(key)), vnum(str(key)))
  requires range: 0 <= vnum(str(key)) && vnum(str(key)) < 18446744073709551616
  hint dot: str(key)[len(vname(str(key)))] == 46
  hint tail: str(key)[len(vname(str(key)))+1:] == itoa(vnum(str(key)))
  ensures number: result == vnum(str(key))

func metaserver/internal/usecase/logic.VersionRange
  property M01
  options bytesval
  requires bucket: b == vb(subname(b))
  requires numbered: numbered(subname(b))
  requires small: bseq(b) < 18446744073709551616
  ensures none: implies(forallstr(k, !khas(b, k)), result0 == 0 && result1 == 0)
  ensures first: forallstr(k, implies(khas(b, k), khas(b, vkey(subname(b), result0)) && result0 <= vnum(k)))
  ensures last: forallstr(k, implies(khas(b, k), khas(b, vkey(subname(b), result1)) && result1 >= vnum(k)))
  loop 1
    invariant empty: empty == (iter() == 0)
    invariant none: implies(empty, first == 0 && last == 0 && forallstr(k, !sel(visited(), k)))
    invariant bounds: forallstr(k, implies(sel(visited(), k), first <= vnum(k) && vnum(k) <= last))
    invariant first: implies(!empty, sel(visited(), vkey(subname(b), first)))
    invariant last: implies(!empty, sel(visited(), vkey(subname(b), last)))

inline metaserver/internal/usecase/logic.removeVersionIndexes
  loop 1
    invariant tree: tree()
    invariant on: forall(x, implies(deep(x), sel(b_on, x) == atentry(sel(b_on, x)) && sel(b_seq, x) == atentry(sel(b_seq, x))))
    invariant elsewhere: forall(x, implies(deep(x) && subpar(x) != hroot() && subpar(x) != uroot(), sel(b_has, x) == atentry(sel(b_has, x))))
    invariant hashes: forallstr(h, forallstr(j, listed(hb(h), j) == (atentry(listed(hb(h), j)) && !(sel(visited(), j) && rv_hash(kval(b, j)) == h))))
    invariant uids: forallstr(u, forallstr(j, listed(ub(u), j) == (atentry(listed(ub(u), j)) && !(sel(visited(), j) && rv_uid(kval(b, j)) == u))))
    invariant objects: on(mroot()) == atentry(on(mroot())) && sel(b_has, mroot()) == atentry(sel(b_has, mroot()))

# ---- M01, M02, M03: adding a version ----
func (metaserver/internal/usecase/repo.MetadataRepo).AddVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(id)
  requires room: bseq(vb(id)) < 18446744073709551615
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Sequence
  ensures tree: tree()
  ensures numbered: numbered(id)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures duplicate: implies(data != nil && existsstr(k, old(listed(ub(data.UniqueId), k))), result != nil)
  ensures newnumber: implies(result == nil, data.Sequence > old(bseq(vb(id))) && bseq(vb(id)) == data.Sequence)
  ensures present: implies(result == nil, data != nil && old(on(vb(id))) && on(vb(id)))
  ensures content: implies(result == nil, vmatch(data, kval(vb(id), vkey(id, data.Sequence))))
  ensures others: implies(result == nil, keptelse(vb(id), hb(data.Hash), ub(data.UniqueId)) && keptobj())
  ensures versions: implies(result == nil, forallstr(k, khas(vb(id), k) == (old(khas(vb(id), k)) || k == vkey(id, data.Sequence)) && implies(k != vkey(id, data.Sequence), kval(vb(id), k) == old(kval(vb(id), k)))))
  ensures hashindex: implies(result == nil, gained(hb(data.Hash), vkey(id, data.Sequence)))
  ensures uidindex: implies(result == nil, gained(ub(data.UniqueId), vkey(id, data.Sequence)))

func (metaserver/internal/usecase/repo.MetadataRepo).AddVersionFromRaft
  property M01 M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(id)
  requires number: implies(data != nil, data.Sequence >= 0)
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(id)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures duplicate: implies(data != nil && existsstr(k, old(listed(ub(data.UniqueId), k))), result != nil)
  ensures newnumber: implies(result == nil, !old(stored(id, data.Sequence)) && bseq(vb(id)) == max(old(bseq(vb(id))), data.Sequence))
  ensures present: implies(result == nil, data != nil && old(on(vb(id))) && on(vb(id)))
  ensures content: implies(result == nil, vmatch(data, kval(vb(id), vkey(id, data.Sequence))))
  ensures others: implies(result == nil, keptelse(vb(id), hb(data.Hash), ub(data.UniqueId)) && keptobj())
  ensures versions: implies(result == nil, forallstr(k, khas(vb(id), k) == (old(khas(vb(id), k)) || k == vkey(id, data.Sequence)) && implies(k != vkey(id, data.Sequence), kval(vb(id), k) == old(kval(vb(id), k)))))
  ensures hashindex: implies(result == nil, gained(hb(data.Hash), vkey(id, data.Sequence)))
  ensures uidindex: implies(result == nil, gained(ub(data.UniqueId), vkey(id, data.Sequence)))

func (metaserver/internal/usecase/repo.MetadataRepo).UpdateVersion
  property M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(id)
  modifies b_on, b_has, b_val, b_seq, tx_w, data.UniqueId, data.Sequence, data.Hash
  ensures tree: tree()
  ensures numbered: numbered(id)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures absent: implies(data != nil && !old(stored(id, data.Sequence)), result != nil)
  ensures newer: implies(data != nil && old(data.Ts) <= old(rv_ts(kval(vb(id), vkey(id, data.Sequence)))), result != nil)
  ensures identity: implies(result == nil, rv_hash(kval(vb(id), vkey(id, old(data.Sequence)))) == rv_hash(old(kval(vb(id), vkey(id, old(data.Sequence))))) && rv_uid(kval(vb(id), vkey(id, old(data.Sequence)))) == rv_uid(old(kval(vb(id), vkey(id, old(data.Sequence))))) && rv_seq(kval(vb(id), vkey(id, old(data.Sequence)))) == rv_seq(old(kval(vb(id), vkey(id, old(data.Sequence))))))
  ensures content: implies(result == nil, vrest(data, kval(vb(id), vkey(id, old(data.Sequence)))))
  ensures others: implies(result == nil, forallstr(k, implies(k != vkey(id, old(data.Sequence)), kval(vb(id), k) == old(kval(vb(id), k)))) && keptobj())
  ensures elsewhere: forall(b, implies(deep(b), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_seq, b) == sel(old(b_seq), b) && implies(b != vb(id), sel(b_val, b) == sel(old(b_val), b))))

func (metaserver/internal/usecase/repo.MetadataRepo).RemoveVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires number: ver >= 0
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(name)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures counter: bseq(vb(name)) == old(bseq(vb(name)))
  ensures gone: implies(result == nil, !stored(name, ver))
  ensures versions: implies(result == nil, forallstr(k, khas(vb(name), k) == (old(khas(vb(name), k)) && (k != vkey(name, ver) || !old(on(vb(name)))))))
  ensures hashindex: implies(result == nil && old(stored(name, ver)), lost(hb(rv_hash(old(kval(vb(name), vkey(name, ver))))), vkey(name, ver)))
  ensures uidindex: implies(result == nil && old(stored(name, ver)), lost(ub(rv_uid(old(kval(vb(name), vkey(name, ver))))), vkey(name, ver)))
  ensures others: implies(result == nil && old(stored(name, ver)), keptelse(vb(name), hb(rv_hash(old(kval(vb(name), vkey(name, ver))))), ub(rv_uid(old(kval(vb(name), vkey(name, ver)))))) && keptobj() && sel(b_val, vb(name)) == old(sel(b_val, vb(name))))
  ensures nothing: implies(result == nil && !old(stored(name, ver)), keptall() && keptobj())

func (metaserver/internal/usecase/repo.MetadataRepo).RemoveAllVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 9223372036854775807
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(name)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures counter: bseq(vb(name)) == old(bseq(vb(name)))
  ensures gone: implies(result == nil, on(vb(name)) && forallstr(k, !khas(vb(name), k)))
  ensures objects: keptobj()
  ensures hashindex: implies(result == nil, forallstr(h, forallstr(j, listed(hb(h), j) == (old(listed(hb(h), j)) && !(old(khas(vb(name), j)) && rv_hash(old(kval(vb(name), j))) == h)))))
  ensures uidindex: implies(result == nil, forallstr(h, forallstr(j, listed(ub(h), j) == (old(listed(ub(h), j)) && !(old(khas(vb(name), j)) && rv_uid(old(kval(vb(name), j))) == h)))))
  ensures others: implies(result == nil, forall(b, implies(deep(b) && b != vb(name), sel(b_on, b) == sel(old(b_on), b) && sel(b_seq, b) == sel(old(b_seq), b) && sel(b_val, b) == sel(old(b_val), b) && implies(subpar(b) != hroot() && subpar(b) != uroot(), sel(b_has, b) == sel(old(b_has), b)))))

func (metaserver/internal/usecase/repo.MetadataRepo).AddMetadata
  property M02
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Extra
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures exists: implies(old(ismeta(id)), result != nil)
  ensures stored: implies(result == nil, ismeta(id) && mmatch(data, kval(mroot(), id)))
  ensures fresh: implies(result == nil, on(vb(id)) && forallstr(k, !khas(vb(id), k)) && bseq(vb(id)) == 0)
  ensures records: implies(result == nil, forallstr(k, implies(k != id, ismeta(k) == old(ismeta(k)) && implies(ismeta(k), kval(mroot(), k) == old(kval(mroot(), k))))))
  ensures others: forall(b, implies(deep(b) && b != vb(id), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_val, b) == sel(old(b_val), b) && sel(b_seq, b) == sel(old(b_seq), b)))

func (metaserver/internal/usecase/repo.MetadataRepo).UpdateMetadata
  property M02
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Extra, data.Bucket, data.CreateTime
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures absent: implies(!old(ismeta(name)), result != nil)
  ensures newer: implies(old(ismeta(name)) && data != nil && data.UpdateTime <= rm_ut(old(kval(mroot(), name))), result != nil)
  ensures kept: implies(result == nil, rm_bucket(kval(mroot(), name)) == rm_bucket(old(kval(mroot(), name))) && rm_ct(kval(mroot(), name)) == rm_ct(old(kval(mroot(), name))))
  ensures given: implies(result == nil, rm_name(kval(mroot(), name)) == data.Name && rm_ut(kval(mroot(), name)) == data.UpdateTime)
  ensures records: implies(result == nil, forallstr(k, ismeta(k) == old(ismeta(k)) && implies(k != name && ismeta(k), kval(mroot(), k) == old(kval(mroot(), k)))))
  ensures others: keptall()

func (metaserver/internal/usecase/repo.MetadataRepo).RemoveMetadata
  property M02 M03
  options bytesval gosync
  requires made: m.MainDB != nil && m.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 9223372036854775807
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures gone: implies(result == nil, !ismeta(name) && implies(old(ismeta(name)), !on(vb(name))))
  ensures records: implies(result == nil, forallstr(k, implies(k != name, ismeta(k) == old(ismeta(k)) && implies(ismeta(k), kval(mroot(), k) == old(kval(mroot(), k))))))
  ensures nothing: implies(!old(ismeta(name)), keptall())
  ensures hashindex: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forallstr(h, forallstr(j, listed(hb(h), j) == (old(listed(hb(h), j)) && !(old(khas(vb(name), j)) && rv_hash(old(kval(vb(name), j))) == h)))))
  ensures uidindex: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forallstr(h, forallstr(j, listed(ub(h), j) == (old(listed(ub(h), j)) && !(old(khas(vb(name), j)) && rv_uid(old(kval(vb(name), j))) == h)))))
  ensures others: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forall(b, implies(deep(b) && b != vb(name), sel(b_on, b) == sel(old(b_on), b) && sel(b_seq, b) == sel(old(b_seq), b) && sel(b_val, b) == sel(old(b_val), b) && implies(subpar(b) != hroot() && subpar(b) != uroot(), sel(b_has, b) == sel(old(b_has), b)))))

func (metaserver/internal/usecase/repo.BatchMetaRepo).AddVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires room: bseq(vb(name)) < 18446744073709551615
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Sequence
  ensures tree: tree()
  ensures numbered: numbered(name)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures duplicate: implies(data != nil && existsstr(k, old(listed(ub(data.UniqueId), k))), result != nil)
  ensures newnumber: implies(result == nil, data.Sequence > old(bseq(vb(name))) && bseq(vb(name)) == data.Sequence)
  ensures present: implies(result == nil, data != nil && old(on(vb(name))) && on(vb(name)))
  ensures content: implies(result == nil, vmatch(data, kval(vb(name), vkey(name, data.Sequence))))
  ensures others: implies(result == nil, keptelse(vb(name), hb(data.Hash), ub(data.UniqueId)) && keptobj())
  ensures versions: implies(result == nil, forallstr(k, khas(vb(name), k) == (old(khas(vb(name), k)) || k == vkey(name, data.Sequence)) && implies(k != vkey(name, data.Sequence), kval(vb(name), k) == old(kval(vb(name), k)))))
  ensures hashindex: implies(result == nil, gained(hb(data.Hash), vkey(name, data.Sequence)))
  ensures uidindex: implies(result == nil, gained(ub(data.UniqueId), vkey(name, data.Sequence)))

func (metaserver/internal/usecase/repo.BatchMetaRepo).AddVersionFromRaft
  property M01 M02 M03
  options bytesval gosync
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(id)
  requires number: implies(data != nil, data.Sequence >= 0)
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(id)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures duplicate: implies(data != nil && existsstr(k, old(listed(ub(data.UniqueId), k))), result != nil)
  ensures newnumber: implies(result == nil, !old(stored(id, data.Sequence)) && bseq(vb(id)) == max(old(bseq(vb(id))), data.Sequence))
  ensures present: implies(result == nil, data != nil && old(on(vb(id))) && on(vb(id)))
  ensures content: implies(result == nil, vmatch(data, kval(vb(id), vkey(id, data.Sequence))))
  ensures others: implies(result == nil, keptelse(vb(id), hb(data.Hash), ub(data.UniqueId)) && keptobj())
  ensures versions: implies(result == nil, forallstr(k, khas(vb(id), k) == (old(khas(vb(id), k)) || k == vkey(id, data.Sequence)) && implies(k != vkey(id, data.Sequence), kval(vb(id), k) == old(kval(vb(id), k)))))
  ensures hashindex: implies(result == nil, gained(hb(data.Hash), vkey(id, data.Sequence)))
  ensures uidindex: implies(result == nil, gained(ub(data.UniqueId), vkey(id, data.Sequence)))

func (metaserver/internal/usecase/repo.BatchMetaRepo).UpdateVersion
  property M02 M03
  options bytesval gosync exactretry
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  modifies b_on, b_has, b_val, b_seq, tx_w, data.UniqueId, data.Sequence, data.Hash
  ensures tree: tree()
  ensures numbered: numbered(name)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures absent: implies(data != nil && !old(stored(name, data.Sequence)), result != nil)
  ensures newer: implies(data != nil && old(data.Ts) <= old(rv_ts(kval(vb(name), vkey(name, data.Sequence)))), result != nil)
  ensures identity: implies(result == nil, rv_hash(kval(vb(name), vkey(name, old(data.Sequence)))) == rv_hash(old(kval(vb(name), vkey(name, old(data.Sequence))))) && rv_uid(kval(vb(name), vkey(name, old(data.Sequence)))) == rv_uid(old(kval(vb(name), vkey(name, old(data.Sequence))))) && rv_seq(kval(vb(name), vkey(name, old(data.Sequence)))) == rv_seq(old(kval(vb(name), vkey(name, old(data.Sequence))))))
  ensures content: implies(result == nil, vrest(data, kval(vb(name), vkey(name, old(data.Sequence)))))
  ensures others: implies(result == nil, forallstr(k, implies(k != vkey(name, old(data.Sequence)), kval(vb(name), k) == old(kval(vb(name), k)))) && keptobj())
  ensures elsewhere: forall(b, implies(deep(b), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_seq, b) == sel(old(b_seq), b) && implies(b != vb(name), sel(b_val, b) == sel(old(b_val), b))))

func (metaserver/internal/usecase/repo.BatchMetaRepo).RemoveVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires number: ver >= 0
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(name)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures counter: bseq(vb(name)) == old(bseq(vb(name)))
  ensures gone: implies(result == nil, !stored(name, ver))
  ensures versions: implies(result == nil, forallstr(k, khas(vb(name), k) == (old(khas(vb(name), k)) && (k != vkey(name, ver) || !old(on(vb(name)))))))
  ensures hashindex: implies(result == nil && old(stored(name, ver)), lost(hb(rv_hash(old(kval(vb(name), vkey(name, ver))))), vkey(name, ver)))
  ensures uidindex: implies(result == nil && old(stored(name, ver)), lost(ub(rv_uid(old(kval(vb(name), vkey(name, ver))))), vkey(name, ver)))
  ensures others: implies(result == nil && old(stored(name, ver)), keptelse(vb(name), hb(rv_hash(old(kval(vb(name), vkey(name, ver))))), ub(rv_uid(old(kval(vb(name), vkey(name, ver)))))) && keptobj() && sel(b_val, vb(name)) == old(sel(b_val, vb(name))))
  ensures nothing: implies(result == nil && !old(stored(name, ver)), keptall() && keptobj())

func (metaserver/internal/usecase/repo.BatchMetaRepo).RemoveAllVersion
  property M01 M02 M03
  options bytesval gosync
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(id)
  requires small: bseq(vb(id)) < 9223372036854775807
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures numbered: numbered(id)
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures counter: bseq(vb(id)) == old(bseq(vb(id)))
  ensures gone: implies(result == nil, on(vb(id)) && forallstr(k, !khas(vb(id), k)))
  ensures objects: keptobj()
  ensures hashindex: implies(result == nil, forallstr(h, forallstr(j, listed(hb(h), j) == (old(listed(hb(h), j)) && !(old(khas(vb(id), j)) && rv_hash(old(kval(vb(id), j))) == h)))))
  ensures uidindex: implies(result == nil, forallstr(h, forallstr(j, listed(ub(h), j) == (old(listed(ub(h), j)) && !(old(khas(vb(id), j)) && rv_uid(old(kval(vb(id), j))) == h)))))
  ensures others: implies(result == nil, forall(b, implies(deep(b) && b != vb(id), sel(b_on, b) == sel(old(b_on), b) && sel(b_seq, b) == sel(old(b_seq), b) && sel(b_val, b) == sel(old(b_val), b) && implies(subpar(b) != hroot() && subpar(b) != uroot(), sel(b_has, b) == sel(old(b_has), b)))))

func (metaserver/internal/usecase/repo.BatchMetaRepo).AddMetadata
  property M02
  options bytesval gosync exactretry
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Extra
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures exists: implies(old(ismeta(id)), result != nil)
  ensures stored: implies(result == nil, ismeta(id) && mmatch(data, kval(mroot(), id)))
  ensures fresh: implies(result == nil, on(vb(id)) && forallstr(k, !khas(vb(id), k)) && bseq(vb(id)) == 0)
  ensures records: implies(result == nil, forallstr(k, implies(k != id, ismeta(k) == old(ismeta(k)) && implies(ismeta(k), kval(mroot(), k) == old(kval(mroot(), k))))))
  ensures others: forall(b, implies(deep(b) && b != vb(id), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_val, b) == sel(old(b_val), b) && sel(b_seq, b) == sel(old(b_seq), b)))

func (metaserver/internal/usecase/repo.BatchMetaRepo).UpdateMetadata
  property M02
  options bytesval gosync exactretry
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  modifies b_on, b_has, b_val, b_seq, tx_w, data.Extra, data.Bucket, data.CreateTime
  ensures nil: implies(data == nil, result != nil)
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures absent: implies(!old(ismeta(name)), result != nil)
  ensures newer: implies(old(ismeta(name)) && data != nil && data.UpdateTime <= rm_ut(old(kval(mroot(), name))), result != nil)
  ensures kept: implies(result == nil, rm_bucket(kval(mroot(), name)) == rm_bucket(old(kval(mroot(), name))) && rm_ct(kval(mroot(), name)) == rm_ct(old(kval(mroot(), name))))
  ensures given: implies(result == nil, rm_name(kval(mroot(), name)) == data.Name && rm_ut(kval(mroot(), name)) == data.UpdateTime)
  ensures records: implies(result == nil, forallstr(k, ismeta(k) == old(ismeta(k)) && implies(k != name && ismeta(k), kval(mroot(), k) == old(kval(mroot(), k)))))
  ensures others: keptall()

func (metaserver/internal/usecase/repo.BatchMetaRepo).RemoveMetadata
  property M02 M03
  options bytesval gosync
  requires made: br.Storage != nil && br.Cache != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 9223372036854775807
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures tree: tree()
  ensures refused: implies(result != nil, keptall() && keptobj())
  ensures gone: implies(result == nil, !ismeta(name) && implies(old(ismeta(name)), !on(vb(name))))
  ensures records: implies(result == nil, forallstr(k, implies(k != name, ismeta(k) == old(ismeta(k)) && implies(ismeta(k), kval(mroot(), k) == old(kval(mroot(), k))))))
  ensures nothing: implies(!old(ismeta(name)), keptall())
  ensures hashindex: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forallstr(h, forallstr(j, listed(hb(h), j) == (old(listed(hb(h), j)) && !(old(khas(vb(name), j)) && rv_hash(old(kval(vb(name), j))) == h)))))
  ensures uidindex: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forallstr(h, forallstr(j, listed(ub(h), j) == (old(listed(ub(h), j)) && !(old(khas(vb(name), j)) && rv_uid(old(kval(vb(name), j))) == h)))))
  ensures others: implies(result == nil && old(ismeta(name)) && old(on(vb(name))), forall(b, implies(deep(b) && b != vb(name), sel(b_on, b) == sel(old(b_on), b) && sel(b_seq, b) == sel(old(b_seq), b) && sel(b_val, b) == sel(old(b_val), b) && implies(subpar(b) != hroot() && subpar(b) != uroot(), sel(b_has, b) == sel(old(b_has), b)))))

func (metaserver/internal/usecase/repo.MetadataRepo).GetFirstVersionNumber
  property M01
  options bytesval
  requires made: m.MainDB != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 18446744073709551616
  modifies tx_w
  ensures stored: result == 0 || stored(name, result)
  ensures extreme: result == 0 || forallstr(k, implies(khas(vb(name), k), result <= vnum(k)))

func metaserver/internal/usecase/repo.lastVersionNumber
  property M01
  options bytesval
  requires made: s != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 18446744073709551616
  modifies tx_w
  ensures stored: result == 0 || stored(name, result)
  ensures extreme: result == 0 || forallstr(k, implies(khas(vb(name), k), result >= vnum(k)))

func (metaserver/internal/usecase/repo.MetadataRepo).GetLastVersionNumber
  property M01
  options bytesval
  requires made: m.MainDB != nil
  requires tree: tree()
  requires numbered: numbered(name)
  requires small: bseq(vb(name)) < 18446744073709551616
  modifies tx_w
  ensures stored: result == 0 || stored(name, result)
  ensures extreme: result == 0 || forallstr(k, implies(khas(vb(name), k), result >= vnum(k)))

func (metaserver/internal/usecase/repo.MetadataRepo).GetExtra
  property M01
  options bytesval
  requires made: m.MainDB != nil
  requires tree: tree()
  requires numbered: numbered(id)
  requires small: bseq(vb(id)) < 9223372036854775807
  modifies tx_w
  ensures given: result0 != nil
  ensures total: implies(result1 == nil, on(vb(id)) && result0.Total == card(sel(b_has, vb(id))))
  ensures empty: implies(result1 == nil && forallstr(k, !khas(vb(id), k)), result0.FirstVersion == 0 && result0.LastVersion == 0 && result0.Total == 0)
  ensures first: implies(result1 == nil, forallstr(k, implies(khas(vb(id), k), stored(id, result0.FirstVersion) && result0.FirstVersion <= vnum(k))))
  ensures last: implies(result1 == nil, forallstr(k, implies(khas(vb(id), k), stored(id, result0.LastVersion) && result0.LastVersion >= vnum(k))))

func (metaserver/internal/usecase/repo.HashIndexRepo).FindAll
  property M03
  options bytesval
  requires made: h.Storage != nil
  requires tree: tree()
  modifies tx_w
  ensures only: implies(err == nil, forall(i, 0, len(keys), listed(hb(hash), keys[i])))
  ensures all: implies(err == nil, forallstr(k, implies(listed(hb(hash), k), exists(i, 0, len(keys), keys[i] == k))))
  ensures once: implies(err == nil, forall(i, 0, len(keys), forall(j, 0, i, keys[i] != keys[j])))

func (metaserver/internal/usecase/repo.HashIndexRepo).Remove
  property M03
  options bytesval
  requires made: h.Storage != nil
  requires tree: tree()
  modifies b_on, b_has, b_val, b_seq, tx_w
  ensures lost: implies(result == nil, lost(hb(hash), key))
  ensures refused: implies(result != nil, keptall())
  ensures others: forall(b, implies(deep(b) && b != hb(hash), sel(b_on, b) == sel(old(b_on), b) && sel(b_has, b) == sel(old(b_has), b) && sel(b_val, b) == sel(old(b_val), b) && sel(b_seq, b) == sel(old(b_seq), b))) && keptobj()

func (metaserver/internal/usecase/repo.MetadataRepo).ExistsByUniqueId
  property M03
  options bytesval
  requires made: m.MainDB != nil
  requires tree: tree()
  modifies tx_w
  ensures found: implies(result1 == nil, result0 == existsstr(k, listed(ub(uniqueId), k)))

