// A02: a bucket's storage policy. A04: storage identities.

define ecShards(b, conf) = ite(b.StoreStrategy > 0, b.DataShards, conf.ReedSolomon.DataShards)
define strategyOf(b, asked) = ite(b.StoreStrategy > 0, b.StoreStrategy, asked)
// 2 is MultiReplication, every other strategy is stored as erasure coded
define shardsHold(ds, ss, size) = ds*ss >= size && ds*(ss-1) < size

func (apiserver/config.RsConfig).AllShards
  property A02
  requires small: -1000000 <= r.DataShards && r.DataShards <= 1000000 && -1000000 <= r.ParityShards && r.ParityShards <= 1000000
  ensures sum: result == r.DataShards + r.ParityShards

func (apiserver/config.RsConfig).BlockSize
  property A02 E01
  requires small: 0 <= r.DataShards && r.DataShards <= 1000000 && 0 <= r.BlockPerShard && r.BlockPerShard <= 1099511627776
  ensures product: result == r.BlockPerShard * r.DataShards

func (apiserver/config.RsConfig).ShardSize
  property A02
  requires some: r.DataShards > 0
  requires fits: 0 <= totalSize && totalSize + r.DataShards <= 9223372036854775807
  hint up: r.DataShards * ((totalSize + r.DataShards - 1) / r.DataShards) >= totalSize
  ensures hold: shardsHold(r.DataShards, result, totalSize)

func (apiserver/internal/entity.Bucket).MakeVersion
  property A02
  requires args: ver != nil && conf != nil && ver != b
  requires shards: implies(strategyOf(b, ver.StoreStrategy) != 2, ecShards(b, conf) > 0 && ver.Size + ecShards(b, conf) <= 9223372036854775807)
  requires size: ver.Size >= 0
  modifies ver.Compress, ver.StoreStrategy, ver.DataShards, ver.ParityShards, ver.ShardSize
  ensures compress: ver.Compress == (b.Compress || old(ver.Compress))
  ensures strategy: ver.StoreStrategy == strategyOf(b, old(ver.StoreStrategy))
  ensures ec_counts: implies(ver.StoreStrategy != 2, ver.DataShards == ecShards(b, conf) && ver.ParityShards == ite(b.StoreStrategy > 0, b.ParityShards, conf.ReedSolomon.ParityShards))
  ensures ec_size: implies(ver.StoreStrategy != 2, shardsHold(ver.DataShards, ver.ShardSize, ver.Size))
  ensures copies: implies(ver.StoreStrategy == 2, ver.DataShards == ite(b.StoreStrategy > 0, b.DataShards, conf.Replication.CopiesCount) && ver.ShardSize == ver.Size && ver.ParityShards == old(ver.ParityShards))

// the block an object is cut into, per shard: the configured one if it fills whole network packages, else enlarged to
// the next package but not beyond the object, and never zero
define alignedBlock(bps, ds, size) = ite(bps*ds % cst.OS.NetPkgSize == 0, bps,
   max(1, min(bps*ds - bps*ds % cst.OS.NetPkgSize + cst.OS.NetPkgSize, size) / ds))
define netpkg() = cst.OS.NetPkgSize >= 1 && cst.OS.NetPkgSize <= 1073741824

func (apiserver/internal/entity.Bucket).MakeConf
  property A02
  requires args: conf != nil && objectSize >= 0
  requires os: netpkg()
  requires shards: implies(b.StoreStrategy == 1, 0 < b.DataShards && b.DataShards <= 1000000) && 0 < conf.ReedSolomon.DataShards && conf.ReedSolomon.DataShards <= 1000000
  requires block: 1 <= conf.ReedSolomon.BlockPerShard && conf.ReedSolomon.BlockPerShard <= 1099511627776
  ensures ec: cfg.ReedSolomon.DataShards == ite(b.StoreStrategy == 1, b.DataShards, conf.ReedSolomon.DataShards) && cfg.ReedSolomon.ParityShards == ite(b.StoreStrategy == 1, b.ParityShards, conf.ReedSolomon.ParityShards) && cfg.ReedSolomon.RewriteAsync == conf.ReedSolomon.RewriteAsync
  ensures copies: cfg.Replication.CopiesCount == ite(b.StoreStrategy == 2, b.DataShards, conf.Replication.CopiesCount)
  ensures others: cfg.Replication.BlockSize == conf.Replication.BlockSize && cfg.Replication.LossToleranceRate == conf.Replication.LossToleranceRate
  ensures block: cfg.ReedSolomon.BlockPerShard == alignedBlock(conf.ReedSolomon.BlockPerShard, cfg.ReedSolomon.DataShards, objectSize) && cfg.ReedSolomon.BlockPerShard >= 1

// different settings give different texts (and so, without collisions, different identities)
uf sp() Str
axiom sp_is: sp() == " "
axiom zeros: sp() + itoa(0) + sp() + itoa(0) + sp() == " 0 0 "
axiom itoa_zero: forall(i, trig(itoa(i)), implies(i == 0, itoa(i) == "0") && sp() == " ")
define nospace(s) = forall(k, 0, len(s), s[k] != sp()[0])
axiom itoa_text: forall(i, trig(itoa(i)), nospace(itoa(i)) && len(itoa(i)) >= 1 && implies(0 <= i && i <= 9, len(itoa(i)) == 1))
lemma last_space: forallstr(x, forallstr(y, forallstr(a, forallstr(b, trig(x + sp() + a, y + sp() + b),
   implies(nospace(a) && nospace(b) && x + sp() + a == y + sp() + b && (x + sp() + a)[len(y)] == (y + sp() + b)[len(y)] && (x + sp() + a)[len(x)] == (y + sp() + b)[len(x)], x == y && a == b)))))

uf sha256hex(Str) Str
axiom sha256_no_collisions: forallstr(a, forallstr(b, trig(sha256hex(a), sha256hex(b)), implies(sha256hex(a) == sha256hex(b), a == b)))
extern common/util/crypto.SHA256
  params bt
  ensures hash: result == sha256hex(str(bt))

func (apiserver/internal/usecase/service.ObjectService).UniqueHash
  property A04
  requires known: 0 <= ss && ss <= 9
  hint identity: result == sha256hex(identityText(digest, ss, ds, ps, compress))
  ensures distinct: forallstr(d, forall(s, forall(n, forall(p, forallbool(c, implies(0 <= s && s <= 9 && result == sha256hex(identityText(d, s, n, p, c)),
     d == digest && s == ss && c == compress && implies(ss != 2, n == ds && p == ps)))))))

rec tf(c: Bool) Str by 0 = ite(c, "true", "false")
lemma tf_text: forallbool(c, trig(tf(c)), nospace(tf(c)))
lemma tf_inj: forallbool(c, forallbool(c2, trig(tf(c), tf(c2)), implies(tf(c) == tf(c2), c == c2)))
rec pre1(d: Str, s: Int) Str by 0 = d + itoa(s)
rec pre2(d: Str, s: Int, n: Int) Str by 0 = pre1(d, s) + sp() + itoa(n)
rec pre3(d: Str, s: Int, n: Int, p: Int) Str by 0 = pre2(d, s, n) + sp() + itoa(p)
rec text1(d: Str, s: Int, n: Int, p: Int, c: Bool) Str by 0 = pre3(d, s, n, p) + sp() + tf(c)
lemma text1_flat: forallstr(d, forall(s, forall(n, forall(p, forallbool(c, trig(text1(d, s, n, p, c)), text1(d, s, n, p, c) == d + itoa(s) + sp() + itoa(n) + sp() + itoa(p) + sp() + tf(c))))))
lemma text1_zero: forallstr(d, forall(s, forallbool(c, trig(text1(d, s, 0, 0, c)), text1(d, s, 0, 0, c) == d + itoa(s) + " 0 0 " + tf(c))))
lemma pre1_inj: forallstr(d, forall(s, forallstr(d2, forall(s2, trig(pre1(d, s), pre1(d2, s2)),
   implies(0 <= s && s <= 9 && 0 <= s2 && s2 <= 9 && pre1(d, s) == pre1(d2, s2), d == d2 && s == s2)))))
lemma pre2_inj: forallstr(d, forall(s, forall(n, forallstr(d2, forall(s2, forall(n2, trig(pre2(d, s, n), pre2(d2, s2, n2)),
   implies(pre2(d, s, n) == pre2(d2, s2, n2), pre1(d, s) == pre1(d2, s2) && n == n2)))))))
lemma pre3_inj: forallstr(d, forall(s, forall(n, forall(p, forallstr(d2, forall(s2, forall(n2, forall(p2, trig(pre3(d, s, n, p), pre3(d2, s2, n2, p2)),
   implies(pre3(d, s, n, p) == pre3(d2, s2, n2, p2), pre2(d, s, n) == pre2(d2, s2, n2) && p == p2)))))))))
lemma text1_inj: forallstr(d, forall(s, forall(n, forall(p, forallbool(c, forallstr(d2, forall(s2, forall(n2, forall(p2, forallbool(c2, trig(text1(d, s, n, p, c), text1(d2, s2, n2, p2, c2)),
   implies(0 <= s && s <= 9 && 0 <= s2 && s2 <= 9 && text1(d, s, n, p, c) == text1(d2, s2, n2, p2, c2), d == d2 && s == s2 && n == n2 && p == p2 && c == c2)))))))))))
define identityText(digest, ss, ds, ps, compress) = text1(digest, ss, ite(ss == 2, 0, ds), ite(ss == 2, 0, ps), compress)

// the block written is the block read: both go through the same layout, a function of the version's shards and size
func apiserver/internal/usecase/service.RsStreamProvider
  property A02
  requires layout: cfg != nil && opt != nil && cfg.BlockPerShard == alignedBlock(pool.Config.Object.ReedSolomon.BlockPerShard, cfg.DataShards, opt.Size) && cfg.BlockPerShard >= 1

func apiserver/internal/usecase/service.CpStreamProvider
  property A02
  requires copies: cfg != nil && opt != nil

func apiserver/internal/usecase/service.NewStreamProvider
  property A02
  requires args: opt != nil && ver != nil && pool.Config != nil && netpkg() && opt.Size >= 0
  requires shards: implies(ver.StoreStrategy != 2, 0 < ver.DataShards && ver.DataShards <= 1000000)
  requires same: opt.Hash == ver.Hash && opt.Size == ver.Size && opt.Compress == ver.Compress
  requires block: 1 <= pool.Config.Object.ReedSolomon.BlockPerShard && pool.Config.Object.ReedSolomon.BlockPerShard <= 1099511627776
