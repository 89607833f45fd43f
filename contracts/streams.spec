# E01, E03: uploads are handed on whole and in order.

# the bytes each stream has received, the streams that were committed, the groups an error was delivered to
ghost got: (Array Int Str)
ghost committed: (Array Int Bool)
ghost dgerr: (Array Int Bool)

extern common/util.NewDoneGroup
  modifies dgerr
  ensures none: result != nil && dgerr == sto(old(dgerr), result, false)

extern (common/util.DoneGroup).Todo
extern (common/util.DoneGroup).Done
extern (common/util.DoneGroup).Close
extern (common/util.DoneGroup).Error
  params e
  modifies dgerr
  ensures kept: dgerr == sto(old(dgerr), recv, old(dgerr[recv]) || e != nil)
extern (common/util.DoneGroup).WaitUntilError
  ensures told: (result != nil) == dgerr[recv]

extern (io.Writer).Write
  params p
  modifies got
  ensures sent: 0 <= result0 && result0 <= len(p) && got == sto(old(got), recv, old(got[recv]) + str(p[0:result0]))
  ensures whole: implies(result1 == nil, result0 == len(p))

extern (apiserver/internal/usecase/service.Committer).Commit
  params ok
  modifies committed
  ensures done: committed == sto(old(committed), recv, old(committed[recv]) || (ok && result == nil))

# cutting a text in two loses nothing, and it does not matter in which order parts are joined
# (mentioned by the contracts that need these two facts about texts)
uf textfacts(Int) Bool
axiom cut: forallstr(s, forall(i, forall(j, forall(k, trig(s[i:j], s[j:k]), implies(textfacts(0) && 0 <= i && i <= j && j <= k && k <= len(s), s[i:j] + s[j:k] == s[i:k])))))
uf itself(Str) Str
axiom itself_is: forallstr(s, trig(itself(s)), itself(s) == s)
axiom joins: forallstr(s, forallstr(u, forallstr(v, trig(s + (u + v), s + u), implies(textfacts(0), itself(s + u) + v == s + (u + v)))))
axiom textfacts_on: textfacts(0)

inline common/util.InstanceOf
inline common/util/slices.Clear

func (apiserver/config.ReplicationConfig).ToleranceLossNum
  property E03
  requires count: rp.CopiesCount >= 0
  ensures range: 0 <= result && result <= max(0, rp.CopiesCount - 1)

func (apiserver/config.ReplicationConfig).AtLeastCopiesNum
  property E03
  requires some: rp.CopiesCount >= 1
  ensures range: 1 <= result && result <= rp.CopiesCount

define copies(c) = forall(i, 0, len(c.writers), c.writers[i] != nil && forall(j, 0, len(c.writers), implies(i != j, c.writers[i] != c.writers[j])))
define blocks(c) = 0 < c.rpConfig.BlockSize && c.rpConfig.BlockSize <= 4611686018427387904 && len(c.cache) < c.rpConfig.BlockSize

func (apiserver/internal/usecase/service.CopyPutStream).Flush
  property E03
  options gosync
  requires wf: copies(c)
  modifies c.cache, c.err, got, dgerr
  ensures sent: implies(result == nil, old(c.err) == nil && forall(i, 0, len(c.writers), trig(got[c.writers[i]]), got[c.writers[i]] == old(got[c.writers[i]]) + old(str(c.cache))))
  ensures empty: implies(result == nil, len(c.cache) == 0)
  ensures failed: (result != nil) == (c.err != nil)
  ensures same: ref(c.cache) == old(ref(c.cache)) && implies(old(c.err) == nil, len(c.cache) == 0) && implies(old(c.err) != nil, c.cache == old(c.cache))
  loop 1
    invariant here: c.err == nil && c.cache == old(c.cache)
    invariant sent: implies(!dgerr[dg], forall(i, 0, iter(), got[c.writers[i]] == old(got[c.writers[i]]) + old(str(c.cache))))
    invariant todo: forall(i, iter(), len(c.writers), got[c.writers[i]] == old(got[c.writers[i]]))

func (apiserver/internal/usecase/service.CopyPutStream).Write
  property E03
  options gosync bytefacts
  requires wf: copies(c) && blocks(c)
  requires own: ref(p) != ref(c.cache)
  modifies c.cache, c.err, got, dgerr, elems(c.cache)
  ensures sent: implies(result1 == nil, result0 == len(p) && forall(i, 0, len(c.writers), trig(got[c.writers[i]]), got[c.writers[i]] + str(c.cache) == old(got[c.writers[i]]) + old(str(c.cache)) + old(str(p))))
  ensures failed: (result1 != nil) == (c.err != nil) && implies(old(c.err) != nil, result1 != nil)
  ensures count: 0 <= result0 && result0 <= len(p)
  ensures wf: blocks(c)
  loop 1
    invariant here: textfacts(0) && 0 <= cur && 0 <= length && cur + length == len(p) && c.err == nil && err == nil && blocks(c)
    invariant own: ref(c.cache) == old(ref(c.cache)) || (fresh(c.cache) && (ref(c.cache) == atentry(ref(c.cache)) || freshin(c.cache)))
    invariant sent: forall(i, 0, len(c.writers), trig(got[c.writers[i]]), got[c.writers[i]] + str(c.cache) == old(got[c.writers[i]]) + old(str(c.cache)) + old(str(p))[0:cur])
    invariant same: str(p) == old(str(p))
    decreases length

func (apiserver/internal/usecase/service.CopyPutStream).Commit
  property E03
  options gosync
  requires wf: copies(c)
  modifies c.cache, c.err, got, dgerr, committed
  ensures sent: implies(result == nil && ok, old(c.err) == nil && forall(i, 0, len(c.writers), trig(got[c.writers[i]]), got[c.writers[i]] == old(got[c.writers[i]]) + old(str(c.cache))))
  ensures all: implies(result == nil && ok, forall(i, 0, len(c.writers), implies(isa(c.writers[i], "apiserver/internal/usecase/service.Committer"), committed[c.writers[i]])))
  ensures none: implies(!ok, committed == old(committed) && got == old(got))
  ensures empty: implies(result == nil, len(c.cache) == 0)
  loop 1
    invariant all: implies(ok && !dgerr[wg], forall(i, 0, iter(), implies(isa(c.writers[i], "apiserver/internal/usecase/service.Committer"), committed[c.writers[i]])))
    invariant none: implies(!ok, committed == old(committed))

# E01. What an encoder has been given to split so far: a history of blocks, each with the padding that
# was put at its end, the text the blocks make up together, whether each had a given length, and the
# bytes of shard i over all of them, where piece is what the library makes of one padded block: the
# first ds pieces are the block cut into equal parts, the others its parity.
ghost hist: (Array Int Str)
uf encds(Int) Int
uf encps(Int) Int
uf snoc(Str, Str, Str) Str
uf text(Str) Str
uf allfull(Str, Int) Bool
uf shard(Int, Str, Int, Int) Str
uf piece(Int, Str, Int, Int) Str
axiom text_empty: text("") == ""
axiom full_empty: forall(n, trig(allfull("", n)), allfull("", n))
axiom shard_empty: forall(i, forall(ds, forall(ps, trig(shard(i, "", ds, ps)), shard(i, "", ds, ps) == "")))
axiom snoc_text: forallstr(h, forallstr(b, forallstr(z, trig(snoc(h, b, z)), text(snoc(h, b, z)) == text(h) + b)))
axiom snoc_full: forallstr(h, forallstr(b, forallstr(z, forall(n, trig(allfull(snoc(h, b, z), n)), allfull(snoc(h, b, z), n) == (allfull(h, n) && len(b) == n)))))
axiom snoc_shard: forallstr(h, forallstr(b, forallstr(z, forall(i, forall(ds, forall(ps, trig(shard(i, snoc(h, b, z), ds, ps)), shard(i, snoc(h, b, z), ds, ps) == shard(i, h, ds, ps) + piece(i, b + z, ds, ps)))))))

# the padding is shorter than the number of parts; its bytes are not known. The split result remembers
# its padded block (blockof), so that the parity that Encode computes is that of this block.
uf blockof(Int) Str
uf padof(Int) Str
extern (github.com/klauspost/reedsolomon.Encoder).Split
  params data
  requires parity: encps(recv) >= 1
  modifies hist
  ensures given: implies(result1 == nil, hist == sto(old(hist), recv, snoc(old(hist[recv]), str(data), padof(ref(result0)))))
  ensures kept: implies(result1 != nil, hist == old(hist))
  ensures of: implies(result1 == nil, blockof(ref(result0)) == str(data) + padof(ref(result0)) && len(padof(ref(result0))) < encds(recv))
  ensures pieces: implies(result1 == nil, len(result0) == encds(recv) + encps(recv) && forall(i, 0, encds(recv), str(result0[i]) == piece(i, blockof(ref(result0)), encds(recv), encps(recv))))

# the contents of the parity pieces are not known before
extern (github.com/klauspost/reedsolomon.Encoder).Encode
  params shards
  ensures parity: implies(result == nil, forall(i, encds(recv), len(shards), str(shards[i]) == piece(i, blockof(ref(shards)), encds(recv), encps(recv))))

define encoding(e) = e.enc != nil && encds(e.enc) == e.rsConfig.DataShards && encps(e.enc) == e.rsConfig.ParityShards && e.rsConfig.DataShards >= 1 && e.rsConfig.ParityShards >= 1 && e.rsConfig.DataShards <= 65536 && e.rsConfig.ParityShards <= 65536 && len(e.writers) == e.rsConfig.DataShards + e.rsConfig.ParityShards && forall(i, 0, len(e.writers), e.writers[i] != nil && forall(j, 0, len(e.writers), implies(i != j, e.writers[i] != e.writers[j])))
define bs(e) = e.rsConfig.BlockPerShard * e.rsConfig.DataShards
define ecblocks(e) = 0 <= e.rsConfig.BlockPerShard && e.rsConfig.BlockPerShard <= 1099511627776 && 0 < bs(e) && len(e.cache) < bs(e)
# every shard has received exactly its part of the blocks so far
define shards(e) = forall(i, 0, len(e.writers), trig(got[e.writers[i]]), got[e.writers[i]] == shard(i, hist[e.enc], e.rsConfig.DataShards, e.rsConfig.ParityShards))

extern github.com/klauspost/reedsolomon.New
  params dataShards, parityShards, opts
  ensures made: implies(1 <= dataShards && 0 <= parityShards && dataShards + parityShards <= 256, result1 == nil)
  ensures of: implies(result1 == nil, result0 != nil && encds(result0) == dataShards && encps(result0) == parityShards && hist[result0] == "" && 1 <= dataShards && 0 <= parityShards)
extern github.com/klauspost/reedsolomon.WithAutoGoroutines

func apiserver/internal/usecase/service.NewEncoder
  property E01
  requires cfg: rsCfg != nil && rsCfg.DataShards >= 1 && rsCfg.ParityShards >= 1 && rsCfg.DataShards + rsCfg.ParityShards <= 256 && 0 < rsCfg.BlockPerShard && rsCfg.BlockPerShard <= 1099511627776
  requires wrs: len(wrs) == rsCfg.DataShards + rsCfg.ParityShards && forall(i, 0, len(wrs), wrs[i] != nil && got[wrs[i]] == "" && forall(j, 0, len(wrs), implies(i != j, wrs[i] != wrs[j])))
  ensures ready: result != nil && result.err == nil && encoding(result) && ecblocks(result) && len(result.cache) == 0 && hist[result.enc] == "" && result.writers == wrs

func (apiserver/internal/usecase/service.rsEncoder).Flush
  property E01
  options gosync
  requires wf: encoding(e) && implies(e.err == nil, shards(e))
  modifies e.cache, e.err, got, dgerr, hist
  ensures shards: implies(result1 == nil, old(e.err) == nil && shards(e))
  ensures text: implies(result1 == nil, text(hist[e.enc]) == old(text(hist[e.enc])) + old(str(e.cache)))
  ensures full: implies(result1 == nil, forall(n, trig(allfull(hist[e.enc], n)), allfull(hist[e.enc], n) == (old(allfull(hist[e.enc], n)) && (old(len(e.cache)) == 0 || old(len(e.cache)) == n))))
  ensures empty: implies(result1 == nil, len(e.cache) == 0)
  ensures failed: (result1 != nil) == (e.err != nil)
  ensures same: ref(e.cache) == old(ref(e.cache)) && implies(old(e.err) == nil, len(e.cache) == 0) && implies(old(e.err) != nil, e.cache == old(e.cache))
  loop 1
    invariant here: e.err == nil && e.cache == old(e.cache)
    invariant parity: implies(!dgerr[dg], forall(i, e.rsConfig.DataShards, e.rsConfig.DataShards + iter(), got[e.writers[i]] == old(got[e.writers[i]]) + piece(i, blockof(ref(shards)), e.rsConfig.DataShards, e.rsConfig.ParityShards)))
    invariant todo: forall(i, 0, len(e.writers), implies(i < e.rsConfig.DataShards || i >= e.rsConfig.DataShards + iter(), got[e.writers[i]] == old(got[e.writers[i]])))
  loop 2
    invariant here: e.err == nil && e.cache == old(e.cache)
    invariant data: implies(!dgerr[dg], forall(i, 0, iter(), got[e.writers[i]] == old(got[e.writers[i]]) + piece(i, blockof(ref(shards)), e.rsConfig.DataShards, e.rsConfig.ParityShards)))
    invariant parity: implies(!dgerr[dg], forall(i, e.rsConfig.DataShards, len(e.writers), got[e.writers[i]] == old(got[e.writers[i]]) + piece(i, blockof(ref(shards)), e.rsConfig.DataShards, e.rsConfig.ParityShards)))
    invariant todo: forall(i, iter(), e.rsConfig.DataShards, got[e.writers[i]] == old(got[e.writers[i]]))

func (apiserver/internal/usecase/service.rsEncoder).Write
  property E01
  options gosync bytefacts
  requires wf: encoding(e) && ecblocks(e) && implies(e.err == nil, shards(e) && allfull(hist[e.enc], bs(e)))
  requires own: ref(bt) != ref(e.cache)
  modifies e.cache, e.err, got, dgerr, hist, elems(e.cache)
  ensures all: implies(result1 == nil, result0 == len(bt) && text(hist[e.enc]) + str(e.cache) == old(text(hist[e.enc])) + old(str(e.cache)) + old(str(bt)))
  ensures shards: implies(result1 == nil, shards(e) && allfull(hist[e.enc], bs(e)))
  ensures failed: (result1 != nil) == (e.err != nil) && implies(old(e.err) != nil, result1 != nil)
  ensures count: 0 <= result0 && result0 <= len(bt)
  ensures wf: ecblocks(e)
  loop 1
    invariant here: textfacts(0) && 0 <= cur && 0 <= length && cur + length == len(bt) && e.err == nil && ecblocks(e)
    invariant own: ref(e.cache) == old(ref(e.cache)) || (fresh(e.cache) && (ref(e.cache) == atentry(ref(e.cache)) || freshin(e.cache)))
    invariant shards: shards(e) && allfull(hist[e.enc], bs(e))
    invariant same: str(bt) == old(str(bt))
    invariant all: text(hist[e.enc]) + str(e.cache) == old(text(hist[e.enc])) + old(str(e.cache)) + old(str(bt))[0:cur]
    decreases length

func (apiserver/internal/usecase/service.RSPutStream).Commit
  property E01
  options gosync
  requires wf: p.rsEncoder != nil && encoding(p.rsEncoder) && implies(p.rsEncoder.err == nil, shards(p.rsEncoder))
  modifies p.rsEncoder.cache, p.rsEncoder.err, got, dgerr, hist, committed
  ensures shards: implies(result == nil && ok, old(p.rsEncoder.err) == nil && shards(p.rsEncoder) && text(hist[p.rsEncoder.enc]) == old(text(hist[p.rsEncoder.enc])) + old(str(p.rsEncoder.cache)))
  ensures all: implies(result == nil && ok, forall(i, 0, len(p.rsEncoder.writers), implies(isa(p.rsEncoder.writers[i], "apiserver/internal/usecase/service.Committer"), committed[p.rsEncoder.writers[i]])))
  ensures none: implies(!ok, committed == old(committed) && got == old(got))
  ensures empty: implies(result == nil, len(p.rsEncoder.cache) == 0)
  loop 1
    invariant all: implies(ok && !dgerr[wg], forall(i, 0, iter(), implies(isa(p.rsEncoder.writers[i], "apiserver/internal/usecase/service.Committer"), committed[p.rsEncoder.writers[i]])))
    invariant none: implies(!ok, committed == old(committed))

# E02. Reading an erasure-coded object: what is put into the cache is handed out once, in order, and
# all of it before more is fetched; the blocks fetched make up exactly the object's size; nothing is read
# after a failure. (What a block contains is the subject of the bounded check.)
define decoding(d) = d.enc != nil && d.rsCfg.DataShards >= 1 && d.rsCfg.ParityShards >= 1 && d.rsCfg.DataShards <= 65536 && d.rsCfg.ParityShards <= 65536 && 0 < d.rsCfg.BlockPerShard && d.rsCfg.BlockPerShard <= 1099511627776 && len(d.readers) == d.rsCfg.DataShards + d.rsCfg.ParityShards && len(d.writers) == len(d.readers) && len(d.repairErrs) == len(d.writers) && len(d.shardsBuffer) == d.rsCfg.BlockPerShard * (d.rsCfg.DataShards + d.rsCfg.ParityShards) && 0 <= d.total && d.total <= d.size && d.size <= 4611686018427387904
define reading(d) = 0 <= d.cursor && d.cursor <= len(d.cache) && len(d.cache) <= d.total

# (marks the length of a block's pieces)
uf eclen(Int) Bool
axiom eclen_any: forall(n, trig(eclen(n)), eclen(n))

extern (github.com/klauspost/reedsolomon.Encoder).Reconstruct
  params shards
  modifies elems(shards)
  ensures whole: implies(result == nil, forall(n, trig(eclen(n)), implies(forall(i, 0, len(shards), old(len(shards[i])) == 0 || old(len(shards[i])) == n), forall(i, 0, len(shards), len(shards[i]) == n))))
  ensures other: result != io.EOF

func (apiserver/internal/usecase/service.rsDecoder).getData
  property E02
  options gosync
  requires wf: decoding(d) && d.cursor == 0 && len(d.cache) == 0
  modifies d.cache, d.total, elems(d.readers), elems(d.repairErrs), elems(d.shardsBuffer), elems(d.cache), togive, got
  ensures wf: decoding(d)
  ensures end: (result == io.EOF) == (old(d.total) == d.size)
  ensures more: implies(result == nil, d.total == old(d.total) + len(d.cache) && d.total == min(d.size, old(d.total) + d.rsCfg.BlockPerShard * d.rsCfg.DataShards))
  ensures failed: implies(result != nil, d.total == old(d.total) && len(d.cache) == 0)
  ensures own: ref(d.cache) == old(ref(d.cache)) || fresh(d.cache)
  loop 1
    invariant len: eclen(length) && len(shards) == d.rsCfg.DataShards + d.rsCfg.ParityShards && forall(j, 0, len(shards), len(shards[j]) == 0 || len(shards[j]) == length)
    invariant same: d.total == old(d.total) && d.cache == old(d.cache) && decoding(d)
  loop 2
    invariant len: len(shards) == d.rsCfg.DataShards + d.rsCfg.ParityShards && forall(j, 0, len(shards), len(shards[j]) == length)
    invariant same: d.total == old(d.total) && d.cache == old(d.cache) && decoding(d)
  loop 3
    invariant len: len(shards) == d.rsCfg.DataShards + d.rsCfg.ParityShards && forall(j, 0, len(shards), len(shards[j]) == length)
    invariant same: decoding(d)
    invariant own: ref(d.cache) == old(ref(d.cache)) || fresh(d.cache)
    invariant more: d.total == old(d.total) + len(d.cache) && d.total == min(d.size, old(d.total) + iter() * length)

func (apiserver/internal/usecase/service.rsDecoder).Read
  property E02
  requires wf: decoding(d) && reading(d)
  requires own: ref(bt) != ref(d.cache) && ref(bt) != ref(d.shardsBuffer)
  modifies d.cache, d.total, d.cursor, d.err, elems(d.readers), elems(d.repairErrs), elems(d.shardsBuffer), elems(d.cache), elems(bt), togive, got
  ensures wf: decoding(d) && reading(d)
  ensures count: 0 <= result0 && result0 <= len(bt) && implies(result1 != nil, result0 == 0)
  ensures progress: implies(result1 == nil && len(bt) > 0, result0 > 0)
  ensures same: implies(result1 == nil && old(len(d.cache) - d.cursor) > 0, d.total == old(d.total) && d.cache == old(d.cache) && d.cursor == old(d.cursor) + result0)
  ensures next: implies(result1 == nil && old(len(d.cache) - d.cursor) == 0, d.total == old(d.total) + len(d.cache) && d.cursor == result0)
  ensures bytes: implies(result1 == nil, forall(k, 0, result0, bt[k] == d.cache[d.cursor - result0 + k]))
  ensures end: implies(result1 == io.EOF && old(d.err) == nil, d.total == d.size && old(len(d.cache) - d.cursor) == 0)
  ensures failed: (result1 != nil) == (d.err != nil) && implies(old(d.err) != nil, result1 == old(d.err))

# a repaired shard is kept only when the whole object was read and every repair succeeded
func (apiserver/internal/usecase/service.RSGetStream).Close
  property E02
  options gosync
  requires wf: g.rsDecoder != nil && g.StreamOption != nil && decoding(g.rsDecoder)
  modifies committed, dgerr, got, togive
  ensures whole: implies(g.rsDecoder.total != g.rsDecoder.size || exists(i, 0, len(g.rsDecoder.repairErrs), g.rsDecoder.repairErrs[i] != nil), committed == old(committed))
  ensures all: implies(result == nil && g.rsDecoder.total == g.rsDecoder.size && forall(i, 0, len(g.rsDecoder.repairErrs), g.rsDecoder.repairErrs[i] == nil), forall(i, 0, len(g.rsDecoder.writers), implies(isa(g.rsDecoder.writers[i], "apiserver/internal/usecase/service.Committer"), committed[g.rsDecoder.writers[i]])))
  loop 1
    invariant every: repaired == (g.rsDecoder.total == g.rsDecoder.size && forall(i, 0, iter(), g.rsDecoder.repairErrs[i] == nil))
  loop 2
    invariant none: implies(!repaired, committed == old(committed))
    invariant all: implies(repaired && !dgerr[wg], forall(i, 0, iter(), implies(isa(g.rsDecoder.writers[i], "apiserver/internal/usecase/service.Committer"), committed[g.rsDecoder.writers[i]])))

# ---- how reading starts ----

define sanecfg(c) = c.DataShards >= 1 && c.ParityShards >= 1 && c.DataShards + c.ParityShards <= 256 && 0 < c.BlockPerShard && c.BlockPerShard <= 1099511627776

func apiserver/internal/usecase/service.NewDecoder
  property E02
  requires cfg: rsCfg != nil && sanecfg(rsCfg)
  requires shards: len(readers) == rsCfg.DataShards + rsCfg.ParityShards && len(writes) == len(readers) && 0 <= size && size <= 4611686018427387904
  ensures ready: result != nil && decoding(result) && reading(result)
  ensures start: result.total == 0 && len(result.cache) == 0 && result.cursor == 0 && result.err == nil && result.size == size
  ensures given: result.readers == readers && result.writers == writes && result.rsCfg.DataShards == rsCfg.DataShards && result.rsCfg.ParityShards == rsCfg.ParityShards && result.rsCfg.BlockPerShard == rsCfg.BlockPerShard
  ensures well: forall(i, 0, len(result.repairErrs), result.repairErrs[i] == nil)

define istemp(r) = r != nil && dyntype(r, "*apiserver/internal/usecase/service.tempStream") && as(r, "*apiserver/internal/usecase/service.tempStream") != nil
define astemp(r) = as(r, "*apiserver/internal/usecase/service.tempStream")

func apiserver/internal/usecase/service.NewRSTempStream
  property E02
  requires cfg: option != nil && rsCfg != nil && sanecfg(rsCfg) && 0 <= option.Size && option.Size <= 4611686018427387904
  requires places: len(option.Locates) <= rsCfg.DataShards + rsCfg.ParityShards
  ensures ready: result != nil && result.rsDecoder != nil && result.StreamOption == option && decoding(result.rsDecoder) && reading(result.rsDecoder) && result.rsDecoder.size == option.Size && result.rsDecoder.total == 0
  ensures shards: forall(i, 0, len(option.Locates), istemp(result.rsDecoder.readers[i]) && astemp(result.rsDecoder.readers[i]).Locate == option.Locates[i] && astemp(result.rsDecoder.readers[i]).name == option.Hash + "." + itoa(i) && shardsHold(rsCfg.DataShards, astemp(result.rsDecoder.readers[i]).size, option.Size))
  ensures none: forall(i, len(option.Locates), len(result.rsDecoder.readers), result.rsDecoder.readers[i] == nil)
  ensures keep: forall(i, 0, len(result.rsDecoder.writers), result.rsDecoder.writers[i] == nil)
  loop 1
    invariant size: shardsHold(rsCfg.DataShards, perSize, option.Size)
    invariant shards: forall(i, 0, iter(), istemp(readers[i]) && astemp(readers[i]).Locate == option.Locates[i] && astemp(readers[i]).name == option.Hash + "." + itoa(i) && astemp(readers[i]).size == perSize)
    invariant own: len(readers) == rsCfg.DataShards + rsCfg.ParityShards && ours(readers) && forall(i, 0, iter(), ours(astemp(readers[i])))
    invariant none: forall(i, iter(), len(readers), readers[i] == nil)

# ---- resuming an upload ----

uf tmpsize(Str, Str) Int
extern apiserver/internal/usecase/webapi.HeadTmpObject
  params ip, id
  ensures size: implies(result1 == nil, result0 == tmpsize(ip, id) && 0 <= result0 && result0 <= 35184372088832)

func (apiserver/internal/usecase/service.RSResumablePutStream).CurrentSize
  property E01
  requires made: p.RSPutStream != nil && p.RSPutStream.rsEncoder != nil && p.resumeToken != nil && len(p.resumeToken.Servers) > 0 && len(p.resumeToken.Ids) > 0
  requires cfg: sanecfg(p.RSPutStream.rsEncoder.rsConfig) && 0 <= p.resumeToken.Size
  ensures size: implies(result1 == nil, result0 == min(tmpsize(p.resumeToken.Servers[0], p.resumeToken.Ids[0]) * p.RSPutStream.rsEncoder.rsConfig.DataShards, p.resumeToken.Size))
  ensures failed: implies(result1 != nil, result0 == 0)
