# M05: applying replicated log entries.
#
# The store behind the repositories is one abstract state. An operation's effect and its outcome
# are functions of the state before it, the operation's name, and what it was given; that the
# operations themselves do what they say is M01-M04.

ghost st: Int
# effect and outcome of an operation: code, object name, number, payload
uf st_op(Int, Int, Str, Int, Int) Int
uf op_err(Int, Int, Str, Int, Int) Int
uf op_seq(Int, Int, Str, Int, Int) Int

# what a payload says, its number apart (see bucket definitions for strs)
uf pv_of(Bool, Int, Int, Int, Int, Int, Int, Str, Str, Int) Int
uf pm_of(Str, Str, Int, Int) Int
uf pb_of(Bool, Bool, Bool, Int, Int, Int, Int, Int, Int, Str, Int) Int
define pv(v) = pv_of(v.Compress, v.StoreStrategy, v.DataShards, v.ParityShards, v.ShardSize, v.Size, v.Ts, v.Hash, v.UniqueId, strs(row(v.Locate), off(v.Locate), len(v.Locate)))
define pm(m) = pm_of(m.Name, m.Bucket, m.CreateTime, m.UpdateTime)
define pb(b) = pb_of(b.Versioning, b.Readonly, b.Compress, b.StoreStrategy, b.DataShards, b.ParityShards, b.VersionRemains, b.CreateTime, b.UpdateTime, b.Name, strs(row(b.Policies), off(b.Policies), len(b.Policies)))

define did(code, name, num, pay) = st == st_op(old(st), code, name, num, pay)
# an error value that holds a pointer holds a real one
define real(e) = implies(dyntype(e, "*common/response.Err"), as(e, "*common/response.Err") != nil)
define said(r, code, name, num, pay) = r == op_err(old(st), code, name, num, pay) && real(r)
# the error values as the package sets them up
define errsmade() = usecase.ErrUnknownRaftLog != nil && usecase.ErrUnknownRaftLog.Status / 100 != 2 && usecase.ErrNilData != nil && usecase.ErrNilData.Status / 100 != 2 && !errIs(box(usecase.ErrUnknownRaftLog), box(usecase.ErrExists)) && !errIs(box(usecase.ErrNilData), box(usecase.ErrExists))

extern (metaserver/internal/usecase.WritableRepo).AddMetadata
  options static=1
  params name, data
  requires repo: recv != nil
  modifies st
  ensures done: implies(data != nil, did(1, name, 0, pm(data)) && said(result, 1, name, 0, pm(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.WritableRepo).UpdateMetadata
  options static=1
  params name, data
  requires repo: recv != nil
  modifies st, data.CreateTime, data.Bucket, data.Extra
  ensures done: implies(data != nil, did(2, name, 0, old(pm(data))) && said(result, 2, name, 0, old(pm(data))))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.WritableRepo).RemoveMetadata
  options static=1
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(3, name, 0, 0) && said(result, 3, name, 0, 0)

extern (metaserver/internal/usecase.WritableRepo).AddVersion
  options static=1
  params name, data
  requires repo: recv != nil
  modifies st, data.Sequence
  ensures done: implies(data != nil, did(4, name, 0, pv(data)) && said(result, 4, name, 0, pv(data)) && data.Sequence == op_seq(old(st), 4, name, 0, pv(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.WritableRepo).AddVersionFromRaft
  options static=1
  params name, data
  requires repo: recv != nil
  modifies st
  ensures done: implies(data != nil, did(5, name, data.Sequence, pv(data)) && said(result, 5, name, data.Sequence, pv(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.WritableRepo).UpdateVersion
  options static=1
  params name, data
  requires repo: recv != nil
  modifies st, data.Sequence, data.Hash, data.UniqueId
  ensures done: implies(data != nil, did(6, name, old(data.Sequence), old(pv(data))) && said(result, 6, name, old(data.Sequence), old(pv(data))))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.WritableRepo).RemoveVersion
  options static=1
  params name, seq
  requires repo: recv != nil
  modifies st
  ensures done: did(7, name, seq, 0) && said(result, 7, name, seq, 0)

extern (metaserver/internal/usecase.WritableRepo).RemoveAllVersion
  options static=1
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(8, name, 0, 0) && said(result, 8, name, 0, 0)

extern (metaserver/internal/usecase.BucketWritableRepo).Create
  options static=1
  params bucket
  requires repo: recv != nil
  modifies st
  ensures done: implies(bucket != nil, did(9, bucket.Name, 0, pb(bucket)) && said(result, 9, bucket.Name, 0, pb(bucket)))
  ensures none: implies(bucket == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.BucketWritableRepo).Update
  options static=1
  params bucket
  requires repo: recv != nil
  modifies st, bucket.CreateTime
  ensures done: implies(bucket != nil, did(10, bucket.Name, 0, old(pb(bucket))) && said(result, 10, bucket.Name, 0, old(pb(bucket))))
  ensures none: implies(bucket == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.BucketWritableRepo).Remove
  options static=1
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(11, name, 0, 0) && said(result, 11, name, 0, 0)

extern (metaserver/internal/usecase.IBatchMetaRepo).Sync
  requires repo: recv != nil

# ---- what an entry's bytes record ----

uf rl_ok(Str) Bool
uf rl_type(Str) Int
uf rl_dest(Str) Int
uf rl_name(Str) Str
uf rl_seq(Str) Int
uf rl_ver(Str) Bool
uf rl_pv(Str) Int
uf rl_vseq(Str) Int
uf rl_meta(Str) Bool
uf rl_pm(Str) Int
uf rl_buck(Str) Bool
uf rl_pb(Str) Int
uf rl_bname(Str) Str

define zerolog(d) = d.Version == nil && d.Metadata == nil && d.Bucket == nil
define rlmatch(d, s) = d.Type == rl_type(s) && d.Dest == rl_dest(s) && d.Name == rl_name(s) && d.Sequence == rl_seq(s) && (d.Version != nil) == rl_ver(s) && (d.Metadata != nil) == rl_meta(s) && (d.Bucket != nil) == rl_buck(s) && implies(d.Version != nil, pv(d.Version) == rl_pv(s) && d.Version.Sequence == rl_vseq(s)) && implies(d.Metadata != nil, pm(d.Metadata) == rl_pm(s)) && implies(d.Bucket != nil, pb(d.Bucket) == rl_pb(s) && d.Bucket.Name == rl_bname(s))

# ---- the operation an entry names ----

# target kinds: 1 version, 2 all versions, 4 object, 8 bucket; operations: 1 insert, 2 remove, 4 update, 8 migrate
define code(s) = ite(rl_dest(s) == 4, ite(rl_type(s) == 1, 1, ite(rl_type(s) == 4, 2, ite(rl_type(s) == 2, 3, 0))), ite(rl_dest(s) == 1, ite(rl_type(s) == 1, 4, ite(rl_type(s) == 8, 5, ite(rl_type(s) == 4, 6, ite(rl_type(s) == 2, 7, 0)))), ite(rl_dest(s) == 2, ite(rl_type(s) == 2, 8, 0), ite(rl_dest(s) == 8, ite(rl_type(s) == 1, 9, ite(rl_type(s) == 4, 10, ite(rl_type(s) == 2, 11, 0))), 0))))
# has the payload the operation needs
define given(s) = ite(code(s) == 1 || code(s) == 2, rl_meta(s), ite(code(s) == 4 || code(s) == 5 || code(s) == 6, rl_ver(s), ite(code(s) == 9 || code(s) == 10, rl_buck(s), true)))
define complete(s) = rl_ok(s) && code(s) > 0 && given(s)
define oname(s) = ite(code(s) == 9 || code(s) == 10, rl_bname(s), rl_name(s))
define onum(s) = ite(code(s) == 5, rl_vseq(s), ite(code(s) == 6 || code(s) == 7, rl_seq(s), 0))
define opay(s) = ite(code(s) == 1 || code(s) == 2, rl_pm(s), ite(code(s) == 4 || code(s) == 5 || code(s) == 6, rl_pv(s), ite(code(s) == 9 || code(s) == 10, rl_pb(s), 0)))

# the state after an entry (ok: a command with data), and after the first n of a list of entries
rec after(s: Int, ok: Bool, e: Str) Int by 0 = ite(ok && complete(e), st_op(s, code(e), oname(e), onum(e), opay(e)), s)
rec afterall(s: Int, OK: (Array Int Bool), E: (Array Int Str), n: Int) Int by max(0, n) = ite(n <= 0, s, after(afterall(s, OK, E, n-1), sel(OK, n-1), sel(E, n-1)))

# r tells the outcome e of an operation
define told(r, e) = r != nil && r.err != nil && implies(e == nil || errIs(e, box(usecase.ErrExists)), r.err.Status == 200) && implies(e != nil && !errIs(e, box(usecase.ErrExists)), ite(dyntype(e, "*common/response.Err"), r.err == as(e, "*common/response.Err"), ite(dyntype(e, "common/response.Err"), r.err.Status == as(e, "common/response.Err").Status && r.err.Message == as(e, "common/response.Err").Message, r.err.Status == 500)))
define isresp(r) = r != nil && dyntype(r, "*metaserver/internal/usecase/raftimpl.FSMResponse")
define resp(r) = as(r, "*metaserver/internal/usecase/raftimpl.FSMResponse")
# r reports a failure
define failed(r) = r != nil && implies(isresp(r), resp(r) != nil && resp(r).err != nil && resp(r).err.Status / 100 != 2)
# r is the outcome of an entry applied in a state
define itserr(s, e) = op_err(s, code(e), oname(e), onum(e), opay(e))
define tells(r, s, ok, e) = implies(ok && complete(e), isresp(r) && told(resp(r), itserr(s, e)))
define tellsnum(r, s, ok, e) = implies(ok && complete(e) && code(e) == 4 && itserr(s, e) == nil, dyntype(resp(r).Data, "uint64") && as(resp(r).Data, "uint64") == op_seq(s, 4, oname(e), 0, opay(e)))
define fails(r, ok, e) = implies(!(ok && complete(e)), failed(r))

func metaserver/internal/usecase/raftimpl.FSMResult
  property M05
  requires real: real(err)
  ensures told: told(result, err) && fresh(result)
  ensures bare: result.Data == nil

func (metaserver/internal/usecase/raftimpl.FSMResponse).Ok
  property M05
  requires made: r.err != nil
  ensures ok: result == (r.err.Status / 100 == 2)

func (metaserver/internal/usecase/raftimpl.FSMResponse).ToError
  property M05
  requires made: r.err != nil
  ensures none: (result == nil) == (r.err.Status / 100 == 2)
  ensures same: implies(result != nil, dyntype(result, "*common/response.Err") && as(result, "*common/response.Err") == r.err)

define wired(f) = f.metaRepo != nil && f.metaBatch != nil && f.bucketRepo != nil && f.bucketBatch != nil
define command(lg) = lg != nil && len(lg.Data) > 0 && lg.Type == 0

func (metaserver/internal/usecase/raftimpl.FSMImpl).Apply
  property M05
  options bytesval
  requires wired: wired(f)
  requires init: errsmade()
  modifies st
  ensures state: st == after(old(st), old(command(lg)), old(str(lg.Data)))
  ensures outcome: tells(result, old(st), old(command(lg)), old(str(lg.Data)))
  ensures number: tellsnum(result, old(st), old(command(lg)), old(str(lg.Data)))
  ensures failure: fails(result, old(command(lg)), old(str(lg.Data)))

func (metaserver/internal/usecase/raftimpl.FSMImpl).ApplyBatch
  property M05
  options bytesval
  requires wired: wired(f)
  requires init: errsmade()
  modifies st
  requires def: forall(j, 0, len(lgs), sel(e_ok, j) == command(lgs[j]) && implies(sel(e_ok, j), sel(e_bt, j) == str(lgs[j].Data)))
  loop 1
    invariant state: st == afterall(old(st), e_ok, e_bt, iter())
    invariant size: len(res) == len(lgs) && ours(res)
    invariant told: forall(j, 0, iter(), res[j] != nil)
    invariant own: forall(j, 0, iter(), implies(isresp(res[j]), ours(resp(res[j]))))
    invariant outcomes: forall(j, 0, iter(), tells(res[j], afterall(old(st), e_ok, e_bt, j), sel(e_ok, j), sel(e_bt, j)))
    invariant numbers: forall(j, 0, iter(), tellsnum(res[j], afterall(old(st), e_ok, e_bt, j), sel(e_ok, j), sel(e_bt, j)))
    invariant failures: forall(j, 0, iter(), fails(res[j], sel(e_ok, j), sel(e_bt, j)))
  loop 2
    invariant kept: forall(j, 0, len(res), res[j] != nil && res[j] == atentry(res[j]))
  ensures state: st == afterall(old(st), e_ok, e_bt, len(lgs))
  ensures size: len(result) == len(lgs)
  ensures outcomes: forall(j, 0, len(lgs), tells(result[j], afterall(old(st), e_ok, e_bt, j), sel(e_ok, j), sel(e_bt, j)))
  ensures numbers: forall(j, 0, len(lgs), tellsnum(result[j], afterall(old(st), e_ok, e_bt, j), sel(e_ok, j), sel(e_bt, j)))
  ensures failures: forall(j, 0, len(lgs), fails(result[j], sel(e_ok, j), sel(e_bt, j)))

ghost e_ok: (Array Int Bool)
ghost e_bt: (Array Int Str)

# ---- handing an entry over ----

# the entries handed to the log: how many, and the last one
ghost sent_n: Int
ghost sent: Str
uf fut_err(Int) Int
uf fut_resp(Int) Int


extern (metaserver/internal/usecase.IRaft).Apply
  params cmd, timeout
  requires raft: recv != nil
  modifies sent_n, sent
  ensures sent: sent_n == old(sent_n) + 1 && sent == str(cmd) && result != nil
  ensures new: fut_of(result) == sent_n
uf fut_of(Int) Int

extern (github.com/hashicorp/raft.ApplyFuture).Error
  requires future: recv != nil
  ensures err: result == fut_err(fut_of(recv))

extern (github.com/hashicorp/raft.ApplyFuture).Response
  requires future: recv != nil
  ensures resp: result == fut_resp(fut_of(recv))

func (metaserver/internal/usecase/raftimpl.RaftWrapper).GetRaftIfLeader
  property M05
  ensures raft: result1 == (rw.isLeader && rw.Enabled) && implies(result1, result0 != nil)

define answer() = fut_resp(sent_n)
func (metaserver/internal/usecase/raftimpl.raftApplier).ApplyRaft
  property M05
  options bytesval
  requires made: r.wrapper != nil
  requires given: data != nil
  requires answers: forall(i, implies(isresp(fut_resp(i)), resp(fut_resp(i)) != nil && resp(fut_resp(i)).err != nil))
  modifies sent_n, sent
  ensures follower: implies(!old(r.wrapper.isLeader && r.wrapper.Enabled), !result0 && sent_n == old(sent_n))
  ensures once: sent_n <= old(sent_n) + 1 && implies(result0 && result2 == nil, sent_n == old(sent_n) + 1)
  ensures entry: implies(sent_n > old(sent_n), rl_ok(sent) && rlmatch(data, sent))
  ensures nothing: implies(sent_n == old(sent_n) && result0, result2 != nil)
  ensures failed: implies(sent_n > old(sent_n) && fut_err(sent_n) != nil, result0 && result2 == fut_err(sent_n))
  ensures outcome: implies(sent_n > old(sent_n) && fut_err(sent_n) == nil && isresp(answer()), result0 && result1 == resp(answer()).Data && (result2 == nil) == (resp(answer()).err.Status / 100 == 2))

# ---- the services above: the operation asked for is the one carried out, through the log or directly ----

define dcode(d) = ite(d.Dest == 4, ite(d.Type == 1, 1, ite(d.Type == 4, 2, ite(d.Type == 2, 3, 0))), ite(d.Dest == 1, ite(d.Type == 1, 4, ite(d.Type == 8, 5, ite(d.Type == 4, 6, ite(d.Type == 2, 7, 0)))), ite(d.Dest == 2, ite(d.Type == 2, 8, 0), ite(d.Dest == 8, ite(d.Type == 1, 9, ite(d.Type == 4, 10, ite(d.Type == 2, 11, 0))), 0))))
define dgiven(d) = ite(dcode(d) == 1 || dcode(d) == 2, d.Metadata != nil, ite(dcode(d) == 4 || dcode(d) == 5 || dcode(d) == 6, d.Version != nil, ite(dcode(d) == 9 || dcode(d) == 10, d.Bucket != nil, true)))
define dname(d) = ite((dcode(d) == 9 || dcode(d) == 10) && d.Bucket != nil, d.Bucket.Name, d.Name)
define dnum(d) = ite(dcode(d) == 5, d.Version.Sequence, ite(dcode(d) == 6 || dcode(d) == 7, d.Sequence, 0))
define dpay(d) = ite(dcode(d) == 1 || dcode(d) == 2, pm(d.Metadata), ite(dcode(d) == 4 || dcode(d) == 5 || dcode(d) == 6, pv(d.Version), ite(dcode(d) == 9 || dcode(d) == 10, pb(d.Bucket), 0)))
define derr(s, d) = op_err(s, dcode(d), dname(d), dnum(d), dpay(d))

# an applied entry: proved of raftApplier.ApplyRaft and FSMImpl.Apply piece by piece (M05), assumed as a whole here
extern (metaserver/internal/usecase.RaftApply).ApplyRaft
  params data
  requires log: recv != nil && data != nil
  modifies st
  ensures follower: implies(!result0, st == old(st))
  ensures applied: implies(result0 && result2 == nil, dcode(data) > 0 && dgiven(data) && did(dcode(data), dname(data), dnum(data), dpay(data)))
  ensures only: st == old(st) || did(dcode(data), dname(data), dnum(data), dpay(data))
  ensures told: implies(result0 && result2 == nil, derr(old(st), data) == nil || errIs(derr(old(st), data), box(usecase.ErrExists)))
  ensures number: implies(result0 && result2 == nil && dcode(data) == 4, result1 != nil && dyntype(result1, "uint64") && as(result1, "uint64") == op_seq(old(st), 4, dname(data), 0, dpay(data)))

# the same operations by the services' own names for the repositories
extern (metaserver/internal/usecase.IMetadataRepo).AddMetadata
  params name, data
  requires repo: recv != nil
  modifies st
  ensures done: implies(data != nil, did(1, name, 0, pm(data)) && said(result, 1, name, 0, pm(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.IMetadataRepo).UpdateMetadata
  params name, data
  requires repo: recv != nil
  modifies st, data.CreateTime, data.Bucket, data.Extra
  ensures done: implies(data != nil, did(2, name, 0, old(pm(data))) && said(result, 2, name, 0, old(pm(data))))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.IMetadataRepo).RemoveMetadata
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(3, name, 0, 0) && said(result, 3, name, 0, 0)

extern (metaserver/internal/usecase.IMetadataRepo).AddVersion
  params name, data
  requires repo: recv != nil
  modifies st, data.Sequence
  ensures done: implies(data != nil, did(4, name, 0, pv(data)) && said(result, 4, name, 0, pv(data)) && data.Sequence == op_seq(old(st), 4, name, 0, pv(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.IMetadataRepo).AddVersionFromRaft
  params name, data
  requires repo: recv != nil
  modifies st
  ensures done: implies(data != nil, did(5, name, data.Sequence, pv(data)) && said(result, 5, name, data.Sequence, pv(data)))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.IMetadataRepo).UpdateVersion
  params name, data
  requires repo: recv != nil
  modifies st, data.Sequence, data.Hash, data.UniqueId
  ensures done: implies(data != nil, did(6, name, old(data.Sequence), old(pv(data))) && said(result, 6, name, old(data.Sequence), old(pv(data))))
  ensures none: implies(data == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.IMetadataRepo).RemoveVersion
  params name, seq
  requires repo: recv != nil
  modifies st
  ensures done: did(7, name, seq, 0) && said(result, 7, name, seq, 0)

extern (metaserver/internal/usecase.IMetadataRepo).RemoveAllVersion
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(8, name, 0, 0) && said(result, 8, name, 0, 0)

extern (metaserver/internal/usecase.BucketRepo).Create
  params bucket
  requires repo: recv != nil
  modifies st
  ensures done: implies(bucket != nil, did(9, bucket.Name, 0, pb(bucket)) && said(result, 9, bucket.Name, 0, pb(bucket)))
  ensures none: implies(bucket == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.BucketRepo).Update
  params bucket
  requires repo: recv != nil
  modifies st, bucket.CreateTime
  ensures done: implies(bucket != nil, did(10, bucket.Name, 0, old(pb(bucket))) && said(result, 10, bucket.Name, 0, old(pb(bucket))))
  ensures none: implies(bucket == nil, st == old(st) && result == box(usecase.ErrNilData))

extern (metaserver/internal/usecase.BucketRepo).Remove
  params name
  requires repo: recv != nil
  modifies st
  ensures done: did(11, name, 0, 0) && said(result, 11, name, 0, 0)

define carried(r, c, name, num, pay) = (st == old(st) || did(c, name, num, pay)) && implies(r == nil, did(c, name, num, pay)) && implies(r == nil, op_err(old(st), c, name, num, pay) == nil || errIs(op_err(old(st), c, name, num, pay), box(usecase.ErrExists)))

func (metaserver/internal/usecase/service.MetadataService).AddMetadata
  property M02
  requires made: m.repo != nil && m.RaftApply != nil && data != nil
  modifies st, data.CreateTime, data.UpdateTime
  ensures does: carried(result, 1, id, 0, pm(data)) && data.CreateTime == data.UpdateTime

func (metaserver/internal/usecase/service.MetadataService).UpdateMetadata
  property M02
  requires made: m.repo != nil && m.RaftApply != nil && data != nil
  modifies st, data.CreateTime, data.UpdateTime, data.Bucket, data.Extra
  ensures does: carried(result, 2, name, 0, pm_of(old(data.Name), old(data.Bucket), old(data.CreateTime), data.UpdateTime))

func (metaserver/internal/usecase/service.MetadataService).RemoveMetadata
  property M02
  requires made: m.repo != nil && m.RaftApply != nil
  modifies st
  ensures does: carried(result, 3, name, 0, 0)

func (metaserver/internal/usecase/service.MetadataService).AddVersion
  property M01
  requires made: m.repo != nil && m.RaftApply != nil && data != nil
  modifies st, data.UniqueId, data.Ts, data.Sequence
  ensures does: carried(result1, 4, name, 0, pv(data))
  ensures number: implies(result1 == nil, (result0 - op_seq(old(st), 4, name, 0, pv(data))) % 18446744073709551616 == 0)

func (metaserver/internal/usecase/service.MetadataService).ReceiveVersion
  property M01
  requires made: m.repo != nil && m.RaftApply != nil && data != nil
  modifies st
  ensures does: carried(result, 5, name, data.Sequence, pv(data))

func (metaserver/internal/usecase/service.MetadataService).UpdateVersion
  property M02
  requires made: m.repo != nil && m.RaftApply != nil && data != nil
  requires number: ver >= 0
  modifies st, data.Ts, data.Sequence, data.Hash, data.UniqueId
  ensures does: carried(result, 6, name, ver, pv_of(data.Compress, data.StoreStrategy, data.DataShards, data.ParityShards, data.ShardSize, data.Size, data.Ts, old(data.Hash), old(data.UniqueId), strs(row(data.Locate), off(data.Locate), len(data.Locate))))

func (metaserver/internal/usecase/service.MetadataService).RemoveVersion
  property M01
  requires made: m.repo != nil && m.RaftApply != nil
  modifies st
  ensures one: implies(ver >= 0, carried(result, 7, name, ver, 0))
  ensures all: implies(ver < 0, carried(result, 8, name, 0, 0))

func (metaserver/internal/usecase/service.BucketService).Create
  property M04
  requires made: b.BucketRepo != nil && b.RaftApply != nil
  modifies st, bucket.CreateTime, bucket.UpdateTime
  ensures none: implies(bucket == nil, result != nil && st == old(st))
  ensures does: implies(bucket != nil, carried(result, 9, bucket.Name, 0, pb(bucket)))

func (metaserver/internal/usecase/service.BucketService).Update
  property M04
  requires made: b.BucketRepo != nil && b.RaftApply != nil
  modifies st, bucket.CreateTime, bucket.UpdateTime
  ensures none: implies(bucket == nil, result != nil && st == old(st))
  ensures does: implies(bucket != nil, carried(result, 10, bucket.Name, 0, pb_of(bucket.Versioning, bucket.Readonly, bucket.Compress, bucket.StoreStrategy, bucket.DataShards, bucket.ParityShards, bucket.VersionRemains, old(bucket.CreateTime), bucket.UpdateTime, bucket.Name, strs(row(bucket.Policies), off(bucket.Policies), len(bucket.Policies)))))

func (metaserver/internal/usecase/service.BucketService).Remove
  property M04
  requires made: b.BucketRepo != nil && b.RaftApply != nil
  modifies st
  ensures does: carried(result, 11, name, 0, 0)

# ---- reading through the services ----

uf v_err(Int, Str, Int) Int
uf v_pv(Int, Str, Int) Int
uf v_seq(Int, Str, Int) Int
uf v_last(Int, Str) Int
uf m_err(Int, Str) Int
uf m_pm(Int, Str) Int
define vis(v, s, name, num) = v != nil && pv(v) == v_pv(s, name, num) && v.Sequence == v_seq(s, name, num)

extern (metaserver/internal/usecase.IMetadataRepo).GetVersion
  params name, num
  ensures err: result1 == v_err(st, name, num)
  ensures of: implies(result1 == nil, vis(result0, st, name, num))

extern (metaserver/internal/usecase.IMetadataRepo).GetLastVersionNumber
  params name
  ensures last: result == v_last(st, name)

extern (metaserver/internal/usecase.IMetadataRepo).GetMetadata
  params name
  ensures err: result1 == m_err(st, name)
  ensures of: implies(result1 == nil, result0 != nil && fresh(result0) && pm(result0) == m_pm(st, name))

# the number asked for: none or zero means the last one
define asked(s, name, num) = ite(num <= 0, v_last(s, name), num)

func (metaserver/internal/usecase/service.MetadataService).GetVersion
  property M01
  requires made: m.repo != nil
  ensures err: result1 == v_err(st, name, asked(st, name, ver))
  ensures of: implies(result1 == nil, vis(result0, st, name, asked(st, name, ver)))

define gone(e) = errIs(e, box(usecase.ErrNotFound))
func (metaserver/internal/usecase/service.MetadataService).GetMetadata
  property M02
  requires made: m.repo != nil
  ensures none: implies(m_err(st, id) != nil, result2 == m_err(st, id) && result0 == nil && result1 == nil)
  ensures object: implies(result2 == nil, result0 != nil && pm(result0) == m_pm(st, id))
  ensures alone: implies(result2 == nil && version == -1, result1 == nil)
  ensures version: implies(result2 == nil && version != -1 && v_err(st, id, asked(st, id, version)) == nil, vis(result1, st, id, asked(st, id, version)))
  ensures failed: implies(version != -1 && v_err(st, id, asked(st, id, version)) != nil && !gone(v_err(st, id, asked(st, id, version))), result2 != nil)
  ensures whole: implies(!withExtra && m_err(st, id) == nil && (version == -1 || v_err(st, id, asked(st, id, version)) == nil || gone(v_err(st, id, asked(st, id, version)))), result2 == nil)
