# A03. Uploads. What was looked up (the bucket, the object's existing metadata), what was put into a data
# stream, and what was recorded and removed.
ghost bkReadonly: Bool
ghost bkVersioning: Bool
ghost bkRemains: Int
ghost mdFailed: Bool
ghost mdExists: Bool
ghost mdTotal: Int
ghost mdFirst: Int
ghost recorded: Int
ghost recHash: Str
ghost recVer: Int
ghost removals: Int
ghost removedSeq: Int
ghost streams: Int
ghost lastStream: Int
ghost streamHash: Str
ghost streamLocates: Int
ghost located: Bool

extern (apiserver/internal/usecase/repo.IBucketRepo).Get
  modifies bkReadonly, bkVersioning, bkRemains
  ensures found: implies(result1 == nil, result0 != nil && bkReadonly == result0.Readonly && bkVersioning == result0.Versioning && bkRemains == result0.VersionRemains)
  ensures sane: implies(result1 == nil, fresh(result0) && 0 <= result0.StoreStrategy && result0.StoreStrategy <= 9 && implies(result0.StoreStrategy > 0, 0 < result0.DataShards && result0.DataShards <= 1000000 && 0 <= result0.ParityShards && result0.ParityShards <= 1000000))

uf hasStatus(Int, Int) Bool
extern common/response.CheckErrStatus
  params status, err
  ensures is: result == (err != nil && hasStatus(status, err))

# metadata that exists is given, and none without it: either it does not exist (404) or the lookup failed
extern (apiserver/internal/usecase.IMetaService).GetMetadata
  params name, bucket, verMode, withExtra
  modifies mdFailed, mdExists, mdTotal, mdFirst
  ensures found: implies(result1 == nil, result0 != nil && fresh(result0) && mdExists && mdFailed == old(mdFailed) && implies(withExtra, mdTotal == result0.Extra.Total && mdFirst == result0.Extra.FirstVersion) && mdFirst <= 2147483647 && mdFirst >= 0)
  ensures none: implies(result1 != nil, result0 == nil && !mdExists && mdFailed == (old(mdFailed) || !hasStatus(404, result1)))

extern (apiserver/internal/usecase.IMetaService).SaveMetadata
  params data
  requires one: len(data.Versions) >= 1 && data.Versions[0] != nil
  modifies recorded, recHash, recVer
  ensures done: implies(result1 == nil, recorded == old(recorded) + 1 && recHash == data.Versions[0].Hash && recVer == data.Versions[0])
  ensures kept: implies(result1 != nil, recorded == old(recorded) && recHash == old(recHash) && recVer == old(recVer))

extern (apiserver/internal/usecase.IMetaService).AddVersion
  params name, bucket, version
  modifies recorded, recHash, recVer
  ensures done: implies(result1 == nil, recorded == old(recorded) + 1 && recHash == version.Hash && recVer == version)
  ensures kept: implies(result1 != nil, recorded == old(recorded) && recHash == old(recHash) && recVer == old(recVer))

extern (apiserver/internal/usecase.IMetaService).RemoveVersion
  params name, bucket, version
  modifies removals, removedSeq
  ensures done: removals == old(removals) + 1 && removedSeq == version

extern (apiserver/internal/usecase/service.ObjectService).LocateObject
  modifies located
  ensures is: located == result1

extern apiserver/internal/usecase/service.dataServerStream
  params meta, provider
  modifies streams, lastStream, streamHash, streamLocates
  ensures opened: implies(result2 == nil, result0 != nil && !old(committed[result0]) && streams == old(streams) + 1 && lastStream == result0 && streamHash == meta.Hash && streamLocates == ref(result1))
  ensures none: implies(result2 != nil, streams == old(streams) && lastStream == old(lastStream) && streamHash == old(streamHash))

extern (apiserver/internal/usecase/service.WriteCommitCloser).Commit
  params ok
  modifies committed
  ensures done: committed == sto(old(committed), recv, old(committed[recv]) || (ok && result == nil))

# the digest of what was read last
ghost digest: Str
extern common/util/crypto.SHA256IO
  modifies digest, togive, got
  ensures is: result == digest

func apiserver/internal/usecase/service.streamToDataServer
  property A03
  requires in: req != nil && meta != nil && pool.Config != nil && 1 <= cst.OS.PageSize && cst.OS.PageSize <= 1073741824
  modifies streams, lastStream, streamHash, streamLocates, committed, got, togive, digest, out, fsrc, files
  ensures stored: implies(result1 == nil, committed[lastStream] && streamHash == meta.Hash && streamLocates == ref(result0))
  ensures refused: implies(result1 == nil && pool.Config.Object.Checksum, digest == req.Hash)

define config() = pool.Config != nil && netpkg() && 1 <= pool.Config.Object.ReedSolomon.BlockPerShard && pool.Config.Object.ReedSolomon.BlockPerShard <= 1099511627776 && 0 < pool.Config.Object.ReedSolomon.DataShards && pool.Config.Object.ReedSolomon.DataShards <= 1000000 && 0 <= pool.Config.Object.ReedSolomon.ParityShards && pool.Config.Object.ReedSolomon.ParityShards <= 1000000 && 0 <= pool.Config.Object.Replication.CopiesCount && pool.Config.Object.Replication.CopiesCount <= 1000000

func (apiserver/internal/usecase/service.ObjectService).StoreObject
  property A03
  options gosync
  requires in: req != nil && md != nil && len(md.Versions) >= 1 && md.Versions[0] != nil && o.metaService != nil && o.bucketRepo != nil && config()
  requires size: 0 <= md.Versions[0].Size && md.Versions[0].Size <= 4611686018427387904 && 0 <= md.Versions[0].StoreStrategy && md.Versions[0].StoreStrategy <= 9 && 0 <= md.Versions[0].ParityShards && md.Versions[0].ParityShards <= 1000000
  requires globals: usecase.ErrMetadataExists != nil && 1 <= cst.OS.PageSize && cst.OS.PageSize <= 1073741824
  requires fresh: !located && !mdFailed
  modifies bkReadonly, bkVersioning, bkRemains, mdFailed, mdExists, mdTotal, mdFirst, recorded, recHash, recVer, removals, removedSeq, streams, lastStream, streamHash, streamLocates, located, committed, got, togive, digest, out, fsrc, files, dgerr, md.Versions[0].Compress, md.Versions[0].StoreStrategy, md.Versions[0].DataShards, md.Versions[0].ParityShards, md.Versions[0].ShardSize, md.Versions[0].Hash, md.Versions[0].Locate
  ensures readonly: implies(bkReadonly || mdFailed, result1 != nil) && implies(bkReadonly, streams == old(streams))
  ensures none: implies(result1 != nil, recorded == old(recorded) && removals == old(removals))
  ensures one: implies(result1 == nil, recorded == old(recorded) + 1 && recVer == md.Versions[0])
  ensures stored: implies(result1 == nil && !located, committed[lastStream] && streamHash == recHash && streamLocates == ref(md.Versions[0].Locate))
  ensures old: implies(result1 == nil, removals == old(removals) + ite(mdExists && mdTotal > 0 && (!bkVersioning || mdTotal >= bkRemains), 1, 0))
  ensures first: implies(result1 == nil && removals != old(removals), removedSeq == mdFirst)

# The metadata service hands on to the repositories what it was given, once.
ghost inserted: Int
ghost insertedMd: Int
ghost added: Int
ghost addedVer: Int
ghost addedTo: Str
ghost deleted: Int
ghost deletedSeq: Int
ghost deletedFrom: Str

extern (apiserver/internal/usecase/repo.IMetadataRepo).Insert
  params data
  modifies inserted, insertedMd
  ensures done: implies(result == nil, inserted == old(inserted) + 1 && insertedMd == data)
  ensures kept: implies(result != nil, inserted == old(inserted) && insertedMd == old(insertedMd))

extern (apiserver/internal/usecase/repo.IVersionRepo).Add
  params name, bucket, ver
  modifies added, addedVer, addedTo
  ensures done: implies(result1 == nil, added == old(added) + 1 && addedVer == ver && addedTo == bucket + "/" + name)
  ensures kept: implies(result1 != nil, added == old(added) && addedVer == old(addedVer) && addedTo == old(addedTo))

extern (apiserver/internal/usecase/repo.IVersionRepo).Delete
  params name, bucket, ver
  modifies deleted, deletedSeq, deletedFrom
  ensures done: implies(result == nil, deleted == old(deleted) + 1 && deletedSeq == ver && deletedFrom == bucket + "/" + name)
  ensures kept: implies(result != nil, deleted == old(deleted) && deletedSeq == old(deletedSeq) && deletedFrom == old(deletedFrom))

func (apiserver/internal/usecase/service.MetaService).SaveMetadata
  property A03
  requires in: md != nil && m.repo != nil && m.versionRepo != nil
  modifies inserted, insertedMd, added, addedVer, addedTo
  ensures saved: implies(result1 == nil, inserted == old(inserted) + 1 && insertedMd == md)
  ensures version: implies(result1 == nil && len(md.Versions) > 0, added == old(added) + 1 && addedVer == md.Versions[0] && addedTo == md.Bucket + "/" + md.Name)
  ensures alone: implies(result1 != nil || len(md.Versions) == 0, added == old(added))
  ensures refused: implies(inserted == old(inserted), result1 != nil)

func (apiserver/internal/usecase/service.MetaService).AddVersion
  property A03
  requires in: m.versionRepo != nil
  modifies added, addedVer, addedTo
  ensures added: implies(result1 == nil, added == old(added) + 1 && addedVer == version && addedTo == bucket + "/" + name)
  ensures kept: implies(result1 != nil, added == old(added))

func (apiserver/internal/usecase/service.MetaService).RemoveVersion
  property A03
  requires in: m.versionRepo != nil
  modifies deleted, deletedSeq, deletedFrom
  ensures removed: implies(result == nil, deleted == old(deleted) + 1 && deletedSeq == version && deletedFrom == bucket + "/" + name)
  ensures kept: implies(result != nil, deleted == old(deleted))
