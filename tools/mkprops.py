#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (run by hand when the list changes).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":False}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="src/common/";M="src/metaserver/internal/usecase/";A="src/apiserver/internal/";O="src/objectserver/internal/"
p("H01","An accepted slot assignment is sorted, disjoint and owned as declared",
 "Whenever a set of per-server slot ranges is accepted as a routing table, the table lists every declared range exactly once, with its declared bounds and its declared owner, in increasing order, each range non-empty and no two overlapping. Any declaration that is malformed, negative, empty or inverted, or that overlaps another range, is refused. Rendering a table as text and reading it back gives the same ranges.",
 ["inputs","configurations"],"every finite collection of slot-range texts and owners",
 "The tests load three fixed tables; they cannot cover every set of ranges, in particular overlaps between servers in every order the table can be iterated.",
 [C+"hashslot/hash_slot.go",C+"hashslot/edge.go"],[("range parsing","hashslot.formatInt, wrapSlotsOriginal"),("sort and overlap check","hashslot.sortAndValidate"),("table construction","hashslot.WrapSlots, WrapSlotsToEdges")],["returned table and error"])
p("H02","Every key resolves to the one owner of its slot, or to an error",
 "The slot of a key depends only on the key's bytes and always lies between 0 and 16383. Looking a slot up in an accepted routing table returns the owner whose range contains it, and reports an error exactly when no range contains it; membership tests agree with the lookup. Asking who serves a range of slots returns exactly the owned pieces of that range, in order and cut to it, and says 'fully covered' exactly when nothing is missing.",
 ["inputs","configurations"],"every key, every slot number, every accepted table (any number of ranges and gaps)",
 "Tests look up a handful of slots in one table; boundaries, gaps and single-slot ranges of arbitrary tables are not reached.",
 [C+"hashslot/hash_slot.go"],[("slot number","hashslot.CalcBytesSlot"),("lookup","hashslot.GetSlotIdentify, IsSlotInEdges"),("range query","hashslot.FindRangeCurrentData, IsValidEdge")],["returned identity, error, pieces"])
p("H03","Moving slots between servers is exact: nothing lost, gained or mixed",
 "After a server receives slots, the set of slots it is recorded as owning is exactly the union of what it had and what it received; after it gives slots away it is exactly the difference. The resulting ranges are again non-empty, sorted and disjoint, and the ranges given as input describe the same slots as before to anyone still holding them for the difference.",
 ["inputs","histories"],"every pair of range lists (each sorted and disjoint)",
 "Two fixed examples are tested; splitting, touching, nested and repeated ranges over several steps are not.",
 [C+"hashslot/hash_slot.go","src/metaserver/internal/usecase/service/hashslot_service.go"],[("union","hashslot.CombineEdges"),("difference","hashslot.RemoveEdges"),("use at end of migration","HashSlotService.FinishReceiveItem, AutoMigrate")],["slot ranges written back"])
p("H04","Slot migrations are exclusive and slot records change only when idle",
 "A metadata server's slot database is in exactly one of four modes (normal, giving, receiving, closed); a migration can start only from normal, a finish is accepted only in the mode of the start it matches and returns to normal with the migration's peer and slots forgotten, and a refused call changes nothing. While a migration is under way the peer and slots reported are those the migration was started with. The stored slot record is written or removed only in normal mode, under the requested id, and a refused attempt writes nothing; a closed database accepts nothing more.",
 ["histories"],"every finite sequence of start, finish, save, remove and close calls (one caller at a time)",
 "No test touches the slot database; sequences of calls are unbounded.",
 [M+"db/hashslot_db.go"],[("mode switch","HashSlotDB.ReadyMigrateTo/From, FinishMigrateTo/From, Close"),("record write","HashSlotDB.Save, Remove")],["mode queries, returned errors, writes to the coordination store"],
 [("mode","normal, migrate-to, migrate-from or closed"),("peer and slots","what the running migration was started with")])
p("M01","Version numbers are unique, increasing, and first/last/total are right",
 "Each new version of an object gets a number greater than every number that object has ever used, is stored under that number and is read back under it unchanged; numbers are not reused after deletion. The reported first, last and total are the smallest and largest numbers still stored and how many are stored, for any number of versions. A migrated version keeps its number, and later versions continue above it.",
 ["histories","inputs"],"every history of version additions, migrations and removals on one object",
 "No test stores versions; ordering faults appear only once numbers have a different count of digits or after deletions.",
 [M+"logic/metadata_logic.go",M+"repo/metadata_repo.go"],[("numbering","logic.AddVer, AddVerWithSequence"),("extremes","logic.GetExtra, MetadataRepo.GetLastVersionNumber, GetFirstVersionNumber"),("read","logic.GetVer")],["returned numbers, stored records"])
p("M02","Object records are never overwritten, rolled back or half-deleted",
 "Creating a record under an existing name is refused and leaves the old record as it was; an update not strictly newer than the stored record is refused and changes nothing. An accepted update keeps the record's bucket and creation time (for a version: its number, content hash and unique id) and stores everything else as given. Deleting an object removes its record and all of its versions, and no operation touches records of other objects.",
 ["histories","inputs"],"every stored state and every record given",
 "No test exercises the record store; refused updates and untouched neighbours need every prior state.",
 [M+"logic/metadata_logic.go"],[("create","logic.AddMeta"),("update","logic.UpdateMeta, UpdateVer"),("delete","logic.RemoveMeta, RemoveVer")],["returned error, stored records before and after"])
p("M03","The content-hash and unique-id indexes follow the stored versions",
 "A version that is stored is listed under its content hash and under its unique id, and after it is removed it is listed under neither, with every other entry kept. Adding a version whose unique id is already stored is refused and changes nothing, so a request or a migrated record applied twice takes effect once. Looking a hash up returns each listed entry exactly once.",
 ["histories","inputs"],"every history of additions, migrations and removals",
 "No test covers the indexes; a leak or a wrong key shows only after a remove or a replay.",
 [M+"logic/metadata_logic.go",M+"logic/hash_index_logic.go",M+"logic/unique_id_index_logic.go"],[("hash index","HashIndexLogic.AddIndex, RemoveIndex, GetIndex"),("unique-id index","UniqueIdIndex (same operations), logic.ExistsByUniqueId"),("upkeep","logic.AddVer, AddVerWithSequence, RemoveVer")],["index contents, returned errors"])
p("M04","Bucket definitions: create once, update forward, list in order",
 "Creating a bucket needs a name and is refused if the name exists; updating is refused unless strictly newer than the stored definition, keeps the creation time and stores the rest as given; removing deletes that bucket only. Reading returns what was last stored or 'not found'. Listing by prefix returns the stored buckets whose names start with the prefix, in name order, at most as many as asked.",
 ["histories","inputs"],"every stored set of buckets and every request",
 "Bucket storage has no tests.",
 [M+"logic/bucket_logic.go"],[("create/update/delete/read","BucketCrud.Create, Update, Delete, Get"),("list","BucketCrud.List")],["returned error and data, stored records"])
p("M05","A replicated log entry has the effect of the operation it names, once",
 "Applying a log entry performs exactly the operation and target kind recorded in it, with the name, number and payload recorded in it, and the outcome returned is that operation's outcome; an entry of unknown kind is reported as an error and changes nothing. Applying entries in a batch performs them in order and returns one outcome per entry, the same as applying them one by one.",
 ["histories","inputs"],"every log entry and every batch",
 "The log is only exercised against a running cluster, which the tests do not have.",
 [M+"raftimpl/fsm_impl.go"],[("dispatch","fsm.Apply, ApplyBatch, applyMetadata/Version/Bucket"),("outcome","FSMResult")],["calls made on the repositories, returned outcomes"])
p("E01","Erasure-coded upload: shards hold exactly the object's bytes, in order",
 "However the upload is cut into writes, the data shards together hold the object's bytes in order: the stream is cut into blocks of the configured block size (only the last may be shorter), each block split over the data shards in order and padded only at its end, and each piece is appended to its own shard together with parity of the same length. Accepted byte counts are truthful, nothing is buffered after a commit, and a failed shard write is reported.",
 ["inputs","configurations"],"every byte stream, every way of cutting it into writes, every data/parity/block configuration",
 "Repository encoder tests need services and do not run; block boundaries and uneven cuts are not covered.",
 [A+"usecase/service/rs_encoder.go",A+"usecase/service/rs_put_stream.go",A+"usecase/service/put_stream.go"],[("buffering","rsEncoder.Write"),("split and encode","rsEncoder.Flush"),("finish","RSPutStream.Commit")],["bytes written to each shard, returned counts"])
p("E02","Erasure-coded download returns the object's bytes despite tolerated losses",
 "Reading an erasure-coded object returns exactly its bytes, in order and no more than its size, as long as no more shards are missing or unreadable than the parity count; with more missing the read reports an error instead of returning wrong bytes. End of data is reported only after the last byte, shard padding never reaches the reader, and missing shards being repaired are given the same bytes the original shards hold.",
 ["inputs","fault_sequences","configurations"],"every object, read buffer sizes, and set of missing or failing shards",
 "The decoder test needs services; losses at every position and failures in the middle of a shard are not covered.",
 [A+"usecase/service/rs_decoder.go",A+"usecase/service/rs_get_stream.go","src/apiserver/config/config.go"],[("cache and cursor","rsDecoder.Read"),("collect, reconstruct, trim","rsDecoder.getData"),("seek","RSGetStream.Seek")],["bytes and errors returned, bytes written to repaired shards"])
p("E03","Replicated upload gives every copy the same bytes and enough copies",
 "However a replicated upload is cut into writes, every copy receives the object's bytes in order, each exactly once. A commit succeeds only if no more copies failed than the configured tolerance, and the number of copies that must succeed is never below one nor above the copy count.",
 ["inputs","fault_sequences","configurations"],"every byte stream, every cutting into writes, every set of failing copies",
 "No runnable test covers replication.",
 [A+"usecase/service/copy_put_stream.go","src/apiserver/config/config.go"],[("chunking and fan-out","CopyPutStream.Write, Flush"),("commit","CopyPutStream.Commit"),("tolerance","ReplicationConfig.ToleranceLossNum")],["bytes each copy received, commit outcome"])
p("O01","A stored object is read back exactly over any window, padding never shown",
 "Reading a stored shard of a given size from any offset returns exactly the bytes from that offset to that size, and an offset beyond the end returns no data. Storage alignment rounds a length up to the next 4096 multiple and no further; alignment padding is zero, is added only after the data, and is never part of what a reader receives or of a reported size.",
 ["inputs"],"every size, offset, buffer length and way the source returns data",
 "One or two sizes are tested; alignment faults show at sizes near the boundary and with short reads.",
 [C+"system/disk/aligend_reader.go",C+"system/disk/multi_reader.go",O+"usecase/service/objects_service.go"],[("rounding","disk.AlignedSize, AlignedSize64"),("padding","disk.AlignedReader.Read"),("limit","disk.AlignedLimitedReader.Read"),("joined reading","disk.MultiReader.Read"),("window","service.GetFile, WriteFileWithSize")],["bytes and counts returned, file contents"])
p("O02","The path index lists all of an object's locations except removed ones",
 "After any sequence of adds and removes, asking where an object is stored returns exactly the paths added and not yet removed, in the order added, each byte-for-byte as given; asking for the last returns the most recent of them. An object with no paths left is reported as not existing, and operations on one object never affect another.",
 ["histories","inputs"],"every sequence of operations with arbitrary names and paths, including paths that are prefixes of each other or contain separators",
 "No test covers the index; one-path objects, shared prefixes and separators in paths need arbitrary histories.",
 [O+"db/object_path_cache.go"],[("add","PathCache.Put"),("query","PathCache.Get, GetLast"),("remove","PathCache.Remove, RemoveAll")],["returned paths and errors"])
p("O03","Disk choice follows free space and never invents a disk",
 "When disks are available the chosen one is one of them: under the space-first policy one with the most free space, and under the weighted policy one whose free space less the amount already reserved there is greatest, a disk whose reservations exceed its free space never being preferred to one with space left. With no disk available the caller gets an error or its stated fallback.",
 ["inputs","histories"],"every list of disks and every sequence of choices",
 "No test covers disk choice; the weighted policy's state depends on the whole history.",
 [O+"usecase/component/driver_balancer.go",O+"usecase/component/driver_manager.go",C+"util/slices/slices.go"],[("policies","spaceFirstBalancer.Select, spaceWeightedBalancer.Select"),("fallback","DriverManager.SelectMountPointFallback")],["chosen disk"])
p("O04","Rebalancing plans move the excess and nothing else",
 "When a node leaves, every other node below the new average (the whole load divided over the nodes that stay, rounded up) is to take exactly what it lacks to that average, which together covers the leaving node's load, and nothing is assigned to the leaving node itself; when a node joins, each node holding more than the new average is asked to send exactly its excess and nobody else is asked to send. Planned amounts are always positive. A moved object is reported finished only when its size is as announced and a majority of the metadata servers did not fail to record its new place.",
 ["inputs","configurations"],"every set of nodes and every capacity of each",
 "The planning test needs a cluster.",
 [O+"usecase/service/migration_service.go"],[("plan","MigrationService.DeviationValues, getPeersCapacity"),("finish","MigrationService.FinishObject")],["planned amount per node"])
p("A01","A request is served only if authentication is off, exempt, or passed",
 "When authentication is enabled, a request whose route is not on the exempt list reaches its handler only if at least one enabled authenticator accepted its credentials; otherwise it is rejected with an error and no later handler runs. With authentication disabled, or for an exempt route, every request passes. The password authenticator accepts exactly the stored user name with the stored password, and a disabled authenticator accepts nobody.",
 ["inputs","configurations"],"every configuration, route, set of credentials and authenticator outcome",
 "No test covers the authentication chain; combinations of authenticators, errors and exemptions are not sampled.",
 [A+"usecase/componet/auth/auth_middleware.go",A+"usecase/componet/auth/password_validator.go",A+"usecase/componet/auth/callback_validator.go"],[("decision chain","auth.PreAuthenticate, AuthenticateWrap, AfterAuthenticate"),("password","PasswordValidator.Verify, Middleware")],["whether later handlers run, response status"])
p("A02","A bucket's storage policy decides how its objects are stored",
 "A version stored under a bucket with its own strategy gets that strategy and the bucket's shard or copy counts; otherwise the strategy asked for applies with the server's configured counts (a resumable upload is always erasure-coded, with the bucket's counts if the bucket is). Compression is on if the bucket or the request asks for it. Recorded shard sizes satisfy: the data shards together hold the object, and one byte less per shard would not.",
 ["inputs","configurations"],"every bucket definition, server configuration, requested strategy and object size",
 "No test covers it; the outcome depends on combinations of settings.",
 [A+"entity/metadata.go","src/apiserver/config/config.go"],[("version policy","Bucket.MakeVersion"),("effective configuration","Bucket.MakeConf"),("shard size","RsConfig.ShardSize")],["fields of the recorded version"])
p("A03","Uploads respect read-only buckets and keep only the allowed versions",
 "An upload to a read-only bucket is refused before any data or record is stored. A successful upload stores exactly one new version, and it removes exactly one old version (the object's first) when and only when an earlier version existed and either the bucket does not keep versions or as many versions as it allows were already kept. The metadata recorded is the one under which the data was stored, and a failed data upload records nothing.",
 ["inputs","fault_sequences"],"every bucket definition, existing version count, and outcome of the services called",
 "The upload path needs running services; none of the tests reach it.",
 [A+"usecase/service/object_service.go",A+"usecase/service/meta_service.go"],[("upload","ObjectService.StoreObject"),("recording","MetaService.SaveMetadata, AddVersion")],["calls made to metadata and data services, returned error"])
p("A04","Same content and storage settings, and only those, share a storage identity",
 "The storage identity of an upload is determined by the content digest, strategy, compression and (for erasure coding) shard counts; for replication the shard counts do not matter. Two uploads that differ in any of these that matter never share stored data.",
 ["inputs"],"every pair of uploads",
 "Nothing tests it; a collision needs a specific pair of settings.",
 [A+"usecase/service/object_service.go"],[("identity","ObjectService.UniqueHash")],["identity string"])
p("A05","Data servers are chosen without repeats until all are used",
 "Choosing n servers out of m available returns n of the available servers; as long as n does not exceed m they are all different, and beyond that no server is used twice more often than another. Every policy chooses from the offered list only, the least-loaded policies choose one with the smallest known load, and taking a server from a list leaves exactly the others.",
 ["inputs","configurations"],"every list of servers, count, policy and known load",
 "The one selector test checks a fixed list.",
 [A+"usecase/componet/selector/selector.go",A+"usecase/componet/selector/random_selector.go",A+"usecase/componet/selector/space_first_selector.go",A+"usecase/componet/selector/weighted_io_first.go",C+"util/slices/slices.go"],[("rotation","IPSelector.Select"),("policies","Pop and Select of each policy"),("minimum","slices.ExtremalIndex")],["chosen servers, remaining list"])
p("C01","Pages are the consecutive, bounded slices of the full list",
 "For any page number, page size and list length a page is either refused or a valid range of the list: page k holds items (k-1)*size up to k*size, cut at the end, so pages taken in order give every item exactly once. Page numbers or sizes below one, and pages past the end, are refused and never crash.",
 ["inputs"],"every page number, page size and length",
 "Only ordinary pages are sampled; negative and very large values are not.",
 [C+"util/util.go","src/adminserver/internal/usecase/logic/metadata_logic.go"],[("window","util.PagingOffset")],["returned bounds and flag"])
p("C02","Encoded values decode to themselves and bad input is an error",
 "Writing a number, a list of records or a data size in its stored form and reading it back gives the same value, for every value. Sizes written as text denote their unit's multiple and read back to the same number of bytes when exact. Truncated or malformed record lists and size texts are reported as errors rather than crashing or being read as another value.",
 ["inputs"],"every value and every byte string",
 "Tests round-trip a few values.",
 [C+"util/util.go",C+"datasize/datasize.go"],[("integers","util.IntToBytes, BytesToInt"),("lists","util.EncodeArrayMsgp, DecodeArrayMsgp"),("sizes","datasize.Parse, DataSize.String")],["encoded bytes, decoded values, errors"])
p("C03","Wildcard patterns match exactly the strings they describe",
 "A pattern matches a text exactly when the text can be obtained by replacing each '*' by some run of characters (possibly none) and each '?' by one character, everything else standing for itself; in simple mode a '?' with no text left to stand for may also stand for nothing, so 'a?' matches 'a' while 'a?b' does not. The answer is the same for every text and pattern length and matching always terminates.",
 ["inputs"],"every pattern and text",
 "The package has no runnable test of arbitrary patterns.",
 [C+"wildcard/wildcard.go"],[("match","wildcard.Match, MatchSimple, deepMatchRune")],["returned boolean"])
p("C05","Service lookups return each live registration under its id and role",
 "A lookup by service name maps every currently registered server's id to its address, whatever role suffix its registration carries, and nothing else; a lookup by role returns exactly the masters (servers without a role count as masters) or exactly the slaves. After a registration is removed it is no longer returned, and other services are unaffected.",
 ["histories","inputs"],"every history of registrations and removals with any role",
 "Discovery needs a coordination service in the tests.",
 [C+"registry/etcd_discovery.go",C+"registry/service_list.go",C+"registry/etcd_registry.go"],[("key forms","EtcdRegistry.AsMaster, AsSlave, Key"),("id and role parsing","EtcdDiscovery.GetServiceMapping, GetServiceMappingWith"),("membership","addService, removeService")],["returned maps"])
p("T01","Reported averages are the sum divided by the count of what was recorded",
 "For every recorded kind of operation the reported total is the sum of the recorded costs and the reported average is that sum divided by the number recorded, with nothing recorded twice or dropped. The per-server load history keeps the most recent samples, at most a fixed number, in time order.",
 ["histories","inputs"],"every sequence of recordings",
 "No test feeds the statistics more than a few values.",
 [C+"performance/store.go","src/adminserver/internal/usecase/db/server_stat_db.go"],[("averages","performance.AvgSumStore"),("bounded history","statTimeline.Append")],["reported values"])
p("N01","Concurrent requests never observe or leave a torn cache or slot state",
 "Under every interleaving of concurrent requests, cached metadata never outlives the stored record it copies and the slot table seen by a request is one that was stored.",
 ["schedules"],"all interleavings of concurrent readers, writers and background updates",
 "Tests run one request at a time.",
 [M+"repo/metadata_cache_repo.go",M+"db/hashslot_db.go",C+"cache/cache.go"],[("asynchronous cache update","MetadataRepo.* with cache"),("compare-and-swap","HashSlotDB")],["served data"])
p("N02","Acknowledged metadata survives crashes and leader changes",
 "A metadata write acknowledged to a client is present on every later leader, across any crash, restart, snapshot and leader change of a minority.",
 ["crash_points","schedules","fault_sequences"],"all crash points and elections",
 "Needs a cluster and crash injection.",
 [M+"raftimpl/raft_impl.go",M+"raftimpl/fsm_impl.go"],[("log and snapshot","raft wrapper, fsm.Snapshot/Restore")],["stored state after restart"])
p("N03","Lost shards are eventually rewritten and abandoned uploads eventually cleaned",
 "Every shard found missing while reading is eventually stored again, and temporary data of uploads that were never committed eventually disappears.",
 ["schedules","fault_sequences"],"all schedules of background work",
 "Liveness: no finite test decides it.",
 [A+"usecase/service/rs_get_stream.go",O+"usecase/service/temp_service.go"],[("asynchronous repair","RSGetStream.Close"),("cleanup","temp_service")],["files on data servers"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
