c("H01", "Every function from range text to accepted table is under contract and every obligation is discharged without a bound; that a refused declaration is really malformed is proved for parsing and for the sort/overlap check, and additionally exercised by the bounded harness. strings.Split and strconv are assumed contracts.")
c("H02", "Slot number, lookup, membership, range query and copies are proved for every table and range; crc32.ChecksumIEEE is an assumed function of the bytes.")
c("H03", "CombineEdges and RemoveEdges are proved to compute union and difference for every pair of tables (unbounded, loop invariants); the callers in HashSlotService (receiving slots, giving them away) are exercised by a bounded harness with the real slot database over a stand-in for etcd and a real receiving server: the recorded slots afterwards, and that exactly the objects and buckets of the given slots are sent.")
NA = {
 "N01": "a statement about interleavings of goroutines; contracts over sequential functions cannot express the schedules, and there is no permission-based verifier for Go here",
 "N02": "a whole-history property of crashes, snapshots and leader changes inside the raft library and the file system; no function contract within reach expresses it",
 "N03": "a liveness property (eventually repaired, eventually removed) of asynchronous goroutines and timers; contracts express only safety of one call",
}
c("C01", "util.PagingOffset is proved for every page, size and length (machine arithmetic); the two callers that sort and cut the merged lists are exercised by the bounded harness through faked servers.")
c("C03", "Match, MatchSimple and the matcher under them are proved to compute the recursive definition of matching, and to terminate, for every pattern and text; []rune conversion is an assumed function of the string.")
c("A02", "MakeVersion, MakeConf, the shard arithmetic and the block layout are proved for every bucket, configuration and size within the stated ranges (shards 1..10^6, sizes below 2^63 minus the shard count).")
c("A04", "UniqueHash is proved to be an injective function of the settings that matter, up to collisions of SHA-256 (assumed); the decimal form of integers is assumed to be injective and free of spaces.")
c("A05", "Every policy's Pop and Select, the rotation and SelectDataServer are proved for every list of servers and every number asked for; the list of live servers (distinct addresses), math/rand and the load figures fetched over HTTP are assumed contracts.")
c("O03", "Both balancers and the manager are proved for every list of disks and every state of reservations (machine arithmetic); the manager's call through the DriverBalancer interface is discharged by refinement: each implementation is proved to meet the interface's contract. sort.Slice is an assumed contract; math.Log is any number.")
c("O04", "The plan (DeviationValues and the loads it collects) is proved for every number of nodes and every load: exact amounts, nothing for the server itself, and the cover of a leaving load (sum over a finite map, axiomatised). Floating point is treated as exact (loads below 2^53). FinishObject's majority is exercised by the bounded harness only (goroutines).")
c("T01", "AvgSumStore.Sum and Average are proved for every list of records returned by the inner store (sums below 10^18): each recorded kind and action is reported exactly once, with the exact sum and quotient. The stores (in memory, etcd stand-in, bolt file), the collector and the load history are exercised by the bounded harness.")
c("C05", "The lookups of EtcdDiscovery and EtcdRegistry, the list of registrations under them (add, remove, combine, copy, list) and the splitting of keys are proved for every set of registrations and every id; the etcd answer (keys under the asked prefix) is an assumed contract. That a watched removal reaches the list is exercised by the bounded harness with a stand-in for etcd.")
c("H04", "Every operation of the slot database (start, finish, save, remove, close, the mode queries and the constructor) is proved against a transition contract from every state; sequences follow by composition. The text sent to etcd is the encoding of the record under the requested id. Assumed: etcd Put/Delete/Get, the record encoding as a function of the record (C02 checks it). One caller at a time.")
c("M01", "Adding, migrating, updating, removing one or all versions (direct and batched repositories) and the reported first, last and total are proved for every content of the database, over an assumed model of the embedded database: a bucket is a set of keys with values and a counter, a transaction keeps its effects exactly when it succeeds, a batched one may be run and undone once before. Encoding of records is an assumed inverse pair. The number of versions stored per bucket stays below 2^63. The service's operations on versions are proved to carry out the one operation they were asked for, through the log or directly, with its number; what the log does with an entry is assumed there as a whole (M05 proves it in pieces). Reading a version through the service is proved to hand out what the repository answers for the number asked for (none or zero means the last one).")
c("M02", "Creating, updating and removing object records and updating versions (direct and batched) are proved against the same database model, with frame conditions for every other record, and so is that the service's operations carry out what they were asked for (through the log, assumed as a whole, or directly); reading one object with one of its versions through the service is proved over what the repository answers, and reading through the caches is exercised by the bounded harness on a real database file.")
c("M03", "That every stored or removed version is entered in and dropped from both indexes, with all other entries kept, and that a stored unique id is refused, is proved for every operation that stores or removes versions (direct and batched), against the same database model. Looking versions up by their content hash (service) is exercised by the bounded harness.")
c("M04", "Creating, updating, removing, reading and listing bucket definitions (direct and batched repositories) are proved for every content of the database, with the cache under a coherence invariant (what it may hold of a bucket is what is stored) and the listing against a model of the database cursor (keys in byte order); the service's operations are proved to carry out what they were asked for, through the log or directly. Record encoding and the database are assumed models; the harness runs the real repositories on a real file.")
c("M05", "Applying one entry and applying a batch are proved against one step function over an abstract store: an entry's operation, name, number and payload decide the next state and the outcome, and a batch is the left fold of that function with one outcome per entry, for every list of entries; handing an entry to the log (leader check, outcome passed on) is proved too. The repositories' operations are assumed functions of that state here (M01-M04 prove them), decoding is an assumed function of the bytes into an empty entry; the harness runs real encodings, also with absent fields.")
c("C02", "Number forms and data-size texts (Parse, String) are proved for every value; the decoder of record lists is proved never to slice outside its data and to end. The round trip of record lists is exercised by the bounded harness. binary.*Uvarint, regexp matching of sizes and upper-casing are assumed contracts.")
c("A01", "Every handler of the chain is proved on the function it returns, for every context, configuration and authenticator: the exemption decision, an authenticator's verdict added to it, and the stop with an error status when nobody accepted. The password authenticator is proved to accept exactly the credential etcd holds, the callback authenticator exactly the answer 200. The gin context (values, stop flag, status) and etcd's answer are assumed models; the order of the chain, and that the server's routes are behind it, are exercised by the harness with the real gin engine.")
c("O02", "Adding, listing, last, removing one and removing all are proved for every content of the index, every name and every path, over an assumed model of the embedded key-value store (a set of keys with values; a transaction keeps its effects only when it succeeds): each operation's effect on the list of paths is exact, fails without effect, and leaves every other object alone; histories follow by composition. Assumed: the store, bytes.Split/Join on the separator, and that the two replacements of the escaping invert the two of the unescaping (bytes.ReplaceAll); the harness runs the real store with paths made of separators and escapes.")
c("O01", "Rounding, padding (AlignedReader.Read), limiting (AlignedLimitedReader.Read) and the reading of a window of a stored file, plain and compressed (GetFile, GetFileCompress), and the writing of a padded file (WriteFile) are proved for every size, offset, buffer and content, over assumed models of io.Reader, io.ReadFull, files, and of io.CopyBuffer draining a limited or padding reader. Joined readers (MultiReader), WriteFileWithSize and the reading over http with its cache are exercised by the bounded harness with real files and direct-io, not proved.")
c("E01", "The encoder's Write and Flush, the stream's Commit and NewEncoder are proved for every configuration (at least one data and one parity shard), every content and every cutting into writes: the blocks split so far make up the bytes written, each is exactly the block size except the last, every shard has received exactly its piece of every block in order, a failed write is reported and makes every later write and commit fail, nothing is buffered after a commit, and every shard was committed; the size a resumed upload reports is the size of its first shard times the data shards, at most the object's. Assumed: the reedsolomon library's Split and Encode (a block cut into equal parts, padded at its end by fewer bytes than there are parts, and its parity), io.Writer, the DoneGroup, that goroutines do what they do where they are started (each writes to its own shard), and that a written buffer is not changed meanwhile. The harness runs the real library with failing shards and commits.")
c("E03", "CopyPutStream's Write, Flush and Commit and the tolerance are proved for every configuration, content, cutting into writes and set of failing copies: every copy received the same bytes in order, a failed copy is reported and the upload cannot be committed then (stricter than the tolerance), a successful commit committed every copy, and the number of copies that must succeed is between one and the copy count. Assumed: io.Writer, Committer, the DoneGroup, that goroutines do what they do where they are started, and that a written buffer is not changed meanwhile; float arithmetic of the rate is left unknown and the result is clamped by the code.")
c("E02", "The cache and cursor of reading (rsDecoder.Read), fetching a block (getData) and ending a download (RSGetStream.Close) are proved for every configuration, size, buffer and set of failing shards: what was fetched is handed out once and in order, blocks advance by exactly the block size up to the object's size and no further, the end is reported exactly after the last byte, nothing is delivered after a failure, a shard counts only if it delivered the whole of its part of a block and is not read again otherwise, and (also for streams over temporary shards) each shard is asked from its place with its size, decoding starts empty; repaired shards are committed only after the whole object was read and every repair succeeded. That the block's bytes are those of the object, and the repaired bytes those of the shard (reconstruction, cache and shards sharing memory), is NOT proved: it is checked by a bounded harness with the real encoder and decoder, losses at every kind of place, slow and failing repairs, seeks and partial reads. Assumed: reedsolomon's Reconstruct (all pieces get the common length of those present, or an error), io.ReadFull, goroutines run where they are started. NewRSGetStream's opening of shards (network) is not covered.")
c("A03", "ObjectService.StoreObject, streamToDataServer and MetaService's SaveMetadata, AddVersion and RemoveVersion are proved for every bucket, number of existing versions and outcome of the services called: a read-only bucket or a failed lookup stops the upload (a read-only bucket before a stream is opened), an error records and removes nothing, success records exactly the given version once, under the hash and servers its committed stream was opened with (or located before), and removes exactly the first version exactly when the rule says so; with checksums on, the data read has the requested digest. Assumed: the metadata, version and bucket repositories and the location lookup (abstract states), opening a stream (dataServerStream), digests, io copying, that goroutines do what they do where they are started, sane bucket and configuration numbers, and that error variables set at start-up are not nil. The harness runs uploads against real HTTP data servers with failing steps. Resumable uploads (big_api.go) were repaired but are not under contract.")
