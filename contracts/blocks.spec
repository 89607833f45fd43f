# O01: stored bytes are read back over any window, alignment padding never shown.

# what a reader still has to give
ghost togive: (Array Int Str)

define aligned(n) = ite(n % 4096 == 0, n, n - n % 4096 + 4096)

extern (io.Reader).Read
  params p
  modifies elems(p), togive
  ensures count: 0 <= result0 && result0 <= len(p) && result0 <= len(old(togive[recv]))
  ensures data: forall(k, 0, result0, p[k] == old(togive[recv])[k])
  ensures left: togive == sto(old(togive), recv, old(togive[recv])[result0:len(old(togive[recv]))])
  ensures end: implies(result1 == io.EOF, len(togive[recv]) == 0)

extern io.ReadFull
  params r, buf
  modifies elems(buf), togive
  ensures count: 0 <= result0 && result0 <= len(buf) && result0 <= len(old(togive[r]))
  ensures data: forall(k, 0, result0, buf[k] == old(togive[r])[k])
  ensures left: togive == sto(old(togive), r, old(togive[r])[result0:len(old(togive[r]))])
  ensures full: (result1 == nil) == (result0 == len(buf))
  ensures end: implies(result1 == io.EOF || result1 == io.ErrUnexpectedEOF, len(togive[r]) == 0)
  ensures none: implies(result1 == io.EOF, result0 == 0)

func common/system/disk.AlignedSize
  property O01
  requires pos: n >= 0 && n <= 9223372036854771712
  ensures up: n <= result && result < n + 4096 && result % 4096 == 0

func common/system/disk.AlignedSize64
  property O01
  requires pos: n >= 0 && n <= 9223372036854771712
  ensures up: n <= result && result < n + 4096 && result % 4096 == 0

func common/util/slices.Fill
  property O01
  modifies elems(arr)
  ensures all: forall(k, 0, len(arr), arr[k] == v)
  ensures rest: forall(k, implies(k < 0 || k >= len(arr), arr[k] == old(arr[k])))
  loop 1
    invariant upto: 1 <= j && forall(k, 0, min(j, len(arr)), arr[k] == v)
    invariant rest: forall(k, implies(k < 0 || k >= len(arr), arr[k] == old(arr[k])))

func (common/system/disk.AlignedReader).Read
  property O01
  requires wf: ar.Reader != nil && len(p) <= 4611686018427387904
  modifies elems(p), togive
  ensures data: implies(result1 == nil || result1 == io.EOF, forall(k, 0, min(len(p), len(old(togive[ar.Reader]))), p[k] == old(togive[ar.Reader])[k]))
  ensures bound: 0 <= result0 && result0 <= len(p)
  ensures whole: implies(result1 == nil || result1 == io.EOF, result0 == min(len(p), aligned(min(len(p), len(old(togive[ar.Reader]))))))
  ensures padding: forall(k, len(old(togive[ar.Reader])), result0, p[k] == 0)
  ensures taken: implies(result1 == nil || result1 == io.EOF, togive == sto(old(togive), ar.Reader, old(togive[ar.Reader])[min(len(p), len(old(togive[ar.Reader]))):len(old(togive[ar.Reader]))]))

func (common/system/disk.AlignedLimitedReader).Read
  property O01
  requires wf: l.R != nil && l.N <= 9223372036854771712
  modifies elems(p), togive, l.N
  ensures count: 0 <= result0 && result0 <= len(p) && result0 <= max(0, old(l.N)) && result0 <= len(old(togive[l.R]))
  ensures data: forall(k, 0, result0, p[k] == old(togive[l.R])[k])
  ensures left: l.N == old(l.N) - result0
  ensures next: implies(l.N > 0, togive == sto(old(togive), l.R, old(togive[l.R])[result0:len(old(togive[l.R]))]))
  ensures end: implies(old(l.N) <= 0, result0 == 0 && result1 == io.EOF)

# what the files hold, what an open file still has to give and what has been written to a stream
ghost files: (Array Str Str)
ghost fsrc: (Array Int Str)
ghost fall: (Array Int Str)
ghost fpath: (Array Int Str)
ghost out: (Array Int Str)
ghost fflag: (Array Int Int)
uf unz(Str) Str
uf zeros(Int) Str

define window(s, from, upto) = s[min(from, len(s)):min(max(from, upto), len(s))]
define lim(s, n) = s[0:min(len(s), max(0, n))]
define paged() = cst.OS.PageSize == 4096

extern common/system/disk.OpenFileDirectIO
  params filePath, flag, perm
  modifies fsrc, fall, fpath, fflag
  ensures opened: implies(result1 == nil, result0 != nil && fresh(result0) && fsrc == sto(old(fsrc), ref(result0), sel(files, filePath)) && fall == sto(old(fall), ref(result0), sel(files, filePath)) && fpath == sto(old(fpath), ref(result0), filePath) && fflag == sto(old(fflag), ref(result0), flag))

extern common/system/disk.DisableDirectIO
  params f

extern os.Open
  params name
  modifies fsrc, fall, fpath
  ensures opened: implies(result1 == nil, result0 != nil && fresh(result0) && fsrc == sto(old(fsrc), ref(result0), sel(files, name)) && fall == sto(old(fall), ref(result0), sel(files, name)) && fpath == sto(old(fpath), ref(result0), name))

extern (os.File).Seek
  params offset, whence
  modifies fsrc
  ensures moved: implies(result1 == nil && whence == 0, fsrc == sto(old(fsrc), recv, fall[recv][min(offset, len(fall[recv])):len(fall[recv])]))

extern common/system/disk.AlignedBlock
  params blockSize
  requires size: blockSize >= 0
  ensures size: len(result) == blockSize && fresh(result)

extern github.com/klauspost/compress/s2.NewReader
  params r, opts
  modifies fsrc
  ensures content: result != nil && fresh(result) && fsrc == sto(old(fsrc), ref(result), unz(old(fsrc)[ref(as(r, "*os.File"))]))

extern (github.com/klauspost/compress/s2.Reader).Skip
  params n
  modifies fsrc
  ensures skipped: implies(result == nil, n <= len(old(fsrc[recv])) && fsrc == sto(old(fsrc), recv, old(fsrc[recv])[n:len(old(fsrc[recv]))]))

extern io.LimitReader
  params r, n
  ensures lim: dyntype(result, "*io.LimitedReader") && as(result, "*io.LimitedReader").R == r && as(result, "*io.LimitedReader").N == n

# copying drains the reader into the writer; what a limited reader gives is settled by the contract
# of its Read method
extern io.CopyBuffer
  params dst, from, buf
  requires room: len(buf) > 0
  modifies out, fsrc, togive, files
  ensures plain: implies(result1 == nil && dyntype(from, "*io.LimitedReader"), out == sto(old(out), dst, old(out[dst]) + lim(old(fsrc)[ref(as(as(from, "*io.LimitedReader").R, "*github.com/klauspost/compress/s2.Reader"))], as(from, "*io.LimitedReader").N)))
  ensures limited: implies(result1 == nil && dyntype(from, "*common/system/disk.AlignedLimitedReader"), out == sto(old(out), dst, old(out[dst]) + lim(old(fsrc)[ref(as(as(from, "*common/system/disk.AlignedLimitedReader").R, "*os.File"))], as(from, "*common/system/disk.AlignedLimitedReader").N)))
  ensures padded: implies(result1 == nil && len(buf) % 4096 == 0 && dyntype(dst, "*os.File") && appends(fflag[ref(as(dst, "*os.File"))]) && dyntype(from, "*common/system/disk.AlignedReader"), files == sto(old(files), fpath[ref(as(dst, "*os.File"))], sel(old(files), fpath[ref(as(dst, "*os.File"))]) + padded(old(togive)[as(from, "*common/system/disk.AlignedReader").Reader])))

define padded(s) = s + zeros(aligned(len(s)) - len(s))
# opened for writing, created when missing, every write going to the end
define appends(flag) = flag == 1089 || flag == 1090

func common/system/disk.PaddingReader
  property O01
  ensures pad: dyntype(result, "*common/system/disk.AlignedReader") && as(result, "*common/system/disk.AlignedReader").Reader == r

func common/system/disk.LimitReader
  property O01
  ensures lim: dyntype(result, "*common/system/disk.AlignedLimitedReader") && as(result, "*common/system/disk.AlignedLimitedReader").R == r && as(result, "*common/system/disk.AlignedLimitedReader").N == n

func objectserver/internal/usecase/service.GetFile
  property O01
  requires window: offset >= 0 && size >= 0 && size <= 9223372036854771712 && paged()
  modifies out, files, fsrc, togive, fall, fpath, fflag
  ensures bytes: implies(result == nil, out == sto(old(out), writer, old(out[writer]) + window(sel(old(files), fullPath), offset, size)))

func objectserver/internal/usecase/service.GetFileCompress
  property O01
  requires window: offset >= 0 && size >= 0 && paged()
  modifies out, files, fsrc, togive, fall, fpath, fflag
  ensures bytes: implies(result == nil, out == sto(old(out), writer, old(out[writer]) + window(unz(sel(old(files), fullPath)), offset, size)))

func objectserver/internal/usecase/service.AppendFileAligned
  property O01
  requires buffer: bufSize > 0 && bufSize % 4096 == 0
  modifies out, files, fsrc, togive, fall, fpath, fflag
  ensures bytes: implies(result1 == nil, files == sto(old(files), fullPath, sel(old(files), fullPath) + padded(old(togive[fileStream]))))

func objectserver/internal/usecase/service.WriteFile
  property O01
  requires paged: paged()
  modifies out, files, fsrc, togive, fall, fpath, fflag
  ensures bytes: implies(result1 == nil, files == sto(old(files), fullPath, sel(old(files), fullPath) + padded(old(togive[fileStream]))))
