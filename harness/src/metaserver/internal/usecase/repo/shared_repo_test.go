package repo

import (
	"common/cache"
	"common/proto/msg"
	"errors"
	"fmt"
	"math/rand"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/logic"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	bolt "go.etcd.io/bbolt"
)

// vMemCache keeps cached bytes in a map; it copies like the real cache does.
type vMemCache struct{ m map[string][]byte }

func (c *vMemCache) HasGet(k string) ([]byte, bool) { b, ok := c.m[k]; return append([]byte{}, b...), ok }
func (c *vMemCache) Get(k string) []byte            { return append([]byte(nil), c.m[k]...) }
func (c *vMemCache) Has(k string) bool              { _, ok := c.m[k]; return ok }
func (c *vMemCache) Set(k string, b []byte) bool    { c.m[k] = append([]byte{}, b...); return true }
func (c *vMemCache) Delete(k string)                { delete(c.m, k) }
func (c *vMemCache) Refresh(string)                 {}
func (c *vMemCache) SetGob(string, interface{}) bool { return false }
func (c *vMemCache) Close() error                   { return nil }
func (c *vMemCache) NotifyEvicted() <-chan cache.Entry {
	return make(chan cache.Entry)
}

func vStorage(t *testing.T, dir string, n int) *db.Storage {
	s := db.NewStorage()
	if err := s.Open(filepath.Join(dir, fmt.Sprint("db", n))); err != nil {
		t.Fatal(err)
	}
	s.DB().NoSync = true
	s.DB().MaxBatchSize = 1
	return s
}

type vObj struct {
	meta    msg.Metadata
	vers    map[uint64]msg.Version
	counter uint64
}

type vModel map[string]*vObj

func (m vModel) clone() vModel {
	r := vModel{}
	for n, o := range m {
		c := &vObj{meta: o.meta, vers: map[uint64]msg.Version{}, counter: o.counter}
		for s, v := range o.vers {
			c.vers[s] = v
		}
		r[n] = c
	}
	return r
}

func (m vModel) hasUID(u string) bool {
	for _, o := range m {
		for _, v := range o.vers {
			if v.UniqueId == u {
				return true
			}
		}
	}
	return false
}

func vCopyVer(v *msg.Version) msg.Version {
	c := *v
	c.Locate = append([]string{}, v.Locate...)
	return c
}

func vSameVer(a, b msg.Version) bool {
	if len(a.Locate) == 0 && len(b.Locate) == 0 {
		a.Locate, b.Locate = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

func vIndex(t *testing.T, s *db.Storage, name string) map[string][]string {
	res := map[string][]string{}
	_ = s.View(func(tx *bolt.Tx) error {
		root := tx.Bucket([]byte(name))
		if root == nil {
			return nil
		}
		return root.ForEach(func(k, _ []byte) error {
			key := string(k)
			return root.Bucket(k).ForEach(func(e, _ []byte) error {
				res[key] = append(res[key], string(e))
				return nil
			})
		})
	})
	return res
}

// vDiff returns the properties that the database does not have in state m, with what is wrong.
func vDiff(t *testing.T, s *db.Storage, rd *MetadataRepo, hx *HashIndexRepo, m vModel, names, hashes, uids []string) (prop, what string) {
	hash, uid := map[string][]string{}, map[string][]string{}
	for n, o := range m {
		for seq, v := range o.vers {
			k := fmt.Sprint(n, ".", seq)
			hash[v.Hash] = append(hash[v.Hash], k)
			uid[v.UniqueId] = append(uid[v.UniqueId], k)
		}
	}
	for _, x := range []map[string][]string{hash, uid} {
		for _, l := range x {
			sort.Strings(l)
		}
	}
	for _, n := range names {
		o := m[n]
		got, err := rd.GetMetadata(n)
		if o == nil {
			if err == nil {
				return "M02", fmt.Sprintf("object %q is read as %+v but none is stored", n, *got)
			}
			if v, err := rd.GetVersion(n, 1); err == nil {
				return "M02", fmt.Sprintf("version 1 of %q is read as %+v but the object is gone", n, *v)
			}
			continue
		}
		if err != nil {
			return "M02", fmt.Sprintf("object %q cannot be read: %v", n, err)
		}
		if got.Name != o.meta.Name || got.Bucket != o.meta.Bucket || got.CreateTime != o.meta.CreateTime || got.UpdateTime != o.meta.UpdateTime {
			return "M02", fmt.Sprintf("object %q is read as %+v, stored was %+v", n, *got, o.meta)
		}
		var first, last uint64
		for seq := range o.vers {
			if first == 0 || seq < first {
				first = seq
			}
			if seq > last {
				last = seq
			}
		}
		for seq := uint64(0); seq <= o.counter+2; seq++ {
			v, err := rd.GetVersion(n, seq)
			want, ok := o.vers[seq]
			if ok != (err == nil) {
				return "M01", fmt.Sprintf("version %d of %q: stored %v, reading it gives %v", seq, n, ok, err)
			}
			if ok && !vSameVer(*v, want) {
				p := "M02"
				if v.Sequence != seq {
					p = "M01"
				}
				return p, fmt.Sprintf("version %d of %q is read as %+v, stored was %+v", seq, n, *v, want)
			}
		}
		x, err := rd.GetExtra(n)
		if err != nil || x.Total != len(o.vers) || x.FirstVersion != int(first) || x.LastVersion != int(last) {
			return "M01", fmt.Sprintf("%q holds versions %v but the reported extra is %+v, %v", n, vSeqs(o), x, err)
		}
		if f, l := rd.GetFirstVersionNumber(n), rd.GetLastVersionNumber(n); f != first || l != last {
			return "M01", fmt.Sprintf("%q holds versions %v but the reported first and last are %d and %d", n, vSeqs(o), f, l)
		}
	}
	if got := vIndex(t, s, "go.dfs.index.hashIndex"); !reflect.DeepEqual(got, hash) {
		return "M03", fmt.Sprintf("hash index is %v, stored versions are %v", got, hash)
	}
	if got := vIndex(t, s, "go.dfs.index.uniqueIdIndex"); !reflect.DeepEqual(got, uid) {
		return "M03", fmt.Sprintf("unique-id index is %v, stored versions are %v", got, uid)
	}
	for _, h := range hashes {
		keys, err := hx.FindAll(h)
		sort.Strings(keys)
		if err != nil || len(keys) != len(hash[h]) || (len(keys) > 0 && !reflect.DeepEqual(keys, hash[h])) {
			return "M03", fmt.Sprintf("looking hash %q up gives %v, %v; stored are %v", h, keys, err, hash[h])
		}
	}
	for _, u := range uids {
		if ok, err := rd.ExistsByUniqueId(u); err != nil || ok != (len(uid[u]) > 0) {
			return "M03", fmt.Sprintf("unique id %q is said to exist: %v, %v; stored are %v", u, ok, err, uid[u])
		}
	}
	return "", ""
}

func vSeqs(o *vObj) (res []uint64) {
	for s := range o.vers {
		res = append(res, s)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return
}

// vDriveMeta runs random calls on the real repositories over a real database file and compares every
// result and the whole state with the rules; it reports what breaks prop.
func vDriveMeta(t *testing.T, prop string, sets int) {
	r := vRand()
	dir, err := os.MkdirTemp("", "verifmeta")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	total := 0
	for c := 0; c < sets && !t.Failed(); c++ {
		total += vMetaCase(t, r, dir, c, prop)
	}
	vDone(t, total)
}

func vMetaCase(t *testing.T, r *rand.Rand, dir string, c int, prop string) int {
	s := vStorage(t, dir, c)
	defer func() { p := s.DB().Path(); s.DB().Close(); os.Remove(p) }()
	mc := &vMemCache{map[string][]byte{}}
	cacheRepo := NewMetadataCacheRepo(mc)
	direct := NewMetadataRepo(s, cacheRepo)
	batch := NewBatchRepo(s, cacheRepo)
	hx := NewHashIndexRepo(s)
	names := []string{"a", "a.1", "ab", "b/图.", "a.1.2"}[:2+r.Intn(4)]
	hashes := []string{"h1", "h2", "h1.", "none"}
	var uids []string
	for i := 0; i < 25; i++ {
		uids = append(uids, fmt.Sprint("u", i))
	}
	m := vModel{}
	var log []string
	many := c%4 == 1 // many versions of few objects
	steps := 40
	if many {
		steps, names = 60, names[:1]
	}
	for step := 0; step < steps; step++ {
		n := names[r.Intn(len(names))]
		var w usecase.WritableRepo = direct
		how := ""
		if r.Intn(2) == 0 {
			w, how = batch, " (batch)"
		}
		before := m.clone()
		o := m[n]
		var err error
		var accept bool
		blame := "M02" // the property broken if the outcome is not the expected one
		op := r.Intn(20)
		if many && step > 0 {
			op = 6 + r.Intn(14)
			if step < 20 {
				op = 8
			}
		}
		var desc string
		extra := "" // further complaint about the call
		func() {
			defer func() {
				if p := recover(); p != nil {
					extra = fmt.Sprintf("the call crashed: %v", p)
				}
			}()
			switch {
			case op < 4:
				d := &msg.Metadata{Name: n, Bucket: fmt.Sprint("B", r.Intn(3)), CreateTime: int64(r.Intn(5)), UpdateTime: int64(r.Intn(5))}
				if r.Intn(3) == 0 {
					d.Extra = &msg.Extra{Total: 7, FirstVersion: 7, LastVersion: 7}
				}
				desc = fmt.Sprintf("add object %q %+v", n, *d)
				err = w.AddMetadata(n, d)
				if accept = o == nil; accept {
					m[n] = &vObj{meta: msg.Metadata{Name: d.Name, Bucket: d.Bucket, CreateTime: d.CreateTime, UpdateTime: d.UpdateTime}, vers: map[uint64]msg.Version{}}
				}
			case op < 6:
				d := &msg.Metadata{Name: n + "x", Bucket: "other", CreateTime: 77, UpdateTime: int64(r.Intn(9))}
				desc = fmt.Sprintf("update object %q %+v", n, *d)
				given := *d
				err = w.UpdateMetadata(n, d)
				if accept = o != nil && given.UpdateTime > o.meta.UpdateTime; accept {
					o = m[n]
					o.meta.Name, o.meta.UpdateTime = given.Name, given.UpdateTime
				}
			case op < 7:
				if r.Intn(3) > 0 {
					desc = fmt.Sprintf("read %q", n)
					_, _ = direct.GetMetadata(n)
					for i := uint64(0); i < 5; i++ {
						_, _ = direct.GetVersion(n, i)
					}
					accept = true
					break
				}
				desc = fmt.Sprintf("remove object %q", n)
				err = w.RemoveMetadata(n)
				accept = true
				delete(m, n)
			case op < 14:
				v := &msg.Version{Compress: r.Intn(2) == 0, StoreStrategy: int8(r.Intn(3)), DataShards: int32(r.Intn(9)), ParityShards: int32(r.Intn(9)),
					ShardSize: int64(r.Intn(1 << 20)), Size: int64(r.Intn(1 << 30)), Ts: int64(r.Intn(5)), Sequence: uint64(1 + r.Intn(20)),
					Hash: hashes[r.Intn(3)], UniqueId: uids[r.Intn(len(uids))]}
				for i := r.Intn(4); i > 0; i-- {
					v.Locate = append(v.Locate, fmt.Sprint("10.0.0.", r.Intn(9)))
				}
				blame = "M03"
				if !m.hasUID(v.UniqueId) {
					blame = "M01"
				}
				if r.Intn(4) > 0 {
					desc = fmt.Sprintf("add version of %q %+v", n, *v)
					err = w.AddVersion(n, v)
					if accept = o != nil && !m.hasUID(v.UniqueId); accept && err == nil {
						if v.Sequence <= o.counter {
							extra, blame = fmt.Sprintf("the new version got number %d although %d had been used", v.Sequence, o.counter), "M01"
						}
						o.counter = v.Sequence
						o.vers[v.Sequence] = vCopyVer(v)
					}
				} else {
					if many {
						v.Sequence = uint64(8 + r.Intn(40))
					}
					desc = fmt.Sprintf("migrate version to %q %+v", n, *v)
					seq := v.Sequence
					err = w.AddVersionFromRaft(n, v)
					accept = o != nil && !m.hasUID(v.UniqueId)
					if accept {
						if _, ok := o.vers[seq]; ok {
							accept = false
						}
					}
					if accept {
						if seq > o.counter {
							o.counter = seq
						}
						w := vCopyVer(v)
						w.Sequence = seq
						o.vers[seq] = w
					}
				}
			case op < 16:
				v := &msg.Version{Sequence: uint64(1 + r.Intn(6)), Ts: int64(r.Intn(9)), Hash: "changed", UniqueId: "changed", Size: int64(r.Intn(99)), Locate: []string{"moved"}}
				desc = fmt.Sprintf("update version of %q %+v", n, *v)
				seq, ts := v.Sequence, v.Ts
				err = w.UpdateVersion(n, v)
				if o != nil {
					if old, ok := o.vers[seq]; ok && ts > old.Ts {
						accept = true
						o.vers[seq] = msg.Version{Sequence: seq, Ts: ts, Hash: old.Hash, UniqueId: old.UniqueId, Size: v.Size, Locate: []string{"moved"}}
					}
				}
			case op < 19:
				seq := uint64(1 + r.Intn(8))
				if o != nil && len(o.vers) > 0 && r.Intn(2) == 0 {
					q := vSeqs(o)
					seq = q[r.Intn(len(q))]
				}
				desc = fmt.Sprintf("remove version %d of %q", seq, n)
				blame = "M01"
				err = w.RemoveVersion(n, seq)
				if o != nil {
					if _, ok := o.vers[seq]; ok {
						delete(o.vers, seq)
						accept = true
						break
					}
				}
				accept = err == nil // removing what is not there may be reported or not
			default:
				if many && r.Intn(4) > 0 {
					desc, accept = "nothing", true
					break
				}
				desc = fmt.Sprintf("remove all versions of %q", n)
				blame = "M01"
				err = w.RemoveAllVersion(n)
				if o == nil {
					accept = err == nil
					break
				}
				accept = true
				o.vers = map[uint64]msg.Version{}
			}
		}()
		log = append(log, desc+how)
		vSig(t, desc+how)
		if extra == "" && accept != (err == nil) {
			extra = fmt.Sprintf("expected acceptance: %v, got %v", accept, err)
		}
		if err != nil {
			m = before
		}
		if extra == "" {
			blame, extra = vDiff(t, s, direct, hx, m, names, hashes, uids)
		}
		if extra != "" {
			if blame == prop || strings.Contains(extra, "crashed") {
				vFail(t, "sequence", "%s; after %s", extra, strings.Join(log, "; "))
			}
			return step + 1
		}
	}
	return steps
}

var _ = errors.Is
var _ = time.Now
var _ = logic.Sep
