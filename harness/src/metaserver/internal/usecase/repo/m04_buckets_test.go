package repo

import (
	"common/proto/msg"
	"common/util"
	"fmt"
	"metaserver/internal/usecase"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
)

func vSameBucket(a, b msg.Bucket) bool {
	if len(a.Policies) == 0 && len(b.Policies) == 0 {
		a.Policies, b.Policies = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

// Random sequences of calls on the real bucket repositories (direct and batched, with their cache) over a real
// database file, compared with the rules after every call.
func TestVerifM04Sequences(t *testing.T) {
	r := vRand()
	dir, err := os.MkdirTemp("", "verifbuckets")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	all := []string{"a", "ab", "abc", "b", "a\x00", "a\xff", "图", "图像", "b/1", "B"}
	prefixes := append([]string{"", "a", "ab", "abcd", "a\xff", "图", "zz", "b/"}, all...)
	total := 0
	for c := 0; c < vN(100) && !t.Failed(); c++ {
		s := vStorage(t, dir, c)
		cr := NewBucketCacheRepo(&vMemCache{map[string][]byte{}})
		direct := NewBucketRepo(s, cr)
		batch := NewBatchBucketRepo(s, cr)
		m := map[string]msg.Bucket{}
		var log []string
		for step := 0; step < 40 && !t.Failed(); step++ {
			total++
			n := all[r.Intn(len(all))]
			if r.Intn(15) == 0 {
				n = ""
			}
			var w usecase.BucketWritableRepo = direct
			how := ""
			if r.Intn(2) == 0 {
				w, how = batch, " (batch)"
			}
			b := &msg.Bucket{Versioning: r.Intn(2) == 0, Readonly: r.Intn(2) == 0, Compress: r.Intn(2) == 0, StoreStrategy: int8(r.Intn(3)),
				DataShards: int32(r.Intn(9)), ParityShards: int32(r.Intn(9)), VersionRemains: int32(r.Intn(9)), CreateTime: int64(r.Intn(9)),
				UpdateTime: int64(r.Intn(9)), Name: n}
			for i := r.Intn(3); i > 0; i-- {
				b.Policies = append(b.Policies, fmt.Sprint("p", i))
			}
			given := *b
			old, exists := m[n]
			var err error
			accept := true
			desc, extra := "", ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						extra = fmt.Sprintf("the call crashed: %v", p)
					}
				}()
				switch op := r.Intn(10); {
				case op < 4:
					desc = fmt.Sprintf("create %+v", given)
					err = w.Create(b)
					if accept = n != "" && !exists; accept {
						m[n] = given
					}
				case op < 7:
					desc = fmt.Sprintf("update %+v", given)
					err = w.Update(b)
					if accept = n != "" && exists && given.UpdateTime > old.UpdateTime; accept {
						given.CreateTime = old.CreateTime
						m[n] = given
					}
				case op < 9:
					desc = fmt.Sprintf("remove %q", n)
					err = w.Remove(n)
					delete(m, n)
					accept = n != "" || err == nil
				default:
					p, size := prefixes[r.Intn(len(prefixes))], r.Intn(12)-1
					desc = fmt.Sprintf("list %q %d", p, size)
					var names []string
					for k := range m {
						if strings.HasPrefix(k, p) {
							names = append(names, k)
						}
					}
					sort.Strings(names)
					if size < 0 {
						names = nil
					} else if len(names) > size {
						names = names[:size]
					}
					var l []*msg.Bucket
					l, _, err = direct.List(p, size)
					ok := len(l) == len(names)
					for i := 0; ok && i < len(l); i++ {
						ok = vSameBucket(*l[i], m[names[i]])
					}
					if !ok {
						var got []msg.Bucket
						for _, x := range l {
							got = append(got, *x)
						}
						extra = fmt.Sprintf("listing gives %+v, expected are %q with %v", got, names, m)
					}
				}
			}()
			log = append(log, desc+how)
			vSig(t, desc+how)
			if extra == "" && accept != (err == nil) {
				extra = fmt.Sprintf("expected acceptance: %v, got %v", accept, err)
			}
			for _, k := range all {
				if extra != "" {
					break
				}
				want, ok := m[k]
				if r.Intn(2) == 0 {
					bt, err := direct.GetBytes(k)
					var got msg.Bucket
					if err == nil {
						err = util.DecodeMsgp(&got, bt)
					}
					if ok != (err == nil) || (ok && !vSameBucket(got, want)) {
						extra = fmt.Sprintf("the bytes of bucket %q are %+v, %v; stored: %v %+v", k, got, err, ok, want)
					}
					continue
				}
				got, err := direct.Get(k)
				if ok != (err == nil) || (ok && !vSameBucket(*got, want)) {
					extra = fmt.Sprintf("bucket %q is read as %+v, %v; stored: %v %+v", k, got, err, ok, want)
				}
			}
			if extra != "" {
				vFail(t, "sequence", "%s; after %s", extra, strings.Join(log, "; "))
			}
		}
		p := s.DB().Path()
		s.DB().Close()
		os.Remove(p)
	}
	vDone(t, total)
}
