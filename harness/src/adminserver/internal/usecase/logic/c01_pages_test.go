package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"bytes"
	"common/proto/msg"
	"common/registry"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// vKV serves the registrations of the metadata servers.
type vKV struct {
	clientv3.KV
	n int
}

func (k vKV) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{}
	for i := 0; i < k.n; i++ {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("goodfs/registry/metaserver/m%d_master", i)), Value: []byte(fmt.Sprintf("m%d", i))})
	}
	return res, nil
}

type vWatch struct{ clientv3.Watcher }

func (vWatch) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

// vServers answers the list requests the way metadata servers do: the first page_size
// entries in key order.
type vServers struct {
	mu      sync.Mutex
	meta    map[string][]*msg.Metadata
	buckets map[string][]*msg.Bucket
}

func (v *vServers) RoundTrip(r *http.Request) (*http.Response, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	size, err := strconv.Atoi(r.URL.Query().Get("page_size"))
	resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: r}
	if err != nil || size == 0 || size > 10000 {
		resp.StatusCode = 400
		resp.Body = io.NopCloser(strings.NewReader(`{"message":"bad page size"}`))
		return resp, nil
	}
	var out any
	total := 0
	if strings.HasPrefix(r.URL.Path, "/bucket") {
		l := append([]*msg.Bucket{}, v.buckets[r.URL.Host]...)
		sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
		total = len(l)
		if size < 0 {
			size = 0
		}
		if len(l) > size {
			l = l[:size]
		}
		out = l
	} else {
		l := append([]*msg.Metadata{}, v.meta[r.URL.Host]...)
		sort.Slice(l, func(i, j int) bool { return l[i].Bucket+"/"+l[i].Name < l[j].Bucket+"/"+l[j].Name })
		total = len(l)
		if size < 0 {
			size = 0
		}
		if len(l) > size {
			l = l[:size]
		}
		out = l
	}
	b, _ := json.Marshal(out)
	resp.Header.Set("X-Total-Count", strconv.Itoa(total))
	resp.Body = io.NopCloser(bytes.NewReader(b))
	return resp, nil
}

func vSetup(t *testing.T, servers int, v *vServers) {
	pool.Config = &config.Config{}
	pool.Config.Discovery.MetaServName = "metaserver"
	pool.Http = &http.Client{Transport: v}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: vKV{n: servers}, Watcher: vWatch{}},
		&registry.Config{Group: "goodfs", Name: "admin", ServerID: "a1", ServerIP: "127.0.0.1", ServerPort: "1", Services: []string{"metaserver"}})
	for i := 0; len(pool.Discovery.GetServicesWith("metaserver", true)) != servers; i++ {
		if i > 500 {
			vFail(t, "setup", "the registrations do not show up")
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

var vAlphabet = []string{"a", "b", "a-b", "a.b", "a%b", "ab", "A", "é", "a b", "a0", "z"}

func TestVerifC01Pages(t *testing.T) {
	r := vRand()
	n := 0
	for round := 0; round < vN(12); round++ {
		servers := 1 + round%3
		v := &vServers{meta: map[string][]*msg.Metadata{}, buckets: map[string][]*msg.Bucket{}}
		var names, bucks []string
		for i, k := 0, r.Intn(14); i < k; i++ {
			b, nm := vAlphabet[r.Intn(len(vAlphabet))], fmt.Sprint(vAlphabet[r.Intn(len(vAlphabet))], i)
			host := fmt.Sprintf("m%d", r.Intn(servers))
			v.meta[host] = append(v.meta[host], &msg.Metadata{Bucket: b, Name: nm})
			names = append(names, b+"/"+nm)
			v.buckets[host] = append(v.buckets[host], &msg.Bucket{Name: nm})
			bucks = append(bucks, nm)
		}
		sort.Strings(names)
		sort.Strings(bucks)
		vSetup(t, servers, v)
		for _, size := range []int{-1, 1, 2, 3, 5, 100} {
			for page := -1; page <= 9; page++ {
				if page == 0 {
					continue
				}
				n++
				want := func(all []string) []string {
					lo, hi := (page-1)*size, page*size
					if page < 1 || size < 1 || lo >= len(all) {
						return nil
					}
					if hi > len(all) {
						hi = len(all)
					}
					return all[lo:hi]
				}
				desc := func() string { return fmt.Sprintf("page %d size %d of %q on %d servers", page, size, names, servers) }
				vSig(t, desc())
				vCatch(t, "panic", desc, func() {
					var got []string
					l, _, err := NewMetadata().MetadataPaging(&MetadataCond{Page: page, PageSize: size})
					for _, m := range l {
						got = append(got, m.Bucket+"/"+m.Name)
					}
					if w := want(names); (err != nil && w != nil) || fmt.Sprint(got) != fmt.Sprint(w) {
						vFail(t, "pages", "objects, %s: got %q, %v; expected %q", desc(), got, err, w)
					}
				})
				vCatch(t, "panic", desc, func() {
					var got []string
					l, _, err := NewMetadata().BucketPaging(&BucketCond{Page: page, PageSize: size})
					for _, m := range l {
						got = append(got, m.Name)
					}
					if w := want(bucks); (err != nil && w != nil) || fmt.Sprint(got) != fmt.Sprint(w) {
						vFail(t, "pages", "buckets, page %d size %d of %q: got %q, %v; expected %q", page, size, bucks, got, err, w)
					}
				})
			}
		}
		for _, p := range [][2]int{{1 << 62, 4}, {1 << 62, 1 << 62}, {1, 1 << 62}, {3, -1 << 62}, {-1 << 62, 3}, {1 << 40, 1 << 40}} {
			vCatch(t, "panic", func() string { return fmt.Sprint(p) }, func() {
				l, _, err := NewMetadata().MetadataPaging(&MetadataCond{Page: p[0], PageSize: p[1]})
				b, _, err2 := NewMetadata().BucketPaging(&BucketCond{Page: p[0], PageSize: p[1]})
				if (p[0] != 1 && len(l)+len(b) > 0) || (err == nil && len(l) > len(names)) || (err2 == nil && len(b) > len(bucks)) {
					vFail(t, "pages", "page %d size %d of %d objects: %d, %d", p[0], p[1], len(names), len(l), len(b))
				}
			})
		}
		pool.Discovery.Close()
	}
	vDone(t, n)
}
