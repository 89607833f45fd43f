package service

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"bytes"
	"common/datasize"
	"common/registry"
	"common/response"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

type vUpKV struct {
	clientv3.KV
	n    int
	addr string
}

func (k vUpKV) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{}
	for i := 0; i < k.n; i++ {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("goodfs/registry/objectserver/o%d", i)), Value: []byte(k.addr)})
	}
	return res, nil
}

type vUpWatch struct {
	clientv3.Watcher
	ready chan bool
}

func (w vUpWatch) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	w.ready <- true
	return make(chan clientv3.WatchResponse)
}

// the data servers: temporary objects and what was committed
type vDataServer struct {
	mu        sync.Mutex
	next      int
	names     map[string]string
	data      map[string]*bytes.Buffer
	committed map[string][]byte
	failOn    string
	requests  int
	active    int
}

// idle waits until nobody asks any more
func (d *vDataServer) idle() {
	for quiet, i := 0, 0; quiet < 3 && i < 500; i++ {
		time.Sleep(time.Millisecond)
		d.mu.Lock()
		if d.active == 0 {
			quiet++
		} else {
			quiet = 0
		}
		d.mu.Unlock()
	}
}

func (d *vDataServer) reset(failOn string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.names, d.data, d.committed = map[string]string{}, map[string]*bytes.Buffer{}, map[string][]byte{}
	d.failOn, d.requests = failOn, 0
}

func (d *vDataServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	d.mu.Lock()
	d.active++
	d.mu.Unlock()
	body, _ := io.ReadAll(r.Body)
	d.mu.Lock()
	defer d.mu.Unlock()
	d.active--
	d.requests++
	id := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
	if r.Method == d.failOn && d.next%2 == 0 {
		w.WriteHeader(http.StatusInternalServerError)
		return
	}
	switch r.Method {
	case http.MethodPost:
		d.next++
		tmp := fmt.Sprint("tmp", d.next)
		d.names[tmp], d.data[tmp] = id, &bytes.Buffer{}
		io.WriteString(w, tmp)
	case http.MethodPatch:
		if b := d.data[id]; b != nil {
			b.Write(body)
		}
	case http.MethodPut:
		if b := d.data[id]; b != nil {
			d.committed[d.names[id]] = b.Bytes()
		}
	}
}

type vMetas struct {
	usecase.IMetaService
	mu       sync.Mutex
	found    *entity.Metadata
	findErr  error
	late     bool // somebody else saves the metadata meanwhile
	addErr   error
	saveErr  error
	recorded []*entity.Version
	hashes   []string
	removed  []int32
	atCommit func()
}

func (m *vMetas) GetMetadata(name, bucket string, v int32, extra bool) (*entity.Metadata, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.findErr != nil {
		return nil, m.findErr
	}
	if m.found == nil {
		return nil, response.NewError(404, "not found")
	}
	c := *m.found
	if !extra {
		c.Extra = entity.Extra{}
	}
	return &c, nil
}

func (m *vMetas) record(v *entity.Version) {
	m.atCommit()
	m.recorded = append(m.recorded, v)
	m.hashes = append(m.hashes, v.Hash)
}

func (m *vMetas) SaveMetadata(md *entity.Metadata) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.saveErr != nil {
		return 0, m.saveErr
	}
	if m.late {
		m.found = &entity.Metadata{Name: md.Name, Bucket: md.Bucket, Extra: entity.Extra{Total: 1, FirstVersion: 1, LastVersion: 1}}
		return 0, usecase.ErrMetadataExists
	}
	if len(md.Versions) > 0 {
		m.record(md.Versions[0])
	}
	return 1, nil
}

func (m *vMetas) AddVersion(name, bucket string, v *entity.Version) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.addErr != nil {
		return -1, m.addErr
	}
	m.record(v)
	return 2, nil
}

func (m *vMetas) RemoveVersion(name, bucket string, v int32) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.removed = append(m.removed, v)
	return nil
}

type vBuckets struct {
	repo.IBucketRepo
	b   *entity.Bucket
	err error
}

func (b *vBuckets) Get(string) (*entity.Bucket, error) {
	if b.err != nil {
		return nil, b.err
	}
	c := *b.b
	return &c, nil
}

type vBody struct {
	io.Reader
	failAt int
}

func (b *vBody) Read(p []byte) (int, error) {
	if b.failAt == 0 {
		return 0, errors.New("client gone")
	}
	if b.failAt > 0 && len(p) > b.failAt {
		p = p[:b.failAt]
	}
	n, err := b.Reader.Read(p)
	if b.failAt > 0 {
		b.failAt -= n
	}
	return n, err
}

func TestVerifA03(t *testing.T) {
	r := vRand()
	ds := &vDataServer{}
	srv := httptest.NewServer(h2c.NewHandler(ds, &http2.Server{}))
	defer srv.Close()
	addr := strings.TrimPrefix(srv.URL, "http://")
	pool.Config = &config.Config{}
	pool.Config.Discovery.DataServName = "objectserver"
	pool.Config.Object.DistinctSize = 1 << 50
	pool.Balancer = selector.NewSelector("random")
	w := vUpWatch{ready: make(chan bool, 9)}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: vUpKV{n: 3, addr: addr}, Watcher: w},
		&registry.Config{Group: "goodfs", Name: "apiserver", ServerIP: "10.9.9.9", ServerPort: "1", Services: []string{"objectserver"}})
	select {
	case <-w.ready:
	case <-time.After(10 * time.Second):
		t.Skip("the discovery did not read the registrations")
	}
	type done struct {
		m    *vMetas
		want int
		desc string
	}
	var all []done
	n := 0
	for k := 0; k < vN(600); k++ {
		conf := &pool.Config.Object
		conf.ReedSolomon = config.RsConfig{DataShards: 1 + r.Intn(3), ParityShards: 1 + r.Intn(2), BlockPerShard: 4096}
		conf.Replication = config.ReplicationConfig{CopiesCount: 1 + r.Intn(3), BlockSize: datasize.DataSize(4096)}
		b := &entity.Bucket{Name: "b", Readonly: r.Intn(5) == 0, Versioning: r.Intn(2) == 0, VersionRemains: r.Intn(4), Compress: r.Intn(4) == 0}
		if r.Intn(2) == 0 {
			b.StoreStrategy = entity.ObjectStrategy(1 + r.Intn(2))
			b.DataShards, b.ParityShards = 1+r.Intn(3), 1+r.Intn(2)
		}
		data := make([]byte, r.Intn(3*4096))
		r.Read(data)
		m := &vMetas{}
		what := ""
		total := r.Intn(5)
		if r.Intn(3) > 0 {
			m.found = &entity.Metadata{Name: "o", Bucket: "b", Extra: entity.Extra{Total: total, FirstVersion: 3 + r.Intn(4), LastVersion: 9}}
			what = fmt.Sprintf("exists with %d versions from %d", total, m.found.FirstVersion)
		} else if r.Intn(3) == 0 {
			m.late = true
			what = "saved by another meanwhile"
		}
		bk := &vBuckets{b: b}
		failOn, failBody := "", -1
		fails := false
		switch r.Intn(14) {
		case 0:
			m.findErr = response.NewError(500, "unavailable")
			what, fails = what+" lookup fails", true
		case 1:
			m.findErr = errors.New("unavailable")
			what, fails = what+" lookup fails", true
		case 2:
			m.addErr = errors.New("add")
			what, fails = what+" adding fails", m.found != nil || m.late
		case 3:
			m.saveErr = errors.New("save")
			what, fails = what+" saving fails", m.found == nil
		case 4:
			bk.err = errors.New("bucket")
			what, fails = what+" bucket lookup fails", true
		case 5, 6, 7:
			failOn = []string{http.MethodPost, http.MethodPatch, http.MethodPut}[r.Intn(3)]
			what += " data server fails on " + failOn
		case 8:
			failBody = r.Intn(len(data) + 1)
			what, fails = what+fmt.Sprintf(" body fails at %d", failBody), true
		}
		ds.reset(failOn)
		req := &entity.PutReq{Name: "o", Bucket: "b", Hash: "digest", Body: &vBody{bytes.NewReader(data), failBody}}
		ver := &entity.Version{Hash: "digest", Size: int64(len(data)), StoreStrategy: entity.ObjectStrategy(r.Intn(3))}
		md := &entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{ver}}
		strat := ver.StoreStrategy
		desc := func() string {
			return fmt.Sprintf("bucket %+v, object of %d bytes, strategy %d, %s", *b, len(data), strat, what)
		}
		vSig(t, desc())
		n++
		stored := true
		m.atCommit = func() {
			ds.mu.Lock()
			defer ds.mu.Unlock()
			cnt := ver.DataShards
			if ver.StoreStrategy != entity.MultiReplication {
				cnt += ver.ParityShards
			}
			for i := 0; i < cnt; i++ {
				c, ok := ds.committed[fmt.Sprintf("%s.%d", ver.Hash, i)]
				if !ok || ver.StoreStrategy == entity.MultiReplication && !bytes.Equal(c, data) {
					stored = false
				}
			}
		}
		vCatch(t, "panic", desc, func() {
			o := NewObjectService(m, bk, nil)
			_, err := o.StoreObject(req, md)
			m.mu.Lock()
			rec := len(m.recorded)
			hashes := append([]string(nil), m.hashes...)
			m.mu.Unlock()
			want := 0
			if err == nil {
				if fails {
					vFail(t, "failure", "%s: no error", desc())
				}
				if b.Readonly {
					vFail(t, "readonly", "%s: not refused", desc())
				}
				if rec != 1 {
					vFail(t, "record", "%s: %d versions recorded", desc(), rec)
				} else if hashes[0] != ver.Hash || !stored {
					vFail(t, "data", "%s: recorded under %s although its data was not stored there", desc(), hashes[0])
				}
				if m.late && m.found != nil {
					total = 1
				}
				if m.found != nil && total > 0 && (!b.Versioning || total >= b.VersionRemains) {
					want = 1
				}
			} else {
				if rec != 0 {
					vFail(t, "record", "%s: recorded although it failed with %v", desc(), err)
				}
				if !fails && !b.Readonly && failOn == "" {
					vFail(t, "error", "%s: %v", desc(), err)
				}
			}
			if b.Readonly {
				ds.mu.Lock()
				if ds.requests > 0 {
					vFail(t, "readonly", "%s: %d requests to the data servers", desc(), ds.requests)
				}
				ds.mu.Unlock()
			}
			all = append(all, done{m, want, desc()})
			if err != nil && !b.Readonly {
				ds.idle()
			}
			for i := 0; i < 200; i++ {
				m.mu.Lock()
				ok := len(m.removed) >= want
				m.mu.Unlock()
				if ok {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		})
	}
	time.Sleep(200 * time.Millisecond)
	for _, d := range all {
		d.m.mu.Lock()
		if len(d.m.removed) != d.want {
			vFail(t, "removed", "%s: %d versions removed, %d expected", d.desc, len(d.m.removed), d.want)
		} else if d.want == 1 && int(d.m.removed[0]) != d.m.found.FirstVersion {
			vFail(t, "first", "%s: version %d removed", d.desc, d.m.removed[0])
		}
		d.m.mu.Unlock()
	}
	vDone(t, n)
}
