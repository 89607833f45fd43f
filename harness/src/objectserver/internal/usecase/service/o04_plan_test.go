package service

import (
	"common/proto/pb"
	"common/registry"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

// vDisc is a discovery with fixed answers.
type vDisc struct {
	registry.Discovery
	addrs  []string
	self   string
	metas  map[string]string
	hidden bool
}

func (d *vDisc) GetServices(name string) []string { return d.addrs }
func (d *vDisc) GetService(name, id string) (string, bool) {
	if id != "me" || d.hidden {
		return "", false
	}
	return d.self, true
}
func (d *vDisc) GetServiceMapping(name string) map[string]string { return d.metas }
func (d *vDisc) GetServiceMappingWith(name string, master bool) map[string]string {
	if !master {
		return map[string]string{}
	}
	return d.metas
}

type vPeer struct {
	srv  *httptest.Server
	addr string
	mu   sync.Mutex
	load string
	code int
	got  []string
}

func vPeers(n int) []*vPeer {
	ps := make([]*vPeer, n)
	for i := range ps {
		p := &vPeer{}
		p.srv = httptest.NewServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			p.mu.Lock()
			defer p.mu.Unlock()
			if r.URL.Path == "/stat" {
				w.Header().Set("Capacity", p.load)
				return
			}
			b, _ := io.ReadAll(r.Body)
			p.got = append(p.got, r.Method+" "+r.URL.Path+" "+string(b))
			w.WriteHeader(p.code)
		}), &http2.Server{}))
		p.addr = strings.TrimPrefix(p.srv.URL, "http://")
		ps[i] = p
	}
	return ps
}

func TestVerifO04Plan(t *testing.T) {
	r := vRand()
	ps := vPeers(6)
	defer func() {
		for _, p := range ps {
			p.srv.Close()
		}
	}()
	pool.Config = &config.Config{}
	pool.Config.Registry.Name, pool.Config.Registry.ServerID = "objectserver", "me"
	n := 0
	for i := 0; i < vN(250); i++ {
		m := r.Intn(6)
		d := &vDisc{self: ps[5].addr}
		loads := map[string]int64{}
		scale := []int64{4, 50, 1 << 40}[r.Intn(3)]
		total := int64(0)
		for k := 0; k < m; k++ {
			l := r.Int63n(scale)
			if r.Intn(5) == 0 {
				l = 0
			}
			ps[k].load = fmt.Sprint(l)
			loads[ps[k].addr] = l
			total += l
			d.addrs = append(d.addrs, ps[k].addr)
		}
		if r.Intn(4) > 0 { // usually the server itself is listed too
			d.addrs = append(d.addrs, d.self)
			r.Shuffle(len(d.addrs), func(a, b int) { d.addrs[a], d.addrs[b] = d.addrs[b], d.addrs[a] })
		}
		own := r.Int63n(scale)
		ps[5].load = fmt.Sprint(own)
		total += own
		pool.Discovery = d
		pool.ObjectCap = db.NewObjectCapacity()
		pool.ObjectCap.AddCap(own)
		for _, join := range []bool{false, true} {
			desc := func() string { return fmt.Sprintf("join=%v own=%d loads=%v", join, own, loads) }
			size := int64(m)
			if join {
				size++
			}
			want := map[string]int64{}
			if size > 0 {
				avg := (total + size - 1) / size
				for a, l := range loads {
					if join && l > avg {
						want[a] = l - avg
					} else if !join && avg > l {
						want[a] = avg - l
					}
				}
			}
			vCase(t, fmt.Sprint(join, m, len(want)))
			n++
			vCatch(t, "panic", desc, func() {
				got, err := NewMigrationService(pool.ObjectCap).DeviationValues(join)
				if len(want) == 0 || total == 0 {
					if err == nil && len(got) > 0 {
						vFail(t, "plan-extra", "%s: plan %v, nothing has to move", desc(), got)
					}
					return
				}
				if err != nil {
					vFail(t, "plan-refused", "%s: error %v, expected %v", desc(), err, want)
					return
				}
				sum := int64(0)
				for a, v := range got {
					if a == d.self {
						vFail(t, "plan-self", "%s: the server itself is assigned %d", desc(), v)
					}
					if v <= 0 {
						vFail(t, "plan-negative", "%s: %s is assigned %d", desc(), a, v)
					}
					sum += v
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					vFail(t, "plan", "%s: plan %v, expected %v", desc(), got, want)
				}
				if !join && sum < own {
					vFail(t, "plan-cover", "%s: plan %v does not hold the leaving load", desc(), got)
				}
			})
		}
	}
	vDone(t, n)
}

// A received object is reported finished only if its size is right and a majority of the metadata
// servers did not fail.
func TestVerifO04Finish(t *testing.T) {
	r := vRand()
	ps := vPeers(6)
	defer func() {
		for _, p := range ps {
			p.srv.Close()
		}
	}()
	dir := t.TempDir()
	pool.Config = &config.Config{StoragePath: "store"}
	pool.Config.Registry.Name, pool.Config.Registry.ServerID = "objectserver", "me"
	pool.Config.Discovery.MetaServName = "metaserver"
	pool.ObjectCap = db.NewObjectCapacity()
	dm := component.NewDriverManager(component.SpaceFirstBalancer())
	pool.DriverManager = dm
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "paths")); err != nil {
		t.Skip("no path database: ", err)
	}
	defer pool.PathDB.Close()
	if err = os.MkdirAll(filepath.Join(dir, "store"), 0755); err != nil {
		t.Skip(err)
	}
	n := 0
	for i := 0; i < vN(120); i++ {
		name := fmt.Sprintf("hash%d.%d", i, r.Intn(12))
		path := filepath.Join(dir, "store", name)
		size := int64(r.Intn(100))
		if err := os.WriteFile(path, make([]byte, size), 0644); err != nil {
			t.Skip(err)
		}
		// listed twice, so that the last path is found by every reading of the list
		_ = pool.PathDB.Put(name, filepath.Join(dir, "old", name))
		_ = pool.PathDB.Put(name, path)
		m := 1 + r.Intn(6)
		d := &vDisc{self: "10.0.0.1:8100", metas: map[string]string{}}
		fails := 0
		codes := ""
		for k := 0; k < m; k++ {
			ps[k].mu.Lock()
			ps[k].code = []int{200, 200, 404, 500, 503}[r.Intn(5)]
			ps[k].got = nil
			codes += fmt.Sprint(ps[k].code, " ")
			if ps[k].code >= 500 {
				fails++
			}
			ps[k].mu.Unlock()
			d.metas[fmt.Sprint("m", k)] = ps[k].addr
		}
		pool.Discovery = d
		said := size
		if r.Intn(6) == 0 {
			said++
		}
		desc := func() string { return fmt.Sprintf("size %d of %d, metadata servers answer %s", said, size, codes) }
		vCase(t, desc())
		n++
		vCatch(t, "panic", desc, func() {
			err := NewMigrationService(pool.ObjectCap).FinishObject(&pb.ObjectInfo{FileName: name, Size: said})
			majority := 2*(m-fails) > m
			if (err == nil) != (majority && said == size) {
				vFail(t, "finish", "%s: %v", desc(), err)
			}
			if said != size {
				return
			}
			for k := 0; k < m; k++ {
				ps[k].mu.Lock()
				if len(ps[k].got) != 1 || !strings.HasPrefix(ps[k].got[0], "PATCH /version/locate ") ||
					!strings.Contains(ps[k].got[0], fmt.Sprintf(`"hash":"hash%d"`, i)) ||
					!strings.Contains(ps[k].got[0], fmt.Sprintf(`"locateIndex":%s`, name[strings.LastIndex(name, ".")+1:])) ||
					!strings.Contains(ps[k].got[0], `"locate":"10.0.0.1:8100"`) {
					vFail(t, "finish-told", "%s: metadata server %d was told %q", desc(), k, ps[k].got)
				}
				ps[k].mu.Unlock()
			}
		})
	}
	vDone(t, n)
}
