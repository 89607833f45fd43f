package logic

import (
	"apiserver/config"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/pool"
	"common/registry"
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type vKV struct {
	clientv3.KV
	n int
}

func (k vKV) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{}
	for i := 0; i < k.n; i++ {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("goodfs/registry/objectserver/o%d", i)), Value: []byte(fmt.Sprintf("10.1.0.%d", i))})
	}
	return res, nil
}

// vWatch is asked to watch once the registrations have been read.
type vWatch struct {
	clientv3.Watcher
	ready chan bool
}

func (w vWatch) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	w.ready <- true
	return make(chan clientv3.WatchResponse)
}

func TestVerifA05Servers(t *testing.T) {
	r := vRand()
	n := 0
	for m := 0; m < 7; m++ {
		pool.Config = &config.Config{}
		pool.Config.Discovery.DataServName = "objectserver"
		w := vWatch{ready: make(chan bool, 9)}
		pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: vKV{n: m}, Watcher: w},
			&registry.Config{Group: "goodfs", Name: "apiserver", ServerIP: "10.9.9.9", ServerPort: "1", Services: []string{"objectserver"}})
		select {
		case <-w.ready:
		case <-time.After(10 * time.Second):
			t.Skip("the discovery did not read the registrations")
		}
		for i := 0; i < vN(100); i++ {
			size := r.Intn(3*m + 4)
			desc := func() string { return fmt.Sprintf("%d of %d servers", size, m) }
			vCase(t, desc())
			n++
			vCatch(t, "panic", desc, func() {
				got := NewDiscovery().SelectDataServer(selector.NewSelector("random"), size)
				if m > 0 && len(got) != size || m == 0 && len(got) != 0 {
					vFail(t, "count", "%s: got %v", desc(), got)
				}
				used := map[string]int{}
				for j, g := range got {
					used[g]++
					lo, hi := math.MaxInt, 0
					for k := 0; k < m; k++ {
						u := used[fmt.Sprintf("10.1.0.%d", k)]
						if u < lo {
							lo = u
						}
						if u > hi {
							hi = u
						}
					}
					if len(used) > m || hi > lo+1 {
						vFail(t, "rotation", "%s: after %d choices the servers were used %v", desc(), j+1, used)
						return
					}
				}
			})
		}
	}
	vDone(t, n)
}
