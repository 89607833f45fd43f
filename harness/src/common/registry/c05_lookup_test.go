package registry

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type vReg struct{ serv, id, role, addr string }

func (v vReg) key(group string) string {
	k := group + "/registry/" + v.serv + "/" + v.id
	if v.role != "" {
		k += "_" + v.role
	}
	return k
}

// what lookups must give for the live registrations
func vWantMap(regs []vReg, serv string, use func(vReg) bool) map[string]string {
	m := map[string]string{}
	for _, r := range regs {
		if r.serv == serv && use(r) {
			m[r.id] = r.addr
		}
	}
	return m
}
func vAll(vReg) bool      { return true }
func vMaster(r vReg) bool { return r.role != "slave" }
func vSlave(r vReg) bool  { return r.role == "slave" }

func vVals(m map[string]string) []string {
	out := []string{}
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}

func vSortedCopy(a []string) []string {
	out := append([]string{}, a...)
	sort.Strings(out)
	return out
}

var vServs = []string{"meta", "meta2", "object", "a_b"}
var vIds = []string{"n1", "n_1", "n1_x", "meta-127-0-0-1", "_", "a_b_c", "n", "master", "x_masterx", "n-1.2", "slave"}
var vRoles = []string{"", "master", "slave"}

func vCheckLookups(t *testing.T, what string, d *EtcdDiscovery, regs []vReg) {
	for _, s := range append([]string{"unknown"}, vServs...) {
		w := fmt.Sprintf("%s: service %q of %v", what, s, regs)
		vCatch(t, what, func() string { return w }, func() {
			if g, m := d.GetServiceMapping(s), vWantMap(regs, s, vAll); !(len(g) == 0 && len(m) == 0) && !reflect.DeepEqual(g, m) {
				vFail(t, "mapping", "%s: GetServiceMapping gives %v, want %v", w, g, m)
			}
			for _, master := range []bool{true, false} {
				use := vSlave
				if master {
					use = vMaster
				}
				m := vWantMap(regs, s, use)
				if g := d.GetServiceMappingWith(s, master); !(len(g) == 0 && len(m) == 0) && !reflect.DeepEqual(g, m) {
					vFail(t, "role", "%s: GetServiceMappingWith(master %v) gives %v, want %v", w, master, g, m)
				}
				if g := vSortedCopy(d.GetServicesWith(s, master)); fmt.Sprint(g) != fmt.Sprint(vVals(m)) {
					vFail(t, "role-list", "%s: GetServicesWith(master %v) gives %v, want %v", w, master, g, vVals(m))
				}
			}
			m := vWantMap(regs, s, vAll)
			if g := vSortedCopy(d.GetServices(s)); fmt.Sprint(g) != fmt.Sprint(vVals(m)) {
				vFail(t, "list", "%s: GetServices gives %v, want %v", w, g, vVals(m))
			}
			if n := d.GetServiceCount(s); n != len(m) {
				vFail(t, "count", "%s: GetServiceCount gives %d, want %d", w, n, len(m))
			}
			for _, id := range append(vIds, "no") {
				a, ok := d.GetService(s, id)
				if wa, wok := m[id]; ok != wok || a != wa {
					vFail(t, "one", "%s: GetService(%q) = %q, %v, want %q, %v", w, id, a, ok, wa, wok)
				}
			}
		})
	}
}

// one registration per id of a service, in a group of its own; the ids and addresses are all different
func vRegs(r *rand.Rand) (out []vReg) {
	for _, s := range vServs {
		for _, i := range r.Perm(len(vIds))[:r.Intn(5)] {
			out = append(out, vReg{s, vIds[i], vRoles[r.Intn(3)], fmt.Sprintf("10.0.0.%d:%d", len(out), r.Intn(65536))})
		}
	}
	return
}

func TestVerifC05(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(300); i++ {
		d := &EtcdDiscovery{services: map[string]*serviceList{}, group: "g"}
		regs := vRegs(r)
		vSig(t, fmt.Sprint(regs))
		for _, x := range regs {
			d.addService(x.serv, x.addr, x.key("g"))
		}
		vCheckLookups(t, "added", d, regs)
		for len(regs) > 0 {
			j := r.Intn(len(regs))
			if r.Intn(2) == 0 { // registered again under the other role
				x := regs[j]
				d.removeService(x.serv, x.key("g"))
				x.role = vRoles[1+r.Intn(2)]
				d.addService(x.serv, x.addr, x.key("g"))
				regs[j] = x
			} else {
				d.removeService(regs[j].serv, regs[j].key("g"))
				regs = append(regs[:j:j], regs[j+1:]...)
			}
			vCheckLookups(t, "changed", d, regs)
			n++
			if r.Intn(3) == 0 {
				break
			}
		}
		// init data combined with what was known
		sl := newServiceList()
		old := map[string]string{"a": "1", "b": "2"}
		for k, v := range old {
			sl.add(v, k)
		}
		sl.combine(map[string]string{"b": "3", "c": "4"})
		if fmt.Sprint(sl.copy()) != fmt.Sprint(map[string]string{"a": "1", "b": "3", "c": "4"}) {
			vFail(t, "combine", "combine gives %v", sl.copy())
		}
	}
	// the registry asks etcd
	for i := 0; i < vN(200); i++ {
		e := newVEtcd()
		cli := &clientv3.Client{KV: e}
		regs := vRegs(r)
		var rs []*EtcdRegistry
		for _, x := range regs {
			reg := NewEtcdRegistry(cli, &Config{Group: "g", Name: x.serv, ServerID: x.id, ServerPort: "80", ServerIP: "1.2.3.4"})
			reg.addr = x.addr
			rs = append(rs, reg)
			switch x.role {
			case "master":
				reg.AsSlave()
				reg.AsMaster()
			case "slave":
				reg.AsMaster()
				reg.AsSlave()
			}
			reg.Register(0)
			other := NewEtcdRegistry(cli, &Config{Group: "g2", Name: x.serv, ServerID: x.id + "z", ServerPort: "80", ServerIP: "1.2.3.4"})
			other.Register(0)
		}
		check := func() {
			reg := NewEtcdRegistry(cli, &Config{Group: "g", Name: "any", ServerID: "any", ServerPort: "80"})
			for _, s := range append([]string{"unknown"}, vServs...) {
				m := vWantMap(regs, s, vAll)
				w := fmt.Sprintf("registry: service %q of %v", s, regs)
				vCatch(t, "registry", func() string { return w }, func() {
					if g := reg.GetServiceMapping(s); !(len(g) == 0 && len(m) == 0) && !reflect.DeepEqual(g, m) {
						vFail(t, "registry-mapping", "%s: GetServiceMapping gives %v, want %v", w, g, m)
					}
					if g := vSortedCopy(reg.GetServices(s)); fmt.Sprint(g) != fmt.Sprint(vVals(m)) {
						vFail(t, "registry-list", "%s: GetServices gives %v, want %v", w, g, vVals(m))
					}
					for _, id := range append(vIds, "no") {
						a, ok := reg.GetService(s, id)
						if wa, wok := m[id]; ok != wok || a != wa {
							vFail(t, "registry-one", "%s: GetService(%q) = %q, %v", w, id, a, ok)
						}
					}
				})
			}
		}
		check()
		for len(regs) > 0 && r.Intn(4) != 0 {
			j := r.Intn(len(regs))
			_ = rs[j].Unregister()
			regs = append(regs[:j:j], regs[j+1:]...)
			rs = append(rs[:j:j], rs[j+1:]...)
			check()
			n++
		}
	}
	// discovery: initial fetch, then changes as they are watched
	for i := 0; i < vN(4); i++ {
		e := newVEtcd()
		w := &vWatcher{ready: make(chan string, 100), ch: map[string]chan clientv3.WatchResponse{}}
		regs := vRegs(r)
		for _, x := range regs {
			_, _ = e.Put(context.Background(), x.key("g"), x.addr)
		}
		// the server itself is a member of a service
		self := vReg{"object", "self", "", "1.2.3.4:80"}
		d := NewEtcdDiscovery(&clientv3.Client{KV: e, Watcher: w}, &Config{Group: "g", Name: "object", ServerID: "self", ServerIP: "1.2.3.4", ServerPort: "80", Services: vServs})
		prefix := map[string]string{}
		for range vServs {
			select {
			case p := <-w.ready:
				prefix[p] = p
			case <-time.After(20 * time.Second):
				t.Fatal("the services are not watched")
			}
		}
		regs = append(regs, self)
		vCheckLookups(t, "discovered", d, regs)
		send := func(x vReg, tp mvccpb.Event_EventType) {
			ev := &clientv3.Event{Type: tp, Kv: &mvccpb.KeyValue{Key: []byte(x.key("g"))}}
			if tp == mvccpb.PUT {
				ev.Kv.Value = []byte(x.addr)
			}
			for p, c := range w.ch {
				if len(x.key("g")) >= len(p) && x.key("g")[:len(p)] == p {
					c <- clientv3.WatchResponse{Events: []*clientv3.Event{ev}}
					c <- clientv3.WatchResponse{} // the first has been handled when this one is taken
				}
			}
		}
		for j := 0; j < 10; j++ {
			if k := r.Intn(len(regs)); r.Intn(2) == 0 && regs[k] != self {
				send(regs[k], mvccpb.DELETE)
				regs = append(regs[:k:k], regs[k+1:]...)
			} else {
				x := vReg{vServs[r.Intn(len(vServs))], fmt.Sprintf("new_%d", j), vRoles[r.Intn(3)], fmt.Sprintf("10.1.0.%d:1", j)}
				// registered before with the service id same as a self registration: the same entry
				send(x, mvccpb.PUT)
				regs = append(regs, x)
			}
			vCheckLookups(t, "watched", d, regs)
			n++
		}
		send(self, mvccpb.PUT)
		vCheckLookups(t, "self", d, regs)
		d.Close()
	}
	vDone(t, n)
}

type vWatcher struct {
	clientv3.Watcher
	ready chan string
	ch    map[string]chan clientv3.WatchResponse
}

var vWatchMu = make(chan struct{}, 1)

func (w *vWatcher) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	vWatchMu <- struct{}{}
	defer func() { <-vWatchMu }()
	c := make(chan clientv3.WatchResponse)
	w.ch[key] = c
	w.ready <- key
	return c
}
