package service

import (
	"common/hashslot"
	"common/proto/pb"
	"fmt"
	"io"
	"math/rand"
	"metaserver/config"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
)

const vSlots = 16384

type vSrvMeta struct {
	usecase.IMetadataService
	mu   sync.Mutex
	vers map[string][]string
}

func (m *vSrvMeta) FilterKeys(fn func(string) bool) (r []string) {
	for k := range m.vers {
		if fn(k) {
			r = append(r, k)
		}
	}
	return
}
func (m *vSrvMeta) GetMetadataBytes(n string) ([]byte, error) { return []byte("meta " + n), nil }
func (m *vSrvMeta) ForeachVersionBytes(n string, fn func([]byte) bool) {
	for _, v := range m.vers[n] {
		if !fn([]byte(v)) {
			return
		}
	}
}
func (m *vSrvMeta) RemoveMetadata(string) error { return nil }

type vSrvBuck struct {
	usecase.BucketService
	names []string
}

func (b *vSrvBuck) Foreach(fn func(k, v []byte) error) error {
	for _, n := range b.names {
		if err := fn([]byte(n), []byte("bucket "+n)); err != nil {
			return err
		}
	}
	return nil
}
func (b *vSrvBuck) GetBytes(n string) ([]byte, error) { return []byte("bucket " + n), nil }
func (b *vSrvBuck) Remove(string) error               { return nil }

// vTarget is the server that receives.
type vTarget struct {
	pb.UnimplementedHashSlotServer
	mu     sync.Mutex
	got    []string
	refuse int // refuse every item from this one on, if positive
}

func (s *vTarget) StreamingReceive(st pb.HashSlot_StreamingReceiveServer) error {
	for {
		it, err := st.Recv()
		if err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
		s.mu.Lock()
		s.got = append(s.got, fmt.Sprintf("%d %s %s", it.Dest, it.Name, it.Data))
		bad := s.refuse > 0 && len(s.got) >= s.refuse
		s.mu.Unlock()
		if err := st.Send(&pb.Response{Success: !bad, Message: "x"}); err != nil {
			return err
		}
	}
}

func vRanges(r *rand.Rand, max int) (out []string) {
	at := r.Intn(40)
	for i := r.Intn(max + 1); i > 0 && at < vSlots-2; i-- {
		end := at + 1 + r.Intn(vSlots/6)
		if r.Intn(3) == 0 {
			end = at + 1 + r.Intn(3)
		}
		if end > vSlots {
			end = vSlots
		}
		out = append(out, fmt.Sprint(at, "-", end))
		at = end
		if r.Intn(3) > 0 {
			at += 1 + r.Intn(vSlots/8)
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return
}

func vMark(rs []string) (m [vSlots]bool, tidy bool) {
	tidy = true
	last := 0
	for _, s := range rs {
		var a, b int
		fmt.Sscanf(s, "%d-%d", &a, &b)
		tidy = tidy && a < b && a >= last
		last = b
		for i := a; i < b && i < vSlots; i++ {
			m[i] = true
		}
	}
	return
}

// vMinus is what remains of rs without the slots of ds, as ranges.
func vFrom(m [vSlots]bool) (out []string) {
	for i := 0; i < vSlots; i++ {
		if m[i] {
			j := i
			for j < vSlots && m[j] {
				j++
			}
			out = append(out, fmt.Sprint(i, "-", j))
			i = j
		}
	}
	return
}

func vPart(r *rand.Rand, m [vSlots]bool, keep bool) [vSlots]bool {
	on := r.Intn(2) == 0
	for i, next := 0, 1+r.Intn(vSlots/4); i < vSlots; i++ {
		if i == next {
			on, next = !on, i+1+r.Intn(vSlots/4)
		}
		m[i] = m[i] == keep && on
	}
	return m
}

// Receiving and giving away slots with the real service, a stand-in for etcd and a real receiving server: what is
// recorded afterwards is the union or the difference, a failed or unasked move changes nothing, and exactly the
// objects and buckets of the given slots are sent.
func TestVerifH03Service(t *testing.T) {
	r := vRand()
	dir, err := os.MkdirTemp("", "verif-h03")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		for i := 0; i < 20 && os.RemoveAll(dir) != nil; i++ {
			time.Sleep(20 * time.Millisecond)
		}
	}()
	conf := filepath.Join(dir, "meta-server.yaml")
	if err := os.WriteFile(conf, []byte("port: \"8090\"\nregistry:\n  server-id: srv\n  name: meta\netcd:\n  endpoint: [\"127.0.0.1:1\"]\n  username: u\n  password: p\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	pool.Config = config.ReadConfigFrom(conf)
	pool.Config.DataDir = dir
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback")
	}
	target := &vTarget{}
	srv := grpc.NewServer()
	pb.RegisterHashSlotServer(srv, target)
	go srv.Serve(lis)
	defer srv.Stop()
	host, port, _ := net.SplitHostPort(lis.Addr().String())

	n := vN(300)
	defer func() { vDone(t, n) }()
	for i := 0; i < n; i++ {
		etcd := newVEtcd()
		store := db.NewHashSlotDB("slots/", etcd)
		pool.HashSlot = store
		meta, buck := &vSrvMeta{vers: map[string][]string{}}, &vSrvBuck{}
		for j := r.Intn(12); j > 0; j-- {
			k := fmt.Sprint("b/o", r.Intn(1000))
			meta.vers[k] = nil
			for v := r.Intn(4); v > 0; v-- {
				meta.vers[k] = append(meta.vers[k], fmt.Sprint("version ", v))
			}
		}
		for j := r.Intn(6); j > 0; j-- {
			buck.names = append(buck.names, fmt.Sprint("bucket", j, r.Intn(1000)))
		}
		cfg := &config.HashSlotConfig{StoreID: "store", PrepareTimeout: time.Hour}
		svc := NewHashSlotService(store, meta, buck, cfg)
		have := vRanges(r, 5)
		before, _ := vMark(have)
		if err := store.Save("store", &hashslot.SlotInfo{ServerID: "srv", Slots: have}); err != nil {
			t.Fatal(err)
		}
		if err := store.Save("other", &hashslot.SlotInfo{ServerID: "elsewhere", Slots: []string{"1-2"}}); err != nil {
			t.Fatal(err)
		}
		give := r.Intn(2) == 0
		moved := vFrom(vPart(r, before, give))
		r.Shuffle(len(moved), func(i, j int) { moved[i], moved[j] = moved[j], moved[i] })
		asked := append([]string{}, moved...)
		mset, _ := vMark(moved)
		how := r.Intn(8) // 0: fails, 1: never started, otherwise succeeds
		desc := func() string { return fmt.Sprintf("giving=%v way %d: has %q, moved %q", give, how, have, asked) }
		vSig(t, desc())
		vCatch(t, "panic", desc, func() {
			want := before
			target.mu.Lock()
			target.got, target.refuse = nil, 0
			target.mu.Unlock()
			fails := false
			var err error
			if give {
				if how == 0 {
					target.refuse = 1 + r.Intn(3)
				}
				if how != 1 {
					if err := store.ReadyMigrateTo(host, moved); err != nil {
						t.Fatal(err)
					}
				}
				err = svc.AutoMigrate(&pb.LocationInfo{Host: host, Port: port}, moved)
				var exp []string
				for k, vs := range meta.vers {
					if mset[hashslot.CalcBytesSlot([]byte(k))] {
						exp = append(exp, fmt.Sprintf("%d %s meta %s", entity.DestMetadata, k, k))
						for _, v := range vs {
							exp = append(exp, fmt.Sprintf("%d %s %s", entity.DestVersion, k, v))
						}
					}
				}
				for _, b := range buck.names {
					if mset[hashslot.CalcBytesSlot([]byte(b))] {
						exp = append(exp, fmt.Sprintf("%d %s bucket %s", entity.DestBucket, b, b))
					}
				}
				target.mu.Lock()
				got := append([]string{}, target.got...)
				target.mu.Unlock()
				fails = how == 1 || (how == 0 && len(got) >= target.refuse)
				if !fails {
					sort.Strings(exp)
					sort.Strings(got)
					if strings.Join(exp, "|") != strings.Join(got, "|") {
						vFail(t, "sent", "%s: sent %q, belongs there %q", desc(), got, exp)
					}
				}
				if !fails {
					for s := range want {
						want[s] = want[s] && !mset[s]
					}
				}
			} else {
				if how != 1 {
					if err := store.ReadyMigrateFrom("h", moved); err != nil {
						t.Fatal(err)
					}
				}
				fails = how == 1
				err = svc.FinishReceiveItem(how != 0)
				if how > 1 {
					for s := range want {
						want[s] = want[s] || mset[s]
					}
				}
			}
			if fails != (err != nil) {
				vFail(t, "outcome", "%s: answered %v", desc(), err)
			}
			info, ok, err := store.Get("store")
			if err != nil || !ok {
				vFail(t, "recorded", "%s: no record left: %v", desc(), err)
				return
			}
			got, tidy := vMark(info.Slots)
			if got != want || (fmt.Sprint(info.Slots) != fmt.Sprint(have) && !tidy) {
				vFail(t, "recorded", "%s: recorded %q", desc(), info.Slots)
			}
			if info.ServerID != "srv" || info.GroupID != "store" {
				vFail(t, "recorded", "%s: recorded for server %q group %q", desc(), info.ServerID, info.GroupID)
			}
			if o, ok, _ := store.Get("other"); !ok || o.ServerID != "elsewhere" || len(o.Slots) != 1 || o.Slots[0] != "1-2" {
				vFail(t, "recorded", "%s: the other server's record changed: %+v", desc(), o)
			}
			if !store.IsNormal() {
				vFail(t, "mode", "%s: the server is left in a move", desc())
			}
		})
		vSettle()
	}
}

// vSettle waits until the background work of a save (writing the configuration file) is done.
func vSettle() {
	buf := make([]byte, 1<<20)
	for i := 0; i < 2000; i++ {
		st := string(buf[:runtime.Stack(buf, true)])
		if !strings.Contains(st, "usecase/logic") && !strings.Contains(st, "Persist") {
			return
		}
		time.Sleep(time.Millisecond)
	}
}
