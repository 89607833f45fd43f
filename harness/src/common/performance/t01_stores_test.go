package performance

import (
	"common/collection/set"
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"sync"
	"testing"
	"time"
)

// vMem is a Store that keeps everything, in order.
type vMem struct {
	Store
	data []*Perform
	fail error
}

func (m *vMem) Put(pm []*Perform) error {
	if m.fail != nil {
		return m.fail
	}
	m.data = append(m.data, pm...)
	return nil
}
func (m *vMem) Get(k, a string) (res []*Perform, err error) {
	if m.fail != nil {
		return nil, m.fail
	}
	return vSelect(m.data, k, a), nil
}
func (m *vMem) Size(k, a string) (int64, error) { return int64(len(vSelect(m.data, k, a))), nil }

func vSelect(data []*Perform, k, a string) (res []*Perform) {
	for _, p := range data {
		if (k == "" || p.KindOf == k) && (a == "" || p.Action == a) {
			res = append(res, p)
		}
	}
	return
}

func vText(ps []*Perform) []string {
	res := []string{}
	for _, p := range ps {
		res = append(res, fmt.Sprintf("%q %q %d", p.KindOf, p.Action, int64(p.Cost)))
	}
	sort.Strings(res)
	return res
}

func vAgg(ps []*Perform, avg bool) []string {
	type key struct{ k, a string }
	sum, n := map[key]int64{}, map[key]int64{}
	for _, p := range ps {
		sum[key{p.KindOf, p.Action}] += int64(p.Cost)
		n[key{p.KindOf, p.Action}]++
	}
	res := []string{}
	for k, s := range sum {
		if avg {
			s /= n[k]
		}
		res = append(res, fmt.Sprintf("%q %q %d", k.k, k.a, s))
	}
	sort.Strings(res)
	return res
}

func vSame(t *testing.T, key, what string, got, want []string, err error) {
	if err != nil && len(want) == 0 {
		return // some stores report 'nothing recorded' as an error
	}
	if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
		vFail(t, key, "%s: got %v (error %v), want %v", what, got, err, want)
	}
}

func vQueries(t *testing.T, key string, s Store, data []*Perform, ks, as []string) {
	for _, k := range append([]string{""}, ks...) {
		for _, a := range append([]string{""}, as...) {
			w := fmt.Sprintf("%s kind %q action %q of %v", key, k, a, vText(data))
			want := vSelect(data, k, a)
			vCatch(t, key, func() string { return w }, func() {
				g, err := s.Get(k, a)
				vSame(t, key+"-get", "Get "+w, vText(g), vText(want), err)
				g, err = s.Sum(k, a)
				vSame(t, key+"-sum", "Sum "+w, vText(g), vAgg(want, false), err)
				g, err = s.Average(k, a)
				vSame(t, key+"-avg", "Average "+w, vText(g), vAgg(want, true), err)
				n, err := s.Size(k, a)
				if err != nil || n != int64(len(want)) {
					vFail(t, key+"-size", "Size %s = %d, %v", w, n, err)
				}
			})
		}
	}
}

func TestVerifT01(t *testing.T) {
	r := vRand()
	ks := []string{"http", "grpc", "http.x", "htt", "a.b"}
	as := []string{"read", "write", "read.x", "read-x", "rea", "b"}
	n := 0
	mk := func(max int, dots bool) []*Perform {
		var out []*Perform
		for i := r.Intn(max); i > 0; i-- {
			out = append(out, &Perform{KindOf: ks[r.Intn(len(ks))], Action: as[r.Intn(len(as))], Cost: time.Duration(r.Intn(1000))})
		}
		return out
	}
	for i := 0; i < vN(150); i++ {
		data := mk(14, true)
		m := &vMem{}
		s := AvgSumStore(m)
		_ = s.Put(data)
		vSig(t, fmt.Sprint(vText(data)))
		vQueries(t, "mem", s, data, ks, as)
		n += 40
		m.fail = errors.New("fail")
		if _, err := s.Sum("", ""); err == nil {
			vFail(t, "sum-err", "Sum hides the error of its store")
		}
		if _, err := s.Average("", ""); err == nil {
			vFail(t, "avg-err", "Average hides the error of its store")
		}
	}
	// etcd
	for i := 0; i < vN(30); i++ {
		e := newVEtcd()
		s := AvgSumStore(&EtcdStore{kv: e, allowedActions: set.OfString(as[:5]), mux: &sync.Mutex{}})
		var data []*Perform
		for j := 0; j < 3; j++ {
			d := mk(120, true)
			if err := s.Put(d); err != nil {
				vFail(t, "etcd-put", "Put of %d records: %v", len(d), err)
			}
			for _, p := range d {
				if p.Action != "b" {
					data = append(data, p)
				}
			}
		}
		vQueries(t, "etcd", s, data, ks, as[:5])
		n += 40
		k, a := ks[r.Intn(len(ks))], as[r.Intn(5)]
		_ = s.Clear(k, a)
		var left []*Perform
		for _, p := range data {
			if p.KindOf != k || p.Action != a {
				left = append(left, p)
			}
		}
		vQueries(t, "etcd-cleared", s, left, ks, as[:5])
	}
	// bolt
	for i := 0; i < vN(3); i++ {
		s := NewLocalStore(filepath.Join(t.TempDir(), "x.perf"))
		var data []*Perform
		for j := 0; j < 2; j++ {
			d := mk(40, true)
			if err := s.Put(d); err != nil {
				vFail(t, "bolt-put", "Put of %d records: %v", len(d), err)
			}
			data = append(data, d...)
		}
		vQueries(t, "bolt", s, data, ks, as)
		n += 40
		k, a := ks[r.Intn(len(ks))], as[r.Intn(len(as))]
		_ = s.Clear(k, a)
		var left []*Perform
		for _, p := range data {
			if p.KindOf != k || p.Action != a {
				left = append(left, p)
			}
		}
		vQueries(t, "bolt-cleared", s, left, ks, as)
		if err := s.Clear(k, ""); err != nil {
			vFail(t, "bolt-clear", "Clear(%q, \"\"): %v", k, err)
		}
		left2 := []*Perform{}
		for _, p := range left {
			if p.KindOf != k {
				left2 = append(left2, p)
			}
		}
		vQueries(t, "bolt-cleared-kind", s, left2, ks, as)
		_ = s.(*avgSumStore).Store.(*LocalStore).db.Close()
	}
	// collector: everything recorded reaches the store once, as long as the buffer is flushed when full
	for i := 0; i < vN(100); i++ {
		m := &vMem{}
		c := &pmCollector{store: AvgSumStore(m), conf: &Config{MaxInMemory: r.Intn(5), FlushWhenReached: true}, mux: &sync.Mutex{}}
		data := mk(20, true)
		for _, p := range data {
			if r.Intn(6) == 0 {
				_ = c.Flush()
			}
			_ = c.Put(p.Action, p.KindOf, p.Cost)
		}
		_ = c.Close()
		vSame(t, "collector", "collector", vText(m.data), vText(data), nil)
		n++
		// without flushing the newest are kept
		m = &vMem{}
		c = &pmCollector{store: AvgSumStore(m), conf: &Config{MaxInMemory: 1 + r.Intn(5)}, mux: &sync.Mutex{}}
		for _, p := range data {
			_ = c.Put(p.Action, p.KindOf, p.Cost)
		}
		_ = c.Flush()
		want := data
		if len(want) > c.conf.MaxInMemory {
			want = want[len(want)-c.conf.MaxInMemory:]
		}
		vSame(t, "collector-newest", "collector", vText(m.data), vText(want), nil)
		// a failed flush keeps the records for the next one
		m = &vMem{fail: errors.New("fail")}
		c = &pmCollector{store: AvgSumStore(m), conf: &Config{MaxInMemory: 3, FlushWhenReached: true}, mux: &sync.Mutex{}}
		for _, p := range data {
			_ = c.Put(p.Action, p.KindOf, p.Cost)
		}
		m.fail = nil
		_ = c.Flush()
		vSame(t, "collector-retry", "collector", vText(m.data), vText(data), nil)
	}
	vDone(t, n)
}
