package service

import (
	"apiserver/internal/entity"
	"fmt"
	"testing"
)

func TestVerifA04(t *testing.T) {
	o := &ObjectService{}
	seen := map[string]string{}
	n := 0
	one := func(d string, ss entity.ObjectStrategy, ds, ps int, c bool) {
		n++
		key := fmt.Sprintf("digest %q strategy %d shards %d+%d compress %v", d, ss, ds, ps, c)
		if ss == entity.MultiReplication {
			key = fmt.Sprintf("digest %q replicated compress %v", d, c)
		}
		vSig(t, key)
		vCatch(t, "panic", func() string { return key }, func() {
			id := o.UniqueHash(d, ss, ds, ps, c)
			if id2 := o.UniqueHash(d, ss, ds, ps, c); id2 != id {
				vFail(t, "unstable", "%s: two identities %s %s", key, id, id2)
			}
			if old, ok := seen[id]; ok && old != key {
				vFail(t, "shared", "%s and %s share the identity %s", old, key, id)
			}
			if old, ok := seen["k"+key]; ok && old != id {
				vFail(t, "split", "%s: two identities %s %s", key, old, id)
			}
			seen[id] = key
			seen["k"+key] = id
		})
	}
	digests := []string{"", "a", "ab", "1", "11", "12", "2", "21", "1 1", "a 1", "a1", "a2", "true", " ", "0", "1 0 0 true", "2 0 0 true", "-", "é", "\xff"}
	nums := []int{-1, 0, 1, 2, 3, 4, 6, 10, 11, 12, 21, 111, 112, 1000000}
	for _, d := range digests {
		for ss := entity.ObjectStrategy(0); ss < 3; ss++ {
			for _, ds := range nums {
				for _, ps := range nums {
					one(d, ss, ds, ps, false)
					one(d, ss, ds, ps, true)
				}
			}
		}
	}
	r := vRand()
	al := "ab12 0-"
	for k := 0; k < vN(20000); k++ {
		d := make([]byte, r.Intn(6))
		for i := range d {
			d[i] = al[r.Intn(len(al))]
		}
		one(string(d), entity.ObjectStrategy(r.Intn(3)), r.Intn(130), r.Intn(130), r.Intn(2) == 0)
	}
	vDone(t, n)
}
