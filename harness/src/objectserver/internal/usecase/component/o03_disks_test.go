package component

import (
	"common/datasize"
	"fmt"
	"math/rand"
	"testing"
)

func vDisks(r *rand.Rand, n int) []*Driver {
	ds := make([]*Driver, 0, n)
	for i := 0; i < n; i++ {
		free := []datasize.DataSize{0, 1, 5, datasize.DataSize(r.Intn(40)), datasize.DataSize(r.Int63()), 100 * datasize.GB}[r.Intn(6)]
		ds = append(ds, &Driver{MountPoint: fmt.Sprintf("/mnt/%d", i), FreeSpace: free, TotalSpace: free + datasize.DataSize(r.Intn(100))})
	}
	return ds
}

func vShow(ds []*Driver) string {
	s := ""
	for _, d := range ds {
		s += fmt.Sprintf("%s free %d of %d; ", d.MountPoint, d.FreeSpace, d.TotalSpace)
	}
	return s
}

func vHasDisk(ds []*Driver, d *Driver) bool {
	for _, o := range ds {
		if o == d {
			return true
		}
	}
	return false
}

func TestVerifO03SpaceFirst(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(4000); i++ {
		ds := vDisks(r, r.Intn(6))
		before := append([]*Driver{}, ds...)
		desc := func() string { return vShow(before) }
		vCase(t, fmt.Sprint(len(ds)))
		n++
		vCatch(t, "space-first", desc, func() {
			d, err := SpaceFirstBalancer().Select(ds)
			if (err != nil) != (len(before) == 0) {
				vFail(t, "space-first-error", "%d disks, error %v (%s)", len(before), err, desc())
				return
			}
			if err != nil {
				return
			}
			if !vHasDisk(before, d) {
				vFail(t, "space-first-member", "chose %v, which is none of %s", d, desc())
				return
			}
			for _, o := range before {
				if o.FreeSpace > d.FreeSpace {
					vFail(t, "space-first-most", "chose %s although %s has more: %s", d.MountPoint, o.MountPoint, desc())
				}
			}
		})
	}
	vDone(t, n)
}

func TestVerifO03Weighted(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(600); i++ {
		b := SpaceWeightedBalancer().(*spaceWeightedBalancer)
		ds := vDisks(r, r.Intn(6))
		if r.Intn(3) == 0 {
			for _, d := range ds {
				d.FreeSpace, d.TotalSpace = datasize.DataSize(r.Intn(30)), datasize.DataSize(30+r.Intn(100000))
			}
		}
		for k := 0; k < 12; k++ {
			if r.Intn(3) == 0 {
				for _, d := range ds {
					d.FreeSpace -= datasize.DataSize(r.Int63n(int64(d.FreeSpace)/2 + 1))
				}
			}
			w := map[string]datasize.DataSize{}
			for mp, v := range b.weighted {
				w[mp] = v
			}
			rest := func(d *Driver) datasize.DataSize {
				if w[d.MountPoint] >= d.FreeSpace {
					return 0
				}
				return d.FreeSpace - w[d.MountPoint]
			}
			desc := func() string { return fmt.Sprintf("%s reserved %v", vShow(ds), w) }
			vCase(t, fmt.Sprint(len(ds), k))
			n++
			vCatch(t, "weighted", desc, func() {
				d, err := b.Select(ds)
				if (err != nil) != (len(ds) == 0) {
					vFail(t, "weighted-error", "%d disks, error %v (%s)", len(ds), err, desc())
					return
				}
				if err != nil {
					return
				}
				if !vHasDisk(ds, d) {
					vFail(t, "weighted-member", "chose %v, which is none of %s", d, desc())
					return
				}
				for _, o := range ds {
					if rest(o) > rest(d) {
						vFail(t, "weighted-most", "chose %s although %s has more unreserved space: %s", d.MountPoint, o.MountPoint, desc())
					}
				}
			})
		}
	}
	vDone(t, n)
}

func TestVerifO03Manager(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(1500); i++ {
		for _, b := range []DriverBalancer{SpaceFirstBalancer(), SpaceWeightedBalancer()} {
			dm := NewDriverManager(b)
			dm.drivers = vDisks(r, r.Intn(4))
			before := append([]*Driver{}, dm.drivers...)
			desc := func() string { return vShow(before) }
			vCase(t, fmt.Sprint(len(before)))
			n++
			vCatch(t, "manager", desc, func() {
				d, err := dm.SelectDriver()
				if (err != nil) != (len(before) == 0) || (err == nil && !vHasDisk(before, d)) {
					vFail(t, "manager-select", "SelectDriver gives %v, %v from %s", d, err, desc())
				}
				mp := dm.SelectMountPointFallback("fallback")
				found := len(before) == 0 && mp == "fallback"
				for _, o := range before {
					found = found || o.MountPoint == mp
				}
				if !found {
					vFail(t, "manager-fallback", "SelectMountPointFallback gives %q from %s", mp, desc())
				}
			})
		}
	}
	vDone(t, n)
}
