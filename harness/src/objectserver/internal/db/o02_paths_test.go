package db

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"testing"
)

func TestVerifO02(t *testing.T) {
	dir := t.TempDir()
	pc, err := NewPathCache(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { pc.Close() }()
	names := []string{"a", "b", "ab", "a,b", "a%", "%2C", ",", "\x00", "name with spaces", "é", "a\xff", "!badg"}
	paths := []string{"/a", "/a/b", "/a/b/c", "/a/bb", "a", "b", "", ",", ",,", "a,", ",a", "a,b", "a,b,c", "%", "%%", "%2C", "%2c", "%25", "%252C", "%2525", "%,", ",%", "/d/%2C/x", "/d/,/x", "2C", "25",
		"/x y", "/é", "\xff\xfe", "\x00", "/a\nb", "//", "/", "/mnt/disk0/storage/obj.0", "/mnt/disk0/storage/obj", "/mnt/disk1/storage/obj.0"}
	r := vRand()
	n := 0
	want := map[string][]string{}
	var log []string
	note := func(f string, a ...any) string {
		s := fmt.Sprintf(f, a...)
		log = append(log, s)
		if len(log) > 14 {
			log = log[len(log)-14:]
		}
		return fmt.Sprint(log)
	}
	look := func(h, name string) {
		n++
		got, err := pc.Get(name)
		last, lerr := pc.GetLast(name)
		w := want[name]
		if len(w) == 0 {
			if !errors.Is(err, os.ErrNotExist) {
				vFail(t, "gone", "after %s: %q has no paths, Get answers %q, %v", h, name, got, err)
			}
			if !errors.Is(lerr, os.ErrNotExist) {
				vFail(t, "gone-last", "after %s: %q has no paths, GetLast answers %q, %v", h, name, last, lerr)
			}
			return
		}
		if err != nil || !reflect.DeepEqual(append([]string{}, got...), w) {
			vFail(t, "get", "after %s: Get(%q) answers %q, %v; added and not removed: %q", h, name, got, err, w)
		}
		if lerr != nil || last != w[len(w)-1] {
			vFail(t, "last", "after %s: GetLast(%q) answers %q, %v; the most recent is %q", h, name, last, lerr, w[len(w)-1])
		}
	}
	add := func(name, path string) string {
		for _, p := range want[name] {
			if p == path {
				return ""
			}
		}
		h := note("add(%q, %q)", name, path)
		if err := pc.Put(name, path); err != nil {
			vFail(t, "put", "after %s: %v", h, err)
		}
		want[name] = append(append([]string{}, want[name]...), path)
		return h
	}
	remove := func(name, path string) string {
		h := note("remove(%q, %q)", name, path)
		if err := pc.Remove(name, path); err != nil && !errors.Is(err, os.ErrNotExist) {
			vFail(t, "remove", "after %s: %v", h, err)
		}
		var l []string
		for _, p := range want[name] {
			if p != path {
				l = append(l, p)
			}
		}
		want[name] = l
		return h
	}
	clear := func(name string) string {
		h := note("remove all(%q)", name)
		if err := pc.RemoveAll(name); err != nil && !errors.Is(err, os.ErrNotExist) {
			vFail(t, "removeall", "after %s: %v", h, err)
		}
		delete(want, name)
		return h
	}
	vCatch(t, "panic", func() string { return fmt.Sprint(log) }, func() {
		// every path alone, and every pair of paths: both orders of removal
		for i, p := range paths {
			nm := fmt.Sprintf("one%d", i)
			vSig(t, nm)
			look(add(nm, p), nm)
			for j, q := range paths {
				if !vThorough() && (i+j)%3 != 0 {
					continue
				}
				if q == p {
					continue
				}
				look(add(nm, q), nm)
				h := remove(nm, []string{p, q}[(i+j)%2])
				look(h, nm)
				if len(want[nm]) == 1 && want[nm][0] == q {
					look(add(nm, p), nm)
					look(remove(nm, q), nm)
				}
			}
			look(remove(nm, "/never/added"), nm)
			look(remove(nm, p), nm)
			look(remove(nm, p), nm)
			look(add(nm, p), nm)
			look(clear(nm), nm)
			look(clear(nm), nm)
		}
		// histories over a few names
		for k := 0; k < vN(1500); k++ {
			nm := names[r.Intn(len(names))]
			p := paths[r.Intn(len(paths))]
			vSig(t, fmt.Sprint(k, nm, p))
			h := ""
			switch c := r.Intn(20); {
			case c < 10:
				h = add(nm, p)
			case c < 13:
				h = remove(nm, p)
			case c < 18 && len(want[nm]) > 0:
				h = remove(nm, want[nm][r.Intn(len(want[nm]))])
			case c < 19:
				h = clear(nm)
			case r.Intn(30) == 0:
				h = note("reopen")
				if err := pc.Close(); err != nil {
					t.Fatal(err)
				}
				if pc, err = NewPathCache(dir); err != nil {
					t.Fatal(err)
				}
			}
			if h == "" {
				continue
			}
			look(h, nm)
			if r.Intn(5) == 0 {
				for _, o := range names {
					look(h, o)
				}
			}
		}
	})
	vDone(t, n)
}
