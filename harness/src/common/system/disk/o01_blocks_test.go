package disk

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"
)

var vErrRead = errors.New("read failed")

// vSrc gives data in pieces of varying sizes, then end or an error.
type vSrc struct {
	data  []byte
	r     *rand.Rand
	end   error
	early bool // the end comes with the last bytes
	fixed int  // reads like a file: as much as fits
}

func (s *vSrc) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := len(s.data)
	if s.fixed == 0 {
		n = 1 + s.r.Intn(n)
		if s.r.Intn(20) == 0 {
			return 0, nil
		}
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.early {
		return n, s.end
	}
	return n, nil
}

func vData(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + r.Intn(255))
	}
	return b
}

func vSize(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(20)
	case 1:
		return 4096*r.Intn(5) + r.Intn(3)
	case 2:
		return 4096*(1+r.Intn(4)) - r.Intn(3)
	}
	return r.Intn(20000)
}

func TestVerifO01Sizes(t *testing.T) {
	n := 0
	try := func(v int64) {
		n++
		vSig(t, fmt.Sprint(v))
		want := (v + 4095) / 4096 * 4096
		if got := AlignedSize(int(v)); int64(got) != want {
			vFail(t, "size", "AlignedSize(%d) is %d, the next multiple of 4096 is %d", v, got, want)
		}
		if got := AlignedSize64(v); got != want {
			vFail(t, "size64", "AlignedSize64(%d) is %d, the next multiple of 4096 is %d", v, got, want)
		}
	}
	for v := int64(0); v < 20000; v++ {
		try(v)
	}
	r := vRand()
	for i := 0; i < vN(20000); i++ {
		try(r.Int63n(1 << uint(20+r.Intn(40))))
	}
	vDone(t, n)
}

func TestVerifO01Padding(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(3000); i++ {
		data := vData(r, vSize(r))
		bufLen := 4096 * (1 + r.Intn(4))
		src := &vSrc{data: data, r: r, end: io.EOF, early: r.Intn(2) == 0, fixed: r.Intn(2)}
		fails := r.Intn(10) == 0
		if fails {
			src.end = vErrRead
		}
		n++
		desc := func() string {
			return fmt.Sprintf("%d bytes (early end %v, whole reads %v, failing %v) with a buffer of %d", len(data), src.early, src.fixed == 1, fails, bufLen)
		}
		vSig(t, desc())
		vCatch(t, "padding-panic", desc, func() {
			rd := NewAlignedReader(src)
			var got []byte
			buf := make([]byte, bufLen)
			for {
				for k := range buf {
					buf[k] = 0xAA
				}
				k, err := rd.Read(buf)
				if k%4096 != 0 {
					vFail(t, "padding-unaligned", "%s: a read gives %d bytes", desc(), k)
				}
				got = append(got, buf[:k]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					if !fails || err != vErrRead {
						vFail(t, "padding-error", "%s: %v", desc(), err)
					}
					return
				}
				if len(got) > len(data)+8192 {
					vFail(t, "padding-endless", "%s: no end", desc())
					return
				}
			}
			if fails {
				vFail(t, "padding-hidden", "%s: the error of the source is not reported", desc())
				return
			}
			want := append(append([]byte{}, data...), make([]byte, (len(data)+4095)/4096*4096-len(data))...)
			if !bytes.Equal(got, want) {
				vFail(t, "padding", "%s: gives %d bytes, not the data with zeros up to %d (first difference at %d)", desc(), len(got), len(want), vDiff(got, want))
			}
		})
	}
	vDone(t, n)
}

func vDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func TestVerifO01Limit(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(3000); i++ {
		data := vData(r, vSize(r))
		limit := int64(vSize(r))
		if r.Intn(3) == 0 && len(data) > 0 {
			limit = int64(r.Intn(len(data) + 1))
		}
		aligned := r.Intn(2) == 0
		src := &vSrc{data: data, r: r, end: io.EOF, early: r.Intn(2) == 0, fixed: r.Intn(2)}
		n++
		max := 1 + r.Intn(9000)
		if aligned {
			max = 4096 * (1 + r.Intn(4))
		}
		desc := func() string {
			return fmt.Sprintf("%d bytes limited to %d (early end %v, whole reads %v, buffers up to %d, aligned %v)", len(data), limit, src.early, src.fixed == 1, max, aligned)
		}
		vSig(t, desc())
		vCatch(t, "limit-panic", desc, func() {
			rd := LimitReader(src, limit)
			var got []byte
			for idle := 0; ; {
				ln := max
				if !aligned {
					ln = 1 + r.Intn(max)
				}
				back := bytes.Repeat([]byte{0xAA}, ln+5000)
				k, err := rd.Read(back[:ln])
				if k < 0 || k > ln {
					vFail(t, "limit-count", "%s: a read into %d bytes claims %d", desc(), ln, k)
					return
				}
				for _, b := range back[ln:] {
					if b != 0xAA {
						vFail(t, "limit-overrun", "%s: bytes behind a buffer of %d are written", desc(), ln)
						return
					}
				}
				got = append(got, back[:k]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					vFail(t, "limit-error", "%s: %v", desc(), err)
					return
				}
				if k > 0 {
					idle = 0
				} else if idle++; idle > 200 {
					vFail(t, "limit-endless", "%s: no progress", desc())
					return
				}
			}
			want := data
			if int64(len(want)) > limit {
				want = want[:limit]
			}
			if !bytes.Equal(got, want) {
				vFail(t, "limit", "%s: gives %d bytes, expected %d (first difference at %d)", desc(), len(got), len(want), vDiff(got, want))
			}
		})
	}
	vDone(t, n)
}

func TestVerifO01Joined(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(3000); i++ {
		var want []byte
		var shape string
		fails := false
		var build func(depth int) []io.Reader
		build = func(depth int) []io.Reader {
			var rs []io.Reader
			for k := r.Intn(4); k > 0; k-- {
				if depth > 0 && r.Intn(3) == 0 {
					shape += "("
					rs = append(rs, MultiReader(build(depth-1)...))
					shape += ")"
					continue
				}
				d := vData(r, r.Intn(60))
				s := &vSrc{data: d, r: r, end: io.EOF, early: r.Intn(2) == 0, fixed: r.Intn(2)}
				if r.Intn(12) == 0 {
					s.end = vErrRead
				}
				if !fails {
					want = append(want, d...)
				}
				shape += fmt.Sprintf(" %d", len(d))
				if s.end != io.EOF {
					fails = true
					shape += "!"
				}
				rs = append(rs, s)
			}
			return rs
		}
		rd := MultiReader(build(2)...)
		max := 1 + r.Intn(80)
		n++
		desc := func() string { return fmt.Sprintf("readers%s, buffers of %d", shape, max) }
		vSig(t, desc())
		vCatch(t, "joined-panic", desc, func() {
			var got []byte
			for {
				buf := make([]byte, max)
				k, err := rd.Read(buf)
				got = append(got, buf[:k]...)
				if err == nil && k < max {
					vFail(t, "joined-short", "%s: %d of %d bytes without an end", desc(), k, max)
					return
				}
				if err == io.EOF {
					if fails {
						vFail(t, "joined-hidden", "%s: the error of a reader is not reported", desc())
					}
					break
				}
				if err != nil {
					if !fails {
						vFail(t, "joined-error", "%s: %v", desc(), err)
					}
					break
				}
				if len(got) > len(want) {
					break
				}
			}
			if !bytes.Equal(got, want) {
				vFail(t, "joined", "%s: gives %d bytes, expected %d (first difference at %d)", desc(), len(got), len(want), vDiff(got, want))
			}
		})
	}
	vDone(t, n)
}
