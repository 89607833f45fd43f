package util

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"testing"
)

// vRec is a record encoded as its bytes between a tag and a checksum.
type vRec struct{ b []byte }

func (v *vRec) MarshalMsg(o []byte) ([]byte, error) {
	sum := byte(len(v.b))
	for _, c := range v.b {
		sum = sum*31 + c
	}
	o = append(o, 0xA7)
	o = append(o, v.b...)
	return append(o, sum), nil
}
func (v *vRec) UnmarshalMsg(b []byte) ([]byte, error) {
	if len(b) < 2 || b[0] != 0xA7 {
		return b, errors.New("not a record")
	}
	v.b = append([]byte{}, b[1:len(b)-1]...)
	sum := byte(len(v.b))
	for _, c := range v.b {
		sum = sum*31 + c
	}
	if sum != b[len(b)-1] {
		return b, errors.New("bad checksum")
	}
	return nil, nil
}
func (v *vRec) Msgsize() int { return len(v.b) + 2 }

func TestVerifC02Numbers(t *testing.T) {
	r := vRand()
	n := 0
	check := func(v uint64) {
		desc := func() string { return fmt.Sprint(v) }
		vCase(t, fmt.Sprint(v))
		n++
		vCatch(t, "number-panic", desc, func() {
			if got := BytesToInt(IntToBytes(v)); got != v {
				vFail(t, "number", "%d is stored as %v and read back as %d", v, IntToBytes(v), got)
			}
		})
	}
	for i := uint(0); i < 64; i++ {
		check(1 << i)
		check(1<<i - 1)
		check(1<<i + 1)
	}
	check(math.MaxUint64)
	for i := 0; i < vN(20000); i++ {
		check(r.Uint64() >> uint(r.Intn(64)))
	}
	for i := 0; i < vN(2000); i++ {
		b := make([]byte, r.Intn(12))
		r.Read(b)
		n++
		vCatch(t, "number-panic", func() string { return fmt.Sprint(b) }, func() { BytesToInt(b) })
	}
	vDone(t, n)
}

func TestVerifC02Lists(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(2500); i++ {
		k := r.Intn(5)
		var list []*vRec
		lens := ""
		for j := 0; j < k; j++ {
			b := make([]byte, []int{0, 1, 5, 123, 124, 125, 126, 127, 128, 130, 300, 16381, 16382, 16383, 20000}[r.Intn(9+r.Intn(7))])
			r.Read(b)
			list = append(list, &vRec{b})
			lens += fmt.Sprint(len(b), " ")
		}
		desc := func() string { return "records of " + lens + "bytes" }
		vCase(t, lens)
		n++
		vCatch(t, "list-panic", desc, func() {
			enc, err := EncodeArrayMsgp(list)
			if err != nil {
				vFail(t, "list-encode", "%s: %v", desc(), err)
				return
			}
			same := func(got []*vRec, k int) bool {
				if len(got) != k {
					return false
				}
				for j := range got {
					if string(got[j].b) != string(list[j].b) {
						return false
					}
				}
				return true
			}
			mk := func() *vRec { return &vRec{} }
			got, err := DecodeArrayMsgp(enc, mk)
			if err != nil || !same(got, k) {
				vFail(t, "list-back", "%s: read back as %d records, %v", desc(), len(got), err)
			}
			// cut anywhere: the whole records before the cut, and an error unless the cut is between two
			if len(enc) == 0 {
				return
			}
			ends := map[int]int{0: 0}
			p := 0
			for j := range list {
				p += binary.MaxVarintLen32 + len(list[j].b) + 2
				ends[p] = j + 1
			}
			for c := 0; c < 6; c++ {
				cut := r.Intn(len(enc))
				got, err := DecodeArrayMsgp(enc[:cut], mk)
				w, whole := ends[cut]
				if whole && (err != nil || !same(got, w)) || !whole && err == nil {
					vFail(t, "list-truncated", "%s: cut after %d bytes gives %d records, %v", desc(), cut, len(got), err)
				}
				n++
			}
			// damaged size field: an error, or what that size says
			bad := append([]byte{}, enc...)
			for q := 0; q < 5; q++ {
				bad[q] = 0xff
			}
			if got, err := DecodeArrayMsgp(bad, mk); err == nil {
				vFail(t, "list-malformed", "%s: a size that is no number gives %d records", desc(), len(got))
			}
			copy(bad, []byte{0xff, 0xff, 0xff, 0xff, 0x7f})
			if got, err := DecodeArrayMsgp(bad, mk); err == nil {
				vFail(t, "list-malformed", "%s: a size beyond the data gives %d records", desc(), len(got))
			}
		})
	}
	vDone(t, n)
}
