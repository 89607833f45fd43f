package datasize

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

var vUnits = []struct {
	name string
	size uint64
}{{"B", 1}, {"KB", 1 << 10}, {"MB", 1 << 20}, {"GB", 1 << 30}, {"TB", 1 << 40}, {"PB", 1 << 50}}

func TestVerifC02SizeText(t *testing.T) {
	r := vRand()
	n := 0
	check := func(v uint64) {
		k := 5
		for k > 0 && v < vUnits[k].size {
			k--
		}
		desc := func() string { return fmt.Sprintf("%d bytes", v) }
		n++
		vCatch(t, "size-panic", desc, func() {
			s := DataSize(v).String()
			if v%vUnits[k].size != 0 {
				return
			}
			vCase(t, s)
			if want := fmt.Sprintf("%d%s", v/vUnits[k].size, vUnits[k].name); s != want {
				vFail(t, "size-text", "%d bytes is written %q, not %q", v, s, want)
			}
			if v >= 1<<60 {
				return
			}
			back, err := Parse(s)
			if err != nil || uint64(back) != v {
				vFail(t, "size-back", "%d bytes is written %q and read back as %d, %v", v, s, uint64(back), err)
			}
		})
	}
	for k := range vUnits {
		for _, d := range []uint64{0, 1, 2, 3, 10, 511, 512, 999, 1000, 1001, 1022, 1023, 1024, 1025} {
			check(d * vUnits[k].size)
			check(d*vUnits[k].size + 1)
			check(d*vUnits[k].size - 1)
		}
	}
	for i := 0; i < vN(20000); i++ {
		check(uint64(r.Intn(1024)) * vUnits[r.Intn(6)].size)
		check(r.Uint64() >> uint(r.Intn(64)))
	}
	vDone(t, n)
}

func TestVerifC02SizeParse(t *testing.T) {
	r := vRand()
	n := 0
	check := func(text string) {
		desc := func() string { return fmt.Sprintf("%q", text) }
		n++
		vCatch(t, "parse-panic", desc, func() {
			got, err := Parse(text)
			up := strings.ToUpper(text)
			num, mult, ok := "", uint64(1), false
			for _, u := range append(vUnits[:0:0], vUnits...) {
				if d := strings.TrimSuffix(up, u.name); d != up && d != "" && strings.Trim(d, "0123456789") == "" {
					num, mult, ok = d, u.size, true
				}
			}
			if up != "" && strings.Trim(up, "0123456789") == "" {
				num, mult, ok = up, 1, true
			}
			if !ok {
				if err == nil {
					vFail(t, "parse-malformed", "%q is read as %d bytes", text, uint64(got))
				}
				return
			}
			v, _ := new(big.Int).SetString(num, 10)
			v.Mul(v, new(big.Int).SetUint64(mult))
			vCase(t, up)
			small := v.Cmp(new(big.Int).Lsh(big.NewInt(1), 60)) < 0
			if err == nil && v.Cmp(new(big.Int).SetUint64(uint64(got))) != 0 || err != nil && small {
				vFail(t, "parse-value", "%q is read as %d, %v; it means %s bytes", text, uint64(got), err, v)
			}
		})
	}
	nums := []string{"", "0", "1", "2", "10", "007", "1023", "1024", "1025", "4096", "9999999", "16777215", "16777216", "20000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "1.5", " 1", "1 ", "x", "+1"}
	suf := []string{"", "B", "KB", "MB", "GB", "TB", "PB", "b", "kb", "Gb", "EB", "K", "M", "BB", "KBB", " KB", "KB ", "KiB", "\n"}
	for _, a := range nums {
		for _, b := range suf {
			check(a + b)
		}
	}
	for i := 0; i < vN(20000); i++ {
		check(fmt.Sprint(r.Uint64()>>uint(r.Intn(64))) + suf[r.Intn(len(suf))])
	}
	vDone(t, n)
}
