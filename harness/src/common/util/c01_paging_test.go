package util

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
)

func vPage(t *testing.T, page, size, total int) {
	vCatch(t, "panic", func() string { return fmt.Sprintf("page %d size %d total %d", page, size, total) }, func() {
		a, b, ok := PagingOffset(page, size, total)
		off := new(big.Int).Mul(new(big.Int).Sub(big.NewInt(int64(page)), big.NewInt(1)), big.NewInt(int64(size)))
		want := page >= 1 && size >= 1 && off.Cmp(big.NewInt(int64(total))) < 0
		if ok != want {
			vFail(t, "paging", "PagingOffset(%d, %d, %d) = %d, %d, %v", page, size, total, a, b, ok)
			return
		}
		if !ok {
			return
		}
		end := new(big.Int).Add(off, big.NewInt(int64(size)))
		if end.Cmp(big.NewInt(int64(total))) > 0 {
			end = big.NewInt(int64(total))
		}
		if int64(a) != off.Int64() || int64(b) != end.Int64() {
			vFail(t, "paging", "PagingOffset(%d, %d, %d) = %d, %d, %v; expected %v, %v", page, size, total, a, b, ok, off, end)
		}
	})
}

func TestVerifC01Offset(t *testing.T) {
	n := 0
	run := func(p, s, k int) {
		n++
		vSig(t, fmt.Sprint(p, s, k))
		vPage(t, p, s, k)
	}
	for p := -3; p <= 14; p++ {
		for s := -3; s <= 14; s++ {
			for k := 0; k <= 30; k++ {
				run(p, s, k)
			}
		}
	}
	ext := []int{math.MinInt64, math.MinInt64 + 1, -1 << 62, -1 << 32, -2, -1, 0, 1, 2, 3, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1 << 62, 1<<62 + 1, 1<<63 - 2, 1<<63 - 1, 3037000500, 3037000499}
	for _, p := range ext {
		for _, s := range ext {
			for _, k := range ext {
				if k >= 0 {
					run(p, s, k)
				}
			}
		}
	}
	var hints []int
	for _, h := range strings.Split(os.Getenv("VERIF_MODEL"), ",") {
		if v, err := strconv.Atoi(h); err == nil && len(hints) < 40 {
			hints = append(hints, v)
		}
	}
	for _, p := range hints {
		for _, s := range hints {
			for _, k := range hints {
				if k >= 0 {
					run(p, s, k)
				}
			}
		}
	}
	r := vRand()
	for i := 0; i < vN(20000); i++ {
		run(int(r.Uint64()>>uint(r.Intn(64))), int(r.Uint64()>>uint(r.Intn(64))), int(r.Uint64()>>uint(1+r.Intn(63))))
	}
	vDone(t, n)
}
