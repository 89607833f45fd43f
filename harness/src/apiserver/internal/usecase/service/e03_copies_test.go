package service

import (
	"apiserver/config"
	"bytes"
	"common/datasize"
	"common/util/math"
	"fmt"
	"io"
	"testing"
)

func TestVerifE03(t *testing.T) {
	r := vRand()
	n := 0
	for k := 0; k < vN(6000); k++ {
		cp := 1 + r.Intn(5)
		bs := 1 + r.Intn(20)
		rp := config.ReplicationConfig{CopiesCount: cp, BlockSize: datasize.DataSize(bs)}
		total := r.Intn(4*bs + 2)
		if r.Intn(4) == 0 {
			total = bs * r.Intn(4)
		}
		data := make([]byte, total)
		r.Read(data)
		cuts := vCuts(r, total, bs)
		fail, failAt, failC := -1, 0, -1
		switch r.Intn(4) {
		case 0:
			fail, failAt = r.Intn(cp), 1+r.Intn(4)
		case 1:
			failC = r.Intn(cp)
		}
		ok := r.Intn(8) != 0
		desc := func() string {
			return fmt.Sprintf("copies=%d block=%d total=%d cuts=%v failing write %d of copy %d, failing commit of %d, commit %v", cp, bs, total, cuts, failAt, fail, failC, ok)
		}
		vSig(t, desc())
		n++
		vCatch(t, "panic", desc, func() {
			sh := make([]*vShard, cp)
			ws := make([]io.WriteCloser, cp)
			for i := range sh {
				sh[i] = &vShard{failC: i == failC}
				if i == fail {
					sh[i].failAt = failAt
				}
				ws[i] = sh[i]
			}
			st := &CopyPutStream{rpConfig: rp, writers: ws, cache: make([]byte, 0, math.MinNumber(int64(bs), int64(total)))}
			at := 0
			var werr error
			for _, c := range cuts {
				buf := append([]byte(nil), data[at:at+c]...)
				m, err := st.Write(buf)
				for i := range buf {
					buf[i] ^= 0x5a
				}
				if err != nil {
					werr = err
					break
				}
				if m != c {
					vFail(t, "count", "%s: wrote %d of %d without an error", desc(), m, c)
				}
				at += c
			}
			cerr := st.Commit(ok)
			if werr == nil && fail >= 0 {
				sh[fail].mu.Lock()
				if sh[fail].writes >= failAt && ok && cerr == nil {
					vFail(t, "failure", "%s: the failed write was never reported", desc())
				}
				sh[fail].mu.Unlock()
			}
			if ok && cerr == nil && werr != nil {
				vFail(t, "commit", "%s: committed after %v", desc(), werr)
			}
			if ok && failC >= 0 && cerr == nil {
				vFail(t, "commit", "%s: a failed commit was not reported", desc())
			}
			if !ok {
				for i := range sh {
					if sh[i].commits > 0 {
						vFail(t, "abort", "%s: copy %d was committed", desc(), i)
					}
				}
				return
			}
			if werr != nil || cerr != nil {
				if fail < 0 && failC < 0 {
					vFail(t, "error", "%s: %v %v", desc(), werr, cerr)
				}
				return
			}
			for i := range sh {
				if sh[i].commits != 1 {
					vFail(t, "commit", "%s: copy %d was committed %d times", desc(), i, sh[i].commits)
				}
				if !bytes.Equal(sh[i].Bytes(), data) {
					vFail(t, "content", "%s: copy %d holds other bytes", desc(), i)
				}
			}
		})
	}
	for cp := 1; cp < 40; cp++ {
		for _, rate := range []float32{-1, 0, 0.1, 0.25, 0.3333333, 0.5, 0.75, 0.9, 0.99, 0.99999, 1, 1.1, 5, 1e30} {
			rp := &config.ReplicationConfig{CopiesCount: cp, LossToleranceRate: rate}
			n++
			tol, least := rp.ToleranceLossNum(), rp.AtLeastCopiesNum()
			if tol < 0 || least < 1 || least > cp {
				vFail(t, "tolerance", "copies=%d rate=%v: %d may be lost, %d must succeed", cp, rate, tol, least)
			}
		}
	}
	vDone(t, n)
}
