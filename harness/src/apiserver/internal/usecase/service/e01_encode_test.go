package service

import (
	"apiserver/config"
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/klauspost/reedsolomon"
)

func TestVerifE01(t *testing.T) {
	r := vRand()
	n := 0
	for k := 0; k < vN(4000); k++ {
		ds, ps := 1+r.Intn(5), 1+r.Intn(3)
		per := 1 + r.Intn(9)
		if r.Intn(6) == 0 {
			per = 64 + r.Intn(64)
		}
		cfg := &config.RsConfig{DataShards: ds, ParityShards: ps, BlockPerShard: per}
		bs := ds * per
		total := r.Intn(4*bs + 2)
		switch r.Intn(5) {
		case 0:
			total = bs * r.Intn(4)
		case 1:
			total = 0
		}
		data := make([]byte, total)
		r.Read(data)
		cuts := vCuts(r, total, bs)
		fail, failAt, failC := -1, 0, -1
		switch r.Intn(4) {
		case 0:
			fail, failAt = r.Intn(ds+ps), 1+r.Intn(4)
		case 1:
			failC = r.Intn(ds + ps)
		}
		ok := r.Intn(8) != 0
		desc := func() string {
			return fmt.Sprintf("ds=%d ps=%d per=%d total=%d cuts=%v failing write %d of shard %d, failing commit of %d, commit %v", ds, ps, per, total, cuts, failAt, fail, failC, ok)
		}
		vSig(t, desc())
		n++
		vCatch(t, "panic", desc, func() {
			sh := make([]*vShard, ds+ps)
			ws := make([]io.WriteCloser, ds+ps)
			for i := range sh {
				sh[i] = &vShard{}
				if i == fail {
					sh[i].failAt = failAt
				}
				sh[i].failC = i == failC
				ws[i] = sh[i]
			}
			st := &RSPutStream{NewEncoder(ws, cfg)}
			at := 0
			var werr error
			for _, c := range cuts {
				// the writer's buffer is its own again after the write
				buf := append([]byte(nil), data[at:at+c]...)
				m, err := st.Write(buf)
				for i := range buf {
					buf[i] ^= 0x5a
				}
				if err != nil {
					werr = err
					break
				}
				if m != c {
					vFail(t, "count", "%s: wrote %d of %d without an error", desc(), m, c)
				}
				at += c
			}
			cerr := st.Commit(ok)
			if werr == nil {
				for i := range sh {
					sh[i].mu.Lock()
					if i == fail && sh[i].writes >= failAt && ok && cerr == nil {
						vFail(t, "failure", "%s: the failed write of shard %d was never reported", desc(), i)
					}
					sh[i].mu.Unlock()
				}
			}
			if ok && cerr == nil && werr != nil {
				vFail(t, "commit", "%s: committed after %v", desc(), werr)
			}
			if ok && failC >= 0 && cerr == nil {
				vFail(t, "commit", "%s: a failed commit was not reported", desc())
			}
			if !ok {
				for i := range sh {
					if sh[i].commits > 0 {
						vFail(t, "abort", "%s: shard %d was committed", desc(), i)
					}
				}
				return
			}
			if werr != nil || cerr != nil {
				if fail < 0 && failC < 0 {
					vFail(t, "error", "%s: %v %v", desc(), werr, cerr)
				}
				return
			}
			for i := range sh {
				if sh[i].commits != 1 {
					vFail(t, "commit", "%s: shard %d was committed %d times", desc(), i, sh[i].commits)
				}
				if sh[i].Len() != sh[0].Len() {
					vFail(t, "length", "%s: shard %d holds %d bytes, shard 0 %d", desc(), i, sh[i].Len(), sh[0].Len())
					return
				}
			}
			// cut back into blocks
			enc, _ := reedsolomon.New(ds, ps)
			var res []byte
			pos := 0
			for left := total; left > 0; {
				b := bs
				if left < b {
					b = left
				}
				piece := (b + ds - 1) / ds
				parts := make([][]byte, ds+ps)
				var blk []byte
				for i := range sh {
					if pos+piece > sh[i].Len() {
						vFail(t, "length", "%s: shard %d holds %d bytes", desc(), i, sh[i].Len())
						return
					}
					parts[i] = sh[i].Bytes()[pos : pos+piece]
					if i < ds {
						blk = append(blk, parts[i]...)
					}
				}
				if good, err := enc.Verify(parts); ps > 0 && (err != nil || !good) {
					vFail(t, "parity", "%s: the parity of the block at %d does not match (%v)", desc(), total-left, err)
					return
				}
				res = append(res, blk[:b]...)
				pos += piece
				left -= b
			}
			if pos != sh[0].Len() {
				vFail(t, "length", "%s: %d bytes per shard, %d expected", desc(), sh[0].Len(), pos)
			}
			if !bytes.Equal(res, data) {
				vFail(t, "content", "%s: the data shards hold other bytes", desc())
			}
		})
	}
	vDone(t, n)
}
