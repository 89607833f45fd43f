package service

import (
	"apiserver/config"
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"
)

// a stored shard: delivers its content in chunks, fails at a position or ends early. Asked again after
// a failure it starts from the beginning, as a reconnected download does.
type vSource struct {
	data   []byte
	pos    int
	failAt int
	short  int
	chunk  int
	again  bool
}

var errSource = errors.New("shard unreadable")

func (s *vSource) Read(p []byte) (int, error) {
	if s.failAt >= 0 && s.pos >= s.failAt && !s.again {
		s.again = true
		s.pos = 0
		return 0, errSource
	}
	end := len(s.data)
	if s.short >= 0 && s.short < end {
		end = s.short
	}
	if s.pos >= end {
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.failAt >= 0 && !s.again && s.pos+n > s.failAt {
		n = s.failAt - s.pos
	}
	if s.pos+n > end {
		n = end - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// a shard being repaired
type vRepair struct {
	mu     sync.Mutex
	buf    bytes.Buffer
	slow   bool
	failAt int
	writes int
	commit int
	abort  int
}

func (s *vRepair) Write(p []byte) (int, error) {
	if s.slow {
		time.Sleep(time.Duration(len(p)%3) * 100 * time.Microsecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
	if s.writes == s.failAt {
		return 0, errors.New("repair failed")
	}
	return s.buf.Write(p)
}

func (s *vRepair) Commit(ok bool) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if ok {
		s.commit++
	} else {
		s.abort++
	}
	return nil
}

func TestVerifE02(t *testing.T) {
	r := vRand()
	n := 0
	for k := 0; k < vN(3500); k++ {
		ds, ps := 1+r.Intn(5), 1+r.Intn(3)
		per := 1 + r.Intn(9)
		if r.Intn(6) == 0 {
			per = 64 + r.Intn(64)
		}
		cfg := &config.RsConfig{DataShards: ds, ParityShards: ps, BlockPerShard: per, RewriteAsync: r.Intn(2) == 0}
		bs := ds * per
		total := r.Intn(4*bs + 2)
		switch r.Intn(5) {
		case 0:
			total = bs * r.Intn(4)
		case 1:
			total = 1 + r.Intn(ds+1)
		}
		data := make([]byte, total)
		r.Read(data)
		sh := make([]*vShard, ds+ps)
		ws := make([]io.WriteCloser, ds+ps)
		for i := range sh {
			sh[i] = &vShard{}
			ws[i] = sh[i]
		}
		put := &RSPutStream{NewEncoder(ws, cfg)}
		if _, err := put.Write(data); err != nil {
			t.Fatal(err)
		}
		if err := put.Commit(true); err != nil {
			t.Fatal(err)
		}
		// what is missing (being repaired or not), fails or is cut
		readers := make([]io.Reader, ds+ps)
		writers := make([]io.Writer, ds+ps)
		repairs := make([]*vRepair, ds+ps)
		what := ""
		lost, repairFails := 0, false
		want := r.Intn(ps + 2)
		for _, i := range r.Perm(ds + ps) {
			src := &vSource{data: sh[i].Bytes(), failAt: -1, short: -1}
			if r.Intn(2) == 0 {
				src.chunk = 1 + r.Intn(per+1)
			}
			if lost < want && sh[i].Len() > 0 {
				lost++
				switch r.Intn(4) {
				case 0:
					what += fmt.Sprintf(" %d missing", i)
					continue
				case 1:
					what += fmt.Sprintf(" %d missing and repaired", i)
					repairs[i] = &vRepair{slow: r.Intn(8) == 0}
					if r.Intn(4) == 0 {
						repairs[i].failAt = 1 + r.Intn(3)
						what += fmt.Sprintf(" (write %d fails)", repairs[i].failAt)
					}
					writers[i] = repairs[i]
					continue
				case 2:
					src.failAt = r.Intn(sh[i].Len())
					what += fmt.Sprintf(" %d fails at %d", i, src.failAt)
				case 3:
					src.short = r.Intn(sh[i].Len())
					what += fmt.Sprintf(" %d ends at %d", i, src.short)
				}
			}
			readers[i] = src
		}
		stop := -1
		if r.Intn(4) == 0 {
			stop = r.Intn(total + 1)
		}
		skip := 0
		if r.Intn(3) == 0 {
			skip = r.Intn(total + 1)
			if stop >= 0 && stop < skip {
				stop = skip
			}
		}
		bufs := []int{1, per - 1, per, bs - 1, bs, bs + 1, 3 * bs}
		fixed := bufs[r.Intn(len(bufs))]
		if r.Intn(3) == 0 || fixed == 0 {
			fixed = -1
		}
		desc := func() string {
			return fmt.Sprintf("ds=%d ps=%d per=%d async=%v size=%d;%s; reading from %d to %d with %d", ds, ps, per, cfg.RewriteAsync, total, what, skip, stop, fixed)
		}
		vSig(t, desc())
		n++
		vCatch(t, "panic", desc, func() {
			updated := 0
			opt := &StreamOption{Size: int64(total), Updater: func([]string) error { updated++; return nil }}
			g := &RSGetStream{NewDecoder(readers, writers, int64(total), cfg), opt}
			res := make([]byte, 0, total)
			if skip > 0 {
				if _, err := g.Seek(int64(skip), io.SeekCurrent); err != nil {
					if lost <= ps {
						vFail(t, "error", "%s: seeking failed: %v", desc(), err)
					}
					return
				}
				res = append(res, data[:skip]...)
			}
			var rerr error
			for idle := 0; idle < 10; {
				size := fixed
				if size < 0 {
					size = r.Intn(2*bs + 2)
				}
				if stop >= 0 {
					if len(res) >= stop {
						break
					}
					if size > stop-len(res) {
						size = stop - len(res)
					}
				}
				buf := make([]byte, size)
				m, err := g.Read(buf)
				if m < 0 || m > size {
					vFail(t, "count", "%s: %d bytes read with a buffer of %d", desc(), m, size)
					return
				}
				res = append(res, buf[:m]...)
				if err != nil {
					rerr = err
					break
				}
				if m == 0 && size > 0 {
					idle++
				} else {
					idle = 0
				}
			}
			if len(res) > total || !bytes.Equal(res, data[:len(res)]) {
				vFail(t, "content", "%s: %d bytes, not those of the object", desc(), len(res))
				return
			}
			if rerr == nil && stop < 0 {
				vFail(t, "progress", "%s: reading does not end after %d bytes", desc(), len(res))
			}
			if rerr == io.EOF && len(res) != total {
				vFail(t, "end", "%s: ended after %d bytes", desc(), len(res))
			}
			if rerr != nil && rerr != io.EOF && lost <= ps {
				vFail(t, "error", "%s: %v", desc(), rerr)
			}
			if rerr != nil {
				if m, err := g.Read(make([]byte, bs)); m != 0 || err == nil {
					vFail(t, "after", "%s: %d bytes after %v", desc(), m, rerr)
				}
			}
			if err := g.Close(); err != nil {
				vFail(t, "close", "%s: %v", desc(), err)
			}
			anyCommit := false
			for i, w := range repairs {
				if w == nil {
					continue
				}
				w.mu.Lock()
				if w.failAt > 0 && w.writes >= w.failAt {
					repairFails = true
				}
				if w.commit > 0 {
					anyCommit = true
					if !bytes.Equal(w.buf.Bytes(), sh[i].Bytes()) {
						vFail(t, "repair", "%s: shard %d was repaired with %d bytes, other than the original %d", desc(), i, w.buf.Len(), sh[i].Len())
					}
				} else if rerr == io.EOF && !repairFails && lost <= ps && w.failAt == 0 {
					one := true
					for _, x := range repairs {
						if x != nil && x.failAt > 0 {
							one = false
						}
					}
					if one {
						vFail(t, "repair", "%s: the repair of shard %d was not kept", desc(), i)
					}
				}
				w.mu.Unlock()
			}
			if updated > 0 && !anyCommit {
				vFail(t, "update", "%s: locations were updated without a repair", desc())
			}
		})
	}
	vDone(t, n)
}
