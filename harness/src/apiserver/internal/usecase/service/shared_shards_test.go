package service

import (
	"bytes"
	"errors"
	"sync"
)

// a shard: keeps what it is given, fails at a given write, remembers its commit
type vShard struct {
	mu sync.Mutex
	bytes.Buffer
	writes  int
	failAt  int
	commits int
	aborts  int
	failC   bool
	closed  int
}

func (s *vShard) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
	if s.writes == s.failAt {
		return 0, errors.New("write failed")
	}
	return s.Buffer.Write(p)
}

func (s *vShard) Close() error { s.mu.Lock(); defer s.mu.Unlock(); s.closed++; return nil }

func (s *vShard) Commit(ok bool) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.failC {
		return errors.New("commit failed")
	}
	if ok {
		s.commits++
	} else {
		s.aborts++
	}
	return nil
}

func vCuts(r interface{ Intn(int) int }, total, bs int) []int {
	var res []int
	for total > 0 {
		n := 0
		switch r.Intn(6) {
		case 0:
			n = 1
		case 1:
			n = bs
		case 2:
			n = bs - 1
		case 3:
			n = bs + 1
		case 4:
			n = r.Intn(3*bs + 1)
		case 5:
			n = r.Intn(bs + 1)
		}
		if n > total {
			n = total
		}
		res = append(res, n)
		total -= n
	}
	return res
}
