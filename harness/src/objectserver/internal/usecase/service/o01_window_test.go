package service

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

type vTrickle struct {
	data []byte
	r    *rand.Rand
}

func (s *vTrickle) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.data[:1+s.r.Intn(len(s.data))])
	s.data = s.data[n:]
	return n, nil
}

// vOnly hides every method of a writer but Write.
type vOnly struct{ io.Writer }

func vBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + r.Intn(255))
	}
	return b
}

func TestVerifO01Windows(t *testing.T) {
	r := vRand()
	n := 0
	dir := t.TempDir()
	sizes := []int{1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 20000, 32767, 32768, 32769, 36864, 65536, 70001}
	for i := 0; i < vN(24); i++ {
		size := sizes[i%len(sizes)]
		if i >= len(sizes) {
			size = 1 + r.Intn(90000)
		}
		data := vBytes(r, size)
		plain, packed := filepath.Join(dir, fmt.Sprintf("p%d", i)), filepath.Join(dir, fmt.Sprintf("c%d", i))
		if _, err := WriteFile(plain, &vTrickle{data, r}); err != nil {
			vFail(t, "write", "WriteFile of %d bytes: %v", size, err)
			continue
		}
		if k, err := WriteFileCompress(packed, &vTrickle{data, r}); err != nil || k != int64(size) {
			vFail(t, "write-compress", "WriteFileCompress of %d bytes: %d, %v", size, k, err)
			continue
		}
		stored, err := os.ReadFile(plain)
		want := append(append([]byte{}, data...), make([]byte, (size+4095)/4096*4096-size)...)
		if err != nil || !bytes.Equal(stored, want) {
			vFail(t, "stored", "a file of %d bytes is stored as %d bytes, not as the data with zeros up to %d (%v)", size, len(stored), len(want), err)
		}
		offs := []int64{0, 1, int64(size) - 1, int64(size), int64(size) + 1, int64(size) + 5000, 4096, 4095, 4097, 8192}
		for k := 0; k < 6; k++ {
			offs = append(offs, r.Int63n(int64(size)), 4096*r.Int63n(int64(size)/4096+1))
		}
		for _, off := range offs {
			if off < 0 {
				continue
			}
			for _, compressed := range []bool{false, true} {
				n++
				vSig(t, fmt.Sprint(size, off, compressed))
				desc := func() string {
					return fmt.Sprintf("a stored object of %d bytes read from %d (compressed %v)", size, off, compressed)
				}
				vCatch(t, "window-panic", desc, func() {
					var out bytes.Buffer
					var err error
					if compressed {
						err = GetFileCompress(packed, off, int64(size), vOnly{&out})
					} else {
						err = GetFile(plain, off, int64(size), vOnly{&out})
					}
					exp := data[min(off, int64(size)):]
					if err != nil {
						vFail(t, "window-error", "%s: %v", desc(), err)
					} else if !bytes.Equal(out.Bytes(), exp) {
						vFail(t, "window", "%s: gives %d bytes, expected the last %d", desc(), out.Len(), len(exp))
					}
				})
			}
		}
		os.Remove(plain)
		os.Remove(packed)
	}
	vDone(t, n)
}

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func TestVerifO01Append(t *testing.T) {
	r := vRand()
	n := 0
	dir := t.TempDir()
	for i := 0; i < vN(40); i++ {
		path := filepath.Join(dir, fmt.Sprint(i))
		var all []byte
		var cuts []int
		bad := false
		for k := 0; k < 1+r.Intn(4) && !bad; k++ {
			sz := []int{0, 1, 4095, 4096, 4097, 8192, 8000, 4108, 1 + r.Intn(20000)}[r.Intn(9)]
			piece := vBytes(r, sz)
			cuts = append(cuts, sz)
			n++
			vSig(t, fmt.Sprint(cuts))
			vCatch(t, "append-panic", func() string { return fmt.Sprintf("appending pieces of %v bytes", cuts) }, func() {
				if _, err := WriteFileWithSize(path, int64(len(all)), &vTrickle{piece, r}, 8192); err != nil {
					vFail(t, "append-error", "appending pieces of %v bytes: %v", cuts, err)
					bad = true
					return
				}
				all = append(all, piece...)
				got, err := os.ReadFile(path)
				want := append(append([]byte{}, all...), make([]byte, (len(all)+4095)/4096*4096-len(all))...)
				if err != nil || !bytes.Equal(got, want) {
					vFail(t, "append", "after appending pieces of %v bytes the file is %d bytes, not the data with zeros up to %d (%v)", cuts, len(got), len(want), err)
					bad = true
				}
			})
		}
		os.Remove(path)
	}
	vDone(t, n)
}
