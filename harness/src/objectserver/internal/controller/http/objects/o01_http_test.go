package objects

import (
	"bytes"
	"common/cache"
	"fmt"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
	"github.com/gin-gonic/gin"
)

// reads over http, cached or not, give the window asked for
func TestVerifO01Http(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := vRand()
	dir := t.TempDir()
	pool.Config = &config.Config{}
	pool.Config.Cache.MaxItemSize = 10000
	conf := bigcache.DefaultConfig(time.Hour)
	conf.Verbose, conf.Shards, conf.MaxEntriesInWindow = false, 16, 1000
	pool.Cache = cache.NewCache(conf)
	pdb, err := db.NewPathCache(filepath.Join(dir, "index"))
	if err != nil {
		t.Fatal(err)
	}
	defer pdb.Close()
	pool.PathDB = pdb
	e := gin.New()
	e.GET("/objects/:name", GetFromCache, Get)
	n := 0
	for i := 0; i < vN(60); i++ {
		size := []int{1, 100, 4096, 5000, 9999, 10000, 10001, 12288, 20000}[i%9]
		data := make([]byte, size)
		for k := range data {
			data[k] = byte(1 + r.Intn(255))
		}
		name, compress := fmt.Sprintf("obj%d", i), r.Intn(3) == 0
		path := filepath.Join(dir, name)
		if compress {
			_, err = service.WriteFileCompress(path, bytes.NewBuffer(data))
		} else {
			_, err = service.WriteFile(path, bytes.NewBuffer(data))
		}
		if err == nil {
			err = pdb.Put(name, path)
		}
		if err != nil {
			t.Fatal(err)
		}
		var hist []int
		for k := 0; k < 6; k++ {
			off := 0
			if r.Intn(3) > 0 {
				off = r.Intn(size + 3)
			}
			hist = append(hist, off)
			n++
			vSig(t, fmt.Sprint(size, compress, hist))
			req := httptest.NewRequest(http.MethodGet, fmt.Sprintf("/objects/%s?compress=%t", name, compress), nil)
			req.Header.Set("Range", fmt.Sprintf("bytes=%d-", off))
			req.Header.Set("Size", fmt.Sprint(size))
			w := httptest.NewRecorder()
			e.ServeHTTP(w, req)
			want := []byte{}
			if off < size {
				want = data[off:]
			}
			if w.Code != 200 || !bytes.Equal(w.Body.Bytes(), want) {
				vFail(t, "http", "an object of %d bytes (compressed %v), read from offsets %v: the last read answers %d with %d bytes, expected the last %d", size, compress, hist, w.Code, w.Body.Len(), len(want))
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	vDone(t, n)
}
