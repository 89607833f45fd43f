package http

import (
	"apiserver/config"
	"apiserver/internal/usecase/pool"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"common/logs"

	"github.com/gin-gonic/gin"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type vNoKV struct{ clientv3.KV }

func (vNoKV) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return nil, errors.New("etcd gone")
}

func (vNoKV) Put(context.Context, string, string, ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	return nil, errors.New("etcd gone")
}

// Every route of the real server, apart from the two open ones, is behind the chain.
func TestVerifA01(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	out := logs.Std().Out
	logs.Std().Out = io.Discard
	defer func() { logs.Std().Out = out }()
	code := 403
	cb := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) }))
	defer cb.Close()
	n := 0
	for _, callback := range []bool{false, true} {
		for _, password := range []bool{false, true} {
			cfg := &config.Config{}
			cfg.Auth.Enable = true
			cfg.Auth.Callback.Enable = callback
			cfg.Auth.Callback.Url = cb.URL
			cfg.Auth.Password.Enable = password
			pool.Config = cfg
			pool.Etcd = &clientv3.Client{KV: vNoKV{}}
			s := NewHttpServer("0", nil, nil, nil)
			eng, ok := s.Handler.(*gin.Engine)
			if !ok {
				t.Skip("the handler is not the engine")
			}
			for _, rt := range eng.Routes() {
				if rt.Path == "/ping" || rt.Path == "/config" {
					continue
				}
				for _, basic := range []bool{false, true} {
					for _, code = range []int{401, 403} {
						n++
						what := fmt.Sprintf("%s %s (callback %v answering %d, password %v, credentials given %v)", rt.Method, rt.Path, callback, code, password, basic)
						vSig(t, what)
						path := strings.NewReplacer(":", "x", "*", "x").Replace(rt.Path)
						req := httptest.NewRequest(rt.Method, path, strings.NewReader("{}"))
						req.Header.Set("Bucket", "b")
						if basic {
							req.SetBasicAuth("u", "p")
						}
						w := httptest.NewRecorder()
						vCatch(t, "panic", func() string { return what }, func() { eng.ServeHTTP(w, req) })
						if password && basic {
							if w.Code < 400 {
								vFail(t, "route", "%s: no authenticator accepted the request, it was answered with %d", what, w.Code)
							}
						} else if w.Code != 401 && w.Code != 403 {
							vFail(t, "route", "%s: no authenticator accepted the request, it was answered with %d", what, w.Code)
						}
					}
				}
			}
		}
	}
	vDone(t, n)
}
