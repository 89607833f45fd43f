package auth

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"common/cst"
	"common/response"
	"common/util"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// vKV is the one key etcd is asked for here.
type vKV struct {
	clientv3.KV
	vals map[string]string
	fail bool
}

func (k *vKV) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if k.fail {
		return nil, errors.New("etcd gone")
	}
	r := &clientv3.GetResponse{}
	if v, ok := k.vals[key]; ok {
		r.Kvs = append(r.Kvs, &mvccpb.KeyValue{Key: []byte(key), Value: []byte(v)})
		r.Count = 1
	}
	return r, nil
}

func (k *vKV) Put(_ context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	if k.fail {
		return nil, errors.New("etcd gone")
	}
	k.vals[key] = val
	return &clientv3.PutResponse{}, nil
}

// vAuth is an authenticator with a fixed answer.
type vAuth struct {
	ok    bool
	err   error
	asked *int
}

func (v vAuth) Verify(Credential) error { return v.err }
func (v vAuth) Middleware(*gin.Context) (bool, error) {
	*v.asked++
	return v.ok, v.err
}

type vReq struct {
	path, user, pass, header string
	basic                    bool
}

// vServe sends a request through the chain and tells whether the handler ran.
func vServe(chain gin.HandlersChain, r vReq) (ran bool, status int) {
	eng := gin.New()
	g := eng.Group("/", chain...)
	h := func(c *gin.Context) {
		ran = true
		c.Status(http.StatusNoContent)
	}
	g.GET("/open/a", h)
	g.GET("/open/:x/b", h)
	g.GET("/v1/objects/:name", h)
	g.GET("/v1/open", h)
	g.GET("/", h)
	req := httptest.NewRequest("GET", r.path, nil)
	req.Header.Set("Bucket", "b")
	if r.basic {
		req.SetBasicAuth(r.user, r.pass)
	} else if r.header != "" {
		req.Header.Set("Authorization", r.header)
	}
	w := httptest.NewRecorder()
	eng.ServeHTTP(w, req)
	return ran, w.Code
}

var vPaths = map[string]string{"/open/a": "/open/a", "/open/q/b": "/open/:x/b", "/v1/objects/o": "/v1/objects/:name", "/v1/open": "/v1/open", "/": "/"}

func TestVerifA01(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	n := 0
	judge := func(what string, chain gin.HandlersChain, r vReq, want bool) {
		n++
		vSig(t, what)
		vCatch(t, "panic", func() string { return what }, func() {
			ran, status := vServe(chain, r)
			if ran != want {
				vFail(t, "decision", "%s: the handler ran: %v, it should: %v", what, ran, want)
			}
			if !ran && status < 400 {
				vFail(t, "status", "%s: a rejected request was answered with status %d", what, status)
			}
			if ran && status != http.StatusNoContent {
				vFail(t, "answer", "%s: a passed request was answered with status %d", what, status)
			}
		})
	}
	// every outcome of up to three authenticators, every exemption
	var e response.Err
	outs := []vAuth{{ok: true}, {ok: false}, {err: errors.New("no")}, {err: response.NewError(401, "who")}, {err: response.NewError(500, "broken")}, {err: &e}, {err: fmt.Errorf("w: %w", errors.New("x"))}}
	e.Status = 400
	lists := [][]string{nil, {"/open"}, {"/v1/objects"}, {"/x", "/open/:x"}, {"/v1/", "/nothing"}, {"/ope"}, {"/open/q"}, {"open"}, {"/v1/objects/:name/more", "/v"}, {"/"}, {""}}
	for _, enable := range []bool{true, false} {
		for _, wl := range lists {
			for path, full := range vPaths {
				for k := 0; k < 1+len(outs)+len(outs)*len(outs); k++ {
					asked := make([]int, 3)
					var as []Verification
					var names []string
					take := func(i int) {
						a := outs[i]
						a.asked = &asked[len(as)]
						as = append(as, a)
						names = append(names, fmt.Sprintf("(%v %v)", a.ok, a.err))
					}
					if k > 0 && k <= len(outs) {
						take(k - 1)
					} else if k > len(outs) {
						take((k - 1 - len(outs)) / len(outs))
						take((k - 1 - len(outs)) % len(outs))
					}
					want := !enable
					for _, p := range wl {
						want = want || strings.HasPrefix(full, p)
					}
					for _, a := range as {
						want = want || a.(vAuth).ok
					}
					cfg := (&Config{Enable: enable}).White(wl...)
					judge(fmt.Sprintf("enabled %v, exempt %q, authenticators %v, path %s", enable, wl, names, path), AuthenticationMiddleware(cfg, as...), vReq{path: path}, want)
				}
			}
		}
	}
	// the exempt list as built up step by step
	cfg := &Config{Enable: true}
	cfg.White("/a").White("/b", "/c").White()
	for _, p := range []string{"/a", "/b", "/c"} {
		found := false
		for _, q := range cfg.whiteList {
			found = found || p == q
		}
		if !found || len(cfg.whiteList) != 3 {
			vFail(t, "exempt", "exempt list %q after adding /a, /b and /c", cfg.whiteList)
		}
	}
	// the password authenticator
	cred := func(u, p string) string {
		bt, err := util.EncodeMsgp(&credential.AdminCredential{Username: u, Password: p})
		if err != nil {
			t.Fatal(err)
		}
		return string(bt)
	}
	words := []string{"", "a", "b", "ab", "A", "admin", "admin ", "é", "a:b", "aa"}
	for _, enable := range []bool{true, false} {
		for _, pe := range []bool{true, false} {
			for _, su := range words {
				if strings.Contains(su, ":") {
					continue
				}
				for _, sp := range words {
					kv := &vKV{vals: map[string]string{cst.EtcdPrefix.ApiCredential: cred(su, sp), cst.EtcdPrefix.ApiCredential + "2": cred("x", "y")}}
					pv := NewPasswordValidator(kv, &PasswordConfig{Enable: pe, Username: "cfgu", Password: "cfgp"})
					chain := AuthenticationMiddleware(&Config{Enable: enable}, NewCallbackValidator(&CallbackConfig{}), pv)
					for _, u := range words {
						if strings.Contains(u, ":") {
							continue
						}
						for _, p := range append([]string{"cfgp"}, words...) {
							judge(fmt.Sprintf("enabled %v, password %v, stored %q %q, given %q %q", enable, pe, su, sp, u, p), chain, vReq{path: "/v1/objects/o", user: u, pass: p, basic: true},
								!enable || pe && u == su && p == sp)
						}
					}
					for _, h := range []string{"", "Basic", "Basic !!", "Bearer YWRtaW46YWRtaW4="} {
						judge(fmt.Sprintf("enabled %v, password %v, stored %q %q, header %q", enable, pe, su, sp, h), chain, vReq{path: "/v1/objects/o", header: h}, !enable)
					}
				}
			}
		}
	}
	conf := &PasswordConfig{Enable: true, Username: "u", Password: "p"}
	kv := &vKV{vals: map[string]string{}}
	pv := NewPasswordValidator(kv, conf)
	chain := AuthenticationMiddleware(&Config{Enable: true}, pv)
	judge("first start, configured user", chain, vReq{path: "/", user: "u", pass: "p", basic: true}, true)
	judge("first start, wrong password", chain, vReq{path: "/", user: "u", pass: "q", basic: true}, false)
	kv.vals[cst.EtcdPrefix.ApiCredential] = cred("u2", "p2")
	NewPasswordValidator(kv, conf)
	judge("credential changed, old one given", chain, vReq{path: "/", user: "u", pass: "p", basic: true}, false)
	judge("credential changed, new one given", chain, vReq{path: "/", user: "u2", pass: "p2", basic: true}, true)
	kv.vals[cst.EtcdPrefix.ApiCredential] = "garbage"
	judge("stored credential unreadable", chain, vReq{path: "/", user: "u2", pass: "p2", basic: true}, false)
	kv.vals[cst.EtcdPrefix.ApiCredential] = ""
	judge("stored credential empty", chain, vReq{path: "/", basic: true}, false)
	delete(kv.vals, cst.EtcdPrefix.ApiCredential)
	judge("no credential stored", chain, vReq{path: "/", user: "u", pass: "p", basic: true}, false)
	judge("no credential stored, none given", chain, vReq{path: "/", basic: true}, false)
	kv.fail = true
	judge("etcd unreachable", chain, vReq{path: "/", user: "u", pass: "p", basic: true}, false)
	// the callback authenticator, whatever it is answered
	code := 200
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.Copy(io.Discard, r.Body)
		if code >= 300 && code < 400 {
			w.Header().Set("X-None", "1")
		}
		w.WriteHeader(code)
		if code != 204 && code != 304 {
			io.WriteString(w, `{"message":"m"}`)
		}
	}))
	defer srv.Close()
	for _, ce := range []bool{true, false} {
		cv := NewCallbackValidator(&CallbackConfig{Enable: ce, Url: srv.URL, Params: []string{"k", "X-K"}})
		for _, code = range []int{200, 201, 202, 204, 206, 226, 299, 300, 304, 400, 401, 403, 404, 500, 503, 599} {
			judge(fmt.Sprintf("callback %v answered with %d", ce, code), AuthenticationMiddleware(&Config{Enable: true}, cv), vReq{path: "/v1/objects/o?k=1&k=2"}, ce && code == 200)
			a := 0
			judge(fmt.Sprintf("callback %v answered with %d, then another that accepts", ce, code), AuthenticationMiddleware(&Config{Enable: true}, cv, vAuth{ok: true, asked: &a}), vReq{path: "/v1/objects/o"}, true)
		}
	}
	cv := NewCallbackValidator(&CallbackConfig{Enable: true, Url: "http://127.0.0.1:1/none"})
	judge("callback unreachable", AuthenticationMiddleware(&Config{Enable: true}, cv), vReq{path: "/v1/objects/o"}, false)
	// one chain serves many requests: nothing of one request may carry over to the next
	kv2 := &vKV{vals: map[string]string{cst.EtcdPrefix.ApiCredential: cred("u", "p")}}
	cfg2 := (&Config{Enable: true}).White("/open")
	chain = AuthenticationMiddleware(cfg2, NewCallbackValidator(&CallbackConfig{}), NewPasswordValidator(kv2, &PasswordConfig{Enable: true}))
	r := vRand()
	last := "nothing"
	for k := 0; k < vN(500); k++ {
		rq := vReq{path: []string{"/open/a", "/v1/objects/o", "/v1/open", "/open/zz/b"}[r.Intn(4)], basic: r.Intn(3) > 0, user: []string{"u", "v"}[r.Intn(2)], pass: []string{"p", "q"}[r.Intn(2)]}
		judge(fmt.Sprintf("after %s: %+v", last, rq), chain, rq, strings.HasPrefix(rq.path, "/open") || rq.basic && rq.user == "u" && rq.pass == "p")
		last = fmt.Sprintf("%+v", rq)
	}
	vDone(t, n)
}
