# A01: authentication of requests.
#
# A gin request context: the values set on it, whether the chain was stopped, the status of the answer.
ghost g_has: (Array Int (Array Str Bool))
ghost g_val: (Array Int (Array Str Int))
ghost g_ab: (Array Int Bool)
ghost g_st: (Array Int Int)
uf fullpath(Int) Str
define cset(c, k) = sel(sel(g_has, c), k)
define cval(c, k) = sel(sel(g_val, c), k)
define truth(v) = dyntype(v, "bool") && as(v, "bool")
define passed(c) = cset(c, "IsAuthenticated") && truth(cval(c, "IsAuthenticated"))
define stopped(c) = sel(g_ab, c)
# what a refused request is answered with: some error
define reason(c) = cset(c, "AuthenticatedErr") && denial(cval(c, "AuthenticatedErr"))
# an error whose answer is an error status; errors without a status of their own are answered with 500
define denial(e) = e != nil && isa(e, "error") && implies(dyntype(e, "*common/response.Err"), as(e, "*common/response.Err") != nil) && statusof(e) >= 400
define statusof(e) = ite(dyntype(e, "*common/response.Err"), as(e, "*common/response.Err").Status, ite(dyntype(e, "common/response.Err"), as(e, "common/response.Err").Status, est(e)))
uf est(Int) Int
axiom no_other_statuses: forall(e, trig(est(e)), est(e) >= 400)
extern (common/response.IErr).GetStatus
  options static=1
  ensures status: result == statusof(recv)

extern (github.com/gin-gonic/gin.Context).Set
  params key, value
  modifies g_has, g_val
  ensures has: g_has == sto(old(g_has), recv, sto(sel(old(g_has), recv), key, true))
  ensures val: g_val == sto(old(g_val), recv, sto(sel(old(g_val), recv), key, value))

extern (github.com/gin-gonic/gin.Context).Get
  params key
  ensures found: result1 == cset(recv, key)
  ensures value: result0 == ite(cset(recv, key), cval(recv, key), nil)

extern (github.com/gin-gonic/gin.Context).GetBool
  params key
  ensures value: result == (cset(recv, key) && truth(cval(recv, key)))

extern (github.com/gin-gonic/gin.Context).FullPath
  ensures value: result == fullpath(recv)

extern (github.com/gin-gonic/gin.Context).Abort
  modifies g_ab
  ensures stop: g_ab == sto(old(g_ab), recv, true)

extern (github.com/gin-gonic/gin.Context).Status
  params code
  modifies g_st
  ensures code: g_st == sto(old(g_st), recv, code)

extern (github.com/gin-gonic/gin.Context).JSON
  params code, obj
  modifies g_st
  ensures code: g_st == sto(old(g_st), recv, code)

func (apiserver/internal/usecase/componet/auth.Config).White
  property A01
  requires cfg: ac != nil
  modifies ac.whiteList, elems(ac.whiteList)
  ensures same: result == ac
  ensures all: len(ac.whiteList) == len(old(ac.whiteList)) + len(prefix) && forall(i, 0, len(prefix), ac.whiteList[len(old(ac.whiteList)) + i] == old(prefix[i]))

define exempt(cfg, c) = exists(i, 0, len(cfg.whiteList), hasprefix(fullpath(c), cfg.whiteList[i]))

func apiserver/internal/usecase/componet/auth.PreAuthenticate
  property A01
  options closure
  requires cfg: cfg != nil
  modifies g_has, g_val
  ensures open: implies(!cfg.Enable || exempt(cfg, arg0), passed(arg0))
  ensures closed: implies(cfg.Enable && !exempt(cfg, arg0), !passed(arg0) && reason(arg0))
  loop 1
    invariant none: forall(i, 0, iter(), !hasprefix(fullpath(arg0), cfg.whiteList[i]))

# what an authenticator answers for a request
uf accepted(Int, Int) Bool
extern (apiserver/internal/usecase/componet/auth.Verification).Middleware
  options static=1
  params c
  ensures verdict: result0 == accepted(recv, c)
  ensures sound: implies(result0, result1 == nil)
  ensures why: implies(result1 != nil, denial(result1))

func apiserver/internal/usecase/componet/auth.AuthenticateWrap
  property A01
  options closure
  requires given: validator != nil
  modifies g_has, g_val
  ensures verdict: passed(arg0) == (old(passed(arg0)) || accepted(validator, arg0))
  ensures reason: implies(old(reason(arg0)), reason(arg0))

func apiserver/internal/usecase/componet/auth.AfterAuthenticate
  property A01
  requires came: c != nil && c.Request != nil && (passed(c) || reason(c))
  modifies g_ab, g_st
  ensures served: implies(passed(c), g_ab == old(g_ab) && g_st == old(g_st))
  ensures refused: implies(!passed(c), stopped(c) && sel(g_st, c) >= 400)

func common/response.FailErr
  property A01
  requires came: c != nil && c.Request != nil
  modifies g_ab, g_st
  ensures who: result != nil && result.ctx == c
  ensures error: implies(denial(err), sel(g_st, c) >= 400)

# the one credential kept in etcd
uf cred_ok(Str) Bool
uf cred_user(Str) Str
uf cred_pass(Str) Str
define usr(t) = as(t, "*apiserver/internal/usecase/componet/auth/credential.PasswordToken").Username
define pwd(t) = as(t, "*apiserver/internal/usecase/componet/auth/credential.PasswordToken").Password
define holds(u, p) = etcd_n > 0 && sel(etcd_key, 0) == cst.EtcdPrefix.ApiCredential && cred_ok(sel(etcd_val, 0)) && cred_user(sel(etcd_val, 0)) == u && cred_pass(sel(etcd_val, 0)) == p

func (apiserver/internal/usecase/componet/auth.PasswordValidator).Verify
  property A01
  options dyn.apiserver/internal/usecase/componet/auth.Credential=*apiserver/internal/usecase/componet/auth/credential.PasswordToken
  requires cli: pv.cli != nil
  requires token: token != nil && dyntype(token, "*apiserver/internal/usecase/componet/auth/credential.PasswordToken") && as(token, "*apiserver/internal/usecase/componet/auth/credential.PasswordToken") != nil
  modifies etcd_n, etcd_key, etcd_val
  ensures only: implies(result == nil, holds(usr(token), pwd(token)))
  ensures exactly: implies(holds(usr(token), pwd(token)), result == nil)
  ensures why: implies(result != nil, denial(result))

uf basic_ok(Int) Bool
uf basic_user(Int) Str
uf basic_pass(Int) Str
extern (net/http.Request).BasicAuth
  ensures ok: result2 == basic_ok(recv)
  ensures who: implies(result2, result0 == basic_user(recv) && result1 == basic_pass(recv))

func (apiserver/internal/usecase/componet/auth.PasswordValidator).Middleware
  property A01
  requires args: c != nil && c.Request != nil && pv.cli != nil && pv.cfg != nil
  modifies etcd_n, etcd_key, etcd_val
  ensures only: implies(result0, pv.cfg.Enable && basic_ok(c.Request) && holds(basic_user(c.Request), basic_pass(c.Request)))
  ensures exactly: implies(pv.cfg.Enable && basic_ok(c.Request) && holds(basic_user(c.Request), basic_pass(c.Request)), result0)
  ensures sound: implies(result0, result1 == nil)
  ensures why: implies(result1 != nil, denial(result1))

# the answer of the callback service; 0 when there was none
ghost cb_st: Int
extern net/http.Post
  params url, contentType, body
  modifies cb_st
  ensures ok: implies(result1 == nil, result0 != nil && result0.StatusCode == cb_st && cb_st >= 100)
  ensures none: implies(result1 != nil, cb_st == 0 && dyntype(result1, "library error"))

func (apiserver/internal/usecase/componet/auth.CallbackValidator).Verify
  property A01
  options dyn.apiserver/internal/usecase/componet/auth.Credential=*apiserver/internal/usecase/componet/auth/credential.CallbackToken
  requires cfg: cv.cfg != nil
  requires token: token != nil && dyntype(token, "*apiserver/internal/usecase/componet/auth/credential.CallbackToken") && as(token, "*apiserver/internal/usecase/componet/auth/credential.CallbackToken") != nil
  modifies cb_st
  ensures exactly: (result == nil) == (cb_st == 200)
  ensures why: implies(result != nil, denial(result))

func (apiserver/internal/usecase/componet/auth.CallbackValidator).Middleware
  property A01
  requires args: c != nil && c.Request != nil && cv.cfg != nil
  modifies cb_st, anyelems(cv.cfg.Params)
  ensures disabled: implies(!cv.cfg.Enable, !result0)
  ensures accepted: implies(result0, cb_st == 200 && result1 == nil)
  ensures why: implies(result1 != nil, denial(result1))
