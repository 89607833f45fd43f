// C05: lookups of registered services.

// where the last element of a key starts (the definition determines it)
uf kcut(Str) Int
axiom kcut_def: forallstr(k, trig(kcut(k)), 0 <= kcut(k) && kcut(k) <= len(k) && implies(kcut(k) > 0, k[kcut(k)-1] == 47) && forall(i, kcut(k), len(k), k[i] != 47))
define klast(k) = k[kcut(k):len(k)]
define endsin(s, p) = len(s) >= len(p) && s[len(s)-len(p):len(s)] == p
define kid(k) = ite(endsin(klast(k), "_master"), klast(k)[0:len(klast(k))-7], ite(endsin(klast(k), "_slave"), klast(k)[0:len(klast(k))-6], klast(k)))
define kslave(k) = endsin(klast(k), "_slave")

func common/registry.splitKey
  property C05
  ensures id: result0 == kid(key)
  ensures slave: (result1 == "slave") == kslave(key)

func (common/registry.serviceList).copy
  property C05
  ensures fresh: fresh(result) && result != nil
  ensures same: dom(result) == dom(s.data) && vals(result) == vals(s.data)
  loop 1
    modifies mapof(ls)
    invariant dom: dom(ls) == visited() && fresh(ls) && ls != s.data && ls != nil
    invariant vals: forallstr(q, trig(ls[q]), implies(has(ls, q), ls[q] == s.data[q]))

func (common/registry.serviceList).list
  property C05
  ensures each: forallstr(k, trig(s.data[k]), implies(has(s.data, k), exists(i, 0, len(result), result[i] == s.data[k])))
  ensures some: forall(i, 0, len(result), existsstr(k, has(s.data, k) && s.data[k] == result[i]))
  loop 1
    invariant buf: fresh(ls) && (ref(ls) == atentry(ref(ls)) || freshin(ls))
    invariant each: forallstr(k, trig(s.data[k]), implies(has(visited(), k), exists(i, 0, len(ls), ls[i] == s.data[k])))
    invariant some: forall(i, 0, len(ls), existsstr(k, has(s.data, k) && s.data[k] == ls[i]))

func (common/registry.serviceList).add
  property C05
  requires made: s.data != nil
  modifies mapof(s.data)
  ensures dom: dom(s.data) == sto(old(dom(s.data)), key, true)
  ensures vals: vals(s.data) == sto(old(vals(s.data)), key, ip)

func (common/registry.serviceList).remove
  property C05
  modifies mapof(s.data)
  ensures dom: dom(s.data) == sto(old(dom(s.data)), registerKey, false)
  ensures vals: forallstr(k, trig(s.data[k]), implies(k != registerKey, s.data[k] == old(vals(s.data))[k]))

func (common/registry.serviceList).combine
  property C05
  requires made: s.data != nil && mp != s.data
  modifies mapof(s.data)
  ensures dom: forallstr(k, trig(s.data[k]), has(s.data, k) == (has(mp, k) || has(old(dom(s.data)), k)))
  ensures vals: forallstr(k, trig(s.data[k]), s.data[k] == ite(has(mp, k), mp[k], old(vals(s.data))[k]))
  loop 1
    modifies mapof(s.data)
    invariant dom: forallstr(k, trig(s.data[k]), has(s.data, k) == (has(visited(), k) || has(old(dom(s.data)), k)))
    invariant vals: forallstr(k, trig(s.data[k]), s.data[k] == ite(has(visited(), k), mp[k], old(vals(s.data))[k]))

// what is known of a service
define known(e, name) = ite(has(e.services, name), e.services[name].data, nil)

func (common/registry.EtcdDiscovery).GetServiceMapping
  property C05
  requires made: forallstr(n, trig(e.services[n]), implies(has(e.services, n), e.services[n] != nil))
  ensures fresh: fresh(result)
  ensures each: implies(has(e.services, name), forallstr(k, trig(e.services[name].data[k]), implies(has(e.services[name].data, k), has(result, kid(k)))))
  ensures some: forallstr(v, trig(has(result, v)), implies(has(result, v), has(e.services, name) && existsstr(k, has(e.services[name].data, k) && kid(k) == v && e.services[name].data[k] == result[v])))
  loop 1
    modifies mapof(res)
    invariant res: fresh(res) && res != nil && res != ranged()
    invariant each: forallstr(k, trig(e.services[name].data[k]), implies(has(visited(), k), has(res, kid(k))))
    invariant some: forallstr(v, trig(has(res, v)), implies(has(res, v), existsstr(k, has(visited(), k) && kid(k) == v && e.services[name].data[k] == res[v])))

func (common/registry.EtcdDiscovery).GetServiceMappingWith
  property C05
  requires made: forallstr(n, trig(e.services[n]), implies(has(e.services, n), e.services[n] != nil))
  ensures fresh: fresh(result)
  ensures each: implies(has(e.services, name), forallstr(k, trig(e.services[name].data[k]), implies(has(e.services[name].data, k) && kslave(k) == !master, has(result, kid(k)))))
  ensures some: forallstr(v, trig(has(result, v)), implies(has(result, v), has(e.services, name) && existsstr(k, has(e.services[name].data, k) && kslave(k) == !master && kid(k) == v && e.services[name].data[k] == result[v])))
  loop 1
    modifies mapof(res)
    invariant res: fresh(res) && res != nil && res != ranged()
    invariant each: forallstr(k, trig(e.services[name].data[k]), implies(has(visited(), k) && kslave(k) == !master, has(res, kid(k))))
    invariant some: forallstr(v, trig(has(res, v)), implies(has(res, v), existsstr(k, has(visited(), k) && kslave(k) == !master && kid(k) == v && e.services[name].data[k] == res[v])))

func (common/registry.EtcdDiscovery).GetServicesWith
  property C05
  requires made: forallstr(n, trig(e.services[n]), implies(has(e.services, n), e.services[n] != nil))
  ensures each: implies(has(e.services, name), forallstr(k, trig(e.services[name].data[k]), implies(has(e.services[name].data, k) && kslave(k) == !master,
    exists(i, 0, len(result), existsstr(j, has(e.services[name].data, j) && kslave(j) == !master && kid(j) == kid(k) && e.services[name].data[j] == result[i])))))
  ensures some: forall(i, 0, len(result), has(e.services, name) && existsstr(k, has(e.services[name].data, k) && kslave(k) == !master && e.services[name].data[k] == result[i]))
  loop 1
    invariant buf: fresh(arr) && (ref(arr) == atentry(ref(arr)) || freshin(arr))
    invariant each: forallstr(v, trig(has(mp, v)), implies(has(visited(), v), exists(i, 0, len(arr), arr[i] == mp[v])))
    invariant some: forall(i, 0, len(arr), existsstr(v, has(mp, v) && mp[v] == arr[i]))

func (common/registry.EtcdDiscovery).GetService
  property C05
  requires made: forallstr(n, trig(e.services[n]), implies(has(e.services, n), e.services[n] != nil))
  ensures found: implies(result1, has(e.services, name) && existsstr(k, has(e.services[name].data, k) && kid(k) == id && e.services[name].data[k] == result0))
  ensures missing: implies(!result1 && has(e.services, name), forallstr(k, trig(e.services[name].data[k]), implies(has(e.services[name].data, k), kid(k) != id)))

func (common/registry.EtcdDiscovery).addService
  property C05
  requires made: e.services != nil && forallstr(n, trig(e.services[n]), implies(e.services[n] != nil, e.services[n].data != nil))
  modifies mapof(e.services), allmaps("common/registry.serviceList", "data")
  ensures there: has(e.services, name) && e.services[name] != nil && has(e.services[name].data, key) && e.services[name].data[key] == value
  ensures kept: implies(old(e.services[name]) != nil, e.services[name] == old(e.services[name]) && forallstr(k, trig(has(e.services[name].data, k)), implies(k != key, has(e.services[name].data, k) == old(has(e.services[name].data, k)) && e.services[name].data[k] == old(e.services[name].data[k]))))
  ensures others: forallstr(n, trig(e.services[n]), implies(n != name, e.services[n] == old(vals(e.services))[n]))

func (common/registry.EtcdDiscovery).removeService
  property C05
  modifies allmaps("common/registry.serviceList", "data")
  ensures gone: implies(e.services[name] != nil, !has(e.services[name].data, key))
  ensures kept: implies(e.services[name] != nil, forallstr(k, trig(has(e.services[name].data, k)), implies(k != key, has(e.services[name].data, k) == old(has(e.services[name].data, k)) && e.services[name].data[k] == old(e.services[name].data[k]))))

// what etcd answered: the keys asked for and their values
ghost etcd_n: Int
ghost etcd_key: (Array Int Str)
ghost etcd_val: (Array Int Str)

extern (go.etcd.io/etcd/client/v3.KV).Get
  params ctx key opts
  modifies etcd_n, etcd_key, etcd_val
  ensures ok: implies(result1 == nil, result0 != nil && len(result0.Kvs) == etcd_n && etcd_n >= 0)
  ensures kvs: implies(result1 == nil, forall(i, 0, etcd_n, result0.Kvs[i] != nil && str(result0.Kvs[i].Key) == sel(etcd_key, i) && str(result0.Kvs[i].Value) == sel(etcd_val, i)))
  ensures asked: implies(result1 == nil, forall(i, 0, etcd_n, trig(sel(etcd_key, i)), hasprefix(sel(etcd_key, i), key)))
  ensures exact: implies(result1 == nil && len(opts) == 0, etcd_n <= 1 && forall(i, 0, etcd_n, trig(sel(etcd_key, i)), sel(etcd_key, i) == key))
  ensures none: implies(result1 != nil, etcd_n == 0 && dyntype(result1, "library error"))

func common/registry.servicePrefix
  property C05
  ensures text: result == group + "/" + cst.EtcdPrefix.Registry + "/" + name + "/"

func (common/registry.EtcdRegistry).GetServiceMapping
  property C05
  requires cli: e.cli != nil && e.cli.KV != nil
  modifies etcd_n, etcd_key, etcd_val
  ensures each: forall(i, 0, etcd_n, trig(sel(etcd_key, i)), has(result, kid(sel(etcd_key, i))))
  ensures some: forallstr(v, trig(has(result, v)), implies(has(result, v), exists(i, 0, etcd_n, kid(sel(etcd_key, i)) == v && sel(etcd_val, i) == result[v])))
  ensures own: forall(i, 0, etcd_n, trig(sel(etcd_key, i)), hasprefix(sel(etcd_key, i), e.cfg.Group + "/" + cst.EtcdPrefix.Registry + "/" + name + "/"))
  loop 1
    modifies mapof(res)
    invariant res: fresh(res) && res != nil
    invariant each: forall(i, 0, iter(), trig(sel(etcd_key, i)), has(res, kid(sel(etcd_key, i))))
    invariant some: forallstr(v, trig(has(res, v)), implies(has(res, v), exists(i, 0, iter(), kid(sel(etcd_key, i)) == v && sel(etcd_val, i) == res[v])))

func (common/registry.EtcdRegistry).GetServices
  property C05
  requires cli: e.cli != nil && e.cli.KV != nil
  modifies etcd_n, etcd_key, etcd_val
  ensures each: len(result) == etcd_n && forall(i, 0, etcd_n, result[i] == sel(etcd_val, i))
  ensures own: forall(i, 0, etcd_n, trig(sel(etcd_key, i)), hasprefix(sel(etcd_key, i), e.cfg.Group + "/" + cst.EtcdPrefix.Registry + "/" + name + "/"))
  loop 1
    invariant buf: fresh(res) && (ref(res) == atentry(ref(res)) || freshin(res))
    invariant each: len(res) == iter() && forall(i, 0, iter(), res[i] == sel(etcd_val, i))

func (common/registry.EtcdRegistry).GetService
  property C05
  requires cli: e.cli != nil && e.cli.KV != nil
  modifies etcd_n, etcd_key, etcd_val
  ensures found: implies(result1, exists(i, 0, etcd_n, kid(sel(etcd_key, i)) == id && sel(etcd_val, i) == result0))
  ensures missing: implies(!result1, forall(i, 0, etcd_n, trig(sel(etcd_key, i)), kid(sel(etcd_key, i)) != id))

func (common/registry.EtcdRegistry).Key
  property C05
  ensures text: result == e.cfg.Group + "/" + cst.EtcdPrefix.Registry + "/" + e.name

func (common/registry.EtcdRegistry).AsMaster
  property C05
  modifies *e
  ensures name: result == e && e.name == e.stdName + "_master" && e.cfg == old(e.cfg) && e.stdName == old(e.stdName) && e.addr == old(e.addr)

func (common/registry.EtcdRegistry).AsSlave
  property C05
  modifies *e
  ensures name: result == e && e.name == e.stdName + "_slave" && e.cfg == old(e.cfg) && e.stdName == old(e.stdName) && e.addr == old(e.addr)
