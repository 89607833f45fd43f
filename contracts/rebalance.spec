// O04: rebalancing plans.

// sum of V over the strings in S
uf msum((Array Str Bool), (Array Str Int)) Int
axiom msum_empty: forallmap(V, trig(msum(emptyset(), V)), msum(emptyset(), V) == 0)
axiom msum_add: forallset(S, forallmap(V, forallstr(k, trig(msum(sto(S, k, true), V)), implies(!sel(S, k), msum(sto(S, k, true), V) == msum(S, V) + sel(V, k)))))
axiom msum_out: forallset(S, forallmap(V, forallstr(k, forall(v, trig(msum(S, sto(V, k, v))), implies(!sel(S, k), msum(S, sto(V, k, v)) == msum(S, V))))))

// the loads reported by the other nodes
ghost peers: (Array Str Bool)
ghost loads: (Array Str Int)
ghost npeers: Int
uf addrOf(Str, Str) Str

extern (common/registry.Discovery).GetService
  params name, id
  ensures addr: result0 == addrOf(name, id)

extern net/http.Get
  params url
  ensures resp: implies(result1 == nil, result0 != nil)

func (common/registry.Config).SID
  property O04
  requires named: c.ServerID != ""
  ensures id: result == c.ServerID

func (objectserver/internal/usecase/service.MigrationService).getPeersCapacity
  property O04
  requires conf: pool.Config != nil && pool.Discovery != nil && pool.Config.Registry.ServerID != ""
  ensures noself: !has(result, addrOf(pool.Config.Registry.Name, pool.Config.Registry.ServerID))
  ensures own: result != nil && fresh(result)
  ensures reported: forallstr(k, trig(result[k]), result[k] >= 0)
  sets peers: dom(result)
  sets loads: vals(result)
  sets npeers: len(result)
  loop 1
    invariant noself: !has(res, selfLoc)
    assume nonnegative_loads_reported: forallstr(k, trig(res[k]), res[k] >= 0)

define own() = *pool.ObjectCap.currentCap
define total() = own() + msum(peers, loads)
define avg(n) = ceil(toreal(total()) / toreal(n))
func (objectserver/internal/usecase/service.MigrationService).DeviationValues
  property O04
  requires conf: pool.Config != nil && pool.Discovery != nil && pool.Config.Registry.ServerID != "" && pool.ObjectCap != nil && pool.ObjectCap.currentCap != nil && own() >= 0
  modifies peers, loads, npeers
  ensures self: implies(result1 == nil, !has(result0, addrOf(pool.Config.Registry.Name, pool.Config.Registry.ServerID)))
  ensures join: implies(result1 == nil && join, forallstr(k, trig(has(result0, k)), has(result0, k) == (sel(peers, k) && sel(loads, k) > avg(npeers+1)) && implies(has(result0, k), result0[k] == sel(loads, k) - avg(npeers+1))))
  ensures leave: implies(result1 == nil && !join, npeers > 0 && forallstr(k, trig(has(result0, k)), has(result0, k) == (sel(peers, k) && avg(npeers) > sel(loads, k)) && implies(has(result0, k), result0[k] == avg(npeers) - sel(loads, k))))
  ensures cover: implies(result1 == nil && !join, msum(dom(result0), vals(result0)) >= own())
  ensures positive: implies(result1 == nil, forallstr(k, implies(has(result0, k), result0[k] > 0)))
  ensures refused: implies(result1 != nil && (join || npeers > 0), total() == 0 || forallstr(k, implies(sel(peers, k), ite(join, sel(loads, k) <= avg(npeers+1), avg(npeers) <= sel(loads, k)))))
  loop 1
    invariant sum: total == toreal(own() + msum(visited(), loads))
    invariant pos: total >= 0
  loop 2
    modifies mapof(res)
    invariant avg: avg >= 0
    invariant plan: res != nil && forallstr(k, trig(has(res, k)), has(res, k) == (visited(k) && ite(join, loads[k] - avg, avg - loads[k]) > 0) && implies(has(res, k), res[k] == ite(join, loads[k] - avg, avg - loads[k])))
    invariant cover: implies(!join, msum(dom(res), vals(res)) >= avg*iter() - msum(visited(), loads))
