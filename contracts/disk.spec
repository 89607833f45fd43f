// O03: choosing a disk.

define drivers(ds) = forall(k, 0, len(ds), ds[k] != nil)
// free space not yet reserved
define rest(sw, d) = max(0, d.FreeSpace - ite(has(sw.weighted, d.MountPoint), sw.weighted[d.MountPoint], 0))

// reservations are counted in whole factors, none before there is a factor
define weights(sw) = sw.weighted != nil && (sw.factor > 0 || forallstr(m, implies(has(sw.weighted, m), sw.weighted[m] == 0)))

func objectserver/internal/usecase/component.SpaceWeightedBalancer
  property O03
  ensures rep: dyntype(result, "*objectserver/internal/usecase/component.spaceWeightedBalancer")

func (objectserver/internal/usecase/component.spaceFirstBalancer).Select
  property O03
  requires wf: drivers(drivers)
  modifies elems(drivers)
  ensures none: (result1 != nil) == (len(drivers) == 0)
  ensures member: implies(result1 == nil, exists(k, 0, len(drivers), result0 == old(drivers[k])))
  ensures most: implies(result1 == nil, forall(k, 0, len(drivers), old(drivers[k]).FreeSpace <= result0.FreeSpace))

func (objectserver/internal/usecase/component.spaceWeightedBalancer).initFactor
  property O03
  requires wf: drivers(drivers)
  modifies sw.factor

func (objectserver/internal/usecase/component.spaceWeightedBalancer).Select
  property O03
  requires wf: drivers(drivers) && weights(sw)
  ensures wf: weights(sw)
  modifies sw.factor, mapof(sw.weighted)
  ensures none: (result1 != nil) == (len(drivers) == 0)
  ensures member: implies(result1 == nil, exists(k, 0, len(drivers), result0 == drivers[k]))
  ensures most: implies(result1 == nil, forall(k, 0, len(drivers), old(rest(sw, drivers[k])) <= old(rest(sw, result0))))

interface (objectserver/internal/usecase/component.DriverBalancer).Select
  property O03
  params drivers
  requires wf: drivers(drivers)
  modifies elems(drivers), allobjs("objectserver/internal/usecase/component.spaceWeightedBalancer"), allmaps("objectserver/internal/usecase/component.spaceWeightedBalancer", "weighted")
  rep spaceWeightedBalancer: weights(recv)
  ensures none: (result1 != nil) == (len(drivers) == 0)
  ensures member: implies(result1 == nil, exists(k, 0, len(drivers), result0 == old(drivers[k])))

func (objectserver/internal/usecase/component.DriverManager).SelectDriver
  property O03
  modifies elems(dm.drivers), allobjs("objectserver/internal/usecase/component.spaceWeightedBalancer"), allmaps("objectserver/internal/usecase/component.spaceWeightedBalancer", "weighted")
  requires wf: drivers(dm.drivers) && dm.balancer != nil
  ensures none: (result1 != nil) == old(len(dm.drivers) == 0)
  ensures member: implies(result1 == nil, exists(k, 0, old(len(dm.drivers)), result0 == old(dm.drivers[k])))

func (objectserver/internal/usecase/component.DriverManager).SelectMountPointFallback
  property O03
  modifies elems(dm.drivers), allobjs("objectserver/internal/usecase/component.spaceWeightedBalancer"), allmaps("objectserver/internal/usecase/component.spaceWeightedBalancer", "weighted")
  requires wf: drivers(dm.drivers) && dm.balancer != nil
  ensures chosen: implies(old(len(dm.drivers)) > 0, exists(k, 0, old(len(dm.drivers)), result == old(dm.drivers[k]).MountPoint))
  ensures fallback: implies(old(len(dm.drivers)) == 0, result == fb)
