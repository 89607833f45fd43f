# H04: the slot database of a metadata server.

# writes sent to the coordination store: how many, and what the last one was
ghost put_n: Int
ghost put_key: Str
ghost put_val: Str
ghost del_n: Int
ghost del_key: Str

extern (go.etcd.io/etcd/client/v3.KV).Put
  params ctx key val opts
  modifies put_n, put_key, put_val
  ensures one: put_n == old(put_n) + 1
  ensures key: put_key == key
  ensures val: put_val == val

extern (go.etcd.io/etcd/client/v3.KV).Delete
  params ctx key opts
  modifies del_n, del_key
  ensures one: del_n == old(del_n) + 1
  ensures key: del_key == key


define mode(h) = *h.status
define four(h) = mode(h) == 1 || mode(h) == 2 || mode(h) == 4 || mode(h) == 8

func (metaserver/internal/usecase/db.HashSlotDB).IsNormal
  property H04
  requires made: h.status != nil
  ensures mode: result == (mode(h) == 1)

func (metaserver/internal/usecase/db.HashSlotDB).GetMigrateTo
  property H04
  requires made: h.status != nil
  ensures mode: result0 == (mode(h) == 2)
  ensures peer: result1 == h.migratingHost
  ensures slots: result2 == h.migratingSlots

func (metaserver/internal/usecase/db.HashSlotDB).GetMigrateFrom
  property H04
  requires made: h.status != nil
  ensures mode: result0 == (mode(h) == 4)
  ensures peer: result1 == h.migratingHost
  ensures slots: result2 == h.migratingSlots

func (metaserver/internal/usecase/db.HashSlotDB).ReadyMigrateFrom
  property H04
  requires made: h.status != nil
  modifies *h.status, h.migratingHost, h.migratingSlots
  ensures accepted: (result == nil) == (old(mode(h)) == 1)
  ensures mode: mode(h) == ite(old(mode(h)) == 1, 4, old(mode(h)))
  ensures peer: h.migratingHost == ite(old(mode(h)) == 1, loc, old(h.migratingHost))
  ensures taken: implies(old(mode(h)) == 1, len(h.migratingSlots) == len(slots) && forall(i, 0, len(slots), h.migratingSlots[i] == slots[i]))
  ensures kept: implies(old(mode(h)) != 1, h.migratingSlots == old(h.migratingSlots))

func (metaserver/internal/usecase/db.HashSlotDB).ReadyMigrateTo
  property H04
  requires made: h.status != nil
  modifies *h.status, h.migratingHost, h.migratingSlots
  ensures accepted: (result == nil) == (old(mode(h)) == 1)
  ensures mode: mode(h) == ite(old(mode(h)) == 1, 2, old(mode(h)))
  ensures peer: h.migratingHost == ite(old(mode(h)) == 1, loc, old(h.migratingHost))
  ensures taken: implies(old(mode(h)) == 1, len(h.migratingSlots) == len(slots) && forall(i, 0, len(slots), h.migratingSlots[i] == slots[i]))
  ensures kept: implies(old(mode(h)) != 1, h.migratingSlots == old(h.migratingSlots))

func (metaserver/internal/usecase/db.HashSlotDB).FinishMigrateTo
  property H04
  requires made: h.status != nil
  modifies *h.status, h.migratingHost, h.migratingSlots
  ensures accepted: (result == nil) == (old(mode(h)) == 2)
  ensures mode: mode(h) == ite(old(mode(h)) == 2, 1, old(mode(h)))
  ensures peer: h.migratingHost == ite(old(mode(h)) == 2, "", old(h.migratingHost))
  ensures gone: implies(old(mode(h)) == 2, len(h.migratingSlots) == 0)
  ensures kept: implies(old(mode(h)) != 2, h.migratingSlots == old(h.migratingSlots))

func (metaserver/internal/usecase/db.HashSlotDB).FinishMigrateFrom
  property H04
  requires made: h.status != nil
  modifies *h.status, h.migratingHost, h.migratingSlots
  ensures accepted: (result == nil) == (old(mode(h)) == 4)
  ensures mode: mode(h) == ite(old(mode(h)) == 4, 1, old(mode(h)))
  ensures peer: h.migratingHost == ite(old(mode(h)) == 4, "", old(h.migratingHost))
  ensures gone: implies(old(mode(h)) == 4, len(h.migratingSlots) == 0)
  ensures kept: implies(old(mode(h)) != 4, h.migratingSlots == old(h.migratingSlots))

extern context.WithTimeout
  params parent timeout
  ensures made: result0 != nil && result1 != nil


func (metaserver/internal/usecase/db.HashSlotDB).Save
  property H04
  requires made: h.status != nil && h.kv != nil && info != nil
  modifies info.GroupID, put_n, put_key, put_val
  ensures refused: implies(old(mode(h)) != 1, result != nil && put_n == old(put_n) && info.GroupID == old(info.GroupID))
  ensures once: put_n <= old(put_n) + 1 && implies(result == nil, put_n == old(put_n) + 1)
  ensures key: implies(put_n > old(put_n), put_key == h.KeyPrefix + id)
  ensures val: implies(put_n > old(put_n), put_val == recof(info) && info.GroupID == id)

func (metaserver/internal/usecase/db.HashSlotDB).Remove
  property H04
  requires made: h.status != nil && h.kv != nil
  modifies del_n, del_key
  ensures refused: implies(old(mode(h)) != 1, result != nil && del_n == old(del_n))
  ensures once: del_n <= old(del_n) + 1 && implies(result == nil, del_n == old(del_n) + 1)
  ensures key: implies(del_n > old(del_n), del_key == h.KeyPrefix + id)

func (metaserver/internal/usecase/db.HashSlotDB).Close
  property H04
  requires made: h.status != nil
  modifies *h.status
  ensures closed: implies(result == nil, old(mode(h)) == 1 && mode(h) == 8)
  ensures refused: implies(result != nil, mode(h) == old(mode(h)))
  loop 1
    modifies *h.status
    invariant same: mode(h) == atentry(mode(h))

func metaserver/internal/usecase/db.NewHashSlotDB
  property H04
  ensures normal: result != nil && result.status != nil && mode(result) == 1
  ensures idle: result.migratingHost == "" && len(result.migratingSlots) == 0
  ensures where: result.KeyPrefix == keyPrefix && result.kv == kv
