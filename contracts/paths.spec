# O02: the index of object locations, over an assumed model of the embedded key-value store: a
# set of keys with values, transactions that keep their effects only when they succeed.
ghost p_has: (Array Str Bool)
ghost p_val: (Array Str Str)
uf itemval(Int) Str

extern (github.com/dgraph-io/badger/v3.DB).Update
  params fn
  runs fn
  rollback p_has, p_val
  ensures own: !errIs(result, badger.ErrKeyNotFound)

extern (github.com/dgraph-io/badger/v3.DB).View
  params fn
  runs fn
  rollback p_has, p_val
  ensures own: !errIs(result, badger.ErrKeyNotFound)

extern (github.com/dgraph-io/badger/v3.Txn).Get
  params key
  ensures found: implies(result1 == nil, sel(p_has, str(key)) && result0 != nil && itemval(result0) == sel(p_val, str(key)))
  ensures missing: implies(!sel(p_has, str(key)), result1 != nil)
  ensures own: result1 != os.ErrNotExist
  ensures why: implies(result1 == badger.ErrKeyNotFound, !sel(p_has, str(key)))

extern (github.com/dgraph-io/badger/v3.Item).Value
  params fn
  runs fn
  gives str(arg0) == itemval(recv)
  ensures own: result != badger.ErrKeyNotFound && result != os.ErrNotExist

extern (github.com/dgraph-io/badger/v3.Item).ValueCopy
  params dst
  ensures value: implies(result1 == nil, str(result0) == itemval(recv))
  ensures own: result1 != badger.ErrKeyNotFound && result1 != os.ErrNotExist

extern (github.com/dgraph-io/badger/v3.Txn).Set
  params key, val
  modifies p_has, p_val
  ensures has: p_has == ite(result == nil, sto(old(p_has), str(key), true), old(p_has))
  ensures val: p_val == ite(result == nil, sto(old(p_val), str(key), str(val)), old(p_val))
  ensures own: result != badger.ErrKeyNotFound && result != os.ErrNotExist

extern (github.com/dgraph-io/badger/v3.Txn).Delete
  params key
  modifies p_has
  ensures has: p_has == ite(result == nil, sto(old(p_has), str(key), false), old(p_has))
  ensures own: result != badger.ErrKeyNotFound && result != os.ErrNotExist

# the pieces of a text between commas
uf pn(Str) Int
uf pat(Str, Int) Str
uf plain(Str) Bool
axiom plain_is: forallstr(s, trig(plain(s)), plain(s) == forall(k, 0, len(s), s[k] != 44))
axiom comma_is: len(",") == 1 && ","[0] == 44
axiom pieces: forallstr(s, trig(pn(s)), pn(s) >= 1 && implies(plain(s), pn(s) == 1 && pat(s, 0) == s))
axiom pieces_plain: forallstr(s, forall(i, trig(pat(s, i)), implies(0 <= i && i < pn(s), plain(pat(s, i)))))
axiom pieces_more: forallstr(a, forallstr(b, trig(pn(a + "," + b)), implies(plain(b), pn(a + "," + b) == pn(a) + 1 && pat(a + "," + b, pn(a)) == b)))
axiom pieces_kept: forallstr(a, forallstr(b, forall(i, trig(pat(a + "," + b, i)), implies(plain(b) && 0 <= i && i < pn(a), pat(a + "," + b, i) == pat(a, i)))))
axiom last_piece: forallstr(s, forall(j, trig(pn(s), s[j:len(s)]), implies(0 <= j && j <= len(s) && plain(s[j:len(s)]) && (j == 0 || s[j-1] == 44), pat(s, pn(s)-1) == s[j:len(s)])))

extern bytes.Split
  params s, sep
  ensures pieces: implies(str(sep) == ",", len(result) == pn(str(s)) && forall(i, 0, len(result), trig(pat(str(s), i)), str(result[i]) == pat(str(s), i)))
  ensures own: fresh(result)

extern bytes.Join
  params s, sep
  ensures pieces: implies(str(sep) == "," && len(s) >= 1 && forall(i, 0, len(s), plain(str(s[i]))), pn(str(result)) == len(s) && forall(i, 0, len(s), trig(pat(str(result), i)), pat(str(result), i) == str(s[i])))
  ensures some: implies(len(s) >= 1 && forall(i, 0, len(s), str(s[i]) != ""), str(result) != "")

uf rall(Str, Str, Str) Str
extern bytes.ReplaceAll
  params s, old0, new0
  ensures text: str(result) == rall(str(s), str(old0), str(new0))

define esc(s) = rall(rall(s, "%", "%25"), ",", "%2C")
define unesc(s) = rall(rall(s, "%2C", ","), "%25", "%")
axiom escaped: forallstr(s, trig(esc(s)), plain(esc(s)) && unesc(esc(s)) == s && implies(s != "", esc(s) != "" && esc(s) != "%"))
define enc(s) = ite(s == "", "%", esc(s))
define dec(s) = ite(s == "%", "", unesc(s))
define seps() = str(db.Sep) == "," && str(db.SepEnc) == "%2C" && str(db.Esc) == "%" && str(db.EscEnc) == "%25"

func (objectserver/internal/db.PathCache).encodeValue
  property O02
  options bytesval
  requires seps: seps()
  ensures plain: plain(str(result)) && str(result) != ""
  ensures back: dec(str(result)) == str(val)

func (objectserver/internal/db.PathCache).decodeValue
  property O02
  options bytesval
  requires seps: seps()
  ensures text: str(result) == dec(str(val))

define pathcnt(n) = ite(sel(p_has, n), pn(sel(p_val, n)), 0)
define ppath(n, i) = dec(pat(sel(p_val, n), i))
# what is kept of an object with paths is never the empty text
define kept() = forallstr(m, trig(sel(p_has, m)), implies(sel(p_has, m), sel(p_val, m) != "" && forall(i, 0, pn(sel(p_val, m)), trig(pat(sel(p_val, m), i)), pat(sel(p_val, m), i) != "")))
define others(n) = forallstr(m, trig(sel(p_has, m)), implies(m != n, sel(p_has, m) == sel(old(p_has), m) && sel(p_val, m) == sel(old(p_val), m)))
define same() = p_has == old(p_has) && p_val == old(p_val)

func (objectserver/internal/db.PathCache).Put
  property O02
  options bytesval
  requires seps: seps() && pc.db != nil
  requires kept: kept()
  modifies p_has, p_val
  ensures kept: kept()
  ensures fail: implies(result != nil, same())
  ensures count: implies(result == nil, pathcnt(name) == old(pathcnt(name)) + 1)
  ensures last: implies(result == nil, ppath(name, pathcnt(name)-1) == path)
  ensures before: implies(result == nil, forall(i, 0, old(pathcnt(name)), ppath(name, i) == old(ppath(name, i))))
  ensures others: others(name)

func (objectserver/internal/db.PathCache).Get
  property O02
  options bytesval
  requires seps: seps() && pc.db != nil
  requires kept: kept()
  ensures missing: implies(pathcnt(name) == 0, result1 != nil)
  ensures why: implies(result1 == os.ErrNotExist, pathcnt(name) == 0)
  ensures all: implies(result1 == nil, pathcnt(name) >= 1 && len(result0) == pathcnt(name) && forall(i, 0, pathcnt(name), result0[i] == ppath(name, i)))
  loop 1
    invariant buf: fresh(res) && (ref(res) == atentry(ref(res)) || freshin(res))
    invariant all: len(res) == iter() && forall(i, 0, iter(), res[i] == ppath(name, i))

func (objectserver/internal/db.PathCache).GetLast
  property O02
  options bytesval
  requires seps: seps() && pc.db != nil
  requires kept: kept()
  ensures missing: implies(pathcnt(name) == 0, result1 != nil)
  ensures why: implies(result1 == os.ErrNotExist, pathcnt(name) == 0)
  ensures last: implies(result1 == nil, pathcnt(name) >= 1 && result0 == ppath(name, pathcnt(name)-1))

func (objectserver/internal/db.PathCache).Remove
  property O02
  options bytesval
  requires seps: seps() && pc.db != nil
  requires kept: kept()
  modifies p_has, p_val
  ensures kept: kept()
  ensures others: others(name)
  ensures fail: implies(result != nil, same())
  ensures none: implies(forall(i, 0, old(pathcnt(name)), old(ppath(name, i)) != path), same())
  ensures removed: implies(result == nil, forall(k, 0, old(pathcnt(name)), trig(pat(old(sel(p_val, name)), k)), implies(old(ppath(name, k)) == path && forall(j, 0, k, old(ppath(name, j)) != path),
     pathcnt(name) == old(pathcnt(name)) - 1 && forall(j, 0, k, ppath(name, j) == old(ppath(name, j))) && forall(j, k, pathcnt(name), ppath(name, j) == old(ppath(name, j + 1))))))
  loop 1
    invariant same: same()
    invariant parts: len(sp) == old(pathcnt(name)) && fresh(sp) && forall(j, 0, len(sp), str(sp[j]) == pat(old(sel(p_val, name)), j))
    invariant none: forall(j, 0, iter(), old(ppath(name, j)) != path)

func (objectserver/internal/db.PathCache).RemoveAll
  property O02
  options bytesval
  requires db: pc.db != nil
  requires kept: kept()
  modifies p_has, p_val
  ensures kept: kept()
  ensures fail: implies(result != nil, same())
  ensures gone: implies(result == nil, pathcnt(name) == 0)
  ensures others: others(name)
