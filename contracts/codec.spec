// C02: stored numbers, data sizes and message lists.

// the number a variable-length encoding stands for
uf uvarint(Str) Int

extern encoding/binary.PutUvarint
  params buf, x
  requires room: len(buf) >= 10 || x < 128 || (len(buf) >= 5 && x < 34359738368)
  modifies elems(buf)
  ensures coded: uvarint(str(buf)) == x

extern encoding/binary.ReadUvarint
  params r
  ensures decoded: implies(dyntype(r, "*bytes.Buffer"), result0 == uvarint(bufstr(unboxed(r))))

uf bufstr(Int) Str
extern bytes.NewBuffer
  params buf
  ensures content: result != nil && fresh(result) && bufstr(ref(result)) == str(buf)

func common/util.IntToBytes
  property C02
  ensures coded: uvarint(str(result)) == i && fresh(result)

func common/util.BytesToInt
  property C02
  ensures decoded: result == uvarint(str(b))

// malformed lists never make it slice outside the data; it always ends
func common/util.DecodeArrayMsgp
  property C02
  requires ctor: constructor != nil
  ensures none: implies(len(data) == 0, len(result0) == 0 && result1 == nil)
  loop 1
    invariant inb: 0 <= cur && cur <= len(data) && implies(cur == 0, len(arr) == 0) && err == nil
    invariant own: cap(arr) == 0 || fresh(arr)
    decreases len(data) - cur

define KB() = 1024
define unitsize(u) = ite(u == "B", 1, ite(u == "KB", 1024, ite(u == "MB", 1048576, ite(u == "GB", 1073741824, ite(u == "TB", 1099511627776, 1125899906842624)))))
define isunit(u) = u == "B" || u == "KB" || u == "MB" || u == "GB" || u == "TB" || u == "PB"
define tabled() = unitNameMap != nil && forallstr(u, trig(has(unitNameMap, u)), has(unitNameMap, u) == isunit(u) && implies(isunit(u), unitNameMap[u] == unitsize(u)))

func (common/datasize.DataSize).String
  property C02
  ensures bytes: implies(d < 1024, result == itoa(d) + "B")
  ensures kb: implies(1024 <= d && d < 1048576 && d % 1024 == 0, result == itoa(d / 1024) + "KB")
  ensures mb: implies(1048576 <= d && d < 1073741824 && d % 1048576 == 0, result == itoa(d / 1048576) + "MB")
  ensures gb: implies(1073741824 <= d && d < 1099511627776 && d % 1073741824 == 0, result == itoa(d / 1073741824) + "GB")
  ensures tb: implies(1099511627776 <= d && d < 1125899906842624 && d % 1099511627776 == 0, result == itoa(d / 1099511627776) + "TB")
  ensures pb: implies(1125899906842624 <= d && d % 1125899906842624 == 0, result == itoa(d / 1125899906842624) + "PB")
  loop 1
    invariant unit: 0 <= i && i <= 5 && implies(i < 5, d < units[i+1].value)

// the number and the unit in the text of a size, and whether it is one
uf sizetext(Str) Bool
uf sizenum(Str) Str
uf sizeunit(Str) Str
uf toupper(Str) Str
axiom size_units: forallstr(s, trig(sizeunit(s)), implies(sizetext(s), sizeunit(s) == "" || isunit(sizeunit(s))))
axiom size_text: forall(n, forallstr(u, trig(itoa(n) + u), implies(n >= 0 && (u == "" || isunit(u)), sizetext(itoa(n) + u) && sizenum(itoa(n) + u) == itoa(n) && sizeunit(itoa(n) + u) == u && toupper(itoa(n) + u) == itoa(n) + u)))
axiom size_digits: forallstr(s, trig(sizenum(s)), implies(sizetext(s) && isnum(sizenum(s)), atoi(sizenum(s)) >= 0))

extern (regexp.Regexp).FindAllStringSubmatch
  params s, n
  ensures groups: implies(recv == datasize.suffixRegex, len(result) == ite(sizetext(s), 1, 0) && implies(sizetext(s), len(result[0]) == 3 && result[0][1] == sizenum(s) && result[0][2] == sizeunit(s)))

func common/datasize.init
  property C02
  requires empty: unitNameMap != nil && len(unitNameMap) == 0 && forallstr(u, trig(has(unitNameMap, u)), !has(unitNameMap, u))
  modifies mapof(unitNameMap)
  ensures tabled: tabled()
  loop 1
    invariant so_far: forallstr(u, trig(has(unitNameMap, u)), has(unitNameMap, u) == (iter() > 0 && u == "B" || iter() > 1 && u == "KB" || iter() > 2 && u == "MB" || iter() > 3 && u == "GB" || iter() > 4 && u == "TB" || iter() > 5 && u == "PB") && implies(has(unitNameMap, u), unitNameMap[u] == unitsize(u)))

define numof(s) = atoi(sizenum(toupper(s)))
define unitof(s) = unitsize(ite(sizeunit(toupper(s)) == "", "B", sizeunit(toupper(s))))
func common/datasize.Parse
  property C02
  requires tabled: tabled()
  ensures value: implies(result1 == nil, sizetext(toupper(s)) && isnum(sizenum(toupper(s))) && result0 == numof(s) * unitof(s))
  ensures accepted: implies(sizetext(toupper(s)) && isnum(sizenum(toupper(s))) && numof(s) * unitof(s) < 1152921504606846976, result1 == nil)
