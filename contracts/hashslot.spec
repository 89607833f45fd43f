// common/hashslot: routing tables of slot ranges.

define wellformed(el) = forall(i, 0, len(el), el[i] != nil)
// a routing table: non-empty ranges, in increasing order, pairwise disjoint
define table(el) = wellformed(el) && forall(i, 0, len(el), el[i].Start < el[i].End) &&
  forall(i, 0, len(el), forall(j, i+1, len(el), el[i].End <= el[j].Start))
define within(e, s) = e.Start <= s && s < e.End
define covers(el, s) = exists(ci, 0, len(el), within(el[ci], s))

implementer common/hashslot.IEdgeProvider = *common/hashslot.EdgeProvider
define goodprov(p) = p != nil && unboxed(p) != nil && table(p.edges)

func (common/hashslot.EdgeList).Len
  property H01 H03
  ensures result == len(el)

func (common/hashslot.EdgeList).Less
  property H01 H03
  requires inb: 0 <= i && i < len(el) && 0 <= j && j < len(el) && el[i] != nil && el[j] != nil
  ensures order: result == (el[i].Start < el[j].Start || (el[i].Start == el[j].Start && el[i].End < el[j].End))

func (common/hashslot.EdgeList).Swap
  property H01 H03
  requires inb: 0 <= i && i < len(el) && 0 <= j && j < len(el)
  modifies elems(el)
  ensures swapped: forall(k, 0, len(el), el[k] == ite(k == i, old(el[j]), ite(k == j, old(el[i]), old(el[k]))))

func common/hashslot.sortAndValidate
  property H01
  requires wf: wellformed(edges)
  modifies elems(edges)
  ensures sorted: implies(result == nil, table(edges))
  ensures perm_from: forall(k, 0, len(edges), exists(m, 0, len(edges), edges[k] == old(edges[m])))
  ensures perm_to: forall(k, 0, len(edges), exists(m, 0, len(edges), edges[m] == old(edges[k])))
  ensures pairwise: implies(result == nil, old(forall(k, 0, len(edges), forall(m, 0, len(edges),
     k == m || edges[k].End <= edges[m].Start || edges[m].End <= edges[k].Start))))
  ensures reject: implies(result != nil, exists(k, 0, len(edges), edges[k].Start >= edges[k].End) ||
     exists(k, 0, len(edges)-1, edges[k].End > edges[k+1].Start || edges[k].Start == edges[k+1].Start))
  loop 1
    invariant nonempty: forall(k, 0, iter(), edges[k].Start < edges[k].End)
    invariant disjoint: forall(k, 0, iter(), forall(j, k+1, iter(), edges[k].End <= edges[j].Start))

func common/hashslot.IsSlotInEdges
  property H02
  requires tab: table(edges)
  ensures member: result == covers(edges, slot)

func common/hashslot.GetSlotIdentify
  property H02
  requires tab: goodprov(provider)
  ensures found: implies(result1 == nil, exists(i, 0, len(provider.edges), within(provider.edges[i], slot) && provider.edges[i].Value == result0))
  ensures missing: (result1 != nil) == !covers(provider.edges, slot)

func (common/hashslot.EdgeProvider).get
  property H02
  ensures same: result == e.edges

func common/util/math.MinInt
  property H02 H03
  ensures result == ite(i < j, i, j)

func common/util/math.MaxInt
  property H02 H03
  ensures result == ite(i < j, j, i)

define reach(el, n, start, end) = ite(n == 0, start, max(start, min(end, el[n-1].End)))
define cutof(p, e, start, end) = p.Start == max(e.Start, start) && p.End == min(e.End, end) && p.Value == e.Value

func common/hashslot.FindRangeCurrentData
  property H02
  requires tab: goodprov(provider)
  requires order: start < end && 0 <= start && forall(i, 0, len(provider.edges), 0 <= provider.edges[i].Start)
  ensures pieces_ordered: table(res)
  ensures pieces_cut: forall(k, 0, len(res), exists(i, 0, len(provider.edges), cutof(res[k], provider.edges[i], start, end)))
  ensures pieces_all: forall(i, 0, len(provider.edges), implies(provider.edges[i].Start < end && start < provider.edges[i].End,
       exists(k, 0, len(res), cutof(res[k], provider.edges[i], start, end))))
  hint marks: mark(end-1, start, ite(len(provider.edges) == 0, 0, reach(provider.edges, len(provider.edges), start, end)))
  ensures fully: fully == forall(s, start, end, covers(provider.edges, s))
  loop 1
    invariant fresh_res: forall(k, 0, len(res), res[k] != nil && fresh(res[k]))
    invariant res_fresh: cap(res) == 0 || fresh(res)
    invariant bounds: forall(k, 0, len(res), res[k].Start < res[k].End && start <= res[k].Start && res[k].End <= end && forall(m, iter(), len(edges), res[k].End <= edges[m].Start))
    invariant ordered: forall(k, 0, len(res), forall(m, k+1, len(res), res[k].End <= res[m].Start))
    invariant cut: forall(k, 0, len(res), exists(i, 0, iter(), cutof(res[k], edges[i], start, end)))
    invariant all: forall(i, 0, iter(), implies(edges[i].Start < end && start < edges[i].End,
       exists(k, 0, len(res), cutof(res[k], edges[i], start, end))))
    invariant left: rangeLen >= end - reach(edges, iter(), start, end) && rangeLen <= end - start
    invariant leftall: (rangeLen == end - reach(edges, iter(), start, end)) == forall(s, start, reach(edges, iter(), start, end), exists(i, 0, iter(), within(edges[i], s)))
    hint marks: mark(reach(edges, iter(), start, end), reach(edges, iter()-1, start, end), edges[iter()-1].Start, edges[iter()-1].Start-1, end-1, start)

func common/hashslot.IsValidEdge
  property H02
  requires tab: goodprov(provider)
  requires order: edge != nil && edge.Start < edge.End && 0 <= edge.Start && forall(i, 0, len(provider.edges), 0 <= provider.edges[i].Start)
  ensures valid: result == exists(i, 0, len(provider.edges), provider.edges[i].Start <= edge.Start && edge.End <= provider.edges[i].End && provider.edges[i].Value == edge.Value)

func common/hashslot.CopyOfEdges
  property H02
  requires tab: goodprov(provider)
  ensures tab: table(result)
  ensures from: forall(k, 0, len(result), fresh(result[k]) && exists(i, 0, len(provider.edges), result[k].Start == provider.edges[i].Start && result[k].End == provider.edges[i].End && result[k].Value == provider.edges[i].Value
      && (identify == "" || result[k].Value == identify)))
  ensures all: forall(i, 0, len(provider.edges), implies(identify == "" || provider.edges[i].Value == identify,
     exists(k, 0, len(result), result[k].Start == provider.edges[i].Start && result[k].End == provider.edges[i].End && result[k].Value == provider.edges[i].Value)))
  loop 1
    invariant fresh_res: forall(k, 0, len(res), res[k] != nil && fresh(res[k]))
    invariant res_fresh: cap(res) == 0 || fresh(res)
    invariant nonempty: forall(k, 0, len(res), res[k].Start < res[k].End && res[k].End <= list[iter()-1].End)
    invariant ordered: forall(k, 0, len(res), forall(m, k+1, len(res), res[k].End <= res[m].Start))
    invariant from: forall(k, 0, len(res), exists(i, 0, iter(), res[k].Start == list[i].Start && res[k].End == list[i].End && res[k].Value == list[i].Value
      && (identify == "" || res[k].Value == identify)))
    invariant all: forall(i, 0, iter(), implies(identify == "" || list[i].Value == identify,
     exists(k, 0, len(res), res[k].Start == list[i].Start && res[k].End == list[i].End && res[k].Value == list[i].Value)))

func common/hashslot.CombineEdges
  property H03
  requires tab: table(src) && table(dest)
  requires distinct: forall(i, 0, len(src), forall(j, 0, len(dest), src[i] != dest[j]))
  modifies elems(src), anyobj(src[0])
  ensures tab: table(result)
  ensures union: forall(s, covers(result, s) == old(covers(src, s) || covers(dest, s)))
  loop 1
    modifies elems(newEdges), anyobj(newEdges[0])
    invariant nonnil: forall(k, 0, len(newEdges), newEdges[k] != nil)
    invariant members: forall(k, 0, len(newEdges), forall(m, iter(), len(ranged()), newEdges[k] != ranged()[m]))
    invariant buf: fresh(newEdges) && ref(newEdges) != ref(ranged()) && (ref(newEdges) == atentry(ref(newEdges)) || freshin(newEdges))
    invariant started: (iter() == 0) == (len(newEdges) == 0)
    invariant rest: forall(m, iter(), len(ranged()), ranged()[m].Start == atentry(ranged()[m].Start) && ranged()[m].End == atentry(ranged()[m].End))
    invariant nonempty: forall(k, 0, len(newEdges), newEdges[k].Start < newEdges[k].End)
    invariant before: forall(k, 0, len(newEdges), forall(m, iter(), len(ranged()), newEdges[k].Start <= ranged()[m].Start))
    invariant ordered: forall(k, 0, len(newEdges), forall(m, k+1, len(newEdges), newEdges[k].End <= newEdges[m].Start))
    invariant union: forall(s, covers(newEdges, s) == exists(m, 0, iter(), atentry(within(ranged()[m], s))))

func common/hashslot.RemoveEdges
  property H03
  requires tab: table(src) && table(dest)
  ensures tab: table(result)
  ensures diff: forall(s, covers(result, s) == (old(covers(src, s)) && !old(covers(dest, s))))
  loop 1
    modifies elems(buf1), elems(buf2)
    invariant tab: table(src)
    invariant bufs: fresh(buf1) && fresh(buf2) && ref(buf1) != ref(buf2) && len(buf1) == 0 && len(buf2) == 0 && off(buf1) == 0 && off(buf2) == 0
    invariant alias: ref(src) != ref(ite(iter()%2 == 0, buf1, buf2))
    invariant diff: forall(s, covers(src, s) == (old(covers(src, s)) && !exists(d, 0, iter(), within(dest[d], s))))
  loop 2
    modifies elems(tmp)
    invariant alias: fresh(tmp) && ref(tmp) != ref(src) && (ref(tmp) == atentry(ref(tmp)) || freshin(tmp))
    invariant nonempty: forall(k, 0, len(tmp), tmp[k] != nil && tmp[k].Start < tmp[k].End)
    invariant before: forall(k, 0, len(tmp), forall(m, iter(), len(src), tmp[k].End <= src[m].Start))
    invariant ordered: forall(k, 0, len(tmp), forall(m, k+1, len(tmp), tmp[k].End <= tmp[m].Start))
    invariant diff: forall(s, covers(tmp, s) == (exists(m, 0, iter(), within(src[m], s)) && !within(del, s)))

uf crc32ieee(Str) Int
define slotof(s) = crc32ieee(s) % 16384

extern hash/crc32.ChecksumIEEE
  params data
  ensures value: result == crc32ieee(str(data))

func common/hashslot.CalcBytesSlot
  property H02
  ensures range: 0 <= result && result <= 16383
  ensures bytes: result == slotof(str(bt))

func common/util.IfElse
  property H03
  pure ite(cond, t, f)

// ---- declared ranges as text: "start-end", both decimal and not negative
uf isnum(Str) Bool
uf atoi(Str) Int
uf splitn(Str, Str) Int
uf splitat(Str, Str, Int) Str
define int64ok(v) = -9223372036854775808 <= v && v <= 9223372036854775807
define numtext(s) = isnum(s) && int64ok(atoi(s)) && atoi(s) >= 0
define slotstart(s) = atoi(splitat(s, "-", 0))
define slotend(s) = atoi(splitat(s, "-", 1))
define validslot(s) = splitn(s, "-") == 2 && numtext(splitat(s, "-", 0)) && numtext(splitat(s, "-", 1))
define declared(e, s, owner) = e.Start == slotstart(s) && e.End == slotend(s) && e.Value == owner

// strings.Split(a+"-"+b, "-") for decimal a, b without a sign
axiom split_range: forall(a, forall(b, implies(a >= 0 && b >= 0, splitn(itoa(a)+"-"+itoa(b), "-") == 2 &&
   splitat(itoa(a)+"-"+itoa(b), "-", 0) == itoa(a) && splitat(itoa(a)+"-"+itoa(b), "-", 1) == itoa(b))))

extern strings.Split
  ensures n: len(result) == splitn(s, sep) && splitn(s, sep) >= 0
  ensures parts: forall(i, 0, len(result), result[i] == splitat(s, sep, i))
  ensures own: fresh(result)

func common/hashslot.formatInt
  property H01
  ensures accept: (result2 == nil) == validslot(slot)
  ensures bounds: implies(result2 == nil, result0 == slotstart(slot) && result1 == slotend(slot) && result0 >= 0 && result1 >= 0)

func common/hashslot.wrapSlotsOriginal
  property H01
  ensures accept: (result1 == nil) == forall(k, 0, len(slots), validslot(slots[k]))
  ensures each: implies(result1 == nil, len(result0) == len(slots) && fresh(result0) &&
     forall(k, 0, len(slots), result0[k] != nil && fresh(result0[k]) && declared(result0[k], slots[k], identify)))
  loop 1
    modifies elems(res)
    invariant buf: fresh(res) && ref(res) == atentry(ref(res)) && len(res) == iter() && cap(res) == len(slots)
    invariant each: forall(k, 0, iter(), res[k] != nil && fresh(res[k]) && declared(res[k], slots[k], identify))
    invariant valid: forall(k, 0, iter(), validslot(slots[k]))

func common/hashslot.WrapSlotsToEdges
  property H01
  ensures table: implies(result1 == nil, table(result0) && len(result0) == len(slots))
  ensures malformed: implies(result1 == nil, forall(k, 0, len(slots), validslot(slots[k]) && slotstart(slots[k]) < slotend(slots[k])))
  ensures overlap: implies(result1 == nil, forall(k, 0, len(slots), forall(m, 0, len(slots), k == m ||
     slotend(slots[k]) <= slotstart(slots[m]) || slotend(slots[m]) <= slotstart(slots[k]))))
  ensures only: implies(result1 == nil, forall(k, 0, len(result0), exists(m, 0, len(slots), declared(result0[k], slots[m], identify))))
  ensures every: implies(result1 == nil, forall(m, 0, len(slots), exists(k, 0, len(result0), declared(result0[k], slots[m], identify))))

func (common/hashslot.EdgeList).Strings
  property H01
  requires tab: table(el) && forall(k, 0, len(el), el[k].Start >= 0)
  ensures n: len(result) == len(el)
  ensures text: forall(k, 0, len(el), result[k] == itoa(el[k].Start)+"-"+itoa(el[k].End))
  ensures back: forall(k, 0, len(el), validslot(result[k]) && slotstart(result[k]) == el[k].Start && slotend(result[k]) == el[k].End)
  loop 1
    modifies elems(str)
    invariant buf: fresh(str) && ref(str) == atentry(ref(str)) && len(str) == iter() && cap(str) == len(el)
    invariant text: forall(k, 0, iter(), str[k] == itoa(el[k].Start)+"-"+itoa(el[k].End))

func common/hashslot.WrapSlots
  property H01
  ensures table: implies(result1 == nil, goodprov(result0))
  ensures malformed: implies(result1 == nil, forallstr(o, implies(has(slotsMap, o), forall(m, 0, len(slotsMap[o]), validslot(slotsMap[o][m])))))
  ensures only: implies(result1 == nil, forall(k, 0, len(result0.edges), has(slotsMap, result0.edges[k].Value) &&
     exists(m, 0, len(slotsMap[result0.edges[k].Value]), declared(result0.edges[k], slotsMap[result0.edges[k].Value][m], result0.edges[k].Value))))
  ensures every: implies(result1 == nil, forallstr(o, implies(has(slotsMap, o), forall(m, 0, len(slotsMap[o]), exists(k, 0, len(result0.edges), declared(result0.edges[k], slotsMap[o][m], o))))))
  loop 1
    modifies elems(res)
    invariant buf: fresh(res) && (ref(res) == atentry(ref(res)) || freshin(res))
    invariant valid: forallstr(o, implies(visited(o), forall(m, 0, len(slotsMap[o]), validslot(slotsMap[o][m]))))
    invariant own: forall(k, 0, len(res), res[k] != nil && fresh(res[k]))
    invariant vis: forall(k, 0, len(res), visited(res[k].Value))
    invariant only: forallstr(o, forall(k, 0, len(res), implies(res[k].Value == o, exists(m, 0, len(slotsMap[o]), declared(res[k], slotsMap[o][m], o)))))
    invariant every: forallstr(o, implies(visited(o), forall(m, 0, len(slotsMap[o]), exists(k, 0, len(res), declared(res[k], slotsMap[o][m], o)))))

func common/hashslot.GetDataIdentify
  property H02
  requires tab: goodprov(provider)
  ensures found: implies(result1 == nil, exists(i, 0, len(provider.edges), within(provider.edges[i], slotof(str(data))) && provider.edges[i].Value == result0))
  ensures missing: (result1 != nil) == !covers(provider.edges, slotof(str(data)))

func common/hashslot.GetStringIdentify
  property H02
  requires tab: goodprov(provide)
  ensures found: implies(result1 == nil, exists(i, 0, len(provide.edges), within(provide.edges[i], slotof(str)) && provide.edges[i].Value == result0))
  ensures missing: (result1 != nil) == !covers(provide.edges, slotof(str))
