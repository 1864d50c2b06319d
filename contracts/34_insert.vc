package njson

// ---- copying values into a document

// SPB: block x is used by the slots for later nodes
function SPB(nodes []node, x int) bool
  reads node
  folded
  = exists a int :: {heapval(node, ref(nodes), a).values} off(nodes) + len(nodes) <= a && a < off(nodes) + cap(nodes) && cap(slot(ref(nodes), a)) > 0 && ref(slot(ref(nodes), a)) == x

// PROV: a slot after the nodes the document had has the members block it had, a new one or none
macro PROV(d *Document) bool = forall a int :: {heapval(node, ref(d.nodes), a)} old(len(d.nodes)) <= a && a < cap(d.nodes) && cap(slot(ref(d.nodes), a)) > 0 ==> fresh(slot(ref(d.nodes), a))
  || (a < old(cap(d.nodes)) && ref(slot(ref(d.nodes), a)) == old(ref(slot(ref(d.nodes), a))) && old(cap(slot(ref(d.nodes), a))) > 0)

// nodesFrame: no node changed but in d, and there only slots for later nodes
macro nodesFrame(d *Document) bool = (forall x int :: x != old(ref(d.nodes)) && x < old(alloc()) ==> same(node, x))
  && (forall a int :: a < old(off(d.nodes) + len(d.nodes)) || a >= old(off(d.nodes) + cap(d.nodes)) ==> cell(node, old(ref(d.nodes)), a))
macro sameArray(d *Document) bool = ref(d.nodes) == old(ref(d.nodes)) && off(d.nodes) == old(off(d.nodes)) && cap(d.nodes) == old(cap(d.nodes))
macro membersFrame(d *Document) bool = forall x int :: x < old(alloc()) && !old(SPB(d.nodes, x)) ==> same(V, x)

// spareKept: no block of members that was there comes to be used by the slots for later nodes
macro spareKept(d *Document) bool = forall x int :: {SPB(d.nodes, x)} x < old(alloc()) && SPB(d.nodes, x) ==> old(SPB(d.nodes, x))

// apart: documents d and o have their own nodes
macro apart(d *Document, o *Document) bool = o == d || cap(d.nodes) == 0 || ref(o.nodes) != ref(d.nodes)

// alone: no slot of d uses the block of members vs
macro alone(d *Document, vs []V) bool = cap(vs) == 0 || (forall a int :: {heapval(node, ref(d.nodes), a).values} off(d.nodes) <= a && a < off(d.nodes) + cap(d.nodes) && cap(slot(ref(d.nodes), a)) > 0 ==> ref(slot(ref(d.nodes), a)) != ref(vs))

func (*Document).ncopy(d, other, n) returns (id)
  option reveal SEPo
  requires d != nil && other != nil && n != nil && off(d.nodes) == 0
  requires cap(d.nodes) == 0 || ref(n) != ref(d.nodes) || pidx(n) < off(d.nodes) + len(d.nodes)
  requires apart(d, other)
  modifies d.nodes, heap node, heap V
  ensures id == old(len(d.nodes)) && id < len(d.nodes) && off(d.nodes) == 0
  ensures sameArray(d) || fresh(d.nodes)
  ensures kept(d)
  ensures nodesFrame(d)
  ensures PROV(d)
  ensures spareKept(d)
  ensures membersFrame(d)
  ensures [C05, C09, C10, C11, C12] old(SEP(d)) ==> SEP(d)
  loop rangeindex.loop
    invariant d.rev == old(d.rev) && len(d.nodes) > old(len(d.nodes)) && off(d.nodes) == 0
    invariant sameArray(d) || fresh(d.nodes)
    invariant kept(d)
    invariant nodesFrame(d)
    invariant PROV(d)
    invariant spareKept(d)
    invariant membersFrame(d)
    invariant numV <= len(values) && rangeindex < len(n.values)
    invariant cap(values) == 0 || fresh(values) || old(len(d.nodes)) < old(cap(d.nodes)) && ref(values) == old(ref(slot(ref(d.nodes), off(d.nodes) + len(d.nodes)))) && old(cap(slot(ref(d.nodes), off(d.nodes) + len(d.nodes)))) > 0
    invariant [C05, C09, C10, C11, C12] old(SEP(d)) ==> SEP(d) && alone(d, values)
    invariant cap(values) == 0 || fresh(values) || old(SPB(d.nodes, ref(values)))
    invariant cap(d.nodes[id].values) == 0

func (*Document).contains(d, id, other) returns (r)
  option pure
  ensures id == other ==> r

// orphan: the flag of values without a container
function orphan(inf int) bool
  folded
  = (inf / 512) % 2 == 1
macro has(o *Document, id int) bool = o != nil && id < len(o.nodes)
// adopted: node r, which was there, is now held by a container
macro adopted(d *Document, r int) bool = d.nodes == old(d.nodes) && r != 0 && r < len(d.nodes) && orphan(old(d.nodes[r].info))
  && d.nodes[r].info == old(d.nodes[r].info) - 512 && d.nodes[r].raw == old(d.nodes[r].raw) && d.nodes[r].values == old(d.nodes[r].values)
  && (forall x int :: x != ref(d.nodes) && x < old(alloc()) ==> same(node, x))
  && (forall a int :: a != off(d.nodes) + r ==> cell(node, ref(d.nodes), a))
  && (forall x int :: x < old(alloc()) ==> same(V, x))
// copied: a copy is at the end of d, the rest of d is as it was
macro copied(d *Document, r int) bool = r == old(len(d.nodes)) && r < len(d.nodes) && (sameArray(d) || fresh(d.nodes)) && kept(d) && nodesFrame(d) && PROV(d) && spareKept(d) && membersFrame(d)

// stepKept: the nodes d had have the text and members they had; one but node to is an orphan no more
macro infoKept(now int, was int) bool = now == was || orphan(was) && now == was - 512
macro stepKept(d *Document, to int) bool = forall a int :: {heapval(node, ref(d.nodes), a)} 0 <= a && a < old(len(d.nodes)) ==> heapval(node, ref(d.nodes), a).values == old(heapval(node, ref(d.nodes), a).values) && heapval(node, ref(d.nodes), a).raw == old(heapval(node, ref(d.nodes), a).raw)
  && (heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) || a != to && orphan(old(heapval(node, ref(d.nodes), a).info)) && heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) - 512)
lemma ORPHAN(inf int)
  requires orphan(inf)
  ensures !orphan(inf - 512)

func (*Document).copyOrAdopt(d, other, id, to) returns (r)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  requires other == nil || apart(d, other)
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures !old(has(other, id)) ==> r == maxUint && quiet() && d.nodes == old(d.nodes)
  ensures old(has(other, id)) ==> r < len(d.nodes)
  ensures old(has(other, id)) && r < old(len(d.nodes)) ==> other == d && r == id && r != to && adopted(d, r)
  ensures old(has(other, id)) && r >= old(len(d.nodes)) ==> copied(d, r)
  ensures [C10, C11] spareKept(d)
  ensures [C10, C11] to < old(len(d.nodes)) ==> stepKept(d, to)
  ensures [C05, C09, C10, C11, C12] old(SEP(d)) ==> SEP(d)

// held: how the rest of n's document is after inserting value r
macro restKept(n Node, r int) bool = let d = n.doc in forall a int :: {heapval(node, ref(d.nodes), a)} 0 <= a && a < old(len(d.nodes)) && a != n.id ==> heapval(node, ref(d.nodes), a).values == old(heapval(node, ref(d.nodes), a).values) && heapval(node, ref(d.nodes), a).raw == old(heapval(node, ref(d.nodes), a).raw)
  && (heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) || a == r && heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) - 512)

// inserts: n is a container of type t and value refers to a value
macro inserts(n Node, t int, value Node) bool = live(n) && typ(n) == t && live(value)
// inserted: how n's document is after value r is put into n: r is new or was at the top and had no container; the rest is kept
macro inserted(n Node, value Node, r int) bool = r < len(n.doc.nodes) && r != n.id
  && (r < old(len(n.doc.nodes)) ==> value.doc == n.doc && r == value.id && r != 0 && orphan(old(n.doc.nodes[r].info)) && len(n.doc.nodes) == old(len(n.doc.nodes)))
  && (r >= old(len(n.doc.nodes)) ==> r == old(len(n.doc.nodes)))
  && restKept(n, r) && header(n)
macro insFrame(n Node) bool = (forall x int :: x != old(ref(n.doc.nodes)) && x < old(alloc()) ==> same(node, x))
  && (forall x int :: x < old(alloc()) && !old(SPB(n.doc.nodes, x)) && x != old(ref(members(n))) ==> same(V, x))
// othersKept: the members of the other values of n's document
macro othersKept(n Node) bool = forall k int, a int :: {heapval(V, old(ref(n.doc.nodes[k].values)), a)} 0 <= k && k < old(len(n.doc.nodes)) && k != n.id && old(off(n.doc.nodes[k].values)) <= a && a < old(off(n.doc.nodes[k].values) + len(n.doc.nodes[k].values)) ==> cell(V, old(ref(n.doc.nodes[k].values)), a)
// membersAt: n's members at the indices from i up to j of its block are those it had at the same places
macro memberKept(n Node, a int) bool = let o = off(members(n)) in mAt(n, a) == old(heapval(V, ref(members(n)), a - o + off(members(n))))

func (Node).Set(n, key, value)
  option reveal SEPo
  requires value.doc == nil || n.doc == nil || apart(n.doc, value.doc)
  requires [C09, C11, C12] n.doc != nil ==> SEP(n.doc)
  requires n.doc != nil ==> off(n.doc.nodes) == 0
  modifies n.doc.nodes, heap node, heap V
  ensures n.doc != nil ==> off(n.doc.nodes) == 0
  ensures !old(inserts(n, TypeObject, value)) ==> quiet() && (n.doc != nil ==> n.doc.nodes == old(n.doc.nodes))
  ensures [C09, C11] old(inserts(n, TypeObject, value)) ==> insFrame(n) && othersKept(n)
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) >= 0 ==> len(members(n)) == old(len(members(n)))
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) >= 0 ==> members(n)[old(FK(members(n), key, 0))].key == old(members(n)[FK(members(n), key, 0)].key)
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) >= 0 ==> inserted(n, value, const(members(n)[old(FK(members(n), key, 0))].id))
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) >= 0 ==> (forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + len(members(n)) && a != off(members(n)) + old(FK(members(n), key, 0)) ==> memberKept(n, a))
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) < 0 ==> len(members(n)) == old(len(members(n))) + 1
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) < 0 ==> members(n)[old(len(members(n)))].key == key
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) < 0 ==> inserted(n, value, const(members(n)[old(len(members(n)))].id))
  ensures [C09] old(inserts(n, TypeObject, value)) && old(FK(members(n), key, 0)) < 0 ==> (forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + old(len(members(n))) ==> memberKept(n, a))
  ensures [C09, C11] old(inserts(n, TypeObject, value)) ==> SEP(n.doc)
  use [C09] live(n) ==> FKprop(members(n), key, 0) at entry
  assert [C09] members(n) == old(members(n)) at after copyOrAdopt
  assert [C09] !old(SPB(n.doc.nodes, ref(members(n)))) || cap(members(n)) == 0 at after copyOrAdopt
  assert [C09] forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + len(members(n)) ==> mAt(n, a) == old(mAt(n, a)) at after copyOrAdopt
  assert [C09] old(live(value)) ==> inserted(n, value, result) at after copyOrAdopt
  assert [C09] old(FK(members(n), key, 0)) >= 0 && old(live(value)) ==> members(n)[old(FK(members(n), key, 0))].id == resultof(copyOrAdopt) at return
  assert [C09] old(FK(members(n), key, 0)) < 0 && old(live(value)) ==> members(n)[old(len(members(n)))].id == resultof(copyOrAdopt) at return
  assert [C09] old(live(value)) ==> restKept(n, resultof(copyOrAdopt)) at return
  assert [C09] old(live(value)) ==> inserted(n, value, resultof(copyOrAdopt)) at return
  loop rangeindex.loop
    invariant [C09] old(FK(members(n), key, 0)) < 0 || old(FK(members(n), key, 0)) > rangeindex

macro replaces(n Node, i int, value Node) bool = inserts(n, TypeArray, value) && 0 <= i && i < len(members(n))

func (Node).Replace(n, i, value)
  option reveal SEPo
  requires value.doc == nil || n.doc == nil || apart(n.doc, value.doc)
  requires [C10, C11, C12] n.doc != nil ==> SEP(n.doc)
  requires n.doc != nil ==> off(n.doc.nodes) == 0
  modifies n.doc.nodes, heap node, heap V
  ensures n.doc != nil ==> off(n.doc.nodes) == 0
  ensures !old(replaces(n, i, value)) ==> quiet() && (n.doc != nil ==> n.doc.nodes == old(n.doc.nodes))
  ensures [C10, C11] old(replaces(n, i, value)) ==> insFrame(n) && othersKept(n)
  ensures [C10] old(replaces(n, i, value)) ==> len(members(n)) == old(len(members(n)))
  ensures [C10] old(replaces(n, i, value)) ==> inserted(n, value, const(members(n)[i].id)) && len(members(n)[i].key) == 0
  ensures [C10] old(replaces(n, i, value)) ==> (forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + len(members(n)) && a != off(members(n)) + i ==> memberKept(n, a))
  ensures [C10, C11] old(replaces(n, i, value)) ==> SEP(n.doc)
  assert [C10] members(n) == old(members(n)) at after copyOrAdopt
  assert [C10] !old(SPB(n.doc.nodes, ref(members(n)))) || cap(members(n)) == 0 at after copyOrAdopt
  assert [C10] forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + len(members(n)) ==> mAt(n, a) == old(mAt(n, a)) at after copyOrAdopt
  assert [C10] old(live(value)) ==> inserted(n, value, result) at after copyOrAdopt
  assert [C10] old(live(value)) ==> members(n)[i].id == resultof(copyOrAdopt) at return
  assert [C10] old(live(value)) ==> restKept(n, resultof(copyOrAdopt)) at return
  assert [C10] old(live(value)) ==> inserted(n, value, resultof(copyOrAdopt)) at return

// LV: how many of the first k values refer to a value
function LV(values []Node, k int) int
  reads Node, Document
  fuel1
  decreases k
  = k <= 0 ? 0 : LV(values, k - 1) + (live(values[k - 1]) ? 1 : 0)

macro appends(n Node) bool = live(n) && typ(n) == TypeArray
macro vAt(values []Node, a int) Node = heapval(Node, ref(values), a)
// settled: no handle is for a value that the appending itself will make
macro settled(n Node, values []Node) bool = forall a int :: {vAt(values, a).id} off(values) <= a && a < off(values) + len(values) && vAt(values, a).doc == n.doc && vAt(values, a).rev == n.doc.rev ==> vAt(values, a).id < len(n.doc.nodes) || vAt(values, a).id >= 1000000000000000
// valuesKept: the nodes n's document had have the text and members they had, and those taken in are not orphans any more
macro valuesKept(n Node) bool = let d = n.doc in forall a int :: {heapval(node, ref(d.nodes), a)} 0 <= a && a < old(len(d.nodes)) && a != n.id ==> heapval(node, ref(d.nodes), a).values == old(heapval(node, ref(d.nodes), a).values) && heapval(node, ref(d.nodes), a).raw == old(heapval(node, ref(d.nodes), a).raw)
  && (heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) || orphan(old(heapval(node, ref(d.nodes), a).info)) && heapval(node, ref(d.nodes), a).info == old(heapval(node, ref(d.nodes), a).info) - 512)
// appended: the member m stands for the value v
macro appended(n Node, v Node, m V) bool = len(m.key) == 0 && m.id < len(n.doc.nodes) && m.id != n.id && (m.id < old(len(n.doc.nodes)) ==> v.doc == n.doc && m.id == v.id && m.id != 0 && orphan(old(n.doc.nodes[m.id].info)))
macro allAppended(n Node, values []Node, vv []V, j int) bool = forall a int :: {vAt(values, a).id} off(values) <= a && a < off(values) + j && old(live(vAt(values, a))) ==> 0 <= old(LV(values, a - off(values))) && old(LV(values, a - off(values))) < old(LV(values, j)) && appended(n, vAt(values, a), vv[old(len(members(n))) + old(LV(values, a - off(values)))])

func (Node).Append(n, values)
  requires n.doc != nil ==> (forall a int :: {vAt(values, a).doc} off(values) <= a && a < off(values) + len(values) ==> vAt(values, a).doc == nil || apart(n.doc, vAt(values, a).doc))
  requires [C10, C11, C12] n.doc != nil ==> SEP(n.doc)
  requires n.doc != nil ==> off(n.doc.nodes) == 0
  modifies n.doc.nodes, heap node, heap V
  ensures n.doc != nil ==> off(n.doc.nodes) == 0
  ensures !old(appends(n)) ==> quiet() && (n.doc != nil ==> n.doc.nodes == old(n.doc.nodes))
  ensures [C10, C11] old(appends(n)) ==> insFrame(n) && othersKept(n)
  ensures [C10] old(appends(n)) ==> len(members(n)) >= old(len(members(n)))
  ensures [C10] old(appends(n)) ==> (forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + old(len(members(n))) ==> memberKept(n, a))
  ensures [C10] old(appends(n)) ==> valuesKept(n) && header(n)
  ensures [C10] old(appends(n) && settled(n, values)) ==> len(members(n)) == old(len(members(n))) + old(LV(values, len(values)))
  ensures [C10] old(appends(n) && settled(n, values)) ==> allAppended(n, values, members(n), len(values))
  ensures [C10, C11] old(appends(n)) ==> SEP(n.doc)
  use [C10, C11] n.doc != nil ==> reveal(old(SEP(n.doc))) at entry
  use [C10, C11] n.doc != nil ==> reveal(SEP(n.doc)) at return
  use [C10, C11] forall i int :: {orphan(i - 512)} orphan(i) ==> ORPHAN(i) at after copyOrAdopt
  assert [C10] forall a int :: {heapval(V, ref(vv), a)} off(vv) <= a && a < off(vv) + len(vv) ==> heapval(V, ref(vv), a) == prev(heapval(V, ref(vv), a)) at after copyOrAdopt
  assert [C10] old(settled(n, values)) && old(live(values[rangeindex])) ==> result < len(n.doc.nodes) && result != n.id at after copyOrAdopt
  assert [C10] old(settled(n, values)) && old(live(values[rangeindex])) && result < old(len(n.doc.nodes)) ==> old(values[rangeindex].doc) == n.doc && result == old(values[rangeindex].id) && result != 0 && orphan(old(n.doc.nodes[result].info)) at after copyOrAdopt
  assert [C10] old(settled(n, values)) ==> allAppended(n, values, vv, rangeindex) at after copyOrAdopt
  loop rangeindex.loop
    invariant (sameArray(n.doc) || fresh(n.doc.nodes)) && len(n.doc.nodes) >= old(len(n.doc.nodes)) && off(n.doc.nodes) == 0
    invariant [C10, C11] forall x int :: x != old(ref(n.doc.nodes)) && x < old(alloc()) ==> same(node, x)
    invariant [C10, C11] forall x int :: x < old(alloc()) && !old(SPB(n.doc.nodes, x)) && (x != old(ref(members(n))) || old(cap(members(n))) == 0) ==> same(V, x)
    invariant ref(vv) == old(ref(members(n))) && off(vv) == old(off(members(n))) && cap(vv) == old(cap(members(n))) || fresh(vv)
    invariant len(vv) >= old(len(members(n)))
    invariant [C10, C11] spareKept(n.doc)
    invariant [C10, C11] SEP(n.doc) && (fresh(vv) ==> alone(n.doc, vv))
    invariant [C10, C11] stepKept(n.doc, n.id)
    invariant [C10, C11] cap(vv) == 0 || !SPB(n.doc.nodes, ref(vv))
    invariant [C10, C11] old(cap(members(n))) > 0 ==> (forall a int :: a < old(off(members(n)) + len(members(n))) || a >= old(off(members(n)) + cap(members(n))) ==> cell(V, old(ref(members(n))), a))
    invariant [C10] forall a int :: {heapval(V, ref(vv), a)} off(vv) <= a && a < off(vv) + old(len(members(n))) ==> heapval(V, ref(vv), a) == old(heapval(V, ref(members(n)), a - off(vv) + off(members(n))))
    invariant [C10] old(settled(n, values)) ==> len(vv) == old(len(members(n))) + old(LV(values, rangeindex + 1))
    invariant [C10] old(settled(n, values)) ==> allAppended(n, values, vv, rangeindex + 1)
    use [C10, C11] reveal(SEP(n.doc)) at head
    assert [C10] old(settled(n, values)) ==> old(LV(values, rangeindex)) <= old(LV(values, rangeindex + 1)) && 0 <= old(LV(values, rangeindex)) at back
    assert [C10] old(settled(n, values)) && old(live(values[rangeindex])) ==> old(LV(values, rangeindex)) < old(LV(values, rangeindex + 1)) at back
    assert [C10] old(settled(n, values)) && old(live(values[rangeindex])) ==> appended(n, values[rangeindex], vv[old(len(members(n))) + old(LV(values, rangeindex))]) at back
    assert [C10] old(settled(n, values)) ==> allAppended(n, values, vv, rangeindex) at back
    assert [C10] forall a int :: {vAt(values, a).id} a == off(values) + rangeindex ==> old(LV(values, a - off(values))) == old(LV(values, rangeindex)) at back
    assert [C10] old(settled(n, values)) ==> (forall a int :: {vAt(values, a).id} a == off(values) + rangeindex && old(live(vAt(values, a))) ==> 0 <= old(LV(values, a - off(values))) && old(LV(values, a - off(values))) < old(LV(values, rangeindex + 1)) && appended(n, vAt(values, a), vv[old(len(members(n))) + old(LV(values, a - off(values)))])) at back
