package njson

// ---- deleting and slicing

macro members(n Node) []V = n.doc.nodes[n.id].values
// header: n keeps its type and text, and the block of its members
macro header(n Node) bool = n.doc.nodes[n.id].info == old(n.doc.nodes[n.id].info) && n.doc.nodes[n.id].raw == old(n.doc.nodes[n.id].raw)
macro sameBlock(n Node) bool = ref(members(n)) == old(ref(members(n))) && off(members(n)) == old(off(members(n))) && cap(members(n)) == old(cap(members(n)))
macro mAt(n Node, a int) V = heapval(V, ref(members(n)), a)

func (Node).Del(n, key)
  modifies heap node, heap V
  ensures !(live(n) && old(typ(n)) == TypeObject) ==> quiet()
  ensures [C06, C09] live(n) && old(typ(n)) == TypeObject && old(FK(members(n), key, 0)) < 0 ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && header(n) && sameBlock(n)
  ensures [C09] live(n) && old(typ(n)) == TypeObject && old(FK(members(n), key, 0)) >= 0 ==> len(members(n)) == old(len(members(n))) - 1
  ensures [C09] live(n) && old(typ(n)) == TypeObject && old(FK(members(n), key, 0)) >= 0 ==> forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + len(members(n)) && a != off(members(n)) + old(FK(members(n), key, 0)) ==> mAt(n, a) == old(mAt(n, a))
  ensures [C09] live(n) && old(typ(n)) == TypeObject && old(FK(members(n), key, 0)) >= 0 && old(FK(members(n), key, 0)) < len(members(n)) ==> members(n)[old(FK(members(n), key, 0))] == old(members(n)[len(members(n)) - 1])
  use [C06, C09] live(n) ==> FKprop(members(n), key, 0) at entry
  loop rangeindex.loop
    invariant [C06, C09] FK(members(n@1), key, 0) == FK(members(n@1), key, rangeindex + 1)

func (Node).Remove(n, i)
  modifies heap node, heap V
  ensures !(live(n) && old(typ(n)) == TypeArray && 0 <= i && i < old(len(members(n)))) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && header(n) && sameBlock(n)
  ensures live(n) && old(typ(n)) == TypeArray && 0 <= i && i < old(len(members(n))) ==> len(members(n)) == old(len(members(n))) - 1
  ensures live(n) && old(typ(n)) == TypeArray && 0 <= i && i < old(len(members(n))) ==> forall a int :: {mAt(n, a)} off(members(n)) <= a && a < off(members(n)) + i ==> mAt(n, a) == old(mAt(n, a))
  ensures live(n) && old(typ(n)) == TypeArray && 0 <= i && i < old(len(members(n))) ==> forall a int :: {mAt(n, a)} off(members(n)) + i <= a && a < off(members(n)) + len(members(n)) ==> mAt(n, a) == old(mAt(n, a + 1))

func (Node).Slice(n, i, j)
  modifies heap node
  ensures !(live(n) && old(typ(n)) == TypeArray && 0 <= i && i < j && j <= old(len(members(n)))) ==> quiet()
  ensures live(n) ==> onlyNode(n) && header(n)
  ensures live(n) && old(typ(n)) == TypeArray && 0 <= i && i < j && j <= old(len(members(n))) ==> ref(members(n)) == old(ref(members(n))) && off(members(n)) == old(off(members(n))) + i && len(members(n)) == j - i

// for handles that refer to no value
func (Node).Strip(n, key)
  requires !live(n)
  modifies heap node, heap V
  ensures quiet()
