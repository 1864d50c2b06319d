package njson

// FK: the first member from k on whose key is key, or -1
function FK(vs []V, key string, k int) int
  reads V
  fuel1
  decreases len(vs) - k
  = k < 0 || k >= len(vs) ? 0 - 1 : streq(vs[k].key, key) ? k : FK(vs, key, k + 1)

lemma FKprop(vs []V, key string, k int)
  reads V
  requires 0 <= k && k <= len(vs)
  ensures FK(vs, key, k) == 0 - 1 || k <= FK(vs, key, k) && FK(vs, key, k) < len(vs) && streq(vs[FK(vs, key, k)].key, key)
  ensures FK(vs, key, k) == 0 - 1 ==> (forall a int :: {heapval(V, ref(vs), a).key} off(vs) + k <= a && a < off(vs) + len(vs) ==> !streq(heapval(V, ref(vs), a).key, key))
  ensures FK(vs, key, k) >= 0 ==> (forall a int :: {heapval(V, ref(vs), a).key} off(vs) + k <= a && a < off(vs) + FK(vs, key, k) ==> !streq(heapval(V, ref(vs), a).key, key))
  decreases len(vs) - k
  use k < len(vs) ==> FKprop(vs, key, k + 1)

// OFS: the number that decimal digits spell, appended to acc; -1 if there are other characters
function OFS(b int, e int, p int, acc int) int
  fuel1
  decreases e - p
  = p >= e ? acc : isDig(B(b, p)) ? OFS(b, e, p + 1, 10 * acc + B(b, p) - '0') : 0 - 1

lemma OFSmono(b int, e int, p int, acc int)
  requires acc >= 0
  ensures OFS(b, e, p, acc) == 0 - 1 || OFS(b, e, p, acc) >= acc
  decreases e - p
  use p < e && isDig(B(b, p)) ==> OFSmono(b, e, p + 1, 10 * acc + B(b, p) - '0')

macro offset(key string) int = len(key) == 0 ? 0 - 1 : OFS(base(key), off(key) + len(key), off(key), 0)

// STEP: the id that one segment of a path leads to, -1 if it leads nowhere
macro stepIn(n node, key string) int
  = n.info % 256 == TypeObject ? (FK(n.values, key, 0) >= 0 ? n.values[FK(n.values, key, 0)].id : 0 - 1)
  : n.info % 256 == TypeArray ? (0 <= offset(key) && offset(key) < len(n.values) ? n.values[offset(key)].id : 0 - 1)
  : 0 - 1
function STEP(nodes []node, id int, key string) int
  reads V, node
  folded
  = id < 0 || id >= len(nodes) ? 0 - 1 : stepIn(nodes[id], key)
// LK: the id that a path leads to from its segment k on
function LK(nodes []node, id int, path []string, k int) int
  reads V, node, string
  fuel1
  decreases len(path) - k
  = id < 0 ? 0 - 1 : k < 0 || k >= len(path) ? id : LK(nodes, STEP(nodes, id, path[k]), path, k + 1)

lemma LKneg(nodes []node, id int, path []string, k int)
  reads V, node, string
  ensures id < 0 ==> LK(nodes, id, path, k) == 0 - 1

func (Node).Get(n, key) returns (r)
  ensures r.doc == n.doc && r.rev == n.rev
  ensures [C06, C09] live(n) && typ(n) == TypeObject && FK(n.doc.nodes[n.id].values, key, 0) >= 0 ==> r.id == n.doc.nodes[n.id].values[FK(n.doc.nodes[n.id].values, key, 0)].id
  ensures [C06, C09] live(n) && typ(n) == TypeObject && FK(n.doc.nodes[n.id].values, key, 0) < 0 ==> r.id == maxUint
  ensures !(live(n) && typ(n) == TypeObject) ==> r.id == maxUint
  ensures !live(n) ==> !live(r)
  use [C06, C09] live(n) ==> FKprop(n.doc.nodes[n.id].values, key, 0) at return
  loop rangeindex.loop
    invariant [C06, C09] FK(n.doc.nodes[n.id].values, key, 0) == FK(n.doc.nodes[n.id].values, key, rangeindex + 1)

func (Node).Index(n, i) returns (r)
  option pure
  ensures r.doc == n.doc && r.rev == n.rev
  ensures live(n) && typ(n) == TypeArray && 0 <= i && i < len(n.doc.nodes[n.id].values) ==> r.id == n.doc.nodes[n.id].values[i].id
  ensures !(live(n) && typ(n) == TypeArray && 0 <= i && i < len(n.doc.nodes[n.id].values)) ==> r.id == maxUint

func (*Document).lookup(d, id, path) returns (r)
  ensures [C13] d != nil ==> r == (LK(d.nodes, id, path, 0) < 0 ? maxUint : LK(d.nodes, id, path, 0))
  ensures d == nil ==> r == maxUint || r == id
  loop rangeindex.loop
    invariant [C13] d != nil ==> LK(d.nodes, old(id), path, 0) == LK(d.nodes, id, path, rangeindex + 1)
    invariant d == nil && rangeindex >= 0 ==> false
    invariant d == nil ==> id == old(id)
    use [C13] d != nil && 0 <= rangeindex + 1 && rangeindex + 1 < len(path) ==> LKneg(d.nodes, STEP(d.nodes, id, path[rangeindex + 1]), path, rangeindex + 2) at head
  loop rangeindex.loop#2
    invariant [C13] FK(n.values, key, 0) == FK(n.values, key, rangeindex + 1)
  loop rangeindex.loop#3
    invariant 0 <= i && i <= MAXLEN && (i > 0 ==> i < len(n.values))
    invariant [C13] OFS(base(key), off(key) + len(key), off(key) + rangeindex + 1, i) == OFS(base(key), off(key) + len(key), off(key), 0)
    use [C13] OFSmono(base(key), off(key) + len(key), off(key) + rangeindex + 2, 10 * i + B(base(key), off(key) + rangeindex + 1) - '0') at head

func (Node).Lookup(n, path) returns (r)
  ensures r.doc == n.doc && r.rev == n.rev
  ensures [C13] n.doc != nil && n.doc.rev == n.rev ==> r.id == (LK(n.doc.nodes, n.id, path, 0) < 0 ? maxUint : LK(n.doc.nodes, n.id, path, 0))
  ensures !(n.doc != nil && n.doc.rev == n.rev) ==> !live(r)
