package njson

// ---- the tree of a text
// Items are the elements of an array (o false: t is where the element starts) or the members of an
// object (o true: t is the opening quote of the key).

// VP: where the value of an item starts
function VP(b int, e int, o bool, t int) int
  folded
  = o ? WS(b, e, SE(b, e, t + 1) + 1) + 1 : t
macro okI(b int, e int, o bool, t int) bool = 0 <= t && t < e && VP(b, e, o, t) >= t && VR(b, e, VP(b, e, o, t)) > VP(b, e, o, t)
// NR: the item after the separator at r, e if there is none
function NR(b int, e int, o bool, r int) int
  folded
  = r < e && B(b, r) == ',' ? (o ? WS(b, e, r + 1) : r + 1) : e
// NX: the item after item t
function NXI(b int, e int, o bool, t int) int
  folded
  = okI(b, e, o, t) ? NR(b, e, o, WS(b, e, VR(b, e, VP(b, e, o, t)))) : e
// FI: the first item or e, w is the first byte after the bracket and whitespace
function FI(b int, e int, o bool, w int) int
  folded
  = w < e && B(b, w) == (o ? '}' : ']') ? e : w

macro isBox(b int, q int) bool = B(b, q) == '{' || B(b, q) == '['
macro isObj(b int, q int) bool = B(b, q) == '{'
macro FI0(b int, e int, q int) int = FI(b, e, isObj(b, q), WS(b, e, q + 1))

// SZ: the number of values of the text at p; SZL: of the items from t on
function SZ(b int, e int, p int) int
  decreases e - p, 1
  = WS(b, e, p) < e && isBox(b, WS(b, e, p)) ? 1 + SZL(b, e, isObj(b, WS(b, e, p)), FI0(b, e, WS(b, e, p))) : 1
function SZL(b int, e int, o bool, t int) int
  decreases e - t, 2
  = okI(b, e, o, t) ? SZ(b, e, VP(b, e, o, t)) + SZL(b, e, o, NXI(b, e, o, t)) : 0

// CN: the number of items from t on
function CN(b int, e int, o bool, t int) int
  decreases e - t
  = okI(b, e, o, t) ? 1 + CN(b, e, o, NXI(b, e, o, t)) : 0
// IT: the item j places after t; EI: the id of its value if that of t has the given id
function IT(b int, e int, o bool, t int, j int) int
  decreases e - t
  = okI(b, e, o, t) && j > 0 ? IT(b, e, o, NXI(b, e, o, t), j - 1) : t
function EI(b int, e int, o bool, t int, id int, j int) int
  decreases e - t
  = okI(b, e, o, t) && j > 0 ? EI(b, e, o, NXI(b, e, o, t), id + SZ(b, e, VP(b, e, o, t)), j - 1) : id

// PP: the first byte of the value number a, if the value at p has number id; PPL: among the items from t on
function PP(b int, e int, p int, id int, a int) int
  decreases e - p, 1
  = a <= id ? WS(b, e, p)
  : WS(b, e, p) < e && isBox(b, WS(b, e, p)) ? PPL(b, e, isObj(b, WS(b, e, p)), FI0(b, e, WS(b, e, p)), id + 1, a) : 0 - 1
function PPL(b int, e int, o bool, t int, id int, a int) int
  decreases e - t, 2
  = okI(b, e, o, t) ? (a < id + SZ(b, e, VP(b, e, o, t)) ? PP(b, e, VP(b, e, o, t), id, a) : PPL(b, e, o, NXI(b, e, o, t), id + SZ(b, e, VP(b, e, o, t)), a)) : 0 - 1

lemma SZpos(b int, e int, p int)
  requires p >= 0
  ensures SZ(b, e, p) >= 1
  decreases e - p, 1
  use WS(b, e, p) < e ==> SZLpos(b, e, isObj(b, WS(b, e, p)), FI0(b, e, WS(b, e, p)))
  trigger SZ(b, e, p)
  auto
lemma SZLpos(b int, e int, o bool, t int)
  ensures SZL(b, e, o, t) >= 0
  decreases e - t, 2
  use okI(b, e, o, t) ==> SZpos(b, e, VP(b, e, o, t))
  use okI(b, e, o, t) ==> SZLpos(b, e, o, NXI(b, e, o, t))
  trigger SZL(b, e, o, t)
  auto

lemma CNpos(b int, e int, o bool, t int)
  ensures CN(b, e, o, t) >= 0
  decreases e - t
  use okI(b, e, o, t) ==> CNpos(b, e, o, NXI(b, e, o, t))

// the type, text and members of node a of block x are those of the value whose first byte is at q;
// the values of its members have the ids after a, in order
macro typeAt(b int, q int) int = B(b, q) == '"' ? TypeString : B(b, q) == '{' ? TypeObject : B(b, q) == '[' ? TypeArray
  : B(b, q) == 'n' ? TypeNull : B(b, q) == 't' || B(b, q) == 'f' ? TypeBoolean : TypeNumber
macro isText(s string, b int, from int, to int) bool = len(s) == to - from && (from < to ==> base(s) == b && off(s) == from)
macro keyIs(s string, b int, e int, o bool, t int) bool = o ? isText(s, b, t + 1, SE(b, e, t + 1)) : len(s) == 0
macro rawIs(s string, b int, e int, q int) bool = B(b, q) == '"' ? isText(s, b, q + 1, SE(b, e, q + 1)) : isText(s, b, q, VQ(b, e, q))
function LOCAL(x int, a int, b int, e int, q int) bool
  reads node, V
  folded
  = 0 <= q && q < e && heapval(node, x, a).info % 256 == typeAt(b, q)
  && (isBox(b, q) ? len(heapval(node, x, a).raw) == 0 && len(slot(x, a)) == CN(b, e, isObj(b, q), FI0(b, e, q))
      && (forall c int :: {heapval(V, ref(slot(x, a)), c)} off(slot(x, a)) <= c && c < off(slot(x, a)) + len(slot(x, a)) ==>
           heapval(V, ref(slot(x, a)), c).id == EI(b, e, isObj(b, q), FI0(b, e, q), a + 1, c - off(slot(x, a)))
           && keyIs(heapval(V, ref(slot(x, a)), c).key, b, e, isObj(b, q), IT(b, e, isObj(b, q), FI0(b, e, q), c - off(slot(x, a)))))
    : len(slot(x, a)) == 0 && rawIs(heapval(node, x, a).raw, b, e, q))

// treeP: the nodes from id on are those of the value at p
macro treeP(nodes []node, n int, b int, e int, p int, id int) bool = n == id + SZ(b, e, p)
  && (forall a int :: {heapval(node, ref(nodes), a)} id <= a && a < n && heapval(node, ref(nodes), a).info >= 0 ==> LOCAL(ref(nodes), a, b, e, PP(b, e, p, id, a)))
// itemsP: so far the items T0 up to t were read: the first has id i, the next gets id n
macro itemsP(nodes []node, n int, values []V, numV int, b int, e int, o bool, T0 int, i int, t int) bool =
  n + SZL(b, e, o, t) == i + SZL(b, e, o, T0)
  && numV + CN(b, e, o, t) == CN(b, e, o, T0)
  && (forall a int :: {PPL(b, e, o, T0, i, a)} a >= n ==> PPL(b, e, o, T0, i, a) == PPL(b, e, o, t, n, a))
  && (forall j int :: {EI(b, e, o, T0, i, j)} j >= numV ==> EI(b, e, o, T0, i, j) == EI(b, e, o, t, n, j - numV))
  && (forall j int :: {IT(b, e, o, T0, j)} j >= numV ==> IT(b, e, o, T0, j) == IT(b, e, o, t, j - numV))
  && (forall a int :: {heapval(node, ref(nodes), a)} i <= a && a < n && heapval(node, ref(nodes), a).info >= 0 ==> LOCAL(ref(nodes), a, b, e, PPL(b, e, o, T0, i, a)))
macro membersP(values []V, numV int, b int, e int, o bool, T0 int, i int) bool =
  forall c int :: {heapval(V, ref(values), c)} off(values) <= c && c < off(values) + numV ==>
    heapval(V, ref(values), c).id == EI(b, e, o, T0, i, c - off(values)) && keyIs(heapval(V, ref(values), c).key, b, e, o, IT(b, e, o, T0, c - off(values)))
