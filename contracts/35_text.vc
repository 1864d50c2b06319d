package njson

// ---- the compact text of a value
// A value is the node at index a of block x; values it contains are nodes of the document with the given nodes.
// k limits the depth that is looked at: what holds for every k holds without a limit.

macro objAt(x int, a int) bool = heapval(node, x, a).info % 256 == TypeObject
macro arrAt(x int, a int) bool = heapval(node, x, a).info % 256 == TypeArray
macro boxAt(x int, a int) bool = objAt(x, a) || arrAt(x, a)
macro mem(x int, a int, j int) V = heapval(node, x, a).values[j]

// OK: no value within the node is deeper than k, and every member refers to a value; OKM: so for its members from j on
macro num(x int, a int) int = len(heapval(node, x, a).values)
macro atId(nodes []node, x int, a int, j int) int = off(nodes) + mem(x, a, j).id
function OK(nodes []node, k int, x int, a int) bool
  reads node, V
  decreases 2 * k + 1, 0
  = k > 0 && (boxAt(x, a) ==> OKM(nodes, k, x, a, 0))
function OKM(nodes []node, k int, x int, a int, j int) bool
  reads node, V
  decreases 2 * k, num(x, a) - j
  = j < 0 || j >= num(x, a) || mem(x, a, j).id < len(nodes) && k > 1 && OK(nodes, k - 1, ref(nodes), atId(nodes, x, a, j)) && OKM(nodes, k, x, a, j + 1)

// BAD: a member at a depth less than k refers to no value; BADM: so for the members from j on
function BAD(nodes []node, k int, x int, a int) bool
  reads node, V
  decreases 2 * k + 1, 0
  = k > 0 && boxAt(x, a) && BADM(nodes, k, x, a, 0)
function BADM(nodes []node, k int, x int, a int, j int) bool
  reads node, V
  decreases 2 * k, num(x, a) - j
  = 0 <= j && j < num(x, a) && (mem(x, a, j).id >= len(nodes) || k > 1 && BAD(nodes, k - 1, ref(nodes), atId(nodes, x, a, j)) || BADM(nodes, k, x, a, j + 1))

// TX: the text of a value, appended to acc; TM: that of its members from j on
function TX(nodes []node, k int, x int, a int, acc rope) rope
  reads node, V
  decreases 2 * k + 1, 0
  = k <= 0 ? acc
  : objAt(x, a) ? cat(TM(nodes, k, x, a, 0, cat(acc, unit('{'))), unit('}'))
  : arrAt(x, a) ? cat(TM(nodes, k, x, a, 0, cat(acc, unit('['))), unit(']'))
  : heapval(node, x, a).info % 256 == TypeString ? cat(acc, unit('"'), rope(heapval(node, x, a).raw), unit('"'))
  : cat(acc, rope(heapval(node, x, a).raw))
// SP: what precedes member j: a comma unless it is the first, and its key
macro SP(x int, a int, j int, acc rope) rope = let c = (j > 0 ? cat(acc, unit(',')) : acc) in (objAt(x, a) ? cat(c, unit('"'), rope(mem(x, a, j).key), unit('"'), unit(':')) : c)
function TM(nodes []node, k int, x int, a int, j int, acc rope) rope
  reads node, V
  decreases 2 * k, num(x, a) - j
  = k <= 0 || j < 0 || j >= num(x, a) ? acc : TM(nodes, k, x, a, j + 1, TX(nodes, k - 1, ref(nodes), atId(nodes, x, a, j), SP(x, a, j, acc)))

// the text is appended: what was before it does not matter
lemma TXcat(nodes []node, k int, x int, a int, y rope, acc rope)
  reads node, V
  ensures TX(nodes, k, x, a, rcat(y, acc)) == rcat(y, TX(nodes, k, x, a, acc))
  decreases 2 * k + 1, 0
  use forall u rope, v rope, w rope :: {rcat(u, rcat(v, w))} RASSOC(u, v, w)
  use k > 0 ==> TMcat(nodes, k, x, a, 0, y, cat(acc, unit('{')))
  use k > 0 ==> TMcat(nodes, k, x, a, 0, y, cat(acc, unit('[')))
lemma TMcat(nodes []node, k int, x int, a int, j int, y rope, acc rope)
  reads node, V
  requires j >= 0 && k > 0
  ensures TM(nodes, k, x, a, j, rcat(y, acc)) == rcat(y, TM(nodes, k, x, a, j, acc))
  decreases 2 * k, num(x, a) - j
  use forall u rope, v rope, w rope :: {rcat(u, rcat(v, w))} RASSOC(u, v, w)
  use j < num(x, a) ==> TXcat(nodes, k - 1, ref(nodes), atId(nodes, x, a, j), y, SP(x, a, j, acc))
  use j < num(x, a) ==> TMcat(nodes, k, x, a, j + 1, y, TX(nodes, k - 1, ref(nodes), atId(nodes, x, a, j), SP(x, a, j, acc)))

func (*Document).appendJSON(d, dst, n) returns (r, err)
  requires n != nil ==> d != nil
  modifies heap uint8
  ensures n == nil ==> err != nil
  ensures [C07, C08, C26] n != nil && err == nil ==> (forall k int :: {OK(d.nodes, k, ref(n), pidx(n))} OK(d.nodes, k, ref(n), pidx(n)) ==> rope(r) == TX(d.nodes, k, ref(n), pidx(n), old(rope(dst))))
  ensures [C07, C08, C26] n != nil ==> (forall k int :: {OK(d.nodes, k, ref(n), pidx(n))} OK(d.nodes, k, ref(n), pidx(n)) ==> err == nil)
  ensures [C07, C08, C26] n != nil ==> (forall k int :: {BAD(d.nodes, k, ref(n), pidx(n))} BAD(d.nodes, k, ref(n), pidx(n)) ==> err != nil)
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i)
  ensures len(r) >= len(dst)
  assert [C07, C08, C26] forall k int :: {OK(d.nodes, k, ref(n), pidx(n))} OK(d.nodes, k, ref(n), pidx(n)) ==> mem(ref(n), pidx(n), rangeindex).id < len(d.nodes) && OK(d.nodes, k - 1, ref(d.nodes), atId(d.nodes, ref(n), pidx(n), rangeindex)) at after appendJSON
  assert [C07, C08, C26] forall k int :: {BAD(d.nodes, k, ref(n), pidx(n))} BAD(d.nodes, k, ref(n), pidx(n)) && k > 1 && resultof(appendJSON, 1) == nil ==> !BAD(d.nodes, k - 1, ref(d.nodes), atId(d.nodes, ref(n), pidx(n), rangeindex)) at after appendJSON
  loop rangeindex.loop
    invariant len(dst) >= old(len(dst))
    invariant ref(dst) == old(ref(dst)) && off(dst) == old(off(dst)) && cap(dst) == old(cap(dst)) || fresh(dst)
    invariant forall x int :: x != old(ref(dst)) && x < old(alloc()) ==> same(uint8, x)
    invariant forall i int :: i < old(off(dst) + len(dst)) || i >= old(off(dst) + cap(dst)) ==> cell(uint8, old(ref(dst)), i)
    invariant [C07, C08, C26] forall k int :: {OK(d.nodes, k, ref(n), pidx(n))} OK(d.nodes, k, ref(n), pidx(n)) ==> OKM(d.nodes, k, ref(n), pidx(n), rangeindex + 1) && TX(d.nodes, k, ref(n), pidx(n), old(rope(dst))) == cat(TM(d.nodes, k, ref(n), pidx(n), rangeindex + 1, rope(dst)), unit('}'))
    invariant [C07, C08, C26] forall k int :: {BAD(d.nodes, k, ref(n), pidx(n))} BAD(d.nodes, k, ref(n), pidx(n)) ==> BADM(d.nodes, k, ref(n), pidx(n), rangeindex + 1)
  loop rangeindex.loop#2
    invariant len(dst) >= old(len(dst))
    invariant ref(dst) == old(ref(dst)) && off(dst) == old(off(dst)) && cap(dst) == old(cap(dst)) || fresh(dst)
    invariant forall x int :: x != old(ref(dst)) && x < old(alloc()) ==> same(uint8, x)
    invariant forall i int :: i < old(off(dst) + len(dst)) || i >= old(off(dst) + cap(dst)) ==> cell(uint8, old(ref(dst)), i)
    invariant [C07, C08, C26] forall k int :: {OK(d.nodes, k, ref(n), pidx(n))} OK(d.nodes, k, ref(n), pidx(n)) ==> OKM(d.nodes, k, ref(n), pidx(n), rangeindex + 1) && TX(d.nodes, k, ref(n), pidx(n), old(rope(dst))) == cat(TM(d.nodes, k, ref(n), pidx(n), rangeindex + 1, rope(dst)), unit(']'))
    invariant [C07, C08, C26] forall k int :: {BAD(d.nodes, k, ref(n), pidx(n))} BAD(d.nodes, k, ref(n), pidx(n)) ==> BADM(d.nodes, k, ref(n), pidx(n), rangeindex + 1)

// textOf: b is exactly the text of the value that the handle n refers to
macro textOf(n Node, b []byte, was rope) bool = forall k int :: {OK(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)} OK(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id) ==> rope(b) == TX(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id, was)
macro whole(n Node) bool = exists k int :: {OK(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)} OK(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)
macro broken(n Node) bool = exists k int :: {BAD(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)} BAD(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)

func (Node).AppendJSON(n, dst) returns (r, err)
  modifies heap uint8
  ensures !live(n) ==> err != nil && len(r) == 0
  ensures [C07, C08, C26] live(n) && err == nil ==> textOf(n, r, old(rope(dst)))
  ensures [C07, C08, C26] live(n) && whole(n) ==> err == nil
  ensures [C07, C08, C26] live(n) && broken(n) ==> err != nil
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r) || !live(n)
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i)

func (*Document).AppendJSON(d, dst) returns (r, err)
  modifies heap uint8
  ensures d == nil || len(d.nodes) == 0 ==> err != nil
  ensures [C07, C08, C26] d != nil && len(d.nodes) > 0 && err == nil ==> (forall k int :: {OK(d.nodes, k, ref(d.nodes), off(d.nodes))} OK(d.nodes, k, ref(d.nodes), off(d.nodes)) ==> rope(r) == TX(d.nodes, k, ref(d.nodes), off(d.nodes), old(rope(dst))))
  ensures [C07, C08, C26] d != nil && len(d.nodes) > 0 ==> (forall k int :: {OK(d.nodes, k, ref(d.nodes), off(d.nodes))} OK(d.nodes, k, ref(d.nodes), off(d.nodes)) ==> err == nil)
  ensures [C07, C08, C26] d != nil && len(d.nodes) > 0 ==> (forall k int :: {BAD(d.nodes, k, ref(d.nodes), off(d.nodes))} BAD(d.nodes, k, ref(d.nodes), off(d.nodes)) ==> err != nil)
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i)

// ---- adapters; foreign code is assumed to change no document
extern func (io.Writer).Write(w, p) returns (n, err)
extern func (json.Unmarshaler).UnmarshalJSON(u, data) returns (err)
extern func (encoding.TextUnmarshaler).UnmarshalText(u, data) returns (err)
extern func (njson.Appender).AppendJSON(a, dst) returns (r, err)
  modifies heap uint8
  ensures [C28] err == nil ==> some(rope(r), old(rope(dst)))

func PrintJSON(w, a) returns (n, err)
  inline
  requires w != nil && a != nil && bufferpool != nil && bufferpool.kind == 1
  modifies heap uint8
  assert [C26] calls(Write) <= 1 && calls(AppendJSON) == 1 at return
  assert [C26] (calls(Write) == 1) == (resultof(AppendJSON, 1) == nil) at return
  assert [C26] resultof(AppendJSON, 1) != nil ==> err == resultof(AppendJSON, 1) at return
  assert [C26] argof(Write, 0) == w && argof(Write, 1) == resultof(AppendJSON, 0) at return
  assert [C26] n == resultof(Write, 0) && err == resultof(Write, 1) at return

func (Node).PrintJSON(n, w) returns (c, err)
  requires w != nil && bufferpool != nil && bufferpool.kind == 1
  modifies heap uint8
  ensures !live(n) ==> err != nil
  assert [C26] calls(Write) <= 1 at return
  assert [C26] live(n) && whole(n) ==> calls(Write) == 1 at return
  assert [C26] !live(n) || broken(n) ==> calls(Write) == 0 && err != nil at return
  assert [C26] calls(Write) == 0 ==> err != nil at return
  assert [C26] argof(Write, 0) == w && before(Write, textOf(n, argof(Write, 1), rempty)) at return
  assert [C26] c == resultof(Write, 0) && err == resultof(Write, 1) at return

func (Node).WrapUnmarshalJSON(n, u) returns (err)
  requires u != nil && bufferpool != nil && bufferpool.kind == 1
  modifies heap uint8
  ensures !live(n) ==> err != nil
  assert [C26] calls(UnmarshalJSON) <= 1 at return
  assert [C26] live(n) && typ(n) != TypeInvalid && whole(n) ==> calls(UnmarshalJSON) == 1 at return
  assert [C26] !live(n) || typ(n) == TypeInvalid || broken(n) ==> calls(UnmarshalJSON) == 0 && err != nil at return
  assert [C26] calls(UnmarshalJSON) == 0 ==> err != nil at return
  assert [C26] argof(UnmarshalJSON, 0) == u && before(UnmarshalJSON, textOf(n, argof(UnmarshalJSON, 1), rempty)) at return
  assert [C26] err == resultof(UnmarshalJSON) at return

func (Node).WrapUnmarshalText(n, u) returns (err)
  requires u != nil && bufferpool != nil && bufferpool.kind == 1
  modifies heap uint8
  ensures !live(n) ==> err != nil
  assert [C26] calls(UnmarshalText) == (live(n) && typ(n) == TypeString ? 1 : 0) at return
  assert [C26] calls(UnmarshalText) == 0 ==> err != nil at return
  assert [C26] argof(UnmarshalText, 0) == u && before(UnmarshalText, rope(argof(UnmarshalText, 1)) == sUF(n.doc.nodes[n.id].raw, rempty)) at return
  assert [C26] err == resultof(UnmarshalText) at return
