package njson

// ---- conversion to values of Go
// k limits the depth that is looked at: what holds for every k holds without a limit.

macro tyAt(x int, a int) int = heapval(node, x, a).info % 256
macro rawAt(x int, a int) string = heapval(node, x, a).raw
// leafOK: a value that is no container has a Go value
macro leafOK(x int, a int) bool = tyAt(x, a) == TypeString || tyAt(x, a) == TypeNull || tyAt(x, a) == TypeBoolean && (streq(rawAt(x, a), "true") || streq(rawAt(x, a), "false")) || tyAt(x, a) == TypeNumber && isNum(rope(rawAt(x, a)))
macro vA(vs []V, a int) V = heapval(V, ref(vs), a)
macro inV(vs []V, a int) bool = off(vs) <= a && a < off(vs) + len(vs)

// CV: every value in the tree, which is no deeper than k, has a Go value; CVS: so for the members vs
function CV(nodes []node, k int, x int, a int) bool
  reads node, V
  decreases 2 * k + 1
  = k > 0 && (boxAt(x, a) && CVS(nodes, k - 1, heapval(node, x, a).values) || leafOK(x, a))
function CVS(nodes []node, k int, vs []V) bool
  reads node, V
  decreases 2 * k + 2
  = k >= 0 && (forall j int :: {vA(vs, j).id} inV(vs, j) ==> vA(vs, j).id < len(nodes) && CV(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id))

// NCV: some value in the tree, no deeper than k, has no Go value; NCVS: so for the members vs
function NCV(nodes []node, k int, x int, a int) bool
  reads node, V
  decreases 2 * k + 1
  = k > 0 && (boxAt(x, a) ? NCVS(nodes, k - 1, heapval(node, x, a).values) : !leafOK(x, a))
function NCVS(nodes []node, k int, vs []V) bool
  reads node, V
  decreases 2 * k + 2
  = k >= 0 && (exists j int :: {vA(vs, j).id} inV(vs, j) && (vA(vs, j).id >= len(nodes) || NCV(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id)))

// LASTKEY: no member after j has its key
function LASTKEY(vs []V, j int) bool
  reads V
  folded
  = forall i int :: {vA(vs, i).key} j < i && i < off(vs) + len(vs) ==> !streq(vA(vs, i).key, vA(vs, j).key)
// KEYIN: c is the cell of the key of a member
function KEYIN(m map[string]any, vs []V, c int) bool
  reads V
  folded
  = exists j int :: {vA(vs, j).key} inV(vs, j) && keycell(m, vA(vs, j).key) == c

// MIR: v mirrors the value down to depth k, in new memory from lo up to hi; MIRS, MIRM: slices and maps of the members vs
function MIR(nodes []node, k int, x int, a int, v any, lo int, hi int) bool
  reads node, V, any, []any, string, float64, map[string]any
  decreases 2 * k + 1
  = k <= 0 || (tyAt(x, a) == TypeNull ? v == nil
    : tyAt(x, a) == TypeBoolean ? is(v, bool) && (as(v, bool) ? streq(rawAt(x, a), "true") : streq(rawAt(x, a), "false"))
    : lo <= off(v) && off(v) < hi && (tyAt(x, a) == TypeString ? is(v, string) && rope(as(v, string)) == sUF(rawAt(x, a), rempty)
    : tyAt(x, a) == TypeNumber ? is(v, float64) && isNum(rope(rawAt(x, a))) && eqv(as(v, float64), RND(VAL(rope(rawAt(x, a)))))
    : tyAt(x, a) == TypeArray ? is(v, T([]any)) && len(as(v, T([]any))) == num(x, a) && lo <= ref(as(v, T([]any))) && ref(as(v, T([]any))) < hi && MIRS(nodes, k - 1, heapval(node, x, a).values, as(v, T([]any)), ref(as(v, T([]any))) + 1, hi)
    : tyAt(x, a) == TypeObject && is(v, T(map[string]any)) && MIRM(nodes, k - 1, heapval(node, x, a).values, as(v, T(map[string]any)), off(v) + 1, hi)))
function MIRS(nodes []node, k int, vs []V, s []any, lo int, hi int) bool
  reads node, V, any, []any, string, float64, map[string]any
  decreases 2 * k + 2
  = k < 0 || (forall j int :: {vA(vs, j).id} inV(vs, j) ==> vA(vs, j).id < len(nodes) && MIR(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id, heapval(any, ref(s), off(s) + j - off(vs)), lo, hi))
function MIRM(nodes []node, k int, vs []V, m map[string]any, lo int, hi int) bool
  reads node, V, any, []any, string, float64, map[string]any
  decreases 2 * k + 2
  = k < 0 || (forall j int :: {vA(vs, j).id} inV(vs, j) ==> vA(vs, j).id < len(nodes))
    && (forall j int :: {LASTKEY(vs, j)} inV(vs, j) && LASTKEY(vs, j) ==> mapat(m, keycell(m, vA(vs, j).key)).present && MIR(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id, mapat(m, keycell(m, vA(vs, j).key)).val, lo, hi))
    && (forall c int :: {mapat(m, c).present} mapat(m, c).present ==> KEYIN(m, vs, c))

// memSame: the memory from lo up to hi is as it was, and so are the nodes
macro memSame(lo int, hi int) bool = (forall x int :: lo <= x && x < hi ==> same(T(any), x)) && (forall x int :: lo <= x && x < hi ==> same(T([]any), x)) && (forall x int :: lo <= x && x < hi ==> same(string, x)) && (forall x int :: lo <= x && x < hi ==> same(float64, x)) && (forall x int :: lo <= x && x < hi ==> same(T(map[string]any), x))

lemma MIRframe(nodes []node, k int, x int, a int, v any, lo int, hi int, lo2 int, hi2 int)
  twostate
  fixed node, V
  reads node, V, any, []any, string, float64, map[string]any
  requires old(MIR(nodes, k, x, a, v, lo, hi)) && lo2 <= lo && hi <= hi2 && memSame(lo, hi)
  ensures MIR(nodes, k, x, a, v, lo2, hi2)
  decreases 2 * k + 1
  use k > 0 && tyAt(x, a) == TypeArray ==> MIRSframe(nodes, k - 1, heapval(node, x, a).values, as(v, T([]any)), ref(as(v, T([]any))) + 1, hi, ref(as(v, T([]any))) + 1, hi2)
  use k > 0 && tyAt(x, a) == TypeObject ==> MIRMframe(nodes, k - 1, heapval(node, x, a).values, as(v, T(map[string]any)), off(v) + 1, hi, off(v) + 1, hi2)
lemma MIRSframe(nodes []node, k int, vs []V, s []any, lo int, hi int, lo2 int, hi2 int)
  twostate
  fixed node, V
  reads node, V, any, []any, string, float64, map[string]any
  requires old(MIRS(nodes, k, vs, s, lo, hi)) && lo2 <= lo && hi <= hi2 && memSame(lo, hi)
  requires forall j int :: off(s) <= j && j < off(s) + len(vs) ==> cell(T(any), ref(s), j)
  ensures MIRS(nodes, k, vs, s, lo2, hi2)
  decreases 2 * k + 2
  use k >= 0 ==> (forall j int :: {vA(vs, j).id} MIRframe(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id, heapval(any, ref(s), off(s) + j - off(vs)), lo, hi, lo2, hi2))
lemma MIRMframe(nodes []node, k int, vs []V, m map[string]any, lo int, hi int, lo2 int, hi2 int)
  twostate
  fixed node, V
  reads node, V, any, []any, string, float64, map[string]any
  requires old(MIRM(nodes, k, vs, m, lo, hi)) && lo2 <= lo && hi <= hi2 && memSame(lo, hi) && same(T(map[string]any), ref(m))
  ensures MIRM(nodes, k, vs, m, lo2, hi2)
  decreases 2 * k + 2
  use k >= 0 ==> (forall j int :: {LASTKEY(vs, j)} MIRframe(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id, mapat(m, keycell(m, vA(vs, j).key)).val, lo, hi, lo2, hi2))

// memKept: memory that was there is as it was
macro memKept() bool = (forall x int :: x < old(alloc()) ==> same(T(any), x)) && (forall x int :: x < old(alloc()) ==> same(T([]any), x)) && (forall x int :: x < old(alloc()) ==> same(string, x)) && (forall x int :: x < old(alloc()) ==> same(float64, x)) && (forall x int :: x < old(alloc()) ==> same(T(map[string]any), x))

// what the conversion of a container says, from that of its members
lemma CVbox(nodes []node, k int, x int, a int)
  reads node, V
  requires boxAt(x, a) && k > 0
  ensures CV(nodes, k, x, a) <==> CVS(nodes, k - 1, heapval(node, x, a).values)
  ensures NCV(nodes, k, x, a) <==> NCVS(nodes, k - 1, heapval(node, x, a).values)
lemma CVzero(nodes []node, k int, x int, a int)
  reads node, V
  requires k <= 0
  ensures !CV(nodes, k, x, a) && !NCV(nodes, k, x, a)
lemma MIRmap(nodes []node, k int, x int, a int, v any, lo int, hi int)
  reads node, V, any, []any, string, float64, map[string]any
  requires k > 0 ==> objAt(x, a) && is(v, T(map[string]any)) && lo <= off(v) && off(v) < hi && MIRM(nodes, k - 1, heapval(node, x, a).values, as(v, T(map[string]any)), off(v) + 1, hi)
  ensures MIR(nodes, k, x, a, v, lo, hi)
lemma MIRslice(nodes []node, k int, x int, a int, v any, lo int, hi int)
  reads node, V, any, []any, string, float64, map[string]any
  requires k > 0 ==> arrAt(x, a) && is(v, T([]any)) && lo <= off(v) && off(v) < hi && len(as(v, T([]any))) == num(x, a) && lo <= ref(as(v, T([]any))) && ref(as(v, T([]any))) < hi
  requires k > 0 ==> MIRS(nodes, k - 1, heapval(node, x, a).values, as(v, T([]any)), ref(as(v, T([]any))) + 1, hi)
  ensures MIR(nodes, k, x, a, v, lo, hi)

func (*Document).toInterface(d, id) returns (v, ok)
  use [C24] forall k int :: {CV(d.nodes, k, ref(d.nodes), off(d.nodes) + id)} {NCV(d.nodes, k, ref(d.nodes), off(d.nodes) + id)} CVbox(d.nodes, k, ref(d.nodes), off(d.nodes) + id) at return
  use [C24] forall k int :: {CV(d.nodes, k, ref(d.nodes), off(d.nodes) + id)} {NCV(d.nodes, k, ref(d.nodes), off(d.nodes) + id)} CVzero(d.nodes, k, ref(d.nodes), off(d.nodes) + id) at return
  use [C24] called(toInterfaceMap) ==> (forall k int :: {MIR(d.nodes, k, ref(d.nodes), off(d.nodes) + id, v, old(alloc()), alloc())} MIRmap(d.nodes, k, ref(d.nodes), off(d.nodes) + id, v, old(alloc()), alloc())) at return
  use [C24] forall k int :: {MIR(d.nodes, k, ref(d.nodes), off(d.nodes) + id, v, old(alloc()), alloc())} since(toInterfaceSlice, MIRSframe(d.nodes, k - 1, d.nodes[id].values, resultof(toInterfaceSlice, 0), ref(resultof(toInterfaceSlice, 0)) + 1, after(toInterfaceSlice, alloc()), ref(resultof(toInterfaceSlice, 0)) + 1, alloc())) at return
  use [C24] called(toInterfaceSlice) ==> (forall k int :: {MIR(d.nodes, k, ref(d.nodes), off(d.nodes) + id, v, old(alloc()), alloc())} MIRslice(d.nodes, k, ref(d.nodes), off(d.nodes) + id, v, old(alloc()), alloc())) at return
  modifies heap any, heap []any, heap string, heap float64, heap map[string]any
  ensures memKept()
  ensures ok ==> d != nil && id < len(d.nodes)
  ensures d == nil || id >= len(d.nodes) ==> v == nil && !ok
  ensures [C24] ok ==> (let i = const(off(d.nodes) + id) in forall k int :: {MIR(d.nodes, k, ref(d.nodes), i, v, old(alloc()), alloc())} MIR(d.nodes, k, ref(d.nodes), i, v, old(alloc()), alloc()))
  ensures [C24] d != nil && id < len(d.nodes) ==> (let i = const(off(d.nodes) + id) in forall k int :: {CV(d.nodes, k, ref(d.nodes), i)} CV(d.nodes, k, ref(d.nodes), i) ==> ok)
  ensures [C24] d != nil && id < len(d.nodes) ==> (let i = const(off(d.nodes) + id) in forall k int :: {NCV(d.nodes, k, ref(d.nodes), i)} NCV(d.nodes, k, ref(d.nodes), i) ==> !ok)

lemma MIRSstep(nodes []node, k int, vs []V, n int, s []any, lo int, hi int, hi2 int)
  twostate
  fixed node, V
  reads node, V, any, []any, string, float64, map[string]any
  requires 0 <= n && n < len(vs) && hi <= hi2
  requires old(MIRS(nodes, k, sub(vs, 0, n), s, lo, hi)) && memSame(lo, hi)
  requires forall j int :: off(s) <= j && j < off(s) + n ==> cell(T(any), ref(s), j)
  requires k >= 0 ==> vA(vs, off(vs) + n).id < len(nodes) && MIR(nodes, k, ref(nodes), off(nodes) + vA(vs, off(vs) + n).id, heapval(any, ref(s), off(s) + n), lo, hi2)
  ensures MIRS(nodes, k, sub(vs, 0, n + 1), s, lo, hi2)
  use MIRSframe(nodes, k, sub(vs, 0, n), s, lo, hi, lo, hi2)

lemma NCVSstep(nodes []node, k int, vs []V, n int)
  reads node, V
  requires 0 <= n && n < len(vs) && !NCVS(nodes, k, sub(vs, 0, n)) && vA(vs, off(vs) + n).id < len(nodes)
  requires !NCV(nodes, k, ref(nodes), off(nodes) + vA(vs, off(vs) + n).id)
  ensures !NCVS(nodes, k, sub(vs, 0, n + 1))

lemma CVSmember(nodes []node, k int, vs []V, n int)
  reads node, V
  requires 0 <= n && n < len(vs) && CVS(nodes, k, vs)
  ensures vA(vs, off(vs) + n).id < len(nodes) && CV(nodes, k, ref(nodes), off(nodes) + vA(vs, off(vs) + n).id)

func (*Document).toInterfaceSlice(d, values) returns (r, ok)
  requires d != nil
  modifies heap any, heap []any, heap string, heap float64, heap map[string]any
  ensures memKept()
  ensures [C24] ok ==> len(r) == len(values) && old(alloc()) <= ref(r) && ref(r) < alloc()
  ensures [C24] ok ==> (forall k int :: {MIRS(d.nodes, k, values, r, ref(r) + 1, alloc())} MIRS(d.nodes, k, values, r, ref(r) + 1, alloc()))
  ensures [C24] forall k int :: {CVS(d.nodes, k, values)} CVS(d.nodes, k, values) ==> ok
  ensures [C24] forall k int :: {NCVS(d.nodes, k, values)} NCVS(d.nodes, k, values) ==> !ok
  use [C24] forall k int :: {CVS(d.nodes, k, values)} CVSmember(d.nodes, k, values, rangeindex) at after toInterface
  loop rangeindex.loop
    use [C24] forall k int :: {MIRS(d.nodes, k, sub(values, 0, rangeindex + 1), x, ref(x) + 1, alloc())} since(toInterface, MIRframe(d.nodes, k, ref(d.nodes), off(d.nodes) + vA(values, off(values) + rangeindex).id, heapval(any, ref(x), off(x) + rangeindex), before(toInterface, alloc()), after(toInterface, alloc()), ref(x) + 1, alloc())) at back
    use [C24] forall k int :: {MIRS(d.nodes, k, sub(values, 0, rangeindex + 1), x, ref(x) + 1, alloc())} MIRSstep(d.nodes, k, values, rangeindex, x, ref(x) + 1, prev(alloc()), alloc()) at back
    invariant memKept() && rangeindex < len(values)
    invariant len(x) == len(values) && off(x) == 0 && cap(x) == len(x) && ref(x) >= old(alloc()) && ref(x) < alloc()
    invariant [C24] forall k int :: {MIRS(d.nodes, k, sub(values, 0, rangeindex + 1), x, ref(x) + 1, alloc())} MIRS(d.nodes, k, sub(values, 0, rangeindex + 1), x, ref(x) + 1, alloc())
    use [C24] forall k int :: {NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))} NCVSstep(d.nodes, k, values, rangeindex) at back
    invariant [C24] forall k int :: {NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))} !NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))

func (Node).ToInterface(n) returns (x, ok)
  modifies heap any, heap []any, heap string, heap float64, heap map[string]any
  ensures memKept()
  ensures !live(n) ==> x == nil && !ok
  ensures [C24] live(n) && ok ==> (forall k int :: {MIR(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id, x, old(alloc()), alloc())} MIR(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id, x, old(alloc()), alloc()))
  ensures [C24] live(n) ==> (forall k int :: {CV(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)} CV(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id) ==> ok)
  ensures [C24] live(n) ==> (forall k int :: {NCV(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id)} NCV(n.doc.nodes, k, ref(n.doc.nodes), off(n.doc.nodes) + n.id) ==> !ok)

lemma MIRMstep(nodes []node, k int, vs []V, n int, m map[string]any, lo int, hi int, hi2 int)
  twostate
  fixed node, V
  reads node, V, any, []any, string, float64, map[string]any
  requires 0 <= n && n < len(vs) && hi <= hi2 && k >= 0
  requires old(MIRM(nodes, k, sub(vs, 0, n), m, lo, hi)) && memSame(lo, hi)
  requires forall c int :: c != keycell(m, vA(vs, off(vs) + n).key) ==> cell(T(map[string]any), ref(m), c)
  requires vA(vs, off(vs) + n).id < len(nodes) && mapat(m, keycell(m, vA(vs, off(vs) + n).key)).present
  requires MIR(nodes, k, ref(nodes), off(nodes) + vA(vs, off(vs) + n).id, mapat(m, keycell(m, vA(vs, off(vs) + n).key)).val, lo, hi2)
  ensures MIRM(nodes, k, sub(vs, 0, n + 1), m, lo, hi2)
  use forall j int :: {LASTKEY(sub(vs, 0, n + 1), j)} LASTstep(vs, n, j)
  use forall j int :: {LASTKEY(sub(vs, 0, n + 1), j)} MIRframe(nodes, k, ref(nodes), off(nodes) + vA(vs, j).id, mapat(m, keycell(m, vA(vs, j).key)).val, lo, hi, lo, hi2)
  use forall c int :: {KEYIN(m, sub(vs, 0, n + 1), c)} KEYINstep(m, vs, n, c)
lemma LASTstep(vs []V, n int, j int)
  reads V
  requires 0 <= n && n < len(vs) && off(vs) <= j && j < off(vs) + n && LASTKEY(sub(vs, 0, n + 1), j)
  ensures LASTKEY(sub(vs, 0, n), j) && !streq(vA(vs, off(vs) + n).key, vA(vs, j).key)
lemma KEYINstep(m map[string]any, vs []V, n int, c int)
  reads V
  requires 0 <= n && n < len(vs) && (KEYIN(m, sub(vs, 0, n), c) || c == keycell(m, vA(vs, off(vs) + n).key))
  ensures KEYIN(m, sub(vs, 0, n + 1), c)

func (*Document).toInterfaceMap(d, values) returns (r, ok)
  requires d != nil
  modifies heap any, heap []any, heap string, heap float64, heap map[string]any
  ensures memKept()
  ensures [C24] ok ==> is(r, T(map[string]any)) && old(alloc()) <= off(r) && off(r) < alloc()
  ensures [C24] ok ==> (forall k int :: {MIRM(d.nodes, k, values, as(r, T(map[string]any)), off(r) + 1, alloc())} MIRM(d.nodes, k, values, as(r, T(map[string]any)), off(r) + 1, alloc()))
  ensures [C24] forall k int :: {CVS(d.nodes, k, values)} CVS(d.nodes, k, values) ==> ok
  ensures [C24] forall k int :: {NCVS(d.nodes, k, values)} NCVS(d.nodes, k, values) ==> !ok
  use [C24] forall k int :: {CVS(d.nodes, k, values)} CVSmember(d.nodes, k, values, rangeindex) at after toInterface
  loop rangeindex.loop
    use [C24] forall k int :: {MIRM(d.nodes, k, sub(values, 0, rangeindex + 1), m, ref(m) + 1, alloc())} since(toInterface, MIRframe(d.nodes, k, ref(d.nodes), off(d.nodes) + vA(values, off(values) + rangeindex).id, mapat(m, keycell(m, vA(values, off(values) + rangeindex).key)).val, before(toInterface, alloc()), after(toInterface, alloc()), ref(m) + 1, alloc())) at back
    use [C24] forall k int :: {MIRM(d.nodes, k, sub(values, 0, rangeindex + 1), m, ref(m) + 1, alloc())} MIRMstep(d.nodes, k, values, rangeindex, m, ref(m) + 1, prev(alloc()), alloc()) at back
    use [C24] forall k int :: {NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))} NCVSstep(d.nodes, k, values, rangeindex) at back
    invariant memKept() && rangeindex < len(values)
    invariant ref(m) >= old(alloc()) && ref(m) < alloc()
    invariant [C24] forall k int :: {MIRM(d.nodes, k, sub(values, 0, rangeindex + 1), m, ref(m) + 1, alloc())} MIRM(d.nodes, k, sub(values, 0, rangeindex + 1), m, ref(m) + 1, alloc())
    invariant [C24] forall k int :: {NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))} !NCVS(d.nodes, k, sub(values, 0, rangeindex + 1))
