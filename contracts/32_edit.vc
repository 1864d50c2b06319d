package njson

// ---- frames

// quiet: no node or member of any document changed
macro quiet() bool = (forall x int :: x < old(alloc()) ==> same(V, x)) && (forall x int :: x < old(alloc()) ==> same(node, x))
// onlyNode: no node but n changed
macro onlyNode(n Node) bool = (forall x int :: x != ref(n.doc.nodes) && x < old(alloc()) ==> same(node, x))
  && (forall a int :: a != off(n.doc.nodes) + n.id ==> cell(node, ref(n.doc.nodes), a))
// onlyMembers: no member changed but those that were n's
macro onlyMembers(n Node) bool = (forall x int :: x != old(ref(n.doc.nodes[n.id].values)) && x < old(alloc()) ==> same(V, x))
  && (forall a int :: a < old(off(n.doc.nodes[n.id].values)) || a >= old(off(n.doc.nodes[n.id].values) + len(n.doc.nodes[n.id].values)) ==> cell(V, old(ref(n.doc.nodes[n.id].values)), a))
// becomes: n is now a scalar of type t
macro becomes(n Node, t int) bool = n.doc.nodes[n.id].info == old(n.doc.nodes[n.id].info) - old(n.doc.nodes[n.id].info) % 256 + t && len(n.doc.nodes[n.id].values) == 0

func (*node).reset(n, inf, raw, values)
  requires n != nil
  modifies *n, heap V
  ensures n.info == inf && n.raw == raw && n.values == values
  ensures forall x int :: (x != old(ref(n.values)) || old(len(n.values)) == 0) && x < old(alloc()) ==> same(V, x)
  ensures forall a int :: a < old(off(n.values)) || a >= old(off(n.values) + len(n.values)) ==> cell(V, old(ref(n.values)), a)
  loop rangeindex.loop
    invariant *n == old(*n)
    invariant forall x int :: (x != old(ref(n.values)) || old(len(n.values)) == 0) && x < old(alloc()) ==> same(V, x)
    invariant forall a int :: a < old(off(n.values)) || a >= old(off(n.values) + len(n.values)) ==> cell(V, old(ref(n.values)), a)

extern func strconv.FormatInt(i, base) returns (s)
  requires base == 10
  ensures plain(rope(s)) && ival(rope(s)) == i
extern func strconv.FormatUint(i, base) returns (s)
  requires base == 10
  ensures plain(rope(s)) && ival(rope(s)) == i

func (Node).SetInt(n, i)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeNumber)
  ensures [C21] live(n) ==> plain(rope(n.doc.nodes[n.id].raw)) && ival(rope(n.doc.nodes[n.id].raw)) == i

func (Node).SetUint(n, i)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeNumber)
  ensures [C21] live(n) ==> plain(rope(n.doc.nodes[n.id].raw)) && ival(rope(n.doc.nodes[n.id].raw)) == i

func (Node).SetFloat(n, f)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeNumber)
  ensures [C21] live(n) && f_fin(f) ==> isNum(rope(n.doc.nodes[n.id].raw)) && eqv(RND(VAL(rope(n.doc.nodes[n.id].raw))), f)

func (Node).SetStringRaw(n, s)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeString)
  ensures live(n) ==> n.doc.nodes[n.id].raw == s

func (Node).SetString(n, s)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeString)
  ensures [C21] live(n) ==> rope(n.doc.nodes[n.id].raw) == sEF(s, false, rempty)

func (Node).SetStringHTML(n, s)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeString)
  ensures [C21] live(n) ==> rope(n.doc.nodes[n.id].raw) == sEF(s, true, rempty)

func (Node).SetTrue(n)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeBoolean)
  ensures live(n) ==> streq(n.doc.nodes[n.id].raw, "true")

func (Node).SetFalse(n)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeBoolean)
  ensures live(n) ==> streq(n.doc.nodes[n.id].raw, "false")

func (Node).SetNull(n)
  modifies heap node, heap V
  ensures !live(n) ==> quiet()
  ensures live(n) ==> onlyNode(n) && onlyMembers(n) && becomes(n, TypeNull)
  ensures live(n) ==> streq(n.doc.nodes[n.id].raw, "null")

// ---- documents

// prov: the slot at index a of the node block x keeps the members block it had, has a new one or none
macro prov(x int, a int) bool = cap(heapval(node, x, a).values) == 0 || fresh(heapval(node, x, a).values) || ref(heapval(node, x, a).values) == old(ref(heapval(node, x, a).values))

func (*Document).grow(d) returns (n)
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node
  ensures off(d.nodes) == 0
  ensures len(d.nodes) == old(len(d.nodes)) + 1
  ensures n == ptr(T(node), ref(d.nodes), off(d.nodes) + old(len(d.nodes))) && n != nil
  ensures forall x int :: x < old(alloc()) ==> same(node, x)
  ensures old(len(d.nodes)) < old(cap(d.nodes)) ==> ref(d.nodes) == old(ref(d.nodes)) && off(d.nodes) == old(off(d.nodes)) && cap(d.nodes) == old(cap(d.nodes))
  ensures old(len(d.nodes)) >= old(cap(d.nodes)) ==> fresh(d.nodes)
  ensures kept(d)
  ensures fresh(d.nodes) ==> forall a int :: {heapval(node, ref(d.nodes), a)} off(d.nodes) + old(len(d.nodes)) <= a && a < off(d.nodes) + cap(d.nodes) ==> cap(heapval(node, ref(d.nodes), a).values) == 0

// slot: the members of the node at index a of the node block x
macro slot(x int, a int) []V = heapval(node, x, a).values
// SEP: no two nodes of a document, or slots for later nodes, use the same block for their members
function SEPo(nodes []node) bool
  reads node
  opaque
  = forall i int, j int :: {heapval(node, ref(nodes), i).values, heapval(node, ref(nodes), j).values} off(nodes) <= i && i < j && j < off(nodes) + cap(nodes) && cap(slot(ref(nodes), i)) > 0 && cap(slot(ref(nodes), j)) > 0 ==> ref(slot(ref(nodes), i)) != ref(slot(ref(nodes), j))
macro SEP(d *Document) bool = SEPo(d.nodes)
// kept: the nodes a document had are still there, with the same members
macro kept(d *Document) bool = forall a int :: {heapval(node, ref(d.nodes), a)} 0 <= a && a < old(len(d.nodes)) ==> heapval(node, ref(d.nodes), a) == old(heapval(node, ref(d.nodes), a))
macro membersKept(d *Document, k int) bool = forall a int :: {heapval(V, old(ref(d.nodes[k].values)), a)} old(off(d.nodes[k].values)) <= a && a < old(off(d.nodes[k].values) + len(d.nodes[k].values)) ==> cell(V, old(ref(d.nodes[k].values)), a)
macro allMembersKept(d *Document) bool = forall k int, a int :: {heapval(V, old(ref(d.nodes[k].values)), a)} 0 <= k && k < old(len(d.nodes)) && old(off(d.nodes[k].values)) <= a && a < old(off(d.nodes[k].values) + len(d.nodes[k].values)) ==> cell(V, old(ref(d.nodes[k].values)), a)

// added: a constructor added node n to d
macro added(d *Document, n Node, t int) bool = n.doc == d && n.rev == d.rev && n.id == old(len(d.nodes)) && d.rev == old(d.rev) && len(d.nodes) == old(len(d.nodes)) + 1
  && d.nodes[n.id].info == t + 512 && len(d.nodes[n.id].values) == 0
// addedOnly: and changed nothing else
macro addedOnly(d *Document) bool = (forall x int :: x != old(ref(d.nodes)) && x < old(alloc()) ==> same(node, x))
  && (forall a int :: a != old(off(d.nodes) + len(d.nodes)) ==> cell(node, old(ref(d.nodes)), a))
  && (forall x int :: x < old(alloc()) && (old(len(d.nodes)) >= old(cap(d.nodes)) || x != old(ref(slot(ref(d.nodes), off(d.nodes) + len(d.nodes))))) ==> same(V, x))

func (*Document).Null(d) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeNull)
  ensures streq(d.nodes[n.id].raw, "null")
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).True(d) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeBoolean)
  ensures streq(d.nodes[n.id].raw, "true")
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).False(d) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeBoolean)
  ensures streq(d.nodes[n.id].raw, "false")
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).TextRaw(d, s) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeString)
  ensures d.nodes[n.id].raw == s
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).Object(d) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeObject)
  ensures len(d.nodes[n.id].raw) == 0
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).Array(d) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeArray)
  ensures len(d.nodes[n.id].raw) == 0
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).Text(d, s) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeString)
  ensures [C21] rope(d.nodes[n.id].raw) == sEF(s, false, rempty)
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).TextHTML(d, s) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeString)
  ensures [C21] rope(d.nodes[n.id].raw) == sEF(s, true, rempty)
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

func (*Document).Number(d, f) returns (n)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  modifies d.nodes, heap node, heap V
  ensures off(d.nodes) == 0
  ensures added(d, n, TypeNumber)
  ensures [C21] f_fin(f) ==> isNum(rope(d.nodes[n.id].raw)) && eqv(RND(VAL(rope(d.nodes[n.id].raw))), f)
  ensures kept(d)
  ensures addedOnly(d)
  ensures [C05, C11] old(SEP(d)) ==> SEP(d)
  ensures old(SEP(d)) ==> allMembersKept(d)

// ---- recycling

func (*Document).Reset(d)
  requires d != nil
  modifies d.nodes, d.rev
  ensures len(d.nodes) == 0 && (old(d.rev) < maxUint ==> d.rev == old(d.rev) + 1)
  ensures ref(d.nodes) == old(ref(d.nodes)) && off(d.nodes) == old(off(d.nodes)) && cap(d.nodes) == old(cap(d.nodes))

// a pool of documents (kind 0, the zero value) holds empty documents, the pool of buffers (kind 1) holds byte slices
ghostfield sync.Pool kind int

macro blank(x any) bool = is(x, T(*Document)) && as(x, T(*Document)) != nil && len(as(x, T(*Document)).nodes) == 0 && off(as(x, T(*Document)).nodes) == 0

extern func (*sync.Pool).Get(p) returns (x)
  requires p != nil
  ensures p.kind == 0 ==> x == nil || blank(x)
  ensures p.kind != 0 ==> is(x, T([]byte)) && fresh(as(x, T([]byte)))
extern func (*sync.Pool).Put(p, x)
  requires p != nil
  requires p.kind == 0 ==> blank(x)
  requires p.kind != 0 ==> is(x, T([]byte))

func (*Pool).Get(pool) returns (d)
  requires pool != nil && pool.docs.kind == 0
  ensures d != nil && len(d.nodes) == 0 && off(d.nodes) == 0

func (*Pool).Put(pool, d)
  requires pool != nil && pool.docs.kind == 0
  requires d != nil ==> off(d.nodes) == 0
  modifies *d
  ensures d != nil ==> len(d.nodes) == 0 && off(d.nodes) == 0 && (old(d.rev) < maxUint ==> d.rev == old(d.rev) + 1)

func Blank() returns (d)
  requires defaultPool.docs.kind == 0
  ensures d != nil && len(d.nodes) == 0 && off(d.nodes) == 0

func (*Document).Close(d)
  requires defaultPool.docs.kind == 0
  requires d != nil ==> off(d.nodes) == 0
  modifies *d
  ensures d != nil ==> len(d.nodes) == 0 && off(d.nodes) == 0 && (old(d.rev) < maxUint ==> d.rev == old(d.rev) + 1)
