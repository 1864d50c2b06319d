package njson

// ---- handles

// live: the handle refers to a node of its document
macro live(n Node) bool = n.doc != nil && n.doc.rev == n.rev && n.id < len(n.doc.nodes)
// cell: where that node is
macro cellOf(n Node) *node = ptr(T(node), ref(n.doc.nodes), off(n.doc.nodes) + n.id)
macro typ(n Node) int = n.doc.nodes[n.id].info % 256

func (Node).get(n) returns (p)
  option pure
  ensures live(n) ==> p == cellOf(n) && p != nil
  ensures !live(n) ==> p == nil

func (*Document).get(d, id) returns (p)
  option pure
  ensures d != nil && id < len(d.nodes) ==> p == ptr(T(node), ref(d.nodes), off(d.nodes) + id) && p != nil
  ensures !(d != nil && id < len(d.nodes)) ==> p == nil

func (*Document).Node(d, id) returns (n)
  option pure
  requires d != nil
  ensures n.id == id && n.rev == d.rev && n.doc == d

func (*Document).Root(d) returns (n)
  option pure
  requires d != nil
  ensures n.id == 0 && n.rev == d.rev && n.doc == d

func (Node).ID(n) returns (id)
  option pure
  ensures id == n.id

func (Node).With(n, id) returns (r)
  option pure
  ensures r.id == id && r.rev == n.rev && r.doc == n.doc

func (Node).Document(n) returns (d)
  option pure
  ensures n.doc != nil && n.doc.rev == n.rev ==> d == n.doc
  ensures !(n.doc != nil && n.doc.rev == n.rev) ==> d == nil

func (Node).Raw(n) returns (s)
  option pure
  ensures live(n) ==> s == n.doc.nodes[n.id].raw
  ensures !live(n) ==> len(s) == 0

func (Node).Type(n) returns (t)
  option pure
  ensures live(n) ==> t == typ(n)
  ensures !live(n) ==> t == TypeInvalid

func (Node).Data(n) returns (s, t)
  option pure
  ensures live(n) ==> s == n.doc.nodes[n.id].raw && t == typ(n)
  ensures !live(n) ==> len(s) == 0 && t == TypeInvalid

func (Node).Unescaped(n) returns (s)
  ensures [C21] live(n) && typ(n) == TypeString ==> rope(s) == sUF(n.doc.nodes[n.id].raw, rempty)
  ensures !(live(n) && typ(n) == TypeString) ==> len(s) == 0

func (Node).ToFloat(n) returns (f, ok)
  ensures !live(n) ==> f_fin(f) && fval(f) == real(0) && !ok
  ensures [C19] live(n) ==> (ok <==> isNum(rope(n.doc.nodes[n.id].raw)))
  ensures [C19] live(n) && ok ==> eqv(f, RND(VAL(rope(n.doc.nodes[n.id].raw))))

func (Node).ToInt(n) returns (i, ok)
  ensures !live(n) ==> i == 0 && !ok
  ensures [C18] live(n) && plain(rope(n.doc.nodes[n.id].raw)) && inI64(ival(rope(n.doc.nodes[n.id].raw))) ==> ok && i == ival(rope(n.doc.nodes[n.id].raw))
  ensures [C18] live(n) && plain(rope(n.doc.nodes[n.id].raw)) && !inI64(ival(rope(n.doc.nodes[n.id].raw))) ==> !ok
  ensures [C18] live(n) && !isNum(rope(n.doc.nodes[n.id].raw)) ==> !ok

func (Node).ToUint(n) returns (i, ok)
  ensures !live(n) ==> i == 0 && !ok
  ensures [C18] live(n) && plain(rope(n.doc.nodes[n.id].raw)) && inU64(ival(rope(n.doc.nodes[n.id].raw))) ==> ok && i == ival(rope(n.doc.nodes[n.id].raw))
  ensures [C18] live(n) && plain(rope(n.doc.nodes[n.id].raw)) && !inU64(ival(rope(n.doc.nodes[n.id].raw))) ==> !ok
  ensures [C18] live(n) && !isNum(rope(n.doc.nodes[n.id].raw)) ==> !ok

func (Node).ToBool(n) returns (b, ok)
  ensures !live(n) ==> !b && !ok
  ensures live(n) ==> (ok <==> typ(n) == TypeBoolean && (streq(n.doc.nodes[n.id].raw, "true") || streq(n.doc.nodes[n.id].raw, "false")))
  ensures live(n) ==> (b <==> ok && streq(n.doc.nodes[n.id].raw, "true"))

func (Node).Values(n) returns (it)
  option pure
  ensures live(n) ==> it.values == n.doc.nodes[n.id].values && it.node == n
  ensures !live(n) ==> len(it.values) == 0
  ensures it.index == 0

func (Node).TypeError(n, want) returns (err)
  ensures err != nil

// ---- iteration

func (*IterV).Next(i) returns (ok)
  requires i != nil
  modifies *i
  ensures ok <==> 0 <= old(i.index) && old(i.index) < old(len(i.values))
  ensures ok ==> i.index == old(i.index) + 1 && i.id == old(i.values[i.index].id) && i.key == old(i.values[i.index].key)
  ensures !ok ==> i.index == 0 - 1 && i.id == maxUint
  ensures i.values == old(i.values) && i.node == old(i.node)

func (*IterV).Reset(i)
  requires i != nil
  modifies *i
  ensures i.index == 0 && i.values == old(i.values) && i.node == old(i.node) && i.id == maxUint

func (*IterV).Close(i)
  requires i != nil
  modifies *i
  ensures i.index == 0 - 1 && len(i.values) == 0 && i.id == maxUint && i.node.doc == nil

func (*IterV).Len(i) returns (l)
  requires i != nil
  ensures l == len(i.values)

func (*IterV).Index(i) returns (k)
  requires i != nil && 0 - 1 <= i.index
  ensures k == i.index - 1

func (*IterV).Value(i) returns (n)
  requires i != nil
  ensures n.id == i.id && n.doc == i.node.doc && n.rev == i.node.rev

func (*V).Key(v) returns (k)
  requires v != nil
  ensures k == v.key
func (*V).ID(v) returns (k)
  requires v != nil
  ensures k == v.id
