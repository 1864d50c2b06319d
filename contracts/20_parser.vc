package njson

extern func strings.IndexByte(s, c) returns (i)
  option pure
  ensures i >= 0 - 1 && i < len(s)
  ensures i >= 0 ==> B(base(s), off(s) + i) == c
  ensures i >= 0 ==> (forall q int :: {B(base(s), q)} off(s) <= q && q < off(s) + i ==> B(base(s), q) != c)
  ensures i < 0 ==> (forall q int :: {B(base(s), q)} off(s) <= q && q < off(s) + len(s) ==> B(base(s), q) != c)

// a parser's nodes are a slice with room for its first n nodes
macro okP(p *parser) bool = p != nil && p.n <= len(p.nodes) && off(p.nodes) == 0 && len(p.nodes) == cap(p.nodes)

// en: the position of the end of a text; at: the position of its byte k
macro en(s string) int = off(s) + len(s)
macro at(s string, k int) int = off(s) + k

macro tcode(t int) int = t == TypeAnyValue ? 0 : t == TypeNull ? 1 : t == TypeBoolean ? 2 : t == TypeArray ? 3 : t == TypeObject ? 4 : 5

// outcome: how the state of a scanner of text s at offset r mirrors the scan result x
macro outcome(err error, s string, r int, x int) bool =
  (err == nil ==> x == off(s) + r)
  && (err == nil || is(err, T(UnexpectedEOF)) || is(err, T(*ParseError)))
  && (is(err, T(UnexpectedEOF)) ==> x == 0 - 1)
  && (is(err, T(*ParseError)) ==> x == bad(off(s) + as(err, T(*ParseError)).pos, tcode(as(err, T(*ParseError)).typ)) && 0 <= as(err, T(*ParseError)).pos && as(err, T(*ParseError)).pos < len(s))

// ---- what parsing leaves alone

// SPX: block x is used by the slots from n on
function SPX(nodes []node, n int, x int) bool
  reads node
  folded
  = exists a int :: {heapval(node, ref(nodes), a).values} n <= a && a < cap(nodes) && cap(slot(ref(nodes), a)) > 0 && ref(slot(ref(nodes), a)) == x
macro keptP(p *parser) bool = forall a int :: {heapval(node, ref(p.nodes), a)} 0 <= a && a < old(p.n) ==> heapval(node, ref(p.nodes), a) == old(heapval(node, ref(p.nodes), a))
macro nodesFrameP(p *parser) bool = (forall x int :: x != old(ref(p.nodes)) && x < old(alloc()) ==> same(node, x))
  && (forall a int :: a < old(p.n) || a >= old(cap(p.nodes)) ==> cell(node, old(ref(p.nodes)), a))
macro PROVP(p *parser) bool = forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) <= a && a < cap(p.nodes) && cap(slot(ref(p.nodes), a)) > 0 ==> fresh(slot(ref(p.nodes), a))
  || (a < old(cap(p.nodes)) && ref(slot(ref(p.nodes), a)) == old(ref(slot(ref(p.nodes), a))) && old(cap(slot(ref(p.nodes), a))) > 0)
// PROVO: the same for the slots of the nodes it had
macro PROVO(p *parser) bool = forall a int :: {heapval(node, old(ref(p.nodes)), a)} old(p.n) <= a && a < old(cap(p.nodes)) && cap(slot(old(ref(p.nodes)), a)) > 0 ==> fresh(slot(old(ref(p.nodes)), a))
  || (ref(slot(old(ref(p.nodes)), a)) == old(ref(slot(ref(p.nodes), a))) && old(cap(slot(ref(p.nodes), a))) > 0)
macro spareKeptP(p *parser) bool = forall x int :: {SPX(p.nodes, p.n, x)} x < old(alloc()) && SPX(p.nodes, p.n, x) ==> old(SPX(p.nodes, p.n, x))
macro membersKeptP(p *parser) bool = forall k int, a int :: {heapval(V, old(ref(slot(ref(p.nodes), k))), a)} 0 <= k && k < old(p.n) && old(off(slot(ref(p.nodes), k))) <= a && a < old(off(slot(ref(p.nodes), k)) + len(slot(ref(p.nodes), k))) ==> cell(V, old(ref(slot(ref(p.nodes), k))), a)
macro membersFrameP(p *parser) bool = forall x int :: x < old(alloc()) && !old(SPX(p.nodes, p.n, x)) ==> same(V, x)
// aloneN: no slot uses the block of members vs
macro aloneN(nodes []node, vs []V) bool = cap(vs) == 0 || (forall a int :: {heapval(node, ref(nodes), a).values} 0 <= a && a < cap(nodes) && cap(slot(ref(nodes), a)) > 0 ==> ref(slot(ref(nodes), a)) != ref(vs))

func (*parser).node(p) returns (n)
  option reveal SEPo
  requires okP(p)
  modifies p.nodes, p.n
  ensures p.n == old(p.n) + 1 && p.n <= len(p.nodes)
  ensures n == ptr(T(node), ref(p.nodes), off(p.nodes) + old(p.n)) && n != nil
  ensures old(p.n) < old(len(p.nodes)) ==> p.nodes == old(p.nodes)
  ensures old(p.n) >= old(len(p.nodes)) ==> fresh(p.nodes) && len(p.nodes) > old(len(p.nodes))
  ensures [C03, C05, C08, C11] old(SEPo(p.nodes)) ==> SEPo(p.nodes)
  ensures okP(p)
  ensures [C03, C05, C08, C11] forall a int :: {heapval(node, ref(p.nodes), a)} 0 <= a && a < old(p.n) ==> heapval(node, ref(p.nodes), a) == old(heapval(node, ref(p.nodes), a))
  ensures [C03, C05, C08, C11] old(p.n) >= old(len(p.nodes)) ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) <= a && a < len(p.nodes) ==> cap(heapval(node, ref(p.nodes), a).values) == 0)

func appendV(values, key, id, i) returns (r)
  requires i <= len(values)
  modifies heap V
  ensures i < len(r) && len(r) >= len(values)
  ensures i < len(values) ==> r == values
  ensures i >= len(values) ==> fresh(r)
  ensures r[i].id == id && r[i].key == key
  ensures forall a int :: {heapval(V, ref(r), a)} off(r) <= a && a < off(r) + i ==> heapval(V, ref(r), a) == old(heapval(V, ref(values), a - off(r) + off(values)))
  ensures forall x int :: (x != ref(values) || i >= len(values)) && x < old(alloc()) ==> same(V, x)
  ensures forall a int :: a != off(values) + i || i >= len(values) ==> cell(V, ref(values), a)

func abort(pos, typ, got, want) returns (err)
  ensures err != nil && is(err, T(*ParseError))
  ensures [C02, C03, C04, C05, C08] as(err, T(*ParseError)) != nil && as(err, T(*ParseError)).pos == pos && as(err, T(*ParseError)).typ == typ

func (*parser).abort(p, pos, typ, got, want) returns (r)
  requires p != nil
  requires pos <= MAXLEN
  modifies p.err
  ensures p.err != nil && is(p.err, T(*ParseError)) && r == pos
  ensures [C02, C03, C04, C05, C08] as(p.err, T(*ParseError)).pos == pos && as(p.err, T(*ParseError)).typ == typ

func (*parser).eof(p, typ, pos) returns (r)
  requires p != nil
  modifies p.err
  ensures p.err != nil && is(p.err, T(UnexpectedEOF)) && r == pos

func (*parser).parseValue(p, s, pos) returns (r)
  option reveal SEPo
  requires okP(p) && p.err == nil
  requires pos <= len(s)
  requires [C03, C05, C08, C11] SEPo(p.nodes)
  modifies *p, heap node, heap V
  decreases len(s) - pos, 0
  ensures okP(p)
  ensures p.n >= old(p.n) && (p.err == nil ==> p.n > old(p.n))
  ensures p.err == nil ==> pos < r && r <= len(s)
  ensures [C02, C03, C04, C05, C08] outcome(p.err, s, r, VR(base(s), en(s), at(s, pos)))
  ensures [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
  ensures [C03, C05, C08, C11] keptP(p)
  ensures [C03, C05, C08, C11] nodesFrameP(p)
  ensures [C03, C05, C08, C11] PROVP(p)
  ensures [C03, C05, C08, C11] spareKeptP(p)
  ensures [C03, C05, C08, C11] membersFrameP(p)
  ensures [C03, C05, C08, C11] SEPo(p.nodes)
  ensures [C03, C05, C08, C11] membersKeptP(p)
  ensures [C03, C05, C08] p.err == nil ==> treeP(p.nodes, p.n, base(s), en(s), at(s, pos), old(p.n))
  ensures [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
  loop for.loop
    invariant old(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] WS(base(s), en(s), at(s, pos)) == WS(base(s), en(s), at(s, old(pos)))
  loop for.loop#2
    invariant i <= len(s)
    invariant [C02, C03, C04, C05, C08] NE(base(s), en(s), off(s) + i) == NE(base(s), en(s), off(s))
  loop for.loop#3
    invariant i >= 0
    invariant [C02, C03, C04, C05, C08] SE(base(s), en(s), off(s) + i) == SE(base(s), en(s), off(s))
    decreases len(s) + 2 - i
  use [C02, C03, C04, C05, C08] result >= 0 ==> SEjump(base(s), en(s), off(s), off(s) + result) at after IndexByte
  use [C02, C03, C04, C05, C08] result >= 0 && B(base(s), off(s) + result) == '"' && (result == 0 || B(base(s), off(s) + result - 1) != '\\') ==> SEskip(base(s), en(s), off(s), off(s) + result) at after IndexByte
  use [C02, C03, C04, C05, C08] result < 0 ==> SEnone(base(s), en(s), off(s)) at after IndexByte
  loop rangeindex.loop
    invariant [C03, C05, C08, C11] forall x int :: (x != ref(n.values) || cap(n.values) == 0) && x < old(alloc()) ==> same(V, x)

func (*parser).parseArray(p, s, pos) returns (r)
  option reveal SEPo
  requires okP(p) && p.err == nil
  requires 0 < pos && pos <= len(s)
  requires [C03, C05, C08, C11] SEPo(p.nodes)
  requires [C03, C05, C08] s[pos - 1] == '['
  modifies *p, heap node, heap V
  decreases len(s) - pos, 1
  ensures okP(p)
  ensures p.n > old(p.n)
  ensures p.err == nil ==> pos < r && r <= len(s)
  ensures [C02, C03, C04, C05, C08] outcome(p.err, s, r, AF(base(s), en(s), WS(base(s), en(s), at(s, pos))))
  ensures [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
  ensures [C03, C05, C08, C11] keptP(p)
  ensures [C03, C05, C08, C11] nodesFrameP(p)
  ensures [C03, C05, C08, C11] PROVP(p)
  ensures [C03, C05, C08, C11] spareKeptP(p)
  ensures [C03, C05, C08, C11] membersFrameP(p)
  ensures [C03, C05, C08, C11] SEPo(p.nodes)
  ensures [C03, C05, C08, C11] membersKeptP(p)
  ensures [C03, C05, C08] p.err == nil ==> treeP(p.nodes, p.n, base(s), en(s), at(s, pos) - 1, old(p.n))
  ensures [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
  assert [C03, C05, C08] p.err == nil ==> okI(base(s), en(s), false, at(s, argof(parseValue, 2))) && NXI(base(s), en(s), false, at(s, argof(parseValue, 2))) == NR(base(s), en(s), false, WS(base(s), en(s), at(s, result))) && VP(base(s), en(s), false, at(s, argof(parseValue, 2))) == at(s, argof(parseValue, 2)) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < before(parseValue, p.n) && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PPL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a))) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {PPL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a)} before(parseValue, p.n) <= a && a < p.n ==> PPL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a) == PP(base(s), en(s), at(s, argof(parseValue, 2)), before(parseValue, p.n), a)) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> WS(base(s), en(s), at(s, old(pos)) - 1) == at(s, old(pos)) - 1 && PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), old(p.n)) == at(s, old(pos)) - 1 at return
  assert [C03, C05, C08] p.err == nil ==> FI0(base(s), en(s), at(s, old(pos)) - 1) == FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))) at return
  assert [C03, C05, C08] p.err == nil ==> SZ(base(s), en(s), at(s, old(pos)) - 1) == 1 + SZL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos))))) at return
  assert [C03, C05, C08] p.err == nil ==> heapval(node, ref(p.nodes), old(p.n)).info % 256 == typeAt(base(s), at(s, old(pos)) - 1) && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0 at return
  assert [C03, C05, C08] p.err == nil ==> len(slot(ref(p.nodes), old(p.n))) == CN(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos))))) at return
  assert [C03, C05, C08] p.err == nil ==> (forall c int :: {heapval(V, ref(slot(ref(p.nodes), old(p.n))), c)} off(slot(ref(p.nodes), old(p.n))) <= c && c < off(slot(ref(p.nodes), old(p.n))) + len(slot(ref(p.nodes), old(p.n))) ==> heapval(V, ref(slot(ref(p.nodes), old(p.n))), c).id == EI(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, c - off(slot(ref(p.nodes), old(p.n)))) && keyIs(heapval(V, ref(slot(ref(p.nodes), old(p.n))), c).key, base(s), en(s), false, IT(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), c - off(slot(ref(p.nodes), old(p.n)))))) at return
  assert [C03, C05, C08] p.err == nil ==> LOCAL(ref(p.nodes), old(p.n), base(s), en(s), at(s, old(pos)) - 1) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < p.n && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PPL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a))) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a)} a > old(p.n) ==> PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a) == PPL(base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a)) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < p.n && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a))) at return
  loop for.loop
    invariant old(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] WS(base(s), en(s), at(s, pos)) == WS(base(s), en(s), at(s, old(pos)))
  loop readValue
    invariant [C03, C05, C08] itemsP(p.nodes, p.n, values, numV, base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, at(s, pos))
    invariant [C03, C05, C08] membersP(values, numV, base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1)
    invariant okP(p) && p.err == nil && p.n > old(p.n)
    invariant [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
    invariant [C03, C05, C08] heapval(node, ref(p.nodes), old(p.n)).info % 256 == TypeArray && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0
    invariant [C03, C05, C08] numV > len(n.values) || ref(values) == ref(n.values) && off(values) == off(n.values) && len(values) == cap(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] keptP(p)
    invariant [C03, C05, C08, C11] nodesFrameP(p)
    invariant [C03, C05, C08, C11] PROVP(p)
    invariant [C03, C05, C08, C11] spareKeptP(p)
    invariant [C03, C05, C08, C11] membersFrameP(p)
    invariant [C03, C05, C08, C11] SEPo(p.nodes)
    invariant [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
    invariant [C03, C05, C08, C11] slot(ref(p.nodes), old(p.n)) == n.values && n.values == entry(n.values)
    invariant [C03, C05, C08, C11] cap(n.values) == 0 || old(SPX(p.nodes, p.n, ref(n.values)))
    invariant [C03, C05, C08, C11] cap(values) == 0 || fresh(values) && aloneN(p.nodes, values) || ref(values) == ref(n.values) && off(values) == off(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] cap(values) == 0 || !SPX(p.nodes, p.n, ref(values))
    invariant numV <= len(values)
    invariant old(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] AF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == AR(base(s), en(s), at(s, pos))
    decreases len(s) - pos
  loop for.loop#2
    invariant [C03, C05, C08] itemsP(p.nodes, p.n, values, numV, base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, NR(base(s), en(s), false, WS(base(s), en(s), at(s, pos))))
    invariant [C03, C05, C08] membersP(values, numV, base(s), en(s), false, FI(base(s), en(s), false, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1)
    invariant okP(p) && p.err == nil && p.n > old(p.n)
    invariant [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
    invariant [C03, C05, C08] heapval(node, ref(p.nodes), old(p.n)).info % 256 == TypeArray && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0
    invariant [C03, C05, C08] numV > len(n.values) || ref(values) == ref(n.values) && off(values) == off(n.values) && len(values) == cap(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] keptP(p)
    invariant [C03, C05, C08, C11] nodesFrameP(p)
    invariant [C03, C05, C08, C11] PROVP(p)
    invariant [C03, C05, C08, C11] spareKeptP(p)
    invariant [C03, C05, C08, C11] membersFrameP(p)
    invariant [C03, C05, C08, C11] SEPo(p.nodes)
    invariant [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
    invariant [C03, C05, C08, C11] slot(ref(p.nodes), old(p.n)) == n.values && n.values == entry(n.values)
    invariant [C03, C05, C08, C11] cap(n.values) == 0 || old(SPX(p.nodes, p.n, ref(n.values)))
    invariant [C03, C05, C08, C11] cap(values) == 0 || fresh(values) && aloneN(p.nodes, values) || ref(values) == ref(n.values) && off(values) == off(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] cap(values) == 0 || !SPX(p.nodes, p.n, ref(values))
    invariant entry(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] AF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == AT(base(s), en(s), WS(base(s), en(s), at(s, pos)))
  loop rangeindex.loop
    invariant [C03, C05, C08, C11] forall x int :: (x != ref(n.values) || cap(n.values) == 0) && x < old(alloc()) ==> same(V, x)
  loop rangeindex.loop#2
    invariant [C03, C05, C08] forall x int :: x != ref(n.values) ==> sameE(V, x)
    invariant [C03, C05, C08] forall c int :: c < off(n.values) ==> cellE(V, ref(n.values), c)
    invariant [C03, C05, C08, C11] membersFrameP(p)

func (*parser).parseObject(p, s, pos) returns (r)
  option reveal SEPo
  requires okP(p) && p.err == nil
  requires 0 < pos && pos <= len(s)
  requires [C03, C05, C08, C11] SEPo(p.nodes)
  requires [C03, C05, C08] s[pos - 1] == '{'
  modifies *p, heap node, heap V
  decreases len(s) - pos, 1
  ensures okP(p)
  ensures p.n > old(p.n)
  ensures p.err == nil ==> pos < r && r <= len(s)
  ensures [C02, C03, C04, C05, C08] outcome(p.err, s, r, OF(base(s), en(s), WS(base(s), en(s), at(s, pos))))
  ensures [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
  ensures [C03, C05, C08, C11] keptP(p)
  ensures [C03, C05, C08, C11] nodesFrameP(p)
  ensures [C03, C05, C08, C11] PROVP(p)
  ensures [C03, C05, C08, C11] spareKeptP(p)
  ensures [C03, C05, C08, C11] membersFrameP(p)
  ensures [C03, C05, C08, C11] SEPo(p.nodes)
  ensures [C03, C05, C08, C11] membersKeptP(p)
  ensures [C03, C05, C08] p.err == nil ==> treeP(p.nodes, p.n, base(s), en(s), at(s, pos) - 1, old(p.n))
  ensures [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
  assert [C03, C05, C08] p.err == nil ==> okI(base(s), en(s), true, off(key) - 1) && NXI(base(s), en(s), true, off(key) - 1) == NR(base(s), en(s), true, WS(base(s), en(s), at(s, result))) && VP(base(s), en(s), true, off(key) - 1) == at(s, argof(parseValue, 2)) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < before(parseValue, p.n) && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PPL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a))) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {PPL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a)} before(parseValue, p.n) <= a && a < p.n ==> PPL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a) == PP(base(s), en(s), at(s, argof(parseValue, 2)), before(parseValue, p.n), a)) at after parseValue
  assert [C03, C05, C08] p.err == nil ==> WS(base(s), en(s), at(s, old(pos)) - 1) == at(s, old(pos)) - 1 && PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), old(p.n)) == at(s, old(pos)) - 1 at return
  assert [C03, C05, C08] p.err == nil ==> FI0(base(s), en(s), at(s, old(pos)) - 1) == FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))) at return
  assert [C03, C05, C08] p.err == nil ==> SZ(base(s), en(s), at(s, old(pos)) - 1) == 1 + SZL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos))))) at return
  assert [C03, C05, C08] p.err == nil ==> heapval(node, ref(p.nodes), old(p.n)).info % 256 == typeAt(base(s), at(s, old(pos)) - 1) && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0 at return
  assert [C03, C05, C08] p.err == nil ==> len(slot(ref(p.nodes), old(p.n))) == CN(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos))))) at return
  assert [C03, C05, C08] p.err == nil ==> (forall c int :: {heapval(V, ref(slot(ref(p.nodes), old(p.n))), c)} off(slot(ref(p.nodes), old(p.n))) <= c && c < off(slot(ref(p.nodes), old(p.n))) + len(slot(ref(p.nodes), old(p.n))) ==> heapval(V, ref(slot(ref(p.nodes), old(p.n))), c).id == EI(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, c - off(slot(ref(p.nodes), old(p.n)))) && keyIs(heapval(V, ref(slot(ref(p.nodes), old(p.n))), c).key, base(s), en(s), true, IT(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), c - off(slot(ref(p.nodes), old(p.n)))))) at return
  assert [C03, C05, C08] p.err == nil ==> LOCAL(ref(p.nodes), old(p.n), base(s), en(s), at(s, old(pos)) - 1) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < p.n && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PPL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a))) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a)} a > old(p.n) ==> PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a) == PPL(base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, a)) at return
  assert [C03, C05, C08] p.err == nil ==> (forall a int :: {heapval(node, ref(p.nodes), a)} old(p.n) < a && a < p.n && heapval(node, ref(p.nodes), a).info >= 0 ==> LOCAL(ref(p.nodes), a, base(s), en(s), PP(base(s), en(s), at(s, old(pos)) - 1, old(p.n), a))) at return
  loop for.loop
    invariant old(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] WS(base(s), en(s), at(s, pos)) == WS(base(s), en(s), at(s, old(pos)))
  loop readKey
    invariant [C03, C05, C08] itemsP(p.nodes, p.n, values, numV, base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, at(s, pos))
    invariant [C03, C05, C08] membersP(values, numV, base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1)
    invariant okP(p) && p.err == nil && p.n > old(p.n)
    invariant [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
    invariant [C03, C05, C08] heapval(node, ref(p.nodes), old(p.n)).info % 256 == TypeObject && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0
    invariant [C03, C05, C08] numV > len(n.values) || ref(values) == ref(n.values) && off(values) == off(n.values) && len(values) == cap(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] keptP(p)
    invariant [C03, C05, C08, C11] nodesFrameP(p)
    invariant [C03, C05, C08, C11] PROVP(p)
    invariant [C03, C05, C08, C11] spareKeptP(p)
    invariant [C03, C05, C08, C11] membersFrameP(p)
    invariant [C03, C05, C08, C11] SEPo(p.nodes)
    invariant [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
    invariant [C03, C05, C08, C11] slot(ref(p.nodes), old(p.n)) == n.values && n.values == entry(n.values)
    invariant [C03, C05, C08, C11] cap(n.values) == 0 || old(SPX(p.nodes, p.n, ref(n.values)))
    invariant [C03, C05, C08, C11] cap(values) == 0 || fresh(values) && aloneN(p.nodes, values) || ref(values) == ref(n.values) && off(values) == off(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] cap(values) == 0 || !SPX(p.nodes, p.n, ref(values))
    invariant numV <= len(values)
    invariant old(pos) <= pos && pos < len(s)
    invariant [C02, C03, C04, C05, C08] s[pos] == '"'
    invariant [C02, C03, C04, C05, C08] OF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == OR(base(s), en(s), at(s, pos))
    decreases len(s) - pos
  loop for.loop#2
    invariant i <= len(key) + 1
    invariant [C02, C03, C04, C05, C08] SE(base(s), en(s), off(key) + i) == SE(base(s), en(s), off(key))
    decreases len(key) + 2 - i
  loop for.loop#3
    invariant [C03, C05, C08] VP(base(s), en(s), true, off(key) - 1) == WS(base(s), en(s), at(s, pos)) + 1
    invariant entry(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] OF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == OC(base(s), en(s), WS(base(s), en(s), at(s, pos)))
  loop for.loop#4
    invariant [C03, C05, C08] itemsP(p.nodes, p.n, values, numV, base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1, NR(base(s), en(s), true, WS(base(s), en(s), at(s, pos))))
    invariant [C03, C05, C08] membersP(values, numV, base(s), en(s), true, FI(base(s), en(s), true, WS(base(s), en(s), at(s, old(pos)))), old(p.n) + 1)
    invariant okP(p) && p.err == nil && p.n > old(p.n)
    invariant [C03, C05, C08, C11] p.nodes == old(p.nodes) || fresh(p.nodes)
    invariant [C03, C05, C08] heapval(node, ref(p.nodes), old(p.n)).info % 256 == TypeObject && len(heapval(node, ref(p.nodes), old(p.n)).raw) == 0
    invariant [C03, C05, C08] numV > len(n.values) || ref(values) == ref(n.values) && off(values) == off(n.values) && len(values) == cap(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] keptP(p)
    invariant [C03, C05, C08, C11] nodesFrameP(p)
    invariant [C03, C05, C08, C11] PROVP(p)
    invariant [C03, C05, C08, C11] spareKeptP(p)
    invariant [C03, C05, C08, C11] membersFrameP(p)
    invariant [C03, C05, C08, C11] SEPo(p.nodes)
    invariant [C03, C05, C08, C11] PROVO(p) && SEPo(old(p.nodes))
    invariant [C03, C05, C08, C11] slot(ref(p.nodes), old(p.n)) == n.values && n.values == entry(n.values)
    invariant [C03, C05, C08, C11] cap(n.values) == 0 || old(SPX(p.nodes, p.n, ref(n.values)))
    invariant [C03, C05, C08, C11] cap(values) == 0 || fresh(values) && aloneN(p.nodes, values) || ref(values) == ref(n.values) && off(values) == off(n.values) && cap(values) == cap(n.values)
    invariant [C03, C05, C08, C11] cap(values) == 0 || !SPX(p.nodes, p.n, ref(values))
    invariant entry(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] OF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == OT(base(s), en(s), WS(base(s), en(s), at(s, pos)))
  loop for.loop#5
    invariant [C03, C05, C08] WS(base(s), en(s), at(s, pos)) == WS(base(s), en(s), at(s, entry(pos)))
    invariant entry(pos) <= pos && pos <= len(s)
    invariant [C02, C03, C04, C05, C08] OF(base(s), en(s), WS(base(s), en(s), at(s, old(pos)))) == OQ(base(s), en(s), WS(base(s), en(s), at(s, pos)))
  loop rangeindex.loop
    invariant [C03, C05, C08, C11] forall x int :: (x != ref(n.values) || cap(n.values) == 0) && x < old(alloc()) ==> same(V, x)
  loop rangeindex.loop#2
    invariant [C03, C05, C08] forall x int :: x != ref(n.values) ==> sameE(V, x)
    invariant [C03, C05, C08] forall c int :: c < off(n.values) ==> cellE(V, ref(n.values), c)
    invariant [C03, C05, C08, C11] membersFrameP(p)

func (*Document).Parse(d, s) returns (n, tail, err)
  option reveal SEPo
  requires d != nil && off(d.nodes) == 0
  requires [C03, C05, C08, C11] SEP(d)
  modifies *d, heap node, heap V
  ensures [C02, C03, C04, C05, C08] err == nil <==> VR(base(s), en(s), off(s)) >= 0
  ensures [C02, C03, C05, C08] err == nil ==> len(tail) == en(s) - VR(base(s), en(s), off(s))
  ensures [C02, C03, C05, C08] err == nil && len(tail) > 0 ==> base(tail) == base(s) && off(tail) == VR(base(s), en(s), off(s))
  ensures err == nil ==> n.doc == d && n.rev == old(d.rev) && n.id == old(len(d.nodes)) && len(d.nodes) > n.id
  ensures [C03, C05, C08] err == nil ==> treeP(d.nodes, len(d.nodes), base(s), en(s), off(s), n.id)
  ensures d.rev == old(d.rev)
  ensures err != nil ==> n.doc == nil && n.id == 0 && n.rev == 0 && d.nodes == old(d.nodes)
  ensures [C02, C03, C04, C05, C08] err == nil || is(err, T(UnexpectedEOF)) || is(err, T(*ParseError))
  ensures [C02, C04] is(err, T(UnexpectedEOF)) <==> VR(base(s), en(s), off(s)) == 0 - 1
  ensures [C02, C04] is(err, T(UnexpectedEOF)) ==> tail == s
  ensures [C02, C04] is(err, T(*ParseError)) ==> len(tail) == 0
  ensures [C02, C04] is(err, T(*ParseError)) ==> 0 <= as(err, T(*ParseError)).pos && as(err, T(*ParseError)).pos < len(s)
  ensures [C02, C04] is(err, T(*ParseError)) ==> VR(base(s), en(s), off(s)) == bad(off(s) + as(err, T(*ParseError)).pos, tcode(as(err, T(*ParseError)).typ))
  ensures off(d.nodes) == 0
  ensures [C03, C05, C08, C11] sameArray(d) || fresh(d.nodes)
  ensures [C03, C05, C08, C11] kept(d) && allMembersKept(d)
  ensures [C03, C05, C08, C11] nodesFrame(d)
  ensures [C03, C05, C08, C11] membersFrame(d)
  ensures [C03, C05, C08, C11] PROV(d)
  ensures [C03, C05, C08, C11] spareKept(d)
  ensures [C03, C05, C08, C11] SEP(d)
