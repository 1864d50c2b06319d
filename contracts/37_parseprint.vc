package njson

// ---- the compact form of a text
// CT: the value at p of the text without the whitespace between tokens, after acc; CTL: its items from t on
macro sub8(b int, from int, to int) rope = rope(str(b, from, to - from))
function CT(b int, e int, p int, acc rope) rope
  decreases e - p, 1
  = let q = WS(b, e, p) in
    (q < e && isBox(b, q) ? cat(CTL(b, e, isObj(b, q), FI0(b, e, q), false, cat(acc, unit(B(b, q)))), unit(isObj(b, q) ? '}' : ']'))
    : q < e && B(b, q) == '"' ? cat(acc, unit('"'), sub8(b, q + 1, SE(b, e, q + 1)), unit('"'))
    : cat(acc, sub8(b, q, VQ(b, e, q))))
macro CTkey(b int, e int, o bool, t int, more bool, acc rope) rope = let c = (more ? cat(acc, unit(',')) : acc) in
  (o ? cat(c, unit('"'), sub8(b, t + 1, SE(b, e, t + 1)), unit('"'), unit(':')) : c)
function CTL(b int, e int, o bool, t int, more bool, acc rope) rope
  decreases e - t, 2
  = okI(b, e, o, t) ? CTL(b, e, o, NXI(b, e, o, t), true, CT(b, e, VP(b, e, o, t), CTkey(b, e, o, t, more, acc))) : acc

// the text of the nodes of a parsed value is the compact form of the value
lemma TREETX(nodes []node, k int, b int, e int, p int, id int, acc rope)
  reads node, V
  requires off(nodes) == 0 && 0 <= p && WS(b, e, p) < e && 0 <= id && id + SZ(b, e, p) <= len(nodes) && k > e - p
  requires forall a int :: {heapval(node, ref(nodes), a)} id <= a && a < id + SZ(b, e, p) && heapval(node, ref(nodes), a).info >= 0 ==> LOCAL(ref(nodes), a, b, e, PP(b, e, p, id, a))
  ensures OK(nodes, k, ref(nodes), id)
  ensures TX(nodes, k, ref(nodes), id, acc) == CT(b, e, p, acc)
  decreases e - p, 1
  use isBox(b, WS(b, e, p)) ==> TREETM(nodes, k, b, e, WS(b, e, p), id, 0, FI0(b, e, WS(b, e, p)), id + 1, false, cat(acc, unit(B(b, WS(b, e, p)))))

lemma KEYTX(x int, id int, b int, e int, q int, j int, t int, more bool, acc rope)
  reads node, V
  requires (objAt(x, id) <==> isObj(b, q)) && (more <==> j > 0)
  requires keyIs(mem(x, id, j).key, b, e, isObj(b, q), t) && SE(b, e, t + 1) >= t + 1 || !isObj(b, q)
  ensures SP(x, id, j, acc) == CTkey(b, e, isObj(b, q), t, more, acc)

lemma TMstep(nodes []node, k int, x int, id int, j int, n int, acc rope)
  reads node, V
  requires 0 <= j && j < num(x, id) && k > 0 && off(nodes) == 0 && mem(x, id, j).id == n
  ensures TM(nodes, k, x, id, j, acc) == TM(nodes, k, x, id, j + 1, TX(nodes, k - 1, ref(nodes), n, SP(x, id, j, acc)))

lemma MEMid(x int, id int, b int, e int, q int, j int, t int, n int)
  reads node, V
  requires isBox(b, q) && LOCAL(x, id, b, e, q) && 0 <= j && okI(b, e, isObj(b, q), t)
  requires CN(b, e, isObj(b, q), FI0(b, e, q)) == j + CN(b, e, isObj(b, q), t)
  requires EI(b, e, isObj(b, q), FI0(b, e, q), id + 1, j) == n
  requires IT(b, e, isObj(b, q), FI0(b, e, q), j) == t
  ensures j < num(x, id) && mem(x, id, j).id == n && (objAt(x, id) <==> isObj(b, q)) && keyIs(mem(x, id, j).key, b, e, isObj(b, q), t)
  use CNpos(b, e, isObj(b, q), NXI(b, e, isObj(b, q), t))

lemma TREETM(nodes []node, k int, b int, e int, q int, id int, j int, t int, n int, more bool, acc rope)
  reads node, V
  requires off(nodes) == 0 && 0 <= q && q < t && isBox(b, q) && 0 <= id && id < n && n + SZL(b, e, isObj(b, q), t) <= len(nodes) && j >= 0 && k > e - q
  requires LOCAL(ref(nodes), id, b, e, q) && (more <==> j > 0)
  requires CN(b, e, isObj(b, q), FI0(b, e, q)) == j + CN(b, e, isObj(b, q), t)
  requires forall i int :: {EI(b, e, isObj(b, q), FI0(b, e, q), id + 1, i)} i >= j ==> EI(b, e, isObj(b, q), FI0(b, e, q), id + 1, i) == EI(b, e, isObj(b, q), t, n, i - j)
  requires forall i int :: {IT(b, e, isObj(b, q), FI0(b, e, q), i)} i >= j ==> IT(b, e, isObj(b, q), FI0(b, e, q), i) == IT(b, e, isObj(b, q), t, i - j)
  requires forall a int :: {heapval(node, ref(nodes), a)} n <= a && a < n + SZL(b, e, isObj(b, q), t) && heapval(node, ref(nodes), a).info >= 0 ==> LOCAL(ref(nodes), a, b, e, PPL(b, e, isObj(b, q), t, n, a))
  ensures OKM(nodes, k, ref(nodes), id, j)
  ensures TM(nodes, k, ref(nodes), id, j, acc) == CTL(b, e, isObj(b, q), t, more, acc)
  decreases e - t, 2
  case !okI(b, e, isObj(b, q), t)
  case okI(b, e, isObj(b, q), t) && isObj(b, q)
  case okI(b, e, isObj(b, q), t) && !isObj(b, q)
  use okI(b, e, isObj(b, q), t) ==> MEMid(ref(nodes), id, b, e, q, j, t, n)
  use okI(b, e, isObj(b, q), t) ==> TMstep(nodes, k, ref(nodes), id, j, n, acc)
  use okI(b, e, isObj(b, q), t) ==> KEYTX(ref(nodes), id, b, e, q, j, t, more, acc)
  use okI(b, e, isObj(b, q), t) ==> TREETX(nodes, k - 1, b, e, VP(b, e, isObj(b, q), t), n, CTkey(b, e, isObj(b, q), t, more, acc))
  use okI(b, e, isObj(b, q), t) ==> TREETM(nodes, k, b, e, q, id, j + 1, NXI(b, e, isObj(b, q), t), n + SZ(b, e, VP(b, e, isObj(b, q), t)), true, CT(b, e, VP(b, e, isObj(b, q), t), CTkey(b, e, isObj(b, q), t, more, acc)))

// a parsed value serialises to the compact form of its text
lemma PARSEPRINT(nodes []node, b int, e int, p int, id int, acc rope)
  reads node, V
  requires off(nodes) == 0 && 0 <= p && VR(b, e, p) > p && 0 <= id && treeP(nodes, len(nodes), b, e, p, id)
  ensures forall k int :: {OK(nodes, k, ref(nodes), id)} k > e - p ==> OK(nodes, k, ref(nodes), id) && TX(nodes, k, ref(nodes), id, acc) == CT(b, e, p, acc)
  use forall k int :: {OK(nodes, k, ref(nodes), id)} k > e - p ==> TREETX(nodes, k, b, e, p, id, acc)
