package strjson

// ---- C17: unescaping inverts escaping

axiom BANDlow(x int, y int, k int)
  requires 0 <= x && 0 <= y && (k == 16 || k == 256 || k == 4096) && x % k == 0 && y < k
  ensures band(x, y) == 0

// the number four hexadecimal digits spell
lemma HXval(b int, p int)
  requires isHex(B(b, p)) && isHex(B(b, p + 1)) && isHex(B(b, p + 2)) && isHex(B(b, p + 3))
  ensures hx4(b, p) == FX(B(b, p)) * 4096 + FX(B(b, p + 1)) * 256 + FX(B(b, p + 2)) * 16 + FX(B(b, p + 3))
  use FXdef(B(b, p))
  use FXdef(B(b, p + 1))
  use FXdef(B(b, p + 2))
  use FXdef(B(b, p + 3))
  use BANDlow(FX(B(b, p)) * 4096, FX(B(b, p + 1)) * 256, 4096)
  use BANDlow(FX(B(b, p)) * 4096 + FX(B(b, p + 1)) * 256, FX(B(b, p + 2)) * 16, 256)
  use BANDlow(FX(B(b, p)) * 4096 + FX(B(b, p + 1)) * 256 + FX(B(b, p + 2)) * 16, FX(B(b, p + 3)), 16)

// RAT: the byte at an offset of a text
function RAT(x rope, i int) int
axiom RATcat(x rope, y rope, i int)
  ensures RAT(rcat(x, y), i) == (i < len(x) ? RAT(x, i) : RAT(y, i - len(x)))
  trigger RAT(rcat(x, y), i)
  auto
axiom RATunit(c int, i int)
  requires i == 0
  ensures RAT(unit(c), i) == c
  trigger RAT(unit(c), i)
  auto
axiom RATs(b int, o int, l int, i int)
  requires 0 <= i && i < l
  ensures RAT(rope(str(b, o, l)), i) == B(b, o + i)
  trigger RAT(rope(str(b, o, l)), i)
  auto
axiom SNOC(b int, o int, l int)
  requires 0 <= l
  ensures rope(str(b, o, l + 1)) == cat(rope(str(b, o, l)), unit(B(b, o + l)))

// VU: the text from p to e is valid UTF-8
function VU(b int, e int, p int) bool
  fuel1
  decreases e - p
  = p >= e || (B(b, p) < 128 ? VU(b, e, p + 1) : RSZ(b, e, p) > 1 && VU(b, e, p + (RSZ(b, e, p) > 1 ? RSZ(b, e, p) : 1)))

macro EFlen(b int, e int, p int, h bool) int
  = B(b, p) >= 128 ? (badRune(RUNE(b, e, p)) ? 6 : RSZ(b, e, p))
  : B(b, p) == '"' || B(b, p) == '\\' || B(b, p) == '/' || escLetter(B(b, p)) > 0 ? 2
  : B(b, p) < 32 || B(b, p) == 127 || h && (B(b, p) == '<' || B(b, p) == '>' || B(b, p) == '&') ? 6 : 1

// One escaped character at q of the text t, which spells from q on the escaped form of b[p..e)
lemma RTstep(b int, e int, p int, h bool, tb int, te int, t0 int, q int, y rope)
  requires p < e && t0 <= q && q <= te
  requires rope(str(tb, t0, te - t0)) == rcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y)
  ensures q + EFlen(b, e, p, h) <= te
  ensures EFacc(b, e, p, h, rope(str(tb, t0, q - t0))) == rope(str(tb, t0, q + EFlen(b, e, p, h) - t0))
  ensures let n = EFlen(b, e, p, h) in forall k int :: {B(tb, k)} q <= k && k < q + n ==> B(tb, k) == RAT(EFacc(b, e, p, h, rempty), k - q)
  use SNOC(tb, t0, q + 0 - t0)
  use SNOC(tb, t0, q + 1 - t0)
  use SNOC(tb, t0, q + 2 - t0)
  use SNOC(tb, t0, q + 3 - t0)
  use SNOC(tb, t0, q + 4 - t0)
  use SNOC(tb, t0, q + 5 - t0)
  use RATs(tb, t0, te - t0, q + 0 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 0 - t0)
  use RATs(tb, t0, te - t0, q + 1 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 1 - t0)
  use RATs(tb, t0, te - t0, q + 2 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 2 - t0)
  use RATs(tb, t0, te - t0, q + 3 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 3 - t0)
  use RATs(tb, t0, te - t0, q + 4 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 4 - t0)
  use RATs(tb, t0, te - t0, q + 5 - t0)
  use RATcat(EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), y, q + 5 - t0)
  use SPLIT(rope(str(tb, t0, q - t0)), b, p, RSZ(b, e, p))
  use SPLIT(rempty, b, p, RSZ(b, e, p))
  case B(b, p) >= 128 && badRune(RUNE(b, e, p))
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 1
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 2
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 3
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 4
  case B(b, p) < 128 && EFlen(b, e, p, h) == 1
  case B(b, p) < 128 && EFlen(b, e, p, h) == 2
  case B(b, p) < 128 && EFlen(b, e, p, h) == 6

// unescaping one escaped character gives the character back
lemma RTone(b int, e int, p int, h bool, tb int, te int, q int, acc rope)
  requires 0 <= p && p < e && (B(b, p) < 128 || RSZ(b, e, p) > 1)
  requires q + EFlen(b, e, p, h) <= te
  requires let n = EFlen(b, e, p, h) in forall k int :: {B(tb, k)} q <= k && k < q + n ==> B(tb, k) == RAT(EFacc(b, e, p, h, rempty), k - q)
  ensures UF(tb, te, q, acc) == UF(tb, te, q + EFlen(b, e, p, h), SEG(acc, b, p, EFnext(b, e, p)))
  use HXval(tb, q + 2)
  use FXdef(B(tb, q + 2))
  use FXdef(B(tb, q + 3))
  use FXdef(B(tb, q + 4))
  use FXdef(B(tb, q + 5))
  use SPLIT(rempty, b, p, RSZ(b, e, p))
  use SPLIT(acc, b, p, RSZ(b, e, p))
  use SPLIT(acc, tb, q, RSZ(b, e, p))
  use B(b, p) >= 128 && !badRune(RUNE(b, e, p)) ==> UFskip(tb, te, q, q + RSZ(b, e, p), acc)
  case B(b, p) >= 128 && badRune(RUNE(b, e, p))
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 2
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 3
  case B(b, p) >= 128 && !badRune(RUNE(b, e, p)) && RSZ(b, e, p) == 4
  case B(b, p) < 128 && EFlen(b, e, p, h) == 1
  case B(b, p) < 128 && EFlen(b, e, p, h) == 2 && escLetter(B(b, p)) > 0
  case B(b, p) < 128 && EFlen(b, e, p, h) == 2 && escLetter(B(b, p)) == 0
  case B(b, p) < 128 && EFlen(b, e, p, h) == 6

lemma RT(b int, e int, p int, h bool, tb int, te int, t0 int, q int, acc rope)
  requires VU(b, e, p) && 0 <= p && p <= e && t0 <= q && q <= te
  requires EF(b, e, p, h, rope(str(tb, t0, q - t0))) == rope(str(tb, t0, te - t0))
  ensures UF(tb, te, q, acc) == SEG(acc, b, p, e)
  decreases e - p
  use p < e ==> EFcat(b, e, EFnext(b, e, p), h, EFacc(b, e, p, h, rope(str(tb, t0, q - t0))), rempty)
  use p < e ==> RTstep(b, e, p, h, tb, te, t0, q, EF(b, e, EFnext(b, e, p), h, rempty))
  use p < e ==> RTone(b, e, p, h, tb, te, q, acc)
  use p < e ==> RT(b, e, EFnext(b, e, p), h, tb, te, t0, q + EFlen(b, e, p, h), SEG(acc, b, p, EFnext(b, e, p)))
  case p >= e
  case p < e

lemma RoundTrip(b int, o int, l int, h bool, tb int, t0 int, tl int)
  requires 0 <= o && 0 <= l && 0 <= tl && VU(b, o + l, o)
  requires rope(str(tb, t0, tl)) == EF(b, o + l, o, h, rempty)
  ensures UF(tb, t0 + tl, t0, rempty) == rope(str(b, o, l))
  use RT(b, o + l, o, h, tb, t0 + tl, t0, t0, rempty)
