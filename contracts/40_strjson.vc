package strjson

// ---- UTF-8, as the unicode/utf8 package defines it
// RUNE and RSZ: the rune at p and its size in text that ends at e, by utf8.DecodeRuneInString
function RUNE(b int, e int, p int) int
function RSZ(b int, e int, p int) int
// ENC: the UTF-8 form of a code point
function ENC(r int) rope
// DEC16: the code point of a surrogate pair, U+FFFD if it is none
function DEC16(r1 int, r2 int) int

axiom RUNEprop(b int, e int, p int)
  requires p < e
  ensures 1 <= RSZ(b, e, p) && RSZ(b, e, p) <= 4 && p + RSZ(b, e, p) <= e
  ensures 0 <= RUNE(b, e, p) && RUNE(b, e, p) <= 1114111
  ensures B(b, p) < 128 ==> RUNE(b, e, p) == B(b, p) && RSZ(b, e, p) == 1
  ensures RSZ(b, e, p) == 1 && B(b, p) >= 128 ==> RUNE(b, e, p) == 65533
  ensures RSZ(b, e, p) > 1 ==> B(b, p) >= 128 && B(b, p + 1) >= 128 && ENC(RUNE(b, e, p)) == rope(str(b, p, RSZ(b, e, p)))
  ensures RSZ(b, e, p) > 2 ==> B(b, p + 2) >= 128
  ensures RSZ(b, e, p) > 3 ==> B(b, p + 3) >= 128
  trigger RUNE(b, e, p)
  trigger RSZ(b, e, p)
  auto

axiom ENCprop(r int)
  ensures 1 <= len(ENC(r)) && len(ENC(r)) <= 4
  ensures 0 <= r && r < 65536 ==> len(ENC(r)) <= 3
  trigger ENC(r)
  auto

axiom DEC16prop(a int, b int)
  ensures 0 <= DEC16(a, b) && DEC16(a, b) <= 1114111
  trigger DEC16(a, b)
  auto

macro isSurr(r int) bool = 55296 <= r && r < 57344

extern func utf8.DecodeRuneInString(s) returns (r, size)
  option pure
  ensures len(s) == 0 ==> r == 65533 && size == 0
  ensures len(s) > 0 ==> r == RUNE(base(s), off(s) + len(s), off(s)) && size == RSZ(base(s), off(s) + len(s), off(s))

extern func utf8.EncodeRune(p, r) returns (n)
  requires len(p) >= len(ENC(r))
  modifies heap uint8
  ensures n == len(ENC(r))
  ensures rope(sub(p, 0, n)) == ENC(r)
  ensures forall x int :: x != ref(p) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(p) || i >= off(p) + n ==> cell(uint8, ref(p), i)
  ensures forall a int, c int :: {arope(inner(uint8, ref(p)), a, c)} a <= off(p) && a + c == off(p) + n ==> arope(inner(uint8, ref(p)), a, c) == cat(old(arope(inner(uint8, ref(p)), a, off(p) - a)), ENC(r))
  ensures forall a int, c int :: {arope(inner(uint8, ref(p)), a, c)} a + c <= off(p) || off(p) + n <= a ==> arope(inner(uint8, ref(p)), a, c) == old(arope(inner(uint8, ref(p)), a, c))

extern func utf16.IsSurrogate(r) returns (b)
  option pure
  ensures b <==> isSurr(r)

extern func utf16.DecodeRune(r1, r2) returns (r)
  option pure
  ensures r == DEC16(r1, r2)

// ---- strings.Builder: its content is a ghost text
ghostfield strings.Builder c rope

extern func (*strings.Builder).Grow(b, n)
  requires n >= 0
extern func (*strings.Builder).WriteByte(b, c) returns (err)
  modifies b.c
  ensures b.c == cat(old(b.c), unit(c)) && err == nil
extern func (*strings.Builder).WriteRune(b, r) returns (n, err)
  modifies b.c
  ensures b.c == cat(old(b.c), ENC(r)) && err == nil
extern func (*strings.Builder).WriteString(b, s) returns (n, err)
  modifies b.c
  ensures b.c == cat(old(b.c), rope(s)) && err == nil
extern func (*strings.Builder).Write(b, s) returns (n, err)
  modifies b.c
  ensures b.c == cat(old(b.c), rope(s)) && err == nil
extern func (*strings.Builder).String(b) returns (s)
  ensures rope(s) == b.c

// ---- escaping

macro hexd(x int) int = x < 10 ? 48 + x : 87 + x

// EK: what happens to the byte or rune at p when it is escaped:
// 0 kept, 1 rune kept, 2 rune escaped, 3 \u00XX, 4 backslash and the byte, 5 backslash and a letter
macro escLetter(c int) int = c == 8 ? 'b' : c == 9 ? 't' : c == 10 ? 'n' : c == 12 ? 'f' : c == 13 ? 'r' : 0
macro badRune(r int) bool = r == 65533 || r == 8232 || r == 8233

// EF appends the escaped form of the text from p to e to acc, one character (EFacc) at a time.
macro EFnext(b int, e int, p int) int = B(b, p) >= 128 && RSZ(b, e, p) > 0 ? p + RSZ(b, e, p) : p + 1
macro EFacc(b int, e int, p int, h bool, acc rope) rope
  = B(b, p) >= 128 ? (badRune(RUNE(b, e, p))
      ? cat(acc, unit('\\'), unit('u'), unit(hexd(RUNE(b, e, p) / 4096 % 16)), unit(hexd(RUNE(b, e, p) / 256 % 16)), unit(hexd(RUNE(b, e, p) / 16 % 16)), unit(hexd(RUNE(b, e, p) % 16)))
      : cat(acc, rope(str(b, p, RSZ(b, e, p)))))
  : B(b, p) == '"' || B(b, p) == '\\' || B(b, p) == '/' ? cat(acc, unit('\\'), unit(B(b, p)))
  : escLetter(B(b, p)) > 0 ? cat(acc, unit('\\'), unit(escLetter(B(b, p))))
  : B(b, p) < 32 || B(b, p) == 127 || h && (B(b, p) == '<' || B(b, p) == '>' || B(b, p) == '&')
    ? cat(acc, unit('\\'), unit('u'), unit('0'), unit('0'), unit(hexd(B(b, p) / 16)), unit(hexd(B(b, p) % 16)))
  : cat(acc, unit(B(b, p)))
function EF(b int, e int, p int, h bool, acc rope) rope
  fuel1
  decreases e - p
  = p >= e ? acc : EF(b, e, EFnext(b, e, p), h, EFacc(b, e, p, h, acc))

macro sEF(s string, h bool, acc rope) rope = EF(base(s), off(s) + len(s), off(s), h, acc)
macro eEF(s string, i int, h bool, acc rope) rope = EF(base(s), off(s) + len(s), off(s) + i, h, acc)

func Escaped(s, h, q) returns (r)
  ensures [C14, C15, C17, C21] rope(r) == (q ? cat(sEF(s, h, unit('"')), unit('"')) : sEF(s, h, rempty))
  ensures [C14] !q ==> ST(rope(r)) == 0 && (h ==> NH(rope(r)))
  ensures [C14] ST(sEF(s, h, rempty)) == 0 && (h ==> NH(sEF(s, h, rempty)))
  ensures [C15] q ==> rope(r) == cat(unit('"'), rcat(sEF(s, h, rempty), unit('"')))
  use [C14] EFbody(base(s), off(s) + len(s), off(s), h, rempty) at return
  use [C14] EFhtml(base(s), off(s) + len(s), off(s), rempty) at return
  use [C14] STempty() at return
  use [C14] NHempty() at return
  use [C15] EFcat(base(s), off(s) + len(s), off(s), h, unit('"'), rempty) at return
  use [C15] RASSOC(unit('"'), sEF(s, h, rempty), unit('"')) at return
  loop escape
    invariant i <= len(s)
    invariant [C14, C15, C17, C21] eEF(s, i, HTML, b.c) == sEF(s, HTML, quoted ? unit('"') : rempty)
    decreases len(s) - i
  loop for.loop
    invariant i <= len(s) && pos <= i && entry(i) <= i
    invariant [C14, C15, C17, C21] eEF(s, i, HTML, SEG(b.c, base(s), off(s) + pos, off(s) + i)) == sEF(s, HTML, quoted ? unit('"') : rempty)
    decreases len(s) - i

func AppendEscaped(dst, s, h) returns (r)
  modifies heap uint8
  ensures [C14, C15, C17, C21, C28] rope(r) == sEF(s, h, old(rope(dst)))
  ensures [C14] old(ST(rope(dst))) == 0 ==> ST(rope(r)) == 0
  ensures [C15, C28] rope(r) == rcat(old(rope(dst)), sEF(s, h, rempty))
  use [C14] EFbody(base(s), off(s) + len(s), off(s), h, old(rope(dst))) at return
  use [C15, C28] EFcat(base(s), off(s) + len(s), off(s), h, old(rope(dst)), rempty) at return
  ensures len(r) >= len(dst)
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r) || len(r) == 0
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i)
  loop escape
    invariant i <= len(s)
    invariant [C14, C15, C17, C21, C28] eEF(s, i, HTML, rope(dst)) == sEF(s, HTML, old(rope(dst)))
    invariant len(dst) >= old(len(dst))
    invariant ref(dst) == old(ref(dst)) && off(dst) == old(off(dst)) && cap(dst) == old(cap(dst)) || fresh(dst)
    invariant forall x int :: x != old(ref(dst)) && x < old(alloc()) ==> same(uint8, x)
    invariant forall k int :: k < old(off(dst) + len(dst)) || k >= old(off(dst) + cap(dst)) ==> cell(uint8, old(ref(dst)), k)
    decreases len(s) - i
  loop for.loop
    invariant i <= len(s) && pos <= i && entry(i) <= i
    invariant [C14, C15, C17, C21, C28] eEF(s, i, HTML, SEG(rope(dst), base(s), off(s) + pos, off(s) + i)) == sEF(s, HTML, old(rope(dst)))
    decreases len(s) - i

// ---- C14: the escaped text is the body of a JSON string

// ST: the state of a reader of string bodies after a text: 0 between characters,
// 1 after a backslash, 2 to 5 inside the digits of \u, -1 after something that is not allowed.
function ST(x rope) int
macro isHex(c int) bool = '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
macro isEsc(c int) bool = c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'
macro dST(s int, c int) int = s == 0 ? (c == '\\' ? 1 : c < 32 || c == '"' ? -1 : 0)
  : s == 1 ? (isEsc(c) ? 0 : c == 'u' ? 2 : -1)
  : 2 <= s && s <= 5 ? (isHex(c) ? (s == 5 ? 0 : s + 1) : -1) : -1
axiom STempty()
  ensures ST(rempty) == 0
axiom STunit(x rope, c int)
  ensures ST(cat(x, unit(c))) == dST(ST(x), c)
  trigger ST(cat(x, unit(c)))
  auto

// NH: a text without <, > and &
function NH(x rope) bool
axiom NHempty()
  ensures NH(rempty)
axiom NHunit(x rope, c int)
  ensures NH(cat(x, unit(c))) <==> NH(x) && c != '<' && c != '>' && c != '&'
  trigger NH(cat(x, unit(c)))
  auto

axiom SPLIT(x rope, b int, p int, n int)
  requires 1 <= n && n <= 4
  ensures n == 1 ==> cat(x, rope(str(b, p, n))) == cat(x, unit(B(b, p)))
  ensures n == 2 ==> cat(x, rope(str(b, p, n))) == cat(x, unit(B(b, p)), unit(B(b, p + 1)))
  ensures n == 3 ==> cat(x, rope(str(b, p, n))) == cat(x, unit(B(b, p)), unit(B(b, p + 1)), unit(B(b, p + 2)))
  ensures n == 4 ==> cat(x, rope(str(b, p, n))) == cat(x, unit(B(b, p)), unit(B(b, p + 1)), unit(B(b, p + 2)), unit(B(b, p + 3)))

axiom RASSOC(x rope, y rope, z rope)
  ensures rcat(x, rcat(y, z)) == rcat(rcat(x, y), z)

lemma EFbody(b int, e int, p int, h bool, acc rope)
  requires ST(acc) == 0
  ensures ST(EF(b, e, p, h, acc)) == 0
  decreases e - p
  use SPLIT(acc, b, p, RSZ(b, e, p))
  use p < e ==> EFbody(b, e, EFnext(b, e, p), h, EFacc(b, e, p, h, acc))

lemma EFhtml(b int, e int, p int, acc rope)
  requires NH(acc)
  ensures NH(EF(b, e, p, true, acc))
  decreases e - p
  use SPLIT(acc, b, p, RSZ(b, e, p))
  use p < e ==> EFhtml(b, e, EFnext(b, e, p), EFacc(b, e, p, true, acc))

lemma EFcat(b int, e int, p int, h bool, x rope, acc rope)
  ensures EF(b, e, p, h, rcat(x, acc)) == rcat(x, EF(b, e, p, h, acc))
  decreases e - p
  use forall u rope, v rope, w rope :: {rcat(u, rcat(v, w))} RASSOC(u, v, w)
  use p < e ==> EFcat(b, e, EFnext(b, e, p), h, x, EFacc(b, e, p, h, acc))

// ---- unescaping

// fx: the value of a digit; hx4 the number spelled by four digits
function FX(c int) int
axiom FXdef(c int)
  ensures FX(c) == ('0' <= c && c <= '9' ? c - 48 : 'A' <= c && c <= 'Z' ? c - 55 : 'a' <= c && c <= 'z' ? c - 87 : 255)
function hx4(b int, p int) int
  folded
  = bor(bor(bor(FX(B(b, p)) * 4096, FX(B(b, p + 1)) * 256), FX(B(b, p + 2)) * 16), FX(B(b, p + 3)))
macro unLetter(c int) int = c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c == 'b' ? 8 : c == 'f' ? 12 : c == '"' || c == '\\' || c == '/' ? c : 0

// UF appends the unescaped form of the text from p to e to acc, one character at a time.
macro isPair(b int, e int, p int) bool = p + 11 < e && B(b, p + 6) == '\\' && B(b, p + 7) == 'u' && DEC16(hx4(b, p + 2), hx4(b, p + 8)) != 65533
macro UFnext(b int, e int, p int) int
  = B(b, p) != '\\' || p + 1 >= e ? p + 1
  : B(b, p + 1) == 'u' && p + 5 < e ? (isSurr(hx4(b, p + 2)) && isPair(b, e, p) ? p + 12 : p + 6)
  : p + 2
macro UFacc(b int, e int, p int, acc rope) rope
  = B(b, p) != '\\' || p + 1 >= e ? cat(acc, unit(B(b, p)))
  : B(b, p + 1) == 'u' && p + 5 < e ?
     (hx4(b, p + 2) < 128 ? cat(acc, unit(hx4(b, p + 2)))
     : !isSurr(hx4(b, p + 2)) ? cat(acc, ENC(hx4(b, p + 2)))
     : isPair(b, e, p) ? cat(acc, ENC(DEC16(hx4(b, p + 2), hx4(b, p + 8))))
     : cat(acc, ENC(65533)))
  : unLetter(B(b, p + 1)) > 0 ? cat(acc, unit(unLetter(B(b, p + 1))))
  : cat(acc, unit('\\'), unit(B(b, p + 1)))
function UF(b int, e int, p int, acc rope) rope
  fuel1
  decreases e - p
  = p >= e ? acc : UF(b, e, UFnext(b, e, p), UFacc(b, e, p, acc))

macro sUF(s string, acc rope) rope = UF(base(s), off(s) + len(s), off(s), acc)
macro eUF(s string, i int, acc rope) rope = UF(base(s), off(s) + len(s), off(s) + i, acc)

lemma UFend(b int, e int, acc rope)
  ensures UF(b, e, e, acc) == acc

lemma UFskip(b int, e int, p int, k int, acc rope)
  requires p <= k && k <= e
  requires forall q int :: {B(b, q)} p <= q && q < k ==> B(b, q) != '\\'
  ensures UF(b, e, p, acc) == UF(b, e, k, SEG(acc, b, p, k))
  decreases k - p
  use p < k ==> UFskip(b, e, p, k - 1, acc)

func fromHex(c) returns (r)
  ensures r == FX(c)
  use FXdef(c) at return

func Unescaped(s) returns (r)
  use UFend(base(s), off(s) + len(s), rope(r)) at return
  ensures [C16, C17, C21, C24, C26] rope(r) == sUF(s, rempty)
  use UFskip(base(s), off(s) + len(s), off(s), off(s) + (result == -1 ? len(s) : result), rempty) at after IndexByte
  loop for.loop
    invariant 0 <= i && i <= len(s) && 0 <= pos && pos <= i
    invariant [C16, C17, C21, C24, C26] eUF(s, i, SEG(b.c, base(s), off(s) + pos, off(s) + i)) == sUF(s, rempty)
    decreases len(s) - i

func Unescape(dst, s) returns (n)
  requires len(dst) >= len(s)
  modifies heap uint8
  ensures 0 <= n && n <= len(s)
  ensures [C16, C17, C21, C24, C26] rope(sub(dst, 0, n)) == sUF(s, rempty)
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall k int :: k < off(dst) || k >= off(dst) + len(dst) ==> cell(uint8, ref(dst), k)
  ensures [C16, C17, C21, C24, C26] forall a int, c int :: {arope(inner(uint8, ref(dst)), a, c)} a + c <= off(dst) ==> arope(inner(uint8, ref(dst)), a, c) == old(arope(inner(uint8, ref(dst)), a, c))
  use UFend(base(s), off(s) + len(s), rope(sub(dst, 0, n))) at return
  loop unescape
    invariant 0 <= j && j <= i && i <= len(s)
    invariant [C16, C17, C21, C24, C26] eUF(s, i, rope(sub(dst, 0, j))) == sUF(s, rempty)
    invariant forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
    invariant forall k int :: k < off(dst) || k >= off(dst) + len(dst) ==> cell(uint8, ref(dst), k)
    invariant [C16, C17, C21, C24, C26] forall a int, c int :: {arope(inner(uint8, ref(dst)), a, c)} a + c <= off(dst) ==> arope(inner(uint8, ref(dst)), a, c) == old(arope(inner(uint8, ref(dst)), a, c))
    decreases len(s) - i
  loop for.loop
    invariant 0 <= j && j <= pos && pos <= i && i <= len(s) && entry(i) <= i
    invariant [C16, C17, C21, C24, C26] eUF(s, i, SEG(rope(sub(dst, 0, j)), base(s), off(s) + pos, off(s) + i)) == sUF(s, rempty)
    decreases len(s) - i

func writeStringAt(dst, s, pos) returns (n)
  requires 0 <= pos && pos + len(s) <= len(dst)
  modifies heap uint8
  ensures n == len(s)
  ensures [C16, C17, C21, C24, C26] forall a int, c int :: {arope(inner(uint8, ref(dst)), a, c)} a + c <= off(dst) + pos ==> arope(inner(uint8, ref(dst)), a, c) == old(arope(inner(uint8, ref(dst)), a, c))
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall k int :: k < off(dst) + pos || k >= off(dst) + pos + len(s) ==> cell(uint8, ref(dst), k)
  ensures [C16, C17, C21, C24, C26] forall a int, c int :: {arope(inner(uint8, ref(dst)), a, c)} a <= off(dst) + pos && a + c == off(dst) + pos + len(s) ==> arope(inner(uint8, ref(dst)), a, c) == cat(old(arope(inner(uint8, ref(dst)), a, off(dst) + pos - a)), rope(s))

func AppendUnescaped(dst, s) returns (r)
  modifies heap uint8
  ensures len(dst) <= len(r) && len(r) <= len(dst) + len(s)
  ensures [C16, C17, C21, C24, C26] rope(r) == rcat(old(rope(dst)), sUF(s, rempty))
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall k int :: k < off(dst) + len(dst) || k >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), k)
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  assert [C16, C17, C21, C24, C26] JOIN(inner(uint8, ref(r)), off(r), old(len(dst)), len(r) - old(len(dst))) at return
