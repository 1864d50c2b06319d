package njson

// ---- the text: grammar of accepted input over absolute byte positions
// b: the memory the text lives in, e: position of its end, p: a position.

macro isSp(c int) bool = c == 32 || c == 9 || c == 10 || c == 13
macro isDig(c int) bool = 48 <= c && c <= 57
macro isNE(c int) bool = c == 32 || c == 9 || c == 10 || c == 13 || c == ',' || c == ']' || c == '}'

// WS skips whitespace.
function WS(b int, e int, p int) int
  decreases e - p
  = p < e && isSp(B(b, p)) ? WS(b, e, p + 1) : p

lemma WSprop(b int, e int, p int)
  ensures WS(b, e, p) >= p
  ensures p <= e ==> WS(b, e, p) <= e
  ensures WS(b, e, p) < e ==> !isSp(B(b, WS(b, e, p)))
  decreases e - p
  use p < e ==> WSprop(b, e, p + 1)
  trigger WS(b, e, p)
  auto

// NE is the end of a number that starts at p.
function NE(b int, e int, p int) int
  heavy
  decreases e - p
  = p < e && !isNE(B(b, p)) ? NE(b, e, p + 1) : p

lemma NEprop(b int, e int, p int)
  ensures NE(b, e, p) >= p
  ensures p <= e ==> NE(b, e, p) <= e
  decreases e - p
  use p < e ==> NEprop(b, e, p + 1)
  trigger NE(b, e, p)
  auto

// SE is the position of the closing quote of a string body that starts at p, or -1.
function SE(b int, e int, p int) int
  decreases e - p
  = p >= e ? 0 - 1 : B(b, p) == '"' ? p : B(b, p) == '\\' ? SE(b, e, p + 2) : SE(b, e, p + 1)

lemma SEprop(b int, e int, p int)
  requires p >= 0
  ensures SE(b, e, p) == 0 - 1 || p <= SE(b, e, p) && SE(b, e, p) < e && B(b, SE(b, e, p)) == '"'
  decreases e - p
  use p < e ==> SEprop(b, e, p + 1)
  use p < e ==> SEprop(b, e, p + 2)
  trigger SE(b, e, p)
  auto

// a quote that no escape precedes closes the string
lemma SEskip(b int, e int, p int, k int)
  requires 0 <= p && p <= k && k < e && B(b, k) == '"'
  requires k == p || B(b, k - 1) != '\\'
  requires forall q int :: {B(b, q)} p <= q && q < k ==> B(b, q) != '"'
  ensures SE(b, e, p) == k
  decreases k - p
  use p < k ==> SEskip(b, e, p + 1, k)
  use p < k ==> SEskip(b, e, p + 2, k)

// no quote, no end
lemma SEnone(b int, e int, p int)
  requires 0 <= p
  requires forall q int :: {B(b, q)} p <= q && q < e ==> B(b, q) != '"'
  ensures SE(b, e, p) == 0 - 1
  decreases e - p
  use p < e ==> SEnone(b, e, p + 1)
  use p < e ==> SEnone(b, e, p + 2)

// text without quotes and escapes can be skipped
lemma SEjump(b int, e int, p int, k int)
  requires 0 <= p && p <= k && k <= e
  requires forall q int :: {B(b, q)} p <= q && q < k ==> B(b, q) != '"' && B(b, q) != '\\'
  ensures SE(b, e, p) == SE(b, e, k)
  decreases k - p
  use p < k ==> SEjump(b, e, p + 1, k)

// lit4/lit5: the bytes of a literal
macro isNull(b int, p int) bool = B(b, p) == 'n' && B(b, p+1) == 'u' && B(b, p+2) == 'l' && B(b, p+3) == 'l'
macro isTrue(b int, p int) bool = B(b, p) == 't' && B(b, p+1) == 'r' && B(b, p+2) == 'u' && B(b, p+3) == 'e'
macro isFalse(b int, p int) bool = B(b, p) == 'f' && B(b, p+1) == 'a' && B(b, p+2) == 'l' && B(b, p+3) == 's' && B(b, p+4) == 'e'

// bad: the text is malformed at position x, inside a value of type t
// (0 any value, 1 null, 2 boolean, 3 array, 4 object).
macro bad(x int, t int) int = 0 - 2 - (8 * x + t)

// VR is the result of scanning a value at p: its end, -1 if the text ends
// before the value is complete, bad(x, t) if it is malformed.
function VR(b int, e int, p int) int
  heavy
  decreases e - p, 4
  = VQ(b, e, WS(b, e, p))

// VQ: value whose first byte is at q.
function VQ(b int, e int, q int) int
  heavy
  decreases e - q, 3
  = q >= e ? 0 - 1
  : B(b, q) == '"' ? (SE(b, e, q + 1) < 0 ? 0 - 1 : SE(b, e, q + 1) + 1)
  : B(b, q) == '{' ? OF(b, e, WS(b, e, q + 1))
  : B(b, q) == '[' ? AF(b, e, WS(b, e, q + 1))
  : isDig(B(b, q)) || B(b, q) == '-' ? NE(b, e, q)
  : B(b, q) == 'n' ? (q + 4 > e ? 0 - 1 : isNull(b, q) ? q + 4 : bad(q, 1))
  : B(b, q) == 'f' ? (q + 5 > e ? 0 - 1 : isFalse(b, q) ? q + 5 : bad(q, 2))
  : B(b, q) == 't' ? (q + 4 > e ? 0 - 1 : isTrue(b, q) ? q + 4 : bad(q, 2))
  : bad(q, 0)

// AF: array after '[' and whitespace
function AF(b int, e int, q int) int
  heavy
  decreases e - q, 6
  = q >= e ? 0 - 1 : B(b, q) == ']' ? q + 1 : AR(b, e, q)

// AR: an element of an array is expected at p
function AR(b int, e int, p int) int
  heavy
  decreases e - p, 5
  = VR(b, e, p) < 0 || VR(b, e, p) <= p ? (VR(b, e, p) < 0 ? VR(b, e, p) : 0 - 2) : AT(b, e, WS(b, e, VR(b, e, p)))

// AT: array text after an element, r is the next byte after whitespace
function AT(b int, e int, r int) int
  heavy
  decreases e - r, 2
  = r >= e ? 0 - 1
  : B(b, r) == ',' ? AR(b, e, r + 1)
  : B(b, r) == ']' ? r + 1
  : bad(r, 3)

// OF: object after '{' and whitespace
function OF(b int, e int, q int) int
  heavy
  decreases e - q, 6
  = q >= e ? 0 - 1 : B(b, q) == '}' ? q + 1 : B(b, q) == '"' ? OR(b, e, q) : bad(q, 4)

// OR: a member whose opening quote is at q
function OR(b int, e int, q int) int
  heavy
  decreases e - q, 5
  = SE(b, e, q + 1) < 0 ? 0 - 1 : OC(b, e, WS(b, e, SE(b, e, q + 1) + 1))

// OC: r is the next byte after the key
function OC(b int, e int, r int) int
  heavy
  decreases e - r, 6
  = r >= e ? 0 - 1
  : B(b, r) != ':' ? bad(r, 4)
  : VR(b, e, r + 1) < 0 || VR(b, e, r + 1) <= r ? (VR(b, e, r + 1) < 0 ? VR(b, e, r + 1) : 0 - 2)
  : OT(b, e, WS(b, e, VR(b, e, r + 1)))

// OT: t is the next byte after a value
function OT(b int, e int, t int) int
  heavy
  decreases e - t, 6
  = t >= e ? 0 - 1
  : B(b, t) == ',' ? OQ(b, e, WS(b, e, t + 1))
  : B(b, t) == '}' ? t + 1
  : bad(t, 4)

// OQ: u is the next byte after a comma
function OQ(b int, e int, u int) int
  heavy
  decreases e - u, 6
  = u >= e ? 0 - 1 : B(b, u) == '"' ? OR(b, e, u) : bad(u, 4)

// ---- results of scanning stay inside the text

lemma VRprop(b int, e int, p int)
  requires p >= 0
  ensures VR(b, e, p) >= 0 ==> p < VR(b, e, p) && VR(b, e, p) <= e
  decreases e - p, 4
  use VQprop(b, e, WS(b, e, p))
  trigger VR(b, e, p)
  auto

lemma VQprop(b int, e int, q int)
  requires q >= 0
  ensures VQ(b, e, q) >= 0 ==> q < VQ(b, e, q) && VQ(b, e, q) <= e
  decreases e - q, 3
  use q < e ==> OFprop(b, e, WS(b, e, q + 1))
  use q < e ==> AFprop(b, e, WS(b, e, q + 1))
  trigger VQ(b, e, q)
  auto

lemma AFprop(b int, e int, q int)
  requires q >= 0
  ensures AF(b, e, q) >= 0 ==> q < AF(b, e, q) && AF(b, e, q) <= e
  decreases e - q, 6
  use ARprop(b, e, q)
  trigger AF(b, e, q)
  auto

lemma ARprop(b int, e int, p int)
  requires p >= 0
  ensures AR(b, e, p) >= 0 ==> p < AR(b, e, p) && AR(b, e, p) <= e
  decreases e - p, 5
  use VRprop(b, e, p)
  use p < VR(b, e, p) && VR(b, e, p) <= e ==> ATprop(b, e, WS(b, e, VR(b, e, p)))
  trigger AR(b, e, p)
  auto

lemma ATprop(b int, e int, r int)
  requires r >= 0
  ensures AT(b, e, r) >= 0 ==> r < AT(b, e, r) && AT(b, e, r) <= e
  decreases e - r, 2
  use r < e ==> ARprop(b, e, r + 1)
  trigger AT(b, e, r)
  auto

lemma OFprop(b int, e int, q int)
  requires q >= 0
  ensures OF(b, e, q) >= 0 ==> q < OF(b, e, q) && OF(b, e, q) <= e
  decreases e - q, 6
  use ORprop(b, e, q)
  trigger OF(b, e, q)
  auto

lemma ORprop(b int, e int, q int)
  requires q >= 0
  ensures OR(b, e, q) >= 0 ==> q < OR(b, e, q) && OR(b, e, q) <= e
  decreases e - q, 5
  use SE(b, e, q + 1) >= 0 ==> OCprop(b, e, WS(b, e, SE(b, e, q + 1) + 1))
  trigger OR(b, e, q)
  auto

lemma OCprop(b int, e int, r int)
  requires r >= 0
  ensures OC(b, e, r) >= 0 ==> r < OC(b, e, r) && OC(b, e, r) <= e
  decreases e - r, 6
  use r < e ==> VRprop(b, e, r + 1)
  use r < e && VR(b, e, r + 1) > r ==> OTprop(b, e, WS(b, e, VR(b, e, r + 1)))
  trigger OC(b, e, r)
  auto

lemma OTprop(b int, e int, t int)
  requires t >= 0
  ensures OT(b, e, t) >= 0 ==> t < OT(b, e, t) && OT(b, e, t) <= e
  decreases e - t, 6
  use t < e ==> OQprop(b, e, WS(b, e, t + 1))
  trigger OT(b, e, t)
  auto

lemma OQprop(b int, e int, u int)
  requires u >= 0
  ensures OQ(b, e, u) >= 0 ==> u < OQ(b, e, u) && OQ(b, e, u) <= e
  decreases e - u, 6
  use ORprop(b, e, u)
  trigger OQ(b, e, u)
  auto

