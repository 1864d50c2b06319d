package njson

// ---- type masks

// bit j of a mask
macro bitOf(t int, j int) bool = (t / pow2_(j)) % 2 == 1

// number of bits below j
function CNT(t int, j int) int
  decreases j
  = j <= 0 ? 0 : CNT(t, j - 1) + (bitOf(t, j - 1) ? 1 : 0)

lemma CNTmono(t int, i int, j int)
  requires 0 <= i && i <= j
  ensures CNT(t, i) <= CNT(t, j) && 0 <= CNT(t, i)
  decreases j
  use i < j ==> CNTmono(t, i, j - 1)
  use i == j && i > 0 ==> CNTmono(t, i - 1, i - 1)

extern func bits.OnesCount(x) returns (n)
  option pure
  ensures x < 256 ==> n == CNT(x, 8)

lemma CNTstep(t int, j int)
  requires j >= 0
  ensures CNT(t, j + 1) == CNT(t, j) + (bitOf(t, j) ? 1 : 0)
  ensures CNT(t, 0) == 0

// the bits of a byte, spelled out
lemma CNTall(t int)
  requires 0 <= t && t < 256
  ensures CNT(t, 0) == 0
  ensures CNT(t, 1) == t % 2
  ensures CNT(t, 2) == CNT(t, 1) + (t / 2) % 2
  ensures CNT(t, 3) == CNT(t, 2) + (t / 4) % 2
  ensures CNT(t, 4) == CNT(t, 3) + (t / 8) % 2
  ensures CNT(t, 5) == CNT(t, 4) + (t / 16) % 2
  ensures CNT(t, 6) == CNT(t, 5) + (t / 32) % 2
  ensures CNT(t, 7) == CNT(t, 6) + (t / 64) % 2
  ensures CNT(t, 8) == CNT(t, 7) + (t / 128) % 2
  ensures t == t % 2 + 2 * ((t / 2) % 2) + 4 * ((t / 4) % 2) + 8 * ((t / 8) % 2) + 16 * ((t / 16) % 2) + 32 * ((t / 32) % 2) + 64 * ((t / 64) % 2) + 128 * ((t / 128) % 2)
  use CNTstep(t, 0)
  use CNTstep(t, 1)
  use CNTstep(t, 2)
  use CNTstep(t, 3)
  use CNTstep(t, 4)
  use CNTstep(t, 5)
  use CNTstep(t, 6)
  use CNTstep(t, 7)

// a mask with one bit is that bit
lemma CNTone(t int, j int)
  requires 0 <= t && t < 256 && 0 <= j && j < 8
  requires CNT(t, 8) == 1 && bitOf(t, j)
  ensures t == pow2_(j) && CNT(t, j) == 0
  case j == 0
  case j == 1
  case j == 2
  case j == 3
  case j == 4
  case j == 5
  case j == 6
  use CNTall(t)

macro single(t int) bool = t == 1 || t == 2 || t == 4 || t == 8 || t == 16 || t == 32 || t == 64 || t == 128

// Types lists every bit of the mask as a single type, in order: bit j is at
// the position that the number of bits below it gives, and nothing else is listed.
func (Type).Types(t) returns (r)
  ensures [C25] len(r) == CNT(t, 8)
  ensures [C25] forall j int :: {CNT(t, j)} 0 <= j && j < 8 && bitOf(t, j) ==> r[CNT(t, j)] == pow2_(j)
  use [C25] CNTall(t)
  use [C25] forall j int :: {CNT(t, j)} CNTone(t, j)
  use [C25] forall j int :: {CNT(t, j)} CNTmono(t, j, 8)
  loop for.loop
    invariant i <= 8
    invariant cap(types) == 0 || fresh(types)
    invariant [C25] len(types) == CNT(t, i)
    invariant [C25] forall j int :: {CNT(t, j)} 0 <= j && j < i && bitOf(t, j) ==> CNT(t, j) < CNT(t, i) && types[CNT(t, j)] == pow2_(j)
    use [C25] CNTstep(t, i)
    use [C25] CNTstep(t, i - 1) at back
    decreases 8 - i

func (Type).IsValue(t) returns (r)
  ensures r <==> (exists j int :: 1 <= j && j <= 6 && bitOf(t, j))

func (info).Type(i) returns (t)
  option pure
  ensures t == i % 256

func (info).IsRoot(i) returns (r)
  ensures r <==> bitOf(i, 9)

func (info).Flags(i) returns (r)
  ensures r == i - i % 256

func (info).IsNull(i) returns (r)
  ensures r <==> i % 256 == 64
func (info).IsBoolean(i) returns (r)
  ensures r <==> i % 256 == 32
func (info).IsNumber(i) returns (r)
  ensures r <==> i % 256 == 16
func (info).IsArray(i) returns (r)
  ensures r <==> i % 256 == 8
func (info).IsObject(i) returns (r)
  ensures r <==> i % 256 == 4
func (info).IsString(i) returns (r)
  ensures r <==> i % 256 == 2
