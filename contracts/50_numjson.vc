package numjson

// ---- number texts: a reader that goes over the text byte by byte
// NS: its state: 0 start, 1 after the minus sign, 2 in the digits, 3 after the point,
// 4 in the digits after the point, 5 after e, 6 after the sign of the exponent,
// 7 in the digits of the exponent, -1 not a number
function NS(x rope) int
function NM(x rope) int     // the digits before and after the point as one number
function NF(x rope) int     // how many digits follow the point
function NX(x rope) int     // the digits of the exponent
function NNEG(x rope) bool  // minus sign
function NXNEG(x rope) bool // minus sign of the exponent

macro isDg(c int) bool = '0' <= c && c <= '9'
macro isEe(c int) bool = c == 'e' || c == 'E'
macro dNS(s int, c int) int = s == 0 ? (c == '-' ? 1 : isDg(c) ? 2 : -1)
  : s == 1 ? (isDg(c) ? 2 : -1)
  : s == 2 ? (isDg(c) ? 2 : c == '.' ? 3 : isEe(c) ? 5 : -1)
  : s == 3 ? (isDg(c) ? 4 : -1)
  : s == 4 ? (isDg(c) ? 4 : isEe(c) ? 5 : -1)
  : s == 5 ? (isDg(c) ? 7 : c == '+' || c == '-' ? 6 : -1)
  : s == 6 || s == 7 ? (isDg(c) ? 7 : -1) : -1

axiom Nempty()
  ensures NS(rempty) == 0 && NM(rempty) == 0 && NF(rempty) == 0 && NX(rempty) == 0 && !NNEG(rempty) && !NXNEG(rempty)
axiom Nstep(x rope, c int)
  ensures NS(cat(x, unit(c))) == dNS(NS(x), c)
  trigger NS(cat(x, unit(c)))
  auto
axiom Nvalue(x rope, c int)
  ensures NM(cat(x, unit(c))) == (isDg(c) && 0 <= NS(x) && NS(x) <= 4 ? 10 * NM(x) + c - '0' : NM(x))
  ensures NF(cat(x, unit(c))) == (isDg(c) && 3 <= NS(x) && NS(x) <= 4 ? NF(x) + 1 : NF(x))
  ensures NX(cat(x, unit(c))) == (isDg(c) && 5 <= NS(x) && NS(x) <= 7 ? 10 * NX(x) + c - '0' : NX(x))
  ensures NNEG(cat(x, unit(c))) <==> NNEG(x) || NS(x) == 0 && c == '-'
  ensures NXNEG(cat(x, unit(c))) <==> NXNEG(x) || NS(x) == 5 && c == '-'
  trigger NM(cat(x, unit(c)))
  trigger NF(cat(x, unit(c)))
  trigger NX(cat(x, unit(c)))
  trigger NNEG(cat(x, unit(c)))
  trigger NXNEG(cat(x, unit(c)))
  auto

macro isNum(x rope) bool = NS(x) == 2 || NS(x) == 4 || NS(x) == 7

// the exact value of a number text
macro EXPO(x rope) int = (NXNEG(x) ? 0 - NX(x) : NX(x)) - NF(x)
macro scale(m int, k int) real = k >= 0 ? rmul(real(m), pow10r(k)) : rdiv(real(m), pow10r(0 - k))
macro VAL(x rope) real = NNEG(x) ? real(0) - scale(NM(x), EXPO(x)) : scale(NM(x), EXPO(x))

// the same number (zeros of either sign are the same number)
macro eqv(f float64, g float64) bool = (f_fin(f) <==> f_fin(g)) && (f_nan(f) <==> f_nan(g)) && f_inf(f) == f_inf(g) && (f_fin(f) ==> fval(f) == fval(g))

axiom NSNOC(b int, o int, l int)
  requires 0 <= l
  ensures rope(str(b, o, l + 1)) == cat(rope(str(b, o, l)), unit(B(b, o + l)))

lemma NSdead(b int, o int, i int, l int)
  requires 0 <= i && i <= l && NS(rope(str(b, o, i))) == -1
  ensures NS(rope(str(b, o, l))) == -1
  decreases l
  use i < l ==> NSdead(b, o, i, l - 1)
  use i < l ==> NSNOC(b, o, l - 1)

function P10(n int) int
  folded
  = n <= 0 ? 1 : n == 1 ? 10 : n == 2 ? 100 : n == 3 ? 1000 : n == 4 ? 10000 : n == 5 ? 100000 : n == 6 ? 1000000 : n == 7 ? 10000000
  : n == 8 ? 100000000 : n == 9 ? 1000000000 : n == 10 ? 10000000000 : n == 11 ? 100000000000 : n == 12 ? 1000000000000 : n == 13 ? 10000000000000
  : n == 14 ? 100000000000000 : n == 15 ? 1000000000000000 : n == 16 ? 10000000000000000 : n == 17 ? 100000000000000000 : 1000000000000000000
lemma P10step(n int)
  requires 0 <= n && n < 18
  ensures P10(n + 1) == 10 * P10(n)
lemma P10le(n int, k int)
  requires n <= k
  ensures 1 <= P10(n) && P10(n) <= P10(k)

extern func math.Pow10(n) returns (f)
  option pure
  ensures 0 <= n && n <= 22 ==> f_fin(f) && fval(f) == pow10r(n) && pow10r(n) > real(0)

extern func strconv.ParseFloat(s, bits) returns (f, err)
  requires bits == 64
  ensures isNum(rope(s)) ==> eqv(f, RND(VAL(rope(s))))

func exactFloat(num, digits, exp) returns (f, ok)
  requires [C18, C19, C20, C24, C27] digits <= 15 ==> num < 1000000000000000
  ensures [C18, C19, C20, C24, C27] ok ==> digits <= 15 && 0 - 22 <= exp && exp <= 22 && f == RND(scale(num, exp))

macro px(s string, i int) rope = rope(str(base(s), off(s), i))

func ParseFloat(s) returns (f)
  ensures [C18, C19, C20, C24, C27] isNum(rope(s)) ==> eqv(f, RND(VAL(rope(s))))
  ensures [C18, C19, C20, C24, C27] !isNum(rope(s)) ==> f_nan(f)
  use [C18, C19, C20, C24, C27] Nempty() at entry
  use [C18, C19, C20, C24, C27] NSNOC(base(s), off(s), 0) at entry
  loop for.loop
    option cut
    invariant i <= len(s) && 0 <= j && i == j + (signed@1 ? 1 : 0) && (!signed@1 && len(s) > 0 ==> s[0] != '-')
    invariant [C18, C19, C20, C24, C27] NS(px(s, i)) == (j > 0 ? 2 : signed@1 ? 1 : 0) && NF(px(s, i)) == 0 && NX(px(s, i)) == 0 && !NXNEG(px(s, i)) && (NNEG(px(s, i)) <==> signed@1)
    invariant [C18, C19, C20, C24, C27] j <= 18 ==> num == NM(px(s, i)) && num < P10(j)
    use [C18, C19, C20, C24, C27] NSNOC(base(s), off(s), i) at head
    use [C18, C19, C20, C24, C27] NSdead(base(s), off(s), i + 1, len(s)) at head
    use [C18, C19, C20, C24, C27] P10step(j) at head
    use [C18, C19, C20, C24, C27] P10le(j, 18) at head
    decreases len(s) - i
  loop for.loop#2
    option cut
    invariant i <= len(s) && 0 <= j && 0 < n && j + n <= i
    invariant [C18, C19, C20, C24, C27] NS(px(s, i)) == (j > 0 ? 4 : 3) && NF(px(s, i)) == j && NX(px(s, i)) == 0 && !NXNEG(px(s, i)) && (NNEG(px(s, i)) <==> signed@1)
    invariant [C18, C19, C20, C24, C27] j + n <= 18 ==> num == NM(px(s, i)) && num < P10(n + j)
    use [C18, C19, C20, C24, C27] NSNOC(base(s), off(s), i) at head
    use [C18, C19, C20, C24, C27] NSdead(base(s), off(s), i + 1, len(s)) at head
    use [C18, C19, C20, C24, C27] P10step(n + j) at head
    use [C18, C19, C20, C24, C27] P10le(n + j, 18) at head
    use [C18, C19, C20, C24, C27] P10le(n + j, 15) at head
    decreases len(s) - i
  loop for.loop#3
    option cut
    invariant i <= len(s) && 0 <= jj && 0 <= exp && exp < 100000 && jj <= i && 0 <= j && 0 < n && j + n <= i
    invariant [C18, C19, C20, C24, C27] NS(px(s, i)) == (jj > 0 ? 7 : sign ? 6 : 5) && NF(px(s, i)) == j && (NNEG(px(s, i)) <==> signed@1) && (NXNEG(px(s, i)) <==> signed@2)
    invariant [C18, C19, C20, C24, C27] exp < 10000 ? NX(px(s, i)) == exp : NX(px(s, i)) >= 10000
    invariant [C18, C19, C20, C24, C27] j + n <= 18 ==> num == NM(px(s, i)) && num < P10(n + j)
    use [C18, C19, C20, C24, C27] NSNOC(base(s), off(s), i) at head
    use [C18, C19, C20, C24, C27] NSdead(base(s), off(s), i + 1, len(s)) at head
    use [C18, C19, C20, C24, C27] P10le(n + j, 15) at head
    decreases len(s) - i

extern func math.Trunc(x) returns (r)
  option pure
  ensures r == f_trunc(x)

// plain integers: a minus sign or none, and digits
macro plain(x rope) bool = NS(x) == 2
macro ival(x rope) int = NNEG(x) ? 0 - NM(x) : NM(x)
macro inI64(n int) bool = 0 - 9223372036854775808 <= n && n <= 9223372036854775807
macro inU64(n int) bool = 0 <= n && n <= 18446744073709551615

macro isRng(err error) bool = is(err, T(*strconv.NumError)) && as(err, T(*strconv.NumError)) != nil && as(err, T(*strconv.NumError)).Err == strconv.ErrRange

// strconv is exact on plain integers and rejects all else
extern func strconv.ParseInt(s, b, bits) returns (n, err)
  requires b == 10 && bits == 64
  ensures isNum(rope(s)) && err == nil ==> plain(rope(s)) && inI64(ival(rope(s))) && n == ival(rope(s))
  ensures plain(rope(s)) && err != nil ==> !inI64(ival(rope(s))) && isRng(err)
  ensures is(err, T(*strconv.NumError)) ==> as(err, T(*strconv.NumError)) != nil
extern func strconv.ParseUint(s, b, bits) returns (n, err)
  requires b == 10 && bits == 64
  ensures isNum(rope(s)) && err == nil ==> plain(rope(s)) && !NNEG(rope(s)) && inU64(ival(rope(s))) && n == ival(rope(s))
  ensures plain(rope(s)) && !NNEG(rope(s)) && err != nil ==> !inU64(ival(rope(s))) && isRng(err)
  ensures is(err, T(*strconv.NumError)) ==> as(err, T(*strconv.NumError)) != nil

lemma MONO(n int)
  ensures f_fin(RND(real(n))) && n >= 9007199254740992 ==> fval(RND(real(n))) >= real(9007199254740992)
  ensures f_fin(RND(real(n))) && n <= 0 - 9007199254740992 ==> fval(RND(real(n))) <= real(0 - 9007199254740992)
  ensures f_fin(RND(real(n))) && n <= 0 - 1 ==> fval(RND(real(n))) <= real(0 - 1)
  ensures !f_fin(RND(real(n))) && n >= 0 ==> f_inf(RND(real(n))) == 1
  ensures !f_fin(RND(real(n))) && n <= 0 ==> f_inf(RND(real(n))) == 0 - 1
  ensures 0 - 9007199254740992 <= n && n <= 9007199254740992 ==> f_fin(RND(real(n))) && fval(RND(real(n))) == real(n)
  use REPR(9007199254740992)
  use REPR(0 - 9007199254740992)
  use REPR(0 - 1)
  use REPR(0)
  use REPR(n)

lemma REPR(n int)
  ensures 0 - 9007199254740992 <= n && n <= 9007199254740992 ==> f_fin(RND(real(n))) && fval(RND(real(n))) == real(n)

lemma NFplain(b int, o int, l int)
  requires 0 <= l
  ensures NS(rope(str(b, o, l))) <= 3 && NS(rope(str(b, o, l))) >= 0 ==> NF(rope(str(b, o, l))) == 0 && NX(rope(str(b, o, l))) == 0 && !NXNEG(rope(str(b, o, l)))
  ensures NM(rope(str(b, o, l))) >= 0
  decreases l
  use l > 0 ==> NFplain(b, o, l - 1)
  use l > 0 ==> NSNOC(b, o, l - 1)
  use Nempty()

func ParseInt(s) returns (n, ok)
  ensures [C18, C27] plain(rope(s)) && inI64(ival(rope(s))) ==> ok && n == ival(rope(s))
  ensures [C18, C27] plain(rope(s)) && !inI64(ival(rope(s))) ==> !ok
  ensures [C18, C27] !isNum(rope(s)) ==> !ok
  ensures [C18, C27] !plain(rope(s)) && ok ==> f_fin(RND(VAL(rope(s)))) && real(n) == fval(RND(VAL(rope(s))))
  use [C18, C27] MONO(ival(rope(s))) at entry
  use [C18, C27] NFplain(base(s), off(s), len(s)) at entry

func ParseUint(s) returns (n, ok)
  ensures [C18, C27] plain(rope(s)) && inU64(ival(rope(s))) ==> ok && n == ival(rope(s))
  ensures [C18, C27] plain(rope(s)) && !inU64(ival(rope(s))) ==> !ok
  ensures [C18, C27] !isNum(rope(s)) ==> !ok
  ensures [C18, C27] !plain(rope(s)) && ok ==> f_fin(RND(VAL(rope(s)))) && real(n) == fval(RND(VAL(rope(s))))
  use [C18, C27] MONO(ival(rope(s))) at entry
  use [C18, C27] NFplain(base(s), off(s), len(s)) at entry

// ---- formatting

// FT: the text strconv gives for a float in the shortest form that reads back;
// with an exponent it is FM, e, FSG and two or three digits
function FT(f f64, e bool, bits int) rope
function FM(f f64, bits int) rope
function FSG(f f64, bits int) int
function FD1(f f64, bits int) int
function FD2(f f64, bits int) int
function FD3(f f64, bits int) int // -1: there is none

macro FTe(f f64, bits int) rope = FD3(f, bits) < 0
  ? cat(FM(f, bits), unit('e'), unit(FSG(f, bits)), unit(FD1(f, bits)), unit(FD2(f, bits)))
  : cat(FM(f, bits), unit('e'), unit(FSG(f, bits)), unit(FD1(f, bits)), unit(FD2(f, bits)), unit(FD3(f, bits)))
axiom FTprop(f f64, bits int)
  requires f_fin(f) && (bits == 32 || bits == 64)
  ensures (NS(FT(f, false, bits)) == 2 || NS(FT(f, false, bits)) == 4) && ZS(FT(f, false, bits)) != 2
  ensures bits == 64 ==> eqv(RND(VAL(FT(f, false, bits))), f)
axiom FTexp(f f64, bits int)
  requires f_fin(f) && (bits == 32 || bits == 64)
  ensures FT(f, true, bits) == FTe(f, bits)
  ensures (NS(FM(f, bits)) == 2 || NS(FM(f, bits)) == 4) && (ZS(FM(f, bits)) == 1 || ZS(FM(f, bits)) == 3)
  ensures NX(FM(f, bits)) == 0 && !NXNEG(FM(f, bits))
  ensures FSG(f, bits) == '+' || FSG(f, bits) == '-'
  ensures isDg(FD1(f, bits)) && isDg(FD2(f, bits)) && (FD3(f, bits) == 0 - 1 || isDg(FD3(f, bits)) && FD1(f, bits) != '0')
  ensures bits == 64 ==> eqv(RND(VAL(FT(f, true, bits))), f)

extern func strconv.AppendFloat(dst, f, fmt, prec, bits) returns (r)
  requires (fmt == 'e' || fmt == 'f') && prec == 0 - 1 && (bits == 32 || bits == 64)
  modifies heap uint8
  ensures len(r) >= len(dst) && (ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r))
  ensures rope(r) == rcat(old(rope(dst)), FT(f, fmt == 'e', bits))
  ensures f_fin(f) && fmt == 'e' && FD3(f, bits) < 0 ==> len(r) >= len(dst) + 4 && r[len(r) - 4] == 'e' && r[len(r) - 3] == FSG(f, bits) && r[len(r) - 2] == FD1(f, bits) && r[len(r) - 1] == FD2(f, bits) && rope(sub(r, 0, len(r) - 4)) == rcat(old(rope(dst)), FM(f, bits))
  ensures f_fin(f) && fmt == 'e' && FD3(f, bits) >= 0 ==> len(r) >= len(dst) + 5 && r[len(r) - 4] == FSG(f, bits)
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i)

extern func math.Abs(x) returns (r)
  option pure
  ensures f_fin(x) ==> f_fin(r) && fval(r) == (fval(x) >= real(0) ? fval(x) : real(0) - fval(x))

// magnitudes below 1e-6 (the double nearest to it) or from 1e21 on, zero excepted
macro absr(x real) real = x >= real(0) ? x : real(0) - x
macro needsExp(f f64) bool = fval(f) != real(0) && (absr(fval(f)) * real(4722366482869645213696) < real(4722366482869645) || absr(fval(f)) >= real(1000000000000000000000))
macro short(f f64, bits int) bool = FD3(f, bits) < 0 && FSG(f, bits) == '-' && FD1(f, bits) == '0'
macro OUTe(x rope, f f64, bits int) rope = short(f, bits) ? cat(x, FM(f, bits), unit('e'), unit('-'), unit(FD2(f, bits)))
  : FD3(f, bits) < 0 ? cat(x, FM(f, bits), unit('e'), unit(FSG(f, bits)), unit(FD1(f, bits)), unit(FD2(f, bits)))
  : cat(x, FM(f, bits), unit('e'), unit(FSG(f, bits)), unit(FD1(f, bits)), unit(FD2(f, bits)), unit(FD3(f, bits)))

// the text of a float: a valid number that reads back as the float
macro OUT(f f64, bits int, e bool) rope = e ? OUTe(rempty, f, bits) : FT(f, false, bits)
lemma OUTprop(f f64, bits int, e bool)
  requires f_fin(f) && (bits == 32 || bits == 64)
  ensures isNum(OUT(f, bits, e))
  ensures NS(OUT(f, bits, e)) == 7 <==> e
  ensures bits == 64 ==> eqv(RND(VAL(OUT(f, bits, e))), f)
  use FTprop(f, bits)
  use FTexp(f, bits)

axiom RASSOC3(x rope, y rope, z rope)
  ensures rcat(x, rcat(y, z)) == rcat(rcat(x, y), z)
  trigger rcat(x, rcat(y, z))

func AppendFloat(dst, f, bits) returns (r)
  requires bits == 32 || bits == 64
  modifies heap uint8
  ensures [C28] f_fin(f) ==> rope(r) == rcat(old(rope(dst)), OUT(f, bits, true)) || rope(r) == rcat(old(rope(dst)), OUT(f, bits, false))
  ensures [C28] f_fin(f) ==> isNum(OUT(f, bits, true)) && isNum(OUT(f, bits, false)) && ZS(OUT(f, bits, true)) != 2 && ZS(OUT(f, bits, false)) != 2
  ensures [C20, C21, C28] f_fin(f) && bits == 64 ==> rope(r) == rcat(old(rope(dst)), OUT(f, bits, needsExp(f)))
  ensures [C20, C21, C28] f_fin(f) && bits == 64 ==> isNum(OUT(f, bits, needsExp(f))) && eqv(RND(VAL(OUT(f, bits, needsExp(f)))), f) && (NS(OUT(f, bits, needsExp(f))) == 7 <==> needsExp(f))
  ensures len(r) >= 0 && (ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r))
  ensures forall x int :: x != ref(dst) && x < old(alloc()) ==> same(uint8, x)
  ensures f_fin(f) ==> (forall i int :: i < off(dst) + len(dst) || i >= off(dst) + cap(dst) ==> cell(uint8, ref(dst), i))
  use FTexp(f, bits) at entry
  use FTprop(f, bits) at entry
  use OUTprop(f, bits, needsExp(f)) at entry
  use [C28] OUTprop(f, bits, true) at entry
  use [C28] OUTprop(f, bits, false) at entry
  assert JOIN(inner(uint8, ref(result)), off(result), len(result) - 4, 1) at after AppendFloat
  assert JOIN(inner(uint8, ref(result)), off(result), len(result) - 3, 1) at after AppendFloat
  assert JOIN(inner(uint8, ref(result)), off(result), len(result) - 2, 1) at after AppendFloat
  use forall u rope, v rope, w rope :: {rcat(u, rcat(v, w))} RASSOC3(u, v, w) at return

func FormatFloat(f, bits) returns (s)
  requires bits == 32 || bits == 64
  ensures [C20, C21] f_fin(f) && bits == 64 ==> rope(s) == OUT(f, bits, needsExp(f))
  ensures [C20, C21] f_fin(f) && bits == 64 ==> isNum(OUT(f, bits, needsExp(f))) && eqv(RND(VAL(OUT(f, bits, needsExp(f)))), f)
