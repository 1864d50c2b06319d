package unjson

// ---- what a reflect.Value stands for
// VID: the identity of a value handle; the other functions say what is seen through it (package reflect)
function VID(v reflect.Value) int
function VALIDV(x int) bool
function IDXV(x int, i int) int
function ELEMV(x int) int
function FIELDV(x int, i int) int
function ADDRV(x int) int
function NILV(x int) bool
function BOOLV(x int) bool
function INTV(x int) int
function FLTV(x int) f64
function LENV(x int) int
function STRb(x int) int
function STRo(x int) int
function KINDV(x int) int
macro vid(v reflect.Value) int = VID(v)
macro vstr(x int) string = str(STRb(x), STRo(x), LENV(x))

extern func (reflect.Value).Bool(v) returns (r)
  option pure
  ensures r <==> BOOLV(vid(v))
extern func (reflect.Value).Int(v) returns (r)
  option pure
  ensures r == INTV(vid(v))
extern func (reflect.Value).Uint(v) returns (r)
  option pure
  ensures r == INTV(vid(v))
extern func (reflect.Value).Float(v) returns (r)
  option pure
  ensures r == FLTV(vid(v))
extern func (reflect.Value).Len(v) returns (r)
  option pure
  ensures r == LENV(vid(v)) && r >= 0
extern func (reflect.Value).String(v) returns (r)
  option pure
  ensures base(r) == STRb(vid(v)) && off(r) == STRo(vid(v)) && len(r) == LENV(vid(v))
extern func (reflect.Value).Kind(v) returns (k)
  option pure
  ensures k == KINDV(vid(v))
extern func (reflect.Value).IsValid(v) returns (r)
  option pure
  ensures r <==> VALIDV(vid(v))

// ---- the grammar of JSON texts; what it does not allow is not JSON
// ISV: a value. OPA: an array with elements, OPO an object with members, without the closing bracket.
function ISV(x rope) bool
function OPA(x rope) bool
function OPO(x rope) bool
// ZS: the state of a reader of numbers that looks for digits after a leading zero (2: there are some)
function ZS(x rope) int
macro dZS(s int, c int) int = s == 0 ? (c == '-' ? 0 : c == '0' ? 1 : 3) : s == 1 ? (isDg(c) ? 2 : 3) : s
axiom ZSempty()
  ensures ZS(rempty) == 0
axiom ZSunit(x rope, c int)
  ensures ZS(cat(x, unit(c))) == dZS(ZS(x), c)
  trigger ZS(cat(x, unit(c)))
  auto
macro nullText() rope = rope("null")
macro trueText() rope = rope("true")
macro falseText() rope = rope("false")
axiom Jlit()
  ensures ISV(nullText()) && ISV(trueText()) && ISV(falseText())
  ensures ISV(cat(unit('['), unit(']'))) && ISV(cat(unit('{'), unit('}')))
axiom Jnum(x rope)
  requires isNum(x) && ZS(x) != 2
  ensures ISV(x)
macro quoted(x rope) rope = cat(unit('"'), rcat(x, unit('"')))
// ISS: a string
function ISS(x rope) bool
axiom Jstr(x rope)
  requires ST(x) == 0
  ensures ISS(quoted(x)) && ISV(quoted(x))
axiom Jarr1(v rope)
  requires ISV(v)
  ensures OPA(cat(unit('['), v))
axiom Jarr2(x rope, v rope)
  requires OPA(x) && ISV(v)
  ensures OPA(rcat(cat(x, unit(',')), v))
axiom Jarr(x rope)
  requires OPA(x)
  ensures ISV(cat(x, unit(']')))

// x is what is there before the member, K its key and v its value
macro member(x rope, K rope, v rope) rope = rcat(cat(rcat(x, K), unit(':')), v)
axiom Jobj1(K rope, v rope)
  requires ISS(K) && ISV(v)
  ensures OPO(member(unit('{'), K, v))
axiom Jobj2(x rope, K rope, v rope)
  requires OPO(x) && ISS(K) && ISV(v)
  ensures OPO(member(cat(x, unit(',')), K, v))
axiom Jobj(x rope)
  requires OPO(x)
  ensures ISV(cat(x, unit('}')))
axiom RASSOC6(x rope, y rope, z rope)
  ensures rcat(x, rcat(y, z)) == rcat(rcat(x, y), z)

// what an encoder does: it appends the text ET of the value, which is JSON.
// (A map is given its keys in one order while it is encoded; types with their own encoding
// and the options for NaN, infinities and unescaped strings keep the promise they make.)
function ET(e encoder, x int) rope
macro gives(b rope, was rope, t rope) bool = b == rcat(was, t) && ISV(t)
extern func (unjson.encoder).encode(e, out, v) returns (b, err)
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> gives(rope(b), old(rope(out)), ET(e, vid(v)))
  ensures [C28] err == nil && (is(e, T(stringEncoder)) || is(e, T(textKeyEncoder))) ==> ISS(ET(e, vid(v)))

func (boolEncoder).encode(e, out, v) returns (b, err)
  modifies heap uint8
  use [C28] Jlit() at entry
  ensures [C28] err == nil && gives(rope(b), old(rope(out)), BOOLV(vid(v)) ? trueText() : falseText())

// DECT: the decimal text of an integer
function DECT(n int) rope
axiom DECTis(n int)
  ensures NS(DECT(n)) == 2 && ZS(DECT(n)) != 2
  ensures NM(DECT(n)) == (n < 0 ? 0 - n : n) && (NNEG(DECT(n)) <==> n < 0)
  trigger DECT(n)
  auto
extern func strconv.AppendInt(dst, n, base) returns (r)
  requires base == 10
  modifies heap uint8
  ensures rope(r) == rcat(old(rope(dst)), DECT(n))
extern func strconv.AppendUint(dst, n, base) returns (r)
  requires base == 10
  modifies heap uint8
  ensures rope(r) == rcat(old(rope(dst)), DECT(n))
func (intEncoder).encode(e, out, v) returns (b, err)
  modifies heap uint8
  use [C28] Jnum(DECT(INTV(vid(v)))) at return
  ensures [C28] err == nil && gives(rope(b), old(rope(out)), DECT(INTV(vid(v))))
func (uintEncoder).encode(e, out, v) returns (b, err)
  modifies heap uint8
  use [C28] Jnum(DECT(INTV(vid(v)))) at return
  ensures [C28] err == nil && gives(rope(b), old(rope(out)), DECT(INTV(vid(v))))

macro FLT(x int, bits int) rope = OUT(FLTV(x), bits, false)
macro FLTe(x int, bits int) rope = OUT(FLTV(x), bits, true)
func (*floatEncoder).encode(e, out, v) returns (b, err)
  requires e != nil && (e.bits == 32 || e.bits == 64)
  modifies heap uint8
  ensures [C28] f_fin(FLTV(vid(v))) ==> err == nil && (gives(rope(b), old(rope(out)), FLT(vid(v), e.bits)) || gives(rope(b), old(rope(out)), FLTe(vid(v), e.bits)))
  ensures [C28] f_fin(FLTV(vid(v))) && e.bits == 64 ==> gives(rope(b), old(rope(out)), OUT(FLTV(vid(v)), 64, needsExp(FLTV(vid(v))))) && eqv(RND(VAL(OUT(FLTV(vid(v)), 64, needsExp(FLTV(vid(v)))))), FLTV(vid(v)))
  ensures [C28] !f_fin(FLTV(vid(v))) ==> err != nil || (f_inf(FLTV(vid(v))) != 0 ? e.allowInf : e.allowNan)
  use [C28] Jnum(FLT(vid(v), e.bits)) at return
  use [C28] Jnum(FLTe(vid(v), e.bits)) at return

macro ESC(s string, h bool) rope = sEF(s, h, rempty)
func (stringEncoder).encode(HTML, b, v) returns (r, err)
  modifies heap uint8
  use [C28] EFbody(STRb(vid(v)), STRo(vid(v)) + LENV(vid(v)), STRo(vid(v)), HTML, rempty) at entry
  use [C28] STempty() at entry
  use [C28] Jstr(ESC(vstr(vid(v)), HTML)) at entry
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at return
  ensures [C28] err == nil && gives(rope(r), old(rope(b)), quoted(ESC(vstr(vid(v)), HTML))) && ISS(quoted(ESC(vstr(vid(v)), HTML)))
func (rawStringEncoder).encode(e, b, v) returns (r, err)
  modifies heap uint8
  use [C28] Jstr(rope(vstr(vid(v)))) at entry
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at return
  ensures [C28] err == nil && rope(r) == rcat(old(rope(b)), quoted(rope(vstr(vid(v)))))
  ensures [C28] ST(rope(vstr(vid(v)))) == 0 ==> ISV(quoted(rope(vstr(vid(v)))))

// ---- containers
func (ptrEncoder).encode(d, b, v) returns (r, err)
  requires d.encoder != nil
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> gives(rope(r), old(rope(b)), NILV(vid(v)) ? nullText() : ET(d.encoder, ELEMV(vid(v))))

// SLT: an array of the first n elements without its closing bracket
function SLT(e encoder, x int, n int) rope
  fuel1
  decreases n
  = n <= 0 ? unit('[') : n == 1 ? cat(unit('['), ET(e, IDXV(x, 0))) : rcat(cat(SLT(e, x, n - 1), unit(',')), ET(e, IDXV(x, n - 1)))
func (*sliceEncoder).encode(e, out, v) returns (b, err)
  requires e != nil && e.encoder != nil
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> gives(rope(b), old(rope(out)), NILV(vid(v)) || LENV(vid(v)) <= 0 ? cat(unit('['), unit(']')) : cat(SLT(e.encoder, vid(v), LENV(vid(v))), unit(']')))
  use [C28] Jlit() at entry
  use [C28] forall u rope, w rope :: {rcat(cat(u, unit(',')), w)} Jarr2(u, w) at entry
  use [C28] forall w rope :: {cat(unit('['), w)} Jarr1(w) at entry
  use [C28] Jarr(SLT(e.encoder, vid(v), LENV(vid(v)))) at return
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at entry
  loop for.loop
    invariant 0 <= i && defaultCache.mu.held == 0
    invariant [C28] i <= LENV(vid(v))
    invariant [C28] rope(out) == rcat(old(rope(out)), SLT(e.encoder, vid(v), i))
    invariant [C28] i > 0 ==> OPA(SLT(e.encoder, vid(v), i))
    decreases n - i
extern func math.IsNaN(f) returns (r)
  option pure
  ensures r <==> !f_fin(f) && f_inf(f) == 0
func (*arrayEncoder).encode(enc, out, v) returns (b, err)
  requires enc != nil && enc.encoder != nil
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> gives(rope(b), old(rope(out)), enc.size <= 0 ? cat(unit('['), unit(']')) : cat(SLT(enc.encoder, vid(v), enc.size), unit(']')))
  use [C28] Jlit() at entry
  use [C28] forall u rope, w rope :: {rcat(cat(u, unit(',')), w)} Jarr2(u, w) at entry
  use [C28] forall w rope :: {cat(unit('['), w)} Jarr1(w) at entry
  use [C28] Jarr(SLT(enc.encoder, vid(v), enc.size)) at return
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at entry
  loop for.loop
    invariant 0 <= i && defaultCache.mu.held == 0
    invariant [C28] i <= enc.size || i == 0
    invariant [C28] rope(out) == rcat(old(rope(out)), SLT(enc.encoder, vid(v), i))
    invariant [C28] i > 0 ==> OPA(SLT(enc.encoder, vid(v), i))
    decreases enc.size - i

// maps: ks are the keys, MTX the members of the first n of them
function MAPV(x int, k int) int
extern func (reflect.Value).MapKeys(v) returns (ks)
  ensures len(ks) >= 0
extern func (reflect.Value).MapIndex(v, k) returns (r)
  option pure
  ensures vid(r) == MAPV(vid(v), vid(k))
macro keyAt(b int, p int) int = vid(heapval(reflect.Value, b, p))
function MTX(ke encoder, e encoder, x int, b int, o int, n int) rope
  reads reflect.Value
  fuel1
  decreases n
  = n <= 0 ? unit('{') : n == 1 ? member(unit('{'), ET(ke, keyAt(b, o)), ET(e, MAPV(x, keyAt(b, o)))) : member(cat(MTX(ke, e, x, b, o, n - 1), unit(',')), ET(ke, keyAt(b, o + n - 1)), ET(e, MAPV(x, keyAt(b, o + n - 1))))
macro okKeys(d *mapEncoder) bool = d.encoder != nil && (is(d.keys, T(stringEncoder)) || is(d.keys, T(textKeyEncoder)))
func (*mapEncoder).encode(d, out, v) returns (b, err)
  requires d != nil && okKeys(d)
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  assert [C28] err == nil && NILV(vid(v)) ==> gives(rope(b), old(rope(out)), nullText()) at return
  assert [C28] err == nil && !NILV(vid(v)) ==> called(MapKeys) && vid(argof(MapKeys, 0)) == vid(v) && gives(rope(b), old(rope(out)), cat(MTX(d.keys, d.encoder, vid(v), ref(resultof(MapKeys)), off(resultof(MapKeys)), len(resultof(MapKeys))), unit('}'))) at return
  use [C28] Jlit() at entry
  use [C28] forall u rope, k rope, w rope :: {member(cat(u, unit(',')), k, w)} Jobj2(u, k, w) at entry
  use [C28] forall k rope, w rope :: {member(unit('{'), k, w)} Jobj1(k, w) at entry
  use [C28] called(MapKeys) ==> Jobj(MTX(d.keys, d.encoder, vid(v), ref(resultof(MapKeys)), off(resultof(MapKeys)), len(resultof(MapKeys)))) at return
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at entry
  loop rangeindex.loop
    invariant defaultCache.mu.held == 0
    invariant [C28] rope(out) == rcat(old(rope(out)), MTX(d.keys, d.encoder, vid(v), ref(resultof(MapKeys)), off(resultof(MapKeys)), rangeindex + 1))
    invariant [C28] rangeindex >= 0 ==> OPO(MTX(d.keys, d.encoder, vid(v), ref(resultof(MapKeys)), off(resultof(MapKeys)), rangeindex + 1))

// ---- any value
// VALOF: the value an interface holds
function VALOF(x interface{}) int
// HASA, HASM, HAST: its type has the methods of an Appender, a Marshaler, a TextMarshaler
function HASA(x int) bool
function HASM(x int) bool
function HAST(x int) bool
extern func (reflect.Value).Interface(v) returns (r)
  option pure
  ensures VALOF(r) == vid(v) && (KINDV(vid(v)) != 20 || !NILV(vid(v)) ==> r != nil)
  ensures r != nil && HASA(vid(v)) ==> implements(r, T(njson.Appender))
  ensures r != nil && HASM(vid(v)) ==> implements(r, T(json.Marshaler))
  ensures r != nil && HAST(vid(v)) ==> implements(r, T(encoding.TextMarshaler))
macro someStr(b rope, was rope) bool = exists t rope :: {ISS(t)} gives(b, was, t) && ISS(t)
macro some(b rope, was rope) bool = exists t rope :: {ISV(t)} gives(b, was, t)

func (interfaceEncoder).encode(c, b, v) returns (r, err)
  requires defaultCache.mu.held == 0
  modifies heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache, heap uint8
  ensures defaultCache.mu.held == 0
  use [C28] Jlit() at entry
  ensures [C28] err == nil && NILV(vid(v)) ==> gives(rope(r), old(rope(b)), nullText())
  ensures [C28] err == nil ==> some(rope(r), old(rope(b)))
  assert [C28] !NILV(vid(v)) ==> called(AppendJSON) && argof(AppendJSON, 0) == b && VALOF(argof(AppendJSON, 1)) == vid(v) && r == resultof(AppendJSON, 0) && err == resultof(AppendJSON, 1) at return
func (interfaceEncoder).Encode(c, b, x) returns (r, err)
  requires defaultCache.mu.held == 0
  modifies heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache, heap uint8
  ensures defaultCache.mu.held == 0
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> some(rope(r), old(rope(b)))

// the type of a value
function TYPEV(x int, t reflect.Type) bool
func (*typeEncoder).Encode(m, out, x) returns (b, err)
  requires m != nil && m.encoder != nil
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
  ensures [C28] err == nil ==> x != nil
  assert [C28] called(encode) ==> argof(encode, 0) == m.encoder && argof(encode, 1) == out && vid(argof(encode, 2)) == (KINDV(VALOF(x)) == 22 ? ELEMV(VALOF(x)) : VALOF(x)) && TYPEV(vid(argof(encode, 2)), m.typ) && b == resultof(encode, 0) && err == resultof(encode, 1) at return
  assert [C28] err == nil && !called(encode) ==> KINDV(VALOF(x)) == 22 && NILV(VALOF(x)) at return

// ---- types with their own encoding (their encoder is given values of such types only): what their methods give is taken as it is (the text is escaped)
extern func (json.Marshaler).MarshalJSON(m) returns (b, err)
  ensures err == nil ==> ISV(rope(b))
extern func (encoding.TextMarshaler).MarshalText(m) returns (b, err)

func (njsonEncoder).encode(e, out, v) returns (b, err)
  requires HASA(vid(v))
  modifies heap uint8
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
  assert [C28] err == nil && !called(AppendJSON) ==> NILV(vid(v)) && (KINDV(vid(v)) == 20 || KINDV(vid(v)) == 22) at return
func (jsonEncoder).encode(e, out, v) returns (b, err)
  requires HASM(vid(v))
  modifies heap uint8
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
func (textEncoder).encode(e, out, v) returns (b, err)
  requires HAST(vid(v))
  modifies heap uint8
  use [C28] Jlit() at entry
  use [C28] STempty() at entry
  use [C28] EFbody(base(argof(AppendEscaped, 1)), off(argof(AppendEscaped, 1)) + len(argof(AppendEscaped, 1)), off(argof(AppendEscaped, 1)), false, rempty) at after AppendEscaped
  use [C28] Jstr(ESC(argof(AppendEscaped, 1), false)) at after AppendEscaped
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at return
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
  ensures [C28] err == nil && !(NILV(vid(v)) && (KINDV(vid(v)) == 20 || KINDV(vid(v)) == 22)) ==> someStr(rope(b), old(rope(out)))
func (textKeyEncoder).encode(k, out, v) returns (b, err)
  requires HAST(vid(v))
  modifies heap uint8
  use [C28] STempty() at entry
  use [C28] Jstr(rempty) at entry
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at return
  ensures [C28] err == nil ==> someStr(rope(b), old(rope(out)))
func (addrEncoder).encode(e, out, v) returns (b, err)
  requires e.encoder != nil && defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
extern func (reflect.Value).CanAddr(v) returns (r)
  option pure
  ensures r <==> ADDRABLE(vid(v))
extern func (reflect.Value).Addr(v) returns (r)
  option pure
  ensures vid(r) == ADDRV(vid(v))

// ---- fields that are left out
// OMIT: what an omiter says of a value
function OMIT(o omiter, x int) bool
extern func (unjson.omiter).omit(o, v) returns (r)
  option pure
  ensures [C28] r <==> OMIT(o, vid(v))
func (omitNil).omit(o, v) returns (r)
  ensures [C28] r <==> NILV(vid(v))
func (omitFloat).omit(o, v) returns (r)
  ensures [C28] r <==> f_fin(FLTV(vid(v))) && fval(FLTV(vid(v))) == real(0)
func (omitInt).omit(o, v) returns (r)
  ensures [C28] r <==> INTV(vid(v)) == 0
func (omitUint).omit(o, v) returns (r)
  ensures [C28] r <==> INTV(vid(v)) == 0
func (omitBool).omit(o, v) returns (r)
  ensures [C28] r <==> !BOOLV(vid(v))
func (omitZeroLen).omit(o, v) returns (r)
  ensures [C28] r <==> LENV(vid(v)) == 0
func (omitNever).omit(o, v) returns (r)
  ensures [C28] !r
func (omitAlways).omit(o, v) returns (r)
  ensures [C28] r
func (*ptrOmiter).omit(o, v) returns (r)
  requires o != nil && o.omiter != nil
  ensures [C28] r <==> NILV(vid(v)) || OMIT(o.omiter, ELEMV(vid(v)))
func (*nilOmiter).omit(o, v) returns (r)
  requires o != nil && o.omiter != nil
  ensures [C28] r <==> NILV(vid(v)) || OMIT(o.omiter, vid(v))
function ADDRABLE(x int) bool
func (*elemOmiter).omit(o, v) returns (r)
  requires o != nil && o.omiter != nil
  ensures [C28] r <==> ADDRABLE(vid(v)) && OMIT(o.omiter, ADDRV(vid(v)))
// METHB: what the method of a value says
function METHV(x int, m int) int
function METHB(x int) bool
extern func (reflect.Value).Method(v, i) returns (r)
  option pure
  ensures vid(r) == METHV(vid(v), i)
extern func (reflect.Value).Call(v, in) returns (r)
  ensures len(r) == 1 && (BOOLV(vid(r[0])) <==> METHB(vid(v)))
func (omitMethod).omit(m, v) returns (r)
  ensures [C28] r <==> METHB(METHV(vid(v), m))
// ALLO: the first n elements are all omitted
function ALLO(o omiter, x int, n int) bool
  fuel1
  decreases n
  = n <= 0 || ALLO(o, x, n - 1) && OMIT(o, IDXV(x, n - 1))
lemma ALLOmono(o omiter, x int, i int, n int)
  requires i <= n && ALLO(o, x, n)
  ensures ALLO(o, x, i)
  decreases n - i
  use i < n ==> ALLOmono(o, x, i, n - 1)
func (*arrayOmiter).omit(o, v) returns (r)
  requires o != nil && o.omiter != nil
  use [C28] ALLOmono(o.omiter, vid(v), i + 1, o.size) at after omit
  ensures [C28] r <==> ALLO(o.omiter, vid(v), o.size)
  loop for.loop
    invariant 0 <= i
    invariant [C28] ALLO(o.omiter, vid(v), i)
    invariant [C28] i <= o.size || i == 0
    decreases o.size - i

// ---- structs
axiom VALID0(v reflect.Value)
  requires v.flag == 0
  ensures !VALIDV(VID(v))
macro step(y int, i int) int = i == -1 ? ELEMV(y) : FIELDV(y, i)
// FBV: where the first n steps of a field's index lead; FBOK: no nil pointer is on the way
function FBV(x int, b int, o int, n int) int
  reads goint
  fuel1
  decreases n
  = n <= 0 ? x : n == 1 ? step(x, heapval(goint, b, o)) : step(FBV(x, b, o, n - 1), heapval(goint, b, o + n - 1))
function FBOK(x int, b int, o int, n int) bool
  reads goint
  fuel1
  decreases n
  = n <= 0 || FBOK(x, b, o, n - 1) && (heapval(goint, b, o + n - 1) == -1 ==> !NILV(FBV(x, b, o, n - 1)))
lemma FBOKmono(x int, b int, o int, i int, n int)
  reads goint
  requires i <= n && FBOK(x, b, o, n)
  ensures FBOK(x, b, o, i)
  decreases n - i
  use i < n ==> FBOKmono(x, b, o, i, n - 1)
func fieldByIndex(v, index) returns (r)
  ensures [C28] FBOK(vid(v), ref(index), off(index), len(index)) ==> vid(r) == FBV(vid(v), ref(index), off(index), len(index))
  ensures [C28] !FBOK(vid(v), ref(index), off(index), len(index)) ==> !VALIDV(vid(r))
  use [C28] FBOKmono(old(vid(v)), ref(index), off(index), rangeindex + 1, len(index)) at after IsNil
  use [C28] VALID0(r) at return
  loop rangeindex.loop
    invariant [C28] vid(v) == FBV(entry(vid(v)), ref(index), off(index), rangeindex + 1)
    invariant [C28] FBOK(entry(vid(v)), ref(index), off(index), rangeindex + 1)

// the field at p: where it is, whether it is shown
macro fidx(b int, p int) []int = heapval(codec, b, p).index
macro fieldV(x int, b int, p int) int = FBV(x, ref(fidx(b, p)), off(fidx(b, p)), len(fidx(b, p)))
macro there(x int, b int, p int) bool = FBOK(x, ref(fidx(b, p)), off(fidx(b, p)), len(fidx(b, p))) && VALIDV(fieldV(x, b, p))
macro show(x int, b int, p int) bool = there(x, b, p) && !OMIT(heapval(codec, b, p).omiter, fieldV(x, b, p))
macro fkey(b int, p int) rope = quoted(ESC(heapval(codec, b, p).key, false))
macro ftext(x int, b int, p int) rope = ET(heapval(codec, b, p).encoder, fieldV(x, b, p))
// ANYF: one of the first n fields is shown; SX: the members of those, without the closing brace
function ANYF(x int, b int, o int, n int) bool
  reads codec, goint
  fuel1
  decreases n
  = n > 0 && (ANYF(x, b, o, n - 1) || show(x, b, o + n - 1))
function SX(x int, b int, o int, n int) rope
  reads codec, goint
  fuel1
  decreases n
  = n <= 0 ? rempty : !show(x, b, o + n - 1) ? SX(x, b, o, n - 1) : member(ANYF(x, b, o, n - 1) ? cat(SX(x, b, o, n - 1), unit(',')) : unit('{'), fkey(b, o + n - 1), ftext(x, b, o + n - 1))
lemma ANYFmono(x int, b int, o int, i int, n int)
  reads codec, goint
  requires i <= n && ANYF(x, b, o, i)
  ensures ANYF(x, b, o, n)
  decreases n - i
  use i < n ==> ANYFmono(x, b, o, i, n - 1)
macro encFields(c *structCodec) bool = forall p int :: {heapval(codec, ref(c.fields), p)} off(c.fields) <= p && p < off(c.fields) + len(c.fields) ==> heapval(codec, ref(c.fields), p).encoder != nil && heapval(codec, ref(c.fields), p).omiter != nil
func (*structCodec).omit(c, v) returns (r)
  requires c != nil && encFields(c)
  use [C28] ANYFmono(vid(v), ref(c.fields), off(c.fields), i + 1, len(c.fields)) at after omit
  ensures [C28] r <==> !ANYF(vid(v), ref(c.fields), off(c.fields), len(c.fields))
  loop rangeindex.loop
    invariant [C28] !ANYF(vid(v), ref(c.fields), off(c.fields), rangeindex + 1)
func (*structCodec).encode(c, b, v) returns (r, err)
  requires c != nil && encFields(c)
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> gives(rope(r), old(rope(b)), ANYF(vid(v), ref(c.fields), off(c.fields), len(c.fields)) ? cat(SX(vid(v), ref(c.fields), off(c.fields), len(c.fields)), unit('}')) : cat(unit('{'), unit('}')))
  use [C28] Jlit() at entry
  use [C28] STempty() at entry
  use [C28] Jobj(SX(vid(v), ref(c.fields), off(c.fields), len(c.fields))) at return
  use [C28] forall u rope, k rope, w rope :: {member(cat(u, unit(',')), k, w)} Jobj2(u, k, w) at entry
  use [C28] forall k rope, w rope :: {member(unit('{'), k, w)} Jobj1(k, w) at entry
  use [C28] forall u rope, w rope, z rope :: {rcat(u, rcat(w, z))} RASSOC6(u, w, z) at entry
  use [C28] EFbody(base(argof(AppendEscaped, 1)), off(argof(AppendEscaped, 1)) + len(argof(AppendEscaped, 1)), off(argof(AppendEscaped, 1)), false, rempty) at after AppendEscaped
  use [C28] Jstr(ESC(argof(AppendEscaped, 1), false)) at after AppendEscaped
  loop rangeindex.loop
    invariant defaultCache.mu.held == 0
    invariant more <= 1
    invariant [C28] more == 1 <==> ANYF(vid(v), ref(c.fields), off(c.fields), rangeindex + 1)
    invariant [C28] rope(b) == rcat(old(rope(b)), SX(vid(v), ref(c.fields), off(c.fields), rangeindex + 1))
    invariant [C28] more == 1 ==> OPO(SX(vid(v), ref(c.fields), off(c.fields), rangeindex + 1))
    invariant [C28] more == 0 ==> SX(vid(v), ref(c.fields), off(c.fields), rangeindex + 1) == rempty

// ---- which omiter a type gets: its own Omit method, or the rule of its kind
extern func (reflect.Type).MethodByName(t, name) returns (m, ok)
  option pure
  ensures ok ==> m.Type != nil
extern func (reflect.Type).NumIn(t) returns (n)
  option pure
extern func (reflect.Type).NumOut(t) returns (n)
  option pure
extern func (reflect.Type).Out(t, i) returns (r)
  option pure
  ensures r != nil
extern func (reflect.Type).Field(t, i) returns (f)
  ensures f.Type != nil && len(f.Index) == 1 && heapval(goint, ref(f.Index), off(f.Index)) == i
func customOmiter(typ, methodName) returns (o)
  requires typ != nil
  ensures [C28] o != nil ==> is(o, T(omitMethod)) || is(o, T(*nilOmiter)) && as(o, T(*nilOmiter)) != nil && is(as(o, T(*nilOmiter)).omiter, T(omitMethod))
  ensures [C28] o != nil ==> (KINDOF(typ) == 22 <==> is(o, T(*nilOmiter)))
func newCustomOmiter(typ, methodName) returns (o)
  assert [C28] called(Elem) && o != nil ==> is(o, T(*ptrOmiter)) && as(o, T(*ptrOmiter)).omiter == resultof(customOmiter) at return
  assert [C28] called(PtrTo) && o != nil ==> is(o, T(*elemOmiter)) && as(o, T(*elemOmiter)).omiter == resultof(customOmiter) at return
func newOmiter(typ, methodName) returns (o)
  ensures o != nil
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) != nil ==> o == resultof(newCustomOmiter) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && KINDOF(typ) == 1 ==> is(o, T(omitBool)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && 2 <= KINDOF(typ) && KINDOF(typ) <= 6 ==> is(o, T(omitInt)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && 7 <= KINDOF(typ) && KINDOF(typ) <= 11 ==> is(o, T(omitUint)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && 13 <= KINDOF(typ) && KINDOF(typ) <= 14 ==> is(o, T(omitFloat)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && KINDOF(typ) == 17 ==> is(o, T(*arrayOmiter)) && as(o, T(*arrayOmiter)).size == LENOF(typ) && as(o, T(*arrayOmiter)).omiter != nil at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && KINDOF(typ) == 22 ==> is(o, T(omitNil)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && (KINDOF(typ) == 21 || KINDOF(typ) == 23 || KINDOF(typ) == 24) ==> is(o, T(omitZeroLen)) at return
  assert [C28] called(newCustomOmiter) && resultof(newCustomOmiter) == nil && KINDOF(typ) == 25 ==> is(o, T(omitNever)) at return
func newArrayOmiter(typ, methodName) returns (o)
  requires typ != nil
  ensures o != nil
  ensures is(o, T(*arrayOmiter)) && as(o, T(*arrayOmiter)) != nil && as(o, T(*arrayOmiter)).size == LENOF(typ) && as(o, T(*arrayOmiter)).omiter != nil
  assert [C28] ELEMIS(argof(newOmiter, 0), typ) && as(o, T(*arrayOmiter)).omiter == resultof(newOmiter) at return

// ---- the fields of a struct
macro keyOf(b int, p int) string = heapval(codec, b, p).key
// uniqF: one field per name
macro uniqF(c *structCodec) bool = forall p int, q int :: {heapval(codec, ref(c.fields), p), heapval(codec, ref(c.fields), q)} off(c.fields) <= p && p < q && q < off(c.fields) + len(c.fields) ==> !streq(keyOf(ref(c.fields), p), keyOf(ref(c.fields), q))
func (*structCodec).omiter(c, methodName) returns (o)
  requires c != nil
  ensures o != nil
extern func (unjson.omiterer).omiter(c, methodName) returns (o)
  ensures o != nil
func copyIndex(a) returns (b)
  ensures fresh(b) && off(b) == 0 && len(b) == len(a)
  ensures forall k int :: {heapval(goint, ref(b), k)} 0 <= k && k < len(a) ==> heapval(goint, ref(b), k) == heapval(goint, ref(a), off(a) + k)
// LEXC: how two paths of one length compare from step k on; the order of fields: shorter paths first, then by position
function LEXC(ab int, ao int, bb int, bo int, k int, n int) int
  reads goint
  fuel1
  decreases n - k
  = k >= n ? 0 : heapval(goint, ab, ao + k) > heapval(goint, bb, bo + k) ? 0 - 1 : heapval(goint, ab, ao + k) < heapval(goint, bb, bo + k) ? 1 : LEXC(ab, ao, bb, bo, k + 1, n)
func cmpIndex(a, b) returns (r)
  ensures [C28] r == (len(a) > len(b) ? 0 - 1 : len(a) < len(b) ? 1 : LEXC(ref(a), off(a), ref(b), off(b), 0, len(a)))
  loop rangeindex.loop
    invariant [C28] LEXC(ref(a), off(a), ref(b), off(b), 0, len(a)) == LEXC(ref(a), off(a), ref(b), off(b), rangeindex + 1, len(a))
func (*structCodec).merge(c, typ, options, index, codecs, parents) returns (err)
  requires c != nil && options != nil && codecs != nil
  requires [C27] okFields(c)
  requires [C28] encFields(c) && uniqF(c)
  modifies c.fields, heap codec, heap goint, heap cache
  ensures [C27] okFields(c)
  ensures [C28] encFields(c) && uniqF(c)
  ensures ref(c.fields) == old(ref(c.fields)) || old(alloc()) <= ref(c.fields)
  ensures forall x int :: x < old(alloc()) && x != old(ref(c.fields)) ==> same(codec, x)
  ensures forall x int, k int :: {heapval(goint, x, k)} x < old(alloc()) && !(x == ref(index) && off(index) + len(index) <= k && k < off(index) + cap(index)) ==> heapval(goint, x, k) == old(heapval(goint, x, k))
  assert [C28] hints < 4 ==> is(omit, T(omitNever)) at after copyIndex
  assert [C28] enc == resultof(encoder, 0) && argof(encoder, 1) == field.Type && argof(encoder, 3) == hints at after copyIndex
  assert [C28] !streq(tag, "-") at after copyIndex
  assert [C27, C28] argof(copyIndex, 0) == index && len(index) == depth + 1 && heapval(goint, ref(index), off(index) + depth) == i at after copyIndex
  assert [C27, C28] len(argof(merge, 3)) >= depth + 1 && len(argof(merge, 3)) <= depth + 2 && heapval(goint, ref(argof(merge, 3)), off(argof(merge, 3)) + depth) == i at after merge
  loop for.loop
    invariant len(index) >= depth
    invariant [C27] okFields(c)
    invariant [C28] encFields(c) && uniqF(c)
    invariant ref(c.fields) == old(ref(c.fields)) || old(alloc()) <= ref(c.fields)
    invariant forall x int :: x < old(alloc()) && x != old(ref(c.fields)) ==> same(codec, x)
    invariant ref(index) == entry(ref(index)) && off(index) == entry(off(index)) && cap(index) == entry(cap(index)) || old(alloc()) <= ref(index)
    invariant forall x int, k int :: {heapval(goint, x, k)} x < old(alloc()) && !(x == entry(ref(index)) && entry(off(index) + len(index)) <= k && k < entry(off(index) + cap(index))) ==> heapval(goint, x, k) == old(heapval(goint, x, k))
