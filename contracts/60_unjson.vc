package unjson

// ---- struct tags

// the value of a key in a struct tag (package reflect): whether it is there, and its text
function TVok(tb int, to int, tl int, kb int, ko int, kl int) bool
function TVb(tb int, to int, tl int, kb int, ko int, kl int) int
function TVo(tb int, to int, tl int, kb int, ko int, kl int) int
function TVl(tb int, to int, tl int, kb int, ko int, kl int) int

extern func (reflect.StructTag).Lookup(tag, key) returns (v, ok)
  option pure
  ensures ok <==> TVok(base(tag), off(tag), len(tag), base(key), off(key), len(key))
  ensures ok ==> base(v) == TVb(base(tag), off(tag), len(tag), base(key), off(key), len(key)) && off(v) == TVo(base(tag), off(tag), len(tag), base(key), off(key), len(key)) && len(v) == TVl(base(tag), off(tag), len(tag), base(key), off(key), len(key))
  ensures !ok ==> len(v) == 0

// NC: the first comma at or after p, or the end
function NC(b int, e int, p int) int
  decreases e - p
  = p >= e ? p : B(b, p) == ',' ? p : NC(b, e, p + 1)
lemma NCis(b int, e int, p int, k int)
  requires p <= k && k <= e && (k == e || B(b, k) == ',')
  requires forall q int :: {B(b, q)} p <= q && q < k ==> B(b, q) != ','
  ensures NC(b, e, p) == k
  decreases k - p
  use p < k ==> NCis(b, e, p + 1, k)
lemma NCrange(b int, e int, p int)
  requires p <= e
  ensures p <= NC(b, e, p) && NC(b, e, p) <= e
  ensures NC(b, e, p) == e || B(b, NC(b, e, p)) == ','
  decreases e - p
  auto
  trigger NC(b, e, p)
  use p < e ==> NCrange(b, e, p + 1)

macro wOmit(b int, p int, l int) bool = streq(str(b, p, l), "omitempty")
macro wRaw(b int, p int, l int) bool = streq(str(b, p, l), "8bit")
macro wHTML(b int, p int, l int) bool = streq(str(b, p, l), "html")

// the word is one of the comma-separated words of the text at [p, e)
function HASomit(b int, e int, p int) bool
  fuel1
  decreases e - p
  = p <= e && (wOmit(b, p, NC(b, e, p) - p) || NC(b, e, p) < e && HASomit(b, e, NC(b, e, p) + 1))
function HASraw(b int, e int, p int) bool
  fuel1
  decreases e - p
  = p <= e && (wRaw(b, p, NC(b, e, p) - p) || NC(b, e, p) < e && HASraw(b, e, NC(b, e, p) + 1))
function HAShtml(b int, e int, p int) bool
  fuel1
  decreases e - p
  = p <= e && (wHTML(b, p, NC(b, e, p) - p) || NC(b, e, p) < e && HAShtml(b, e, NC(b, e, p) + 1))

macro h8(x bool, k int) int = x ? k : 0
macro hintsOf(b int, e int, p int) int = h8(HASraw(b, e, p), 1) + h8(HAShtml(b, e, p), 2) + h8(HASomit(b, e, p), 4)

func parseHints(tag) returns (h)
  requires len(tag) > 0 && B(base(tag), off(tag)) == ','
  ensures [C31] h == hintsOf(base(tag), off(tag) + len(tag), off(tag) + 1)
  use NCis(base(tag), off(tag) + len(tag), off(tag), off(tag) + (result == -1 ? len(tag) : result)) at after IndexByte
  loop for.loop
    invariant len(tag) > 0 ==> base(tag) == entry(base(tag)) && off(tag) + len(tag) == entry(off(tag) + len(tag)) && off(tag) >= entry(off(tag))
    invariant len(tag) > 0 ==> B(base(tag), off(tag)) == ','
    invariant 0 <= hints && hints < 8
    invariant HASraw(entry(base(tag)), entry(off(tag) + len(tag)), entry(off(tag)) + 1) <==> hints % 2 == 1 || len(tag) > 0 && HASraw(entry(base(tag)), entry(off(tag) + len(tag)), off(tag) + 1)
    invariant HAShtml(entry(base(tag)), entry(off(tag) + len(tag)), entry(off(tag)) + 1) <==> (hints / 2) % 2 == 1 || len(tag) > 0 && HAShtml(entry(base(tag)), entry(off(tag) + len(tag)), off(tag) + 1)
    invariant HASomit(entry(base(tag)), entry(off(tag) + len(tag)), entry(off(tag)) + 1) <==> (hints / 4) % 2 == 1 || len(tag) > 0 && HASomit(entry(base(tag)), entry(off(tag) + len(tag)), off(tag) + 1)
    decreases len(tag)

macro tvok(t string, k string) bool = TVok(base(t), off(t), len(t), base(k), off(k), len(k))
macro tvb(t string, k string) int = TVb(base(t), off(t), len(t), base(k), off(k), len(k))
macro tvo(t string, k string) int = TVo(base(t), off(t), len(t), base(k), off(k), len(k))
macro tve(t string, k string) int = TVo(base(t), off(t), len(t), base(k), off(k), len(k)) + TVl(base(t), off(t), len(t), base(k), off(k), len(k))

func parseTag(tag, key) returns (name, hints, ok)
  use NCis(base(name), off(name) + len(name), off(name), off(name) + (result == -1 ? len(name) : result)) at after IndexByte
  ensures [C31] ok <==> tvok(tag, key)
  ensures [C31] !ok ==> len(name) == 0 && hints == 0
  ensures [C31] ok ==> base(name) == tvb(tag, key) && off(name) == tvo(tag, key) && off(name) + len(name) == NC(tvb(tag, key), tve(tag, key), tvo(tag, key))
  ensures [C31] ok ==> hints == (NC(tvb(tag, key), tve(tag, key), tvo(tag, key)) < tve(tag, key) ? hintsOf(tvb(tag, key), tve(tag, key), NC(tvb(tag, key), tve(tag, key), tvo(tag, key)) + 1) : 0)

// the name of a field: what parseTag found, or the name of the field
macro nameIs(n string, t string, k string, f string) bool = !tvok(t, k) || NC(tvb(t, k), tve(t, k), tvo(t, k)) == tvo(t, k)
  ? base(n) == base(f) && off(n) == off(f) && len(n) == len(f)
  : base(n) == tvb(t, k) && off(n) == tvo(t, k) && off(n) + len(n) == NC(tvb(t, k), tve(t, k), tvo(t, k))
macro optsOf(t string, k string) int = tvok(t, k) && NC(tvb(t, k), tve(t, k), tvo(t, k)) < tve(t, k) ? hintsOf(tvb(t, k), tve(t, k), NC(tvb(t, k), tve(t, k), tvo(t, k)) + 1) : 0
macro orOmit(h int, x bool) int = x && h < 4 ? h + 4 : h

func (*Options).parseField(o, f) returns (name, hints, ok)
  requires o != nil
  ensures [C31] len(o.Tag) > 0 ==> (ok <==> tvok(f.Tag, o.Tag)) && nameIs(name, f.Tag, o.Tag, f.Name) && hints == orOmit(optsOf(f.Tag, o.Tag), o.OmitEmpty)
  ensures [C31] len(o.Tag) == 0 ==> (ok <==> tvok(f.Tag, "json")) && nameIs(name, f.Tag, "json", f.Name) && hints == orOmit(optsOf(f.Tag, "json"), o.OmitEmpty)

// a hint is set exactly for the words that occur
macro HAS3(b int, e int, p int, w int) bool = w == 1 ? HASraw(b, e, p) : w == 2 ? HAShtml(b, e, p) : HASomit(b, e, p)

// ---- numbers decoded into Go values
// VBITS: the size in bits of the numeric type of a settable value (package reflect)
function VBITS(flag int) int
macro fitsI(n int, bits int) bool = bits == 8 ? 0 - 128 <= n && n <= 127 : bits == 16 ? 0 - 32768 <= n && n <= 32767 : bits == 32 ? 0 - 2147483648 <= n && n <= 2147483647 : true
macro fitsU(n int, bits int) bool = bits == 8 ? 0 <= n && n <= 255 : bits == 16 ? 0 <= n && n <= 65535 : bits == 32 ? 0 <= n && n <= 4294967295 : true
function MAXF32() real
macro fitsF(f float64, bits int) bool = f_fin(f) && (bits == 32 ==> real(0) - MAXF32() <= fval(f) && fval(f) <= MAXF32())
axiom MAXF32pos()
  ensures MAXF32() > real(0)

extern func (reflect.Value).OverflowInt(v, x) returns (r)
  option pure
  ensures r <==> !fitsI(x, VBITS(v.flag))
extern func (reflect.Value).OverflowUint(v, x) returns (r)
  option pure
  ensures r <==> !fitsU(x, VBITS(v.flag))
extern func (reflect.Value).OverflowFloat(v, x) returns (r)
  option pure
  ensures f_fin(x) ==> (r <==> !fitsF(x, VBITS(v.flag)))
extern func math.IsInf(f, sign) returns (r)
  option pure
  ensures r <==> f_inf(f) != 0 && (sign == 0 || sign > 0 && f_inf(f) > 0 || sign < 0 && f_inf(f) < 0)
extern func (reflect.Value).SetInt(v, x)
extern func (reflect.Value).SetUint(v, x)
extern func (reflect.Value).SetFloat(v, x)

// the text of a number value
macro jnum(n njson.Node) rope = rope(n.doc.nodes[n.id].raw)
macro isJnum(n njson.Node) bool = live(n) && typ(n) == njson.TypeNumber

func (intDecoder).decode(d, v, n) returns (err)
  assert [C27] calls(SetInt) <= 1 && (calls(SetInt) == 1) == (err == nil) && (calls(SetInt) == 1 ==> argof(SetInt, 0) == v) at return
  assert [C27] calls(SetInt) == 1 ==> fitsI(argof(SetInt, 1), VBITS(v.flag)) at return
  assert [C27] calls(SetInt) == 1 && isJnum(n) && plain(jnum(n)) ==> argof(SetInt, 1) == ival(jnum(n)) at return
  assert [C27] calls(SetInt) == 1 && isJnum(n) && isNum(jnum(n)) && !plain(jnum(n)) ==> f_fin(RND(VAL(jnum(n)))) && real(argof(SetInt, 1)) == fval(RND(VAL(jnum(n)))) at return
  assert [C27] calls(SetInt) == 1 && !isJnum(n) ==> live(n) && typ(n) == njson.TypeNull && argof(SetInt, 1) == 0 at return
  assert [C27] isJnum(n) && plain(jnum(n)) && inI64(ival(jnum(n))) && fitsI(ival(jnum(n)), VBITS(v.flag)) ==> err == nil at return

func (uintDecoder).decode(d, v, n) returns (err)
  assert [C27] calls(SetUint) <= 1 && (calls(SetUint) == 1) == (err == nil) && (calls(SetUint) == 1 ==> argof(SetUint, 0) == v) at return
  assert [C27] calls(SetUint) == 1 ==> fitsU(argof(SetUint, 1), VBITS(v.flag)) at return
  assert [C27] calls(SetUint) == 1 && isJnum(n) && plain(jnum(n)) ==> argof(SetUint, 1) == ival(jnum(n)) at return
  assert [C27] calls(SetUint) == 1 && isJnum(n) && isNum(jnum(n)) && !plain(jnum(n)) ==> f_fin(RND(VAL(jnum(n)))) && real(argof(SetUint, 1)) == fval(RND(VAL(jnum(n)))) at return
  assert [C27] calls(SetUint) == 1 && !isJnum(n) ==> live(n) && typ(n) == njson.TypeNull && argof(SetUint, 1) == 0 at return
  assert [C27] isJnum(n) && plain(jnum(n)) && inU64(ival(jnum(n))) && fitsU(ival(jnum(n)), VBITS(v.flag)) ==> err == nil at return

func (floatDecoder).decode(d, v, n) returns (err)
  assert [C27] calls(SetFloat) <= 1 && (calls(SetFloat) == 1) == (err == nil) && (calls(SetFloat) == 1 ==> argof(SetFloat, 0) == v) at return
  assert [C27] calls(SetFloat) == 1 && isJnum(n) && isNum(jnum(n)) ==> fitsF(argof(SetFloat, 1), VBITS(v.flag)) && eqv(argof(SetFloat, 1), RND(VAL(jnum(n)))) at return
  assert [C27] calls(SetFloat) == 1 && !isJnum(n) ==> live(n) && typ(n) == njson.TypeNull && f_fin(argof(SetFloat, 1)) && fval(argof(SetFloat, 1)) == real(0) at return
  assert [C27] isJnum(n) && isNum(jnum(n)) && f_fin(RND(VAL(jnum(n)))) && fitsF(RND(VAL(jnum(n))), VBITS(v.flag)) ==> err == nil at return

// ---- containers report the errors of their elements
// ufail: some value of the document could not be decoded. A decoder that gets an
// error from a part sets it; what reports no error has left it as it was.
ghostfield njson.Document ufail bool
extern func (unjson.decoder).decode(d, v, n) returns (err)
  modifies n.doc.ufail
  ensures err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)
extern func (reflect.Value).IsNil(v) returns (r)
  option pure
  ensures r <==> NILV(vid(v))
extern func (reflect.Value).Cap(v) returns (n)
  option pure
extern func (reflect.Value).Index(v, i) returns (r)
  option pure
  ensures vid(r) == IDXV(vid(v), i)
extern func (reflect.Value).Set(v, x)
extern func (reflect.Value).SetLen(v, n)
extern func (reflect.Value).SetMapIndex(v, k, x)
extern func reflect.MakeSlice(t, n, m) returns (r)
extern func reflect.MakeMap(t) returns (r)
extern func (reflect.Value).Convert(v, t) returns (r)
  option pure
extern func reflect.New(t) returns (r)
extern func (reflect.Value).Elem(v) returns (r)
  option pure
  ensures vid(r) == ELEMV(vid(v))
extern func (reflect.Value).Field(v, i) returns (r)
  option pure
  ensures 0 <= i && vid(r) == FIELDV(vid(v), i) && VALIDV(vid(r))
extern func (reflect.Value).Type(v) returns (r)
  option pure
  ensures r != nil && TYPEV(vid(v), r)
extern func (reflect.Type).Elem(t) returns (r)
  option pure
  ensures r != nil && ELEMIS(r, t)
extern func (reflect.Type).NumField(t) returns (n)
  option pure
  ensures n >= 0
extern func reflect.ValueOf(x) returns (r)
  option pure
  ensures vid(r) == VALOF(x)

func (*sliceDecoder).decode(d, v, n) returns (err)
  requires d != nil && d.decoder != nil
  modifies n.doc.ufail
  ensures [C27] err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)
  loop for.loop
    invariant err == nil && live(n) && iter.node == n
    invariant 0 <= iter.index
    invariant [C27] n.doc.ufail == old(n.doc.ufail)
    decreases len(iter.values) - iter.index

func (*arrayDecoder).decode(dec, v, n) returns (err)
  requires dec != nil && dec.decoder != nil
  modifies n.doc.ufail
  ensures [C27] err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)
  loop for.loop
    invariant live(n) && iter.node == n && 0 <= i && 0 <= iter.index
    invariant [C27] n.doc.ufail == old(n.doc.ufail)
    decreases dec.size - i
  loop for.loop#2
    invariant 0 <= i
    decreases dec.size - i
  loop for.loop#3
    invariant 0 <= i
    decreases dec.size - i

func (*mapDecoder).decode(d, v, n) returns (err)
  requires d != nil && d.decoder != nil && d.typ != nil
  modifies n.doc.ufail
  ensures [C27] err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)
  loop for.loop
    invariant err == nil && live(n) && iter.node == n
    invariant 0 <= iter.index
    invariant [C27] n.doc.ufail == old(n.doc.ufail)
    decreases len(iter.values) - iter.index

func (*ptrDecoder).decode(d, v, n) returns (err)
  requires d != nil && d.decoder != nil
  modifies n.doc.ufail
  ensures [C27] err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)

// the fields of a struct codec: each has its decoder, encoder and omiter, and says where the field is
macro okFields(c *structCodec) bool = forall a int :: {heapval(codec, ref(c.fields), a)} off(c.fields) <= a && a < off(c.fields) + len(c.fields) ==> heapval(codec, ref(c.fields), a).decoder != nil

func (*structCodec).Get(c, key) returns (r)
  requires c != nil
  ensures r != nil ==> exists a int :: off(c.fields) <= a && a < off(c.fields) + len(c.fields) && r == ptr(T(codec), ref(c.fields), a)
  ensures r != nil ==> streq(r.key, key)
  ensures r == nil ==> forall a int :: {heapval(codec, ref(c.fields), a)} off(c.fields) <= a && a < off(c.fields) + len(c.fields) ==> !streq(heapval(codec, ref(c.fields), a).key, key)
  loop rangeindex.loop
    invariant forall a int :: {heapval(codec, ref(c.fields), a)} off(c.fields) <= a && a < off(c.fields) + rangeindex + 1 ==> !streq(heapval(codec, ref(c.fields), a).key, key)

func (*structCodec).decode(c, v, n) returns (err)
  requires c != nil && okFields(c)
  modifies n.doc.ufail
  ensures [C27] err == nil && n.doc != nil ==> n.doc.ufail == old(n.doc.ufail)
  assert [C27] vid(argof(decode, 1)) == FBV(vid(v), ref(fc.index), off(fc.index), len(fc.index)) at after decode
  assert [C27] streq(fc.key, resultof(Unescaped)) && argof(decode, 0) == fc.decoder at after decode
  loop rangeindex.loop
    invariant [C27] vid(field) == FBV(vid(v), ref(fc.index), off(fc.index), rangeindex + 2)
  loop for.loop
    invariant err == nil && live(n) && iter.node == n
    invariant 0 <= iter.index
    invariant [C27] n.doc.ufail == old(n.doc.ufail)
    decreases len(iter.values) - iter.index

// ---- which decoder a type gets
function IMPLS(t reflect.Type, u reflect.Type) bool
extern func (reflect.Type).Implements(t, u) returns (r)
  option pure
  ensures r <==> IMPLS(t, u)
extern func (reflect.Type).Kind(t) returns (k)
  option pure
  ensures k == KINDOF(t)
extern func (reflect.Type).NumMethod(t) returns (n)
  option pure
function LENOF(t reflect.Type) int
extern func (reflect.Type).Len(t) returns (n)
  option pure
  ensures n == LENOF(t)
extern func (reflect.Type).Key(t) returns (r)
  option pure
  ensures r != nil
extern func reflect.Zero(t) returns (r)
  option pure

func newDecoder(typ, options, codecs) returns (dec, err)
  requires options != nil && codecs != nil
  modifies heap cache
  ensures err == nil ==> dec != nil
  assert [C27] called(Kind) && 2 <= resultof(Kind) && resultof(Kind) <= 6 ==> is(dec, T(intDecoder)) && err == nil at return
  assert [C27] called(Kind) && 7 <= resultof(Kind) && resultof(Kind) <= 11 ==> is(dec, T(uintDecoder)) && err == nil at return
  assert [C27] called(Kind) && 13 <= resultof(Kind) && resultof(Kind) <= 14 ==> is(dec, T(floatDecoder)) && err == nil at return

func (cache).decoder(c, typ, options) returns (dec, err)
  requires options != nil && c != nil
  modifies heap cache
  ensures err == nil ==> dec != nil
func newSliceDecoder(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.decoder != nil
func newArrayDecoder(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.decoder != nil
func newPtrDecoder(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.decoder != nil
func newMapDecoder(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.decoder != nil && d.typ != nil
extern func (reflect.Value).CanSet(v) returns (r)
  option pure
func newStructCodec(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil
  assert [C27] called(merge) && err == nil ==> okFields(d) at return
  assert [C28] called(merge) && err == nil ==> encFields(d) && uniqF(d) at return
  assert called(merge) && err == nil ==> d == argof(merge, 0) && argof(merge, 1) == d.typ && (KINDOF(typ) == 22 ? ELEMIS(d.typ, typ) : d.typ == typ) && len(argof(merge, 3)) == 0 at return
