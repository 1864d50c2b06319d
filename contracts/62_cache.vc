package unjson

// ---- locks
// held: what this goroutine holds of a lock: 0 nothing, 1 as a reader, 2 as the writer
ghostfield sync.RWMutex held int
ghostfield sync.Mutex held int
extern func (*sync.RWMutex).Lock(m)
  requires m.held == 0
  modifies m.held
  ensures m.held == 2
extern func (*sync.RWMutex).Unlock(m)
  requires m.held == 2
  modifies m.held
  ensures m.held == 0
extern func (*sync.RWMutex).RLock(m)
  requires m.held == 0
  modifies m.held
  ensures m.held == 1
extern func (*sync.RWMutex).RUnlock(m)
  requires m.held == 1
  modifies m.held
  ensures m.held == 0
extern func (*sync.Mutex).Lock(m)
  requires m.held == 0
  modifies m.held
  ensures m.held == 2
extern func (*sync.Mutex).Unlock(m)
  requires m.held == 2
  modifies m.held
  ensures m.held == 0

// ---- the codec of a type
macro decFor(d Decoder, t reflect.Type) bool = is(d, T(*typeDecoder)) ==> as(d, T(*typeDecoder)).typ == t && as(d, T(*typeDecoder)).decoder != nil
// the kind of a type and the type it points to (package reflect)
function KINDOF(t reflect.Type) int
function ELEMIS(r reflect.Type, t reflect.Type) bool
macro encFor(e Encoder, t reflect.Type) bool = (KINDOF(t) == 22 ? ELEMIS(as(e, T(*typeEncoder)).typ, t) : as(e, T(*typeEncoder)).typ == t) && is(e, T(*typeEncoder)) && as(e, T(*typeEncoder)) != nil && as(e, T(*typeEncoder)).encoder != nil

guard [C30] Cache.mu(c) decoders, encoders
  invariant forall k int :: {mapat(c.decoders, k).present} c.decoders != nil && mapat(c.decoders, k).present ==> mapat(c.decoders, k).val != nil && decFor(mapat(c.decoders, k).val, keyat(c.decoders, k))
  invariant forall k int :: {mapat(c.encoders, k).present} c.encoders != nil && mapat(c.encoders, k).present ==> mapat(c.encoders, k).val != nil && encFor(mapat(c.encoders, k).val, keyat(c.encoders, k))

func NewTypeDecoder(typ, tag) returns (d, err)
  modifies heap cache
  ensures err == nil ==> d != nil && decFor(d, typ)
func newTypeEncoder(typ, options) returns (e, err)
  requires options != nil
  modifies heap cache
  ensures err == nil ==> e != nil && e.encoder != nil && (KINDOF(typ) == 22 ? ELEMIS(e.typ, typ) : e.typ == typ)
  assert [C28] called(newEncoder) ==> argof(newEncoder, 0) == (KINDOF(typ) == 22 ? resultof(Elem) : typ) && argof(newEncoder, 2) == 0 && (err == nil ==> e.encoder == resultof(newEncoder, 0)) at return
  assert [C28] typ != nil && KINDOF(typ) == 22 && !called(newEncoder) ==> ownEnc(e.encoder, e.typ, typ) at return
  assert [C28] typ != nil && KINDOF(typ) != 22 && !called(newEncoder) ==> ownEnc(e.encoder, typ, resultof(PtrTo)) at return
macro isOwn(e encoder, w int) bool = w == 0 ? is(e, T(njsonEncoder)) : w == 1 ? is(e, T(jsonEncoder)) : is(e, T(textEncoder))
macro ownKind(p reflect.Type) int = IMPLS(p, typAppender) ? 0 : IMPLS(p, typJSONMarshaler) ? 1 : IMPLS(p, typTextMarshaler) ? 2 : 3
macro ownOf(p reflect.Type) reflect.Type = ownKind(p) == 0 ? typAppender : ownKind(p) == 1 ? typJSONMarshaler : typTextMarshaler
// e: the type t (its pointer type p) has its own encoding; when only the pointer has it, the pointer is encoded
macro ownEnc(e encoder, t reflect.Type, p reflect.Type) bool = ownKind(p) < 3 && (IMPLS(t, ownOf(p)) ? isOwn(e, ownKind(p)) : is(e, T(addrEncoder)) && isOwn(as(e, T(addrEncoder)).encoder, ownKind(p)))
func NewTypeEncoder(typ, options) returns (e, err)
  modifies heap cache
  ensures err == nil ==> e != nil && encFor(e, typ)

func (*Cache).Decoder(c, typ) returns (d, err)
  requires c != nil && c.mu.held == 0
  modifies c.mu.held, c.decoders, c.encoders, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures c.mu.held == 0
  ensures err == nil ==> d != nil && decFor(d, typ)

func (*Cache).Encoder(c, typ) returns (e, err)
  requires c != nil && c.mu.held == 0
  modifies c.mu.held, c.decoders, c.encoders, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures c.mu.held == 0
  ensures err == nil ==> e != nil && encFor(e, typ)

extern func reflect.PtrTo(t) returns (r)
  option pure
  ensures r != nil

macro plainT(t reflect.Type) bool = t != nil && !IMPLS(t, typAppender) && !IMPLS(t, typJSONMarshaler) && !IMPLS(t, typTextMarshaler)
func newEncoder(typ, options, hints, codecs) returns (enc, err)
  requires options != nil && codecs != nil
  modifies heap cache
  ensures err == nil ==> enc != nil
  assert [C28] typ != nil && IMPLS(typ, typAppender) ==> err == nil && is(enc, T(njsonEncoder)) at return
  assert [C28] typ != nil && !IMPLS(typ, typAppender) && IMPLS(typ, typJSONMarshaler) ==> err == nil && is(enc, T(jsonEncoder)) at return
  assert [C28] typ != nil && !IMPLS(typ, typAppender) && !IMPLS(typ, typJSONMarshaler) && IMPLS(typ, typTextMarshaler) ==> err == nil && is(enc, T(textEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 1 ==> is(enc, T(boolEncoder)) && err == nil at return
  assert [C28] plainT(typ) && 2 <= KINDOF(typ) && KINDOF(typ) <= 6 ==> is(enc, T(intEncoder)) && err == nil at return
  assert [C28] plainT(typ) && 7 <= KINDOF(typ) && KINDOF(typ) <= 11 ==> is(enc, T(uintEncoder)) && err == nil at return
  assert [C28] plainT(typ) && 13 <= KINDOF(typ) && KINDOF(typ) <= 14 ==> err == nil && is(enc, T(*floatEncoder)) && floatFor(as(enc, T(*floatEncoder)), KINDOF(typ) == 13 ? 32 : 64, options) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 24 && hints % 2 == 0 ==> err == nil && is(enc, T(stringEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 24 && (hints / 2) % 2 == 1 ==> err == nil && is(enc, T(stringEncoder)) && as(enc, T(stringEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 24 && (hints / 2) % 2 == 0 && hints % 2 == 1 ==> err == nil && is(enc, T(rawStringEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 24 && (hints / 2) % 2 == 0 && hints % 2 == 0 ==> !as(enc, T(stringEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 17 && err == nil ==> is(enc, T(*arrayEncoder)) && as(enc, T(*arrayEncoder)).size == LENOF(typ) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 20 && err == nil ==> is(enc, T(interfaceEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 21 && err == nil ==> is(enc, T(*mapEncoder)) && okKeys(as(enc, T(*mapEncoder))) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 22 && err == nil ==> is(enc, T(*ptrEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 23 && err == nil ==> is(enc, T(*sliceEncoder)) at return
  assert [C28] plainT(typ) && KINDOF(typ) == 25 && err == nil ==> is(enc, T(*structCodec)) at return
  assert [C28] plainT(typ) && (KINDOF(typ) == 0 || KINDOF(typ) == 12 || 15 <= KINDOF(typ) && KINDOF(typ) <= 16 || 18 <= KINDOF(typ) && KINDOF(typ) <= 19 || KINDOF(typ) >= 26) ==> err != nil at return
macro floatFor(e *floatEncoder, n int, o *Options) bool = e != nil && e.bits == n && (e.allowInf <==> o.AllowInf) && (e.allowNan <==> o.AllowNaN)
func (cache).encoder(c, typ, options, hints) returns (enc, err)
  requires options != nil && c != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> enc != nil
func newSliceEncoder(typ, options, hints, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.encoder != nil
  assert [C28] err == nil ==> d.encoder == resultof(encoder, 0) && ELEMIS(argof(encoder, 1), typ) && argof(encoder, 3) == hints at return
func newArrayEncoder(typ, options, hints, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.encoder != nil
  ensures [C28] err == nil ==> d.size == LENOF(typ)
  assert [C28] err == nil ==> d.encoder == resultof(encoder, 0) && ELEMIS(argof(encoder, 1), typ) && argof(encoder, 3) == hints at return
func newPtrEncoder(typ, options, hints, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.encoder != nil
  assert [C28] err == nil ==> d.encoder == resultof(encoder, 0) && ELEMIS(argof(encoder, 1), typ) && argof(encoder, 3) == hints at return
func newMapEncoder(typ, options, codecs) returns (d, err)
  requires options != nil && codecs != nil && typ != nil
  modifies heap cache
  ensures err == nil ==> d != nil && d.encoder != nil && d.keys != nil
  ensures [C28] err == nil ==> okKeys(d)
  assert [C28] err == nil ==> d.encoder == resultof(encoder, 0) && ELEMIS(argof(encoder, 1), typ) && argof(encoder, 3) == 0 at return
func newFloatEncoder(bits, options) returns (e, err)
  requires options != nil
  ensures err == nil && e != nil && e.bits == bits
  ensures [C28] floatFor(e, bits, options)
