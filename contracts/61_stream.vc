package unjson

// ---- line streams
// A buffered reader delivers the lines of its stream in parts: n complete lines have been
// delivered; part: the next one has begun, got is what has been delivered of it.
ghostfield bufio.Reader n int
ghostfield bufio.Reader part bool
ghostfield bufio.Reader got rope
// left: a bound for what is left of the line (lines are finite)
ghostfield bufio.Reader left int
// LINE: line k of the stream of a reader
function LINE(r int, k int) rope

extern func (*bufio.Reader).ReadLine(b) returns (line, isPrefix, err)
  requires b != nil
  modifies b.n, b.part, b.got, b.left
  ensures err == nil ==> b.part == isPrefix && b.n == old(b.n) + (isPrefix ? 0 : 1)
  ensures err == nil ==> b.got == cat(old(b.part) ? old(b.got) : rempty, rope(line))
  ensures err == nil && !isPrefix ==> b.got == LINE(ref(b), old(b.n))
  ensures err != nil ==> len(line) == 0 && rope(line) == rempty
  // the stream ends: a line that had begun is complete
  ensures err == io.EOF ==> !b.part && b.n == old(b.n) + (old(b.part) ? 1 : 0) && (old(b.part) ==> old(b.got) == LINE(ref(b), old(b.n)) && rlen(old(b.got)) > 0)
  ensures err != nil && err != io.EOF ==> b.n == old(b.n)
  ensures b.left >= 0 && (err == nil && isPrefix ==> b.left < old(b.left))
extern func strings.TrimSpace(s) returns (r)
  option pure
extern func (unjson.Decoder).Decode(d, x, n) returns (err)
extern func (unjson.decoder).Decode(d, x, n) returns (err)

extern func errors.New(s) returns (err)
  ensures err != nil
  option pure

// the type of a Go value (package reflect)
function TYPEIS(r reflect.Type, x interface{}) bool
extern func reflect.TypeOf(x) returns (r)
  option pure
  ensures TYPEIS(r, x) && (x != nil ==> r != nil)
// what decoding with the default codec of a type may change
func UnmarshalFromNode(n, x) returns (err)
  requires defaultCache.mu.held == 0
  modifies heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  assert [C29] (called(Decoder) <==> x != nil) && (called(Decode) <==> called(Decoder) && resultof(Decoder, 1) == nil) at return
  assert [C29] called(Decode) ==> argof(Decode, 0) == resultof(Decoder, 0) && argof(Decode, 1) == x && argof(Decode, 2) == n && err == resultof(Decode) && TYPEIS(argof(Decoder, 1), x) at return
  assert [C29] !called(Decode) ==> err != nil at return

func (*LineDecoder).Decode(d, x) returns (err)
  requires d != nil && d.r != nil && off(d.p.nodes) == 0 && defaultCache.mu.held == 0
  requires !d.r.part && d.r.left >= 0
  modifies *d, d.r.n, d.r.part, d.r.got, d.r.left, heap njson.node, heap njson.V, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures off(d.p.nodes) == 0
  ensures [C29] d.r == old(d.r) && (d.r.n == old(d.r.n) && err != nil || d.r.n == old(d.r.n) + 1 && !d.r.part)
  ensures [C29] err == nil ==> d.r.n == old(d.r.n) + 1
  assert [C29] called(Parse) ==> rope(argof(Parse, 1)) == LINE(ref(d.r), old(d.r.n)) && d.r.n == old(d.r.n) + 1 at return
  assert [C29] err == nil ==> called(Parse) && resultof(Parse, 2) == nil at return
  assert [C29] !called(Parse) ==> err == resultof(ReadLine, 2) && err != nil at return
  assert [C29] !called(Parse) && err == io.EOF ==> d.r.n == old(d.r.n) at return
  assert [C29] called(Parse) && resultof(Parse, 2) != nil ==> err == resultof(Parse, 2) at return
  assert [C29] called(TrimSpace) ==> argof(TrimSpace, 0) == resultof(Parse, 1) && (len(resultof(TrimSpace)) != 0 ==> err != nil) at return
  assert [C29] called(Parse) && resultof(Parse, 2) == nil ==> called(TrimSpace) at return
  assert [C29] called(Decode) || called(UnmarshalFromNode) ==> called(TrimSpace) && resultof(Parse, 2) == nil && len(resultof(TrimSpace)) == 0 at return
  assert [C29] called(TrimSpace) && len(resultof(TrimSpace)) == 0 ==> (called(Decode) <==> old(d.Decoder) != nil) && (called(UnmarshalFromNode) <==> old(d.Decoder) == nil) at return
  assert [C29] called(Decode) ==> argof(Decode, 1) == x && argof(Decode, 2) == resultof(Parse, 0) && err == resultof(Decode) at return
  assert [C29] called(UnmarshalFromNode) ==> argof(UnmarshalFromNode, 1) == x && argof(UnmarshalFromNode, 0) == resultof(Parse, 0) && err == resultof(UnmarshalFromNode) at return
  assert [C29] called(Decode) ==> argof(Decode, 0) == old(d.Decoder) at return
  loop for.body
    decreases d.r.left
    invariant d.r.left >= 0 && d.r == entry(d.r) && d.r.n == entry(d.r.n) && off(d.p.nodes) == 0
    invariant [C29] s.c == (d.r.part ? d.r.got : rempty)

// a reader that is there
macro nilReader(r io.Reader) bool = r == nil || is(r, T(*bufio.Reader)) && as(r, T(*bufio.Reader)) == nil
func NewLineDecoder(r) returns (d)
  ensures r == nil ==> d == nil
  ensures r != nil ==> d != nil && off(d.p.nodes) == 0 && len(d.p.nodes) == 0 && fresh(d)
  requires r != nil ==> !nilReader(r)
  ensures r != nil ==> d.r != nil
  assert [C29] r != nil ==> !called(NewReader) && is(r, T(*bufio.Reader)) && d.r == as(r, T(*bufio.Reader)) || called(NewReader) && argof(NewReader, 0) == r && d.r == resultof(NewReader) at return
extern func bufio.NewReader(r) returns (b)
  requires !nilReader(r)
  ensures b != nil && b.n == 0 && !b.part && b.left >= 0

// the encoders called here keep what is in the buffer (C28)
func AppendJSON(out, x) returns (b, err)
  requires defaultCache.mu.held == 0
  modifies heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache, heap uint8
  ensures defaultCache.mu.held == 0
  use [C28] Jlit() at entry
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
  ensures [C28] err == nil && x == nil ==> gives(rope(b), old(rope(out)), nullText())
  assert [C29] (called(Encoder) <==> x != nil) && (called(Encode) <==> called(Encoder) && resultof(Encoder, 1) == nil) at return
  assert [C29] called(Encode) ==> argof(Encode, 0) == resultof(Encoder, 0) && argof(Encode, 1) == out && argof(Encode, 2) == x && b == resultof(Encode, 0) && err == resultof(Encode, 1) && TYPEIS(argof(Encoder, 1), x) at return
  assert [C29] x != nil && !called(Encode) ==> err != nil at return
extern func (unjson.Encoder).Encode(e, out, x) returns (b, err)
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))
extern func (unjson.encoder).Encode(e, out, x) returns (b, err)
  requires defaultCache.mu.held == 0
  modifies heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures defaultCache.mu.held == 0
  ensures [C28] err == nil ==> some(rope(b), old(rope(out)))

func (*LineEncoder).Encode(e, x) returns (err)
  requires e != nil && e.w != nil && defaultCache.mu.held == 0
  modifies *e, heap uint8, heap Cache, heap map[reflect.Type]Decoder, heap map[reflect.Type]Encoder, heap cache
  ensures e.w == old(e.w) && e.Encoder == old(e.Encoder)
  assert [C29] calls(Write) <= 1 at return
  assert [C29] (calls(AppendJSON) == 1) == (e.Encoder == nil) && (calls(Encode) == 1) == (e.Encoder != nil) && calls(Encode) <= 1 && calls(AppendJSON) <= 1 at return
  assert [C29] calls(AppendJSON) == 1 ==> argof(AppendJSON, 1) == x && len(argof(AppendJSON, 0)) == 0 && (calls(Write) == 1) == (resultof(AppendJSON, 1) == nil) at return
  assert [C29] calls(Encode) == 1 ==> argof(Encode, 2) == x && len(argof(Encode, 1)) == 0 && argof(Encode, 0) == e.Encoder && (calls(Write) == 1) == (resultof(Encode, 1) == nil) at return
  assert [C29] calls(Write) == 0 ==> err != nil && (calls(AppendJSON) == 1 ==> err == resultof(AppendJSON, 1)) && (calls(Encode) == 1 ==> err == resultof(Encode, 1)) at return
  assert [C29] calls(Write) == 1 ==> argof(Write, 0) == e.w && err == resultof(Write, 1) at return
  assert [C29] calls(Write) == 1 && calls(AppendJSON) == 1 ==> before(Write, rope(argof(Write, 1)) == cat(after(AppendJSON, rope(resultof(AppendJSON, 0))), unit(10))) at return
  assert [C29] calls(Write) == 1 && calls(Encode) == 1 ==> before(Write, rope(argof(Write, 1)) == cat(after(Encode, rope(resultof(Encode, 0))), unit(10))) at return
extern func (*strings.Builder).Len(b) returns (n)
  option pure
  ensures n == rlen(b.c)
