#!/usr/bin/env python3
# regenerates /verif/properties.jsonl
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
p("C01","Parsing never panics and always terminates",
  "Parsing any string with any document, blank or reused, returns normally: it never panics, never reads outside the input and always terminates.",
  ["inputs","histories"],"every byte string as input, every prior state of the document (fresh, reset, pooled, already holding values)",
  "Tests parse a handful of well-formed files and about twenty literals; a bad index or a loop that makes no progress on one malformed prefix, or on memory left over from an earlier parse, is not sampled.",
  ["parser.go","document.go","bytemaps.go"],[("scanner loops and recursive descent","parser.go: parseValue, parseArray, parseObject"),("node and member storage growth","parser.go: node, appendV")],
  observe=["Document.Parse"])
p("C02","Parsing accepts exactly one leading value and returns the rest",
  "Parsing succeeds exactly when the input, after optional JSON whitespace, starts with a complete value, and the returned tail is then exactly the input that follows that value (empty if nothing follows). Structure is checked strictly (brackets, colons, commas, closing quotes with backslash escapes, the literals true, false and null), while the characters inside a string and the spelling of a number after its first digit or minus sign are not: a number runs up to the next whitespace, comma, closing bracket or end of input.",
  ["inputs"],"every byte string","Tests compare a few literals and round-trip a few files; acceptance is a language-membership question over all strings.",
  ["parser.go","bytemaps.go"],[("recursive descent","parser.go: parseValue, parseArray, parseObject"),("tail slicing","parser.go: Parse"),("character classes","bytemaps.go")],
  observe=["Document.Parse"])
p("C03","The parsed tree is the tree of the text",
  "After a successful parse the returned node and its descendants mirror the text: every value has the type the text shows, strings and numbers carry their exact source text, arrays and objects have exactly the elements and members of the text, in order, with members keyed by the exact source text of the key (duplicates kept). The nodes of one parsed value occupy consecutive ids in document order, beginning with the returned node.",
  ["inputs","histories"],"every accepted input, any nesting, any prior content of the document or recycled memory",
  "Tests look at a few nodes of a few inputs; node storage growth, recycling of member arrays and nested containers interact only for particular shapes and histories.",
  ["parser.go","document.go"],[("node allocation order and member lists","parser.go: node, appendV, parseArray, parseObject")],
  observe=["Document.Parse","Node.Type","Node.Raw","Node.Values","Node.Index","Node.Get"])
p("C04","Parse failures distinguish truncated from malformed input",
  "When parsing fails the returned node is empty and the existing document is unchanged; if the input ended before the value was complete the error is the unexpected-end-of-input error and the whole input is handed back as tail, so that a caller can append more data and retry. Otherwise the error reports the type being scanned and the offset of the first offending byte (for a misspelled true, false or null the offset where the word starts), and the tail is empty.",
  ["inputs"],"every rejected byte string","Tests check that a couple of bad inputs fail; which of the two kinds of failure is reported, and where, varies over every prefix of every document.",
  ["parser.go","error.go"],[("error construction","parser.go: abort, eof; error.go")],observe=["Document.Parse","ParseError.Pos","ParseError.Type"])
p("C05","Parsing leaves existing values alone",
  "Parsing into a document that already holds values, whether it succeeds or fails, changes none of the existing values in that or any other document, and handles obtained before stay usable. The result depends only on the input text: not on what the document, or memory it recycles from before a reset, held earlier.",
  ["inputs","histories"],"every input, every document state reachable through the API, every interleaving of parse, reset and edits",
  "Tests parse at most twice into the same document; whether recycled node and member storage overlaps live storage depends on the history.",
  ["parser.go","document.go"],[("storage recycled beyond the live length","parser.go: parser, node, appendV"),("commit on success","parser.go: Parse")],
  observe=["Document.Parse"])
p("C06","Stale and empty handles are inert",
  "A node handle that is zero, out of range, or older than the last reset or close of its document behaves as an empty value: reads return zero values and report failure, lookups and iteration yield nothing, writes have no effect on any document, serialising reports an error, and nothing panics.",
  ["histories","inputs"],"every handle, every document state, every operation with any arguments",
  "Tests try the zero handle on a few methods; the guarantee is per method and per history of resets.",
  ["node.go","document.go"],[("revision check","node.go: get, Document; document.go: get, Reset")],
  observe=["Node methods"])
p("C07","Serialising appends the compact JSON text of the value",
  "Serialising a value appends to the given buffer, keeping what it held, exactly the compact text of the value: containers with their elements or members in order separated by single commas, members as quoted key text, colon and value, strings as quoted raw text, other scalars as their raw text, and no whitespace. It changes no document, and it reports an error instead of output that omits a value if a member refers to no value.",
  ["inputs","histories"],"every acyclic tree in a document, every prefix buffer and capacity",
  "Tests serialise a few small trees; the output is defined by recursion over all trees.",
  ["document.go","node.go"],[("recursive printer","document.go: appendJSON"),("entry points","node.go: AppendJSON; document.go: AppendJSON")],
  observe=["Node.AppendJSON","Document.AppendJSON"])
p("C08","Parse then serialise only drops insignificant whitespace",
  "For every accepted input, serialising the parsed value reproduces the accepted text with the whitespace between tokens removed and nothing else changed: key order, duplicate keys, number spelling and string escapes are preserved byte for byte.",
  ["inputs"],"every accepted byte string","Tests round-trip a few files; the statement relates two recursions over every document.",
  ["parser.go","document.go"],[("parser","parser.go"),("printer","document.go: appendJSON")],observe=["Document.Parse","Node.AppendJSON"])
p("C09","Objects behave as ordered maps under get, set and delete",
  "Reading a key returns the first member with that key text and an empty node if there is none; setting a valid value replaces the value of that first member in place or else adds one member at the end; deleting removes exactly that first member, moving the last member into its place. No other member, value or document changes, and on values that are not objects these operations do nothing.",
  ["inputs","histories"],"every object (any size, duplicate keys), key, value, document","Tests set and delete one or two keys.",
  ["node.go"],[("member list edits","node.go: Get, Set, Del")],observe=["Node.Get","Node.Set","Node.Del"])
p("C10","Arrays behave as sequences under index and edit operations",
  "Indexing returns the element at an in-range offset and an empty node otherwise; appending adds the valid given values at the end in order; replacing substitutes one in-range element; removing deletes one in-range element and keeps the order of the rest; slicing with 0 <= i < j <= length keeps exactly elements i to j-1. Out-of-range or invalid arguments and non-array targets change nothing, and no other value or document changes.",
  ["inputs","histories"],"every array, offset, value list","Tests exercise one or two offsets on short arrays; boundary offsets and aliasing of storage are not sampled.",
  ["node.go"],[("element list edits","node.go: Index, Append, Replace, Remove, Slice")],observe=["Node.Index","Node.Append","Node.Replace","Node.Remove","Node.Slice"])
p("C11","Documents are always forests: no cycles, no shared values",
  "Whatever sequence of parse, create, set, append, replace, remove, delete and copy operations is applied, the containment relation inside a document has no cycles and every value is held by at most one container slot, so serialising and copying always terminate and editing one value never changes another.",
  ["histories"],"every sequence of API operations on any number of documents, including values inserted into themselves or their own descendants",
  "Tests insert a value once; a cycle or a shared value needs a particular sequence of several operations.",
  ["document.go","node.go"],[("adopt-or-copy rule","document.go: copyOrAdopt, ncopy, contains")],observe=["Node.Set","Node.Append","Node.Replace"])
p("C12","Inserting a value that already has a place inserts an independent copy",
  "Setting, appending or replacing with a value that already has a container, is its document's first value, or belongs to another document inserts a deep copy that serialises identically, occupies new nodes, and shares no editable state with the original; the source value and its document are unchanged.",
  ["inputs","histories"],"every source tree and target, same or different documents","Tests copy one small tree and compare its output once.",
  ["document.go"],[("deep copy","document.go: ncopy")],observe=["Node.Set","Node.Append","Node.Replace"])
p("C13","Path lookup follows keys and offsets",
  "Looking up a path descends one segment at a time, in objects to the first member whose key equals the segment and in arrays to the element at the offset the segment spells in decimal digits; the empty path gives the node itself. If any segment does not match (missing key, not a decimal number, out of range however large, or a scalar) the result is an empty node.",
  ["inputs"],"every tree and path","Tests look up a few paths.",["document.go","node.go"],[("path walk","document.go: lookup")],observe=["Node.Lookup"])
p("C14","Escaped text is always a valid JSON string body",
  "For any byte string, escaping yields text without raw control characters, unescaped quotes or broken escapes, so that placed between quotes it is a valid JSON string; with the HTML option it also contains no <, > or &. A quote, backslash or control character is never passed through raw, and bytes that need no escaping are passed through unchanged.",
  ["inputs"],"every byte string, both option settings","Tests escape about a dozen strings.",
  ["strjson/escape.go","strjson/bytemaps.go"],[("escape table and rune decoding","strjson/escape.go: AppendEscaped, Escaped")],observe=["strjson.AppendEscaped","strjson.Escaped"])
p("C15","All escaping variants agree and only append",
  "Escaping into a new string and appending to a buffer give byte-for-byte the same escaped text for the same input and option, the quoted form is that text between quotes, and the appending form keeps the bytes the buffer already held.",
  ["inputs"],"every byte string, option setting, buffer content and capacity","Tests compare few strings, with few buffer capacities.",
  ["strjson/escape.go"],[("two copies of the escape loop","strjson/escape.go: AppendEscaped, Escaped")],observe=["strjson.AppendEscaped","strjson.Escaped"])
p("C16","Unescaping is memory safe and never longer than its input",
  "Unescaping any byte string into a buffer at least as long never panics, writes only inside the buffer and reports a length between zero and the length of the input; all variants (into a buffer, appending, new string) return the same text, and the appending form keeps the bytes the buffer already held.",
  ["inputs"],"every byte string, including truncated and invalid escapes, and every buffer","Tests unescape about fifteen strings; truncated escapes at every position are not sampled.",
  ["strjson/unescape.go","strjson/bytemaps.go"],[("unescape loops","strjson/unescape.go: Unescape, AppendUnescaped, Unescaped")],observe=["strjson.Unescape","strjson.AppendUnescaped","strjson.Unescaped"])
p("C17","Unescaping decodes every escape and inverts escaping",
  "Unescaping replaces each two-character escape by the character it stands for, each four-digit hexadecimal escape by the UTF-8 form of its code point (a surrogate pair by the one code point it encodes, an unpaired surrogate by the replacement character), and leaves all other bytes as they are. For valid UTF-8 text, unescaping the escaped form gives the original text back.",
  ["inputs"],"every byte string with well-formed escapes; every valid UTF-8 text","Tests sample a few escapes and one surrogate pair.",
  ["strjson/unescape.go","strjson/escape.go"],[("escape decoding","strjson/unescape.go"),("escape tables","strjson/bytemaps.go")],observe=["strjson.Unescape","strjson.Unescaped"])
p("C18","Integer conversion of numbers is exact",
  "Converting a plain decimal integer text (optional minus sign, digits) to a signed or unsigned 64-bit integer returns exactly that integer and success when it is in range and failure when it is not, with no loss of precision; text that is not a number, or whose value has a fractional part representable as such in a float, fails.",
  ["inputs"],"every text","Tests convert 42, -42 and 42.01.",["numjson/numjson.go","node.go"],[("integer conversion","numjson/numjson.go: ParseInt, ParseUint"),("node conversion","node.go: ToInt, ToUint")],
  observe=["numjson.ParseInt","numjson.ParseUint","Node.ToInt","Node.ToUint"])
p("C19","Float conversion is correctly rounded",
  "Converting a text of the form minus-sign, digits, fraction, exponent (the parts after the digits optional) to a float gives the double nearest to its exact decimal value, infinity on overflow and zero on underflow; any other text gives NaN, reported as failure by the node conversion.",
  ["inputs"],"every text","Tests compare about forty texts with the standard library.",["numjson/numjson.go","node.go"],[("decimal scanner and exact arithmetic","numjson/numjson.go: ParseFloat, exactFloat")],
  observe=["numjson.ParseFloat","Node.ToFloat"])
p("C20","Formatted floats are valid JSON numbers that read back exactly",
  "Formatting a finite float appends, after what the buffer held, a valid JSON number, in plain notation for magnitudes from 1e-6 up to 1e21 and for zero, with a short exponent otherwise, which converts back to exactly the same float.",
  ["inputs"],"every finite float, both bit sizes, every buffer","Tests format one value.",["numjson/format.go"],[("notation choice and exponent clean-up","numjson/format.go: AppendFloat, FormatFloat")],
  observe=["numjson.AppendFloat","numjson.FormatFloat","Document.Number","Node.SetFloat"])
p("C21","Setting or creating a scalar stores exactly that value",
  "Each scalar setter or constructor leaves the target node with exactly the requested type and text (integers in decimal, strings escaped unless the raw form is used) and no elements, which the readers of that type return; a setter keeps the node's place in its container and changes no other node, and a constructor adds one new node and changes no existing one.",
  ["inputs","histories"],"every node, value and document state","Tests set each kind once on one document.",["node.go","document.go"],[("scalar setters","node.go: SetX"),("constructors","document.go")],
  observe=["Node.SetInt","Node.SetUint","Node.SetFloat","Node.SetString","Node.SetTrue","Node.SetNull","Document.Null","Document.Text"])
p("C22","Iteration yields every member once, in order",
  "Iterating over the values of an array or object yields each element exactly once, in order, with its key, position and node, and then reports the end, staying ended until reset; scalars and empty containers yield nothing.",
  ["inputs"],"every container and call sequence on the iterator","Tests iterate one small object.",["node.go"],[("iterator","node.go: IterV, Values")],observe=["Node.Values","IterV"])
p("C23","Resetting or recycling a document hides all of its old values",
  "After a reset or close every earlier handle of the document is stale, the document is empty, and values parsed or created afterwards are unaffected by what it held; a document taken from a pool is always empty and putting one back makes its handles stale.",
  ["histories"],"every history of parse, edit, reset, close, pool get and put","Tests reset once.",["document.go"],[("revision counter","document.go: Reset, Pool")],observe=["Document.Reset","Document.Close","Pool.Get","Pool.Put"])
p("C24","Generic conversion mirrors the value",
  "Converting a value to a generic Go value gives nil, booleans, floats, unescaped strings, slices with one entry per element in order and maps from key text to converted values; it fails exactly when some value in the tree cannot be converted, and it changes nothing.",
  ["inputs"],"every tree","Tests convert two trees.",["document.go"],[("recursive conversion","document.go: toInterface")],observe=["Node.ToInterface"])
p("C25","Type masks are decided bit by bit",
  "A type mask lists exactly the single types whose bits it contains, in increasing order, each once; the type checks on a value answer for its single type only; and no flag stored along with the type ever changes the reported type.",
  ["inputs"],"every mask value","Tests check a few masks.",["types.go"],[("mask enumeration","types.go: Types, Type, Flags")],observe=["Type.Types","Node.Type"])
p("C26","Unmarshaler and writer adapters pass on exactly the value's text",
  "The adapters hand a foreign unmarshaler or writer exactly the bytes serialising the value gives (for text unmarshalers, the unescaped string, and only for string values), call it at most once, return its error unchanged, and report an error without calling it when the value is missing or of the wrong type.",
  ["inputs"],"every value, writer and unmarshaler outcome","Tests call each adapter on two or three values.",["node.go"],[("adapters","node.go: WrapUnmarshalJSON, WrapUnmarshalText, PrintJSON")],observe=["Node.WrapUnmarshalJSON","Node.WrapUnmarshalText","PrintJSON"])
p("C27","Decoding numbers into Go integers never changes them silently",
  "Decoding a JSON number into a Go integer or float, alone or in a struct field, pointer, map, slice or array, stores exactly the converted number (a plain integer exactly, a text with a fraction or an exponent as the nearest float64, which an integer type takes only if it is a whole number) or reports an error; a number outside the range of the target type is reported and never truncated, and no container drops the error of a part.",
  ["inputs"],"every number text and numeric target type","Tests decode a few small numbers.",["unjson/decode.go"],[("numeric decoders","unjson/decode.go: intDecoder, uintDecoder, floatDecoder")],observe=["unjson.Unmarshal"])
p("C28","Encoding a Go value gives valid JSON of that value",
  "Encoding any supported Go value appends valid JSON that represents the value (exact numbers, escaped strings and names, null for nil pointers, elements in order, one member per name), keeps the bytes already in the buffer, and leaves a struct field out exactly when it is marked to be omitted when empty and is empty; a value that has no JSON (NaN, an infinity) or whose own encoding fails gives an error.",
  ["inputs","programs"],"every supported Go type and value","Tests encode a few structs.",["unjson/encode.go","unjson/codec.go","unjson/omit.go"],[("reflective encoders","unjson/encode.go, codec.go")],observe=["unjson.Marshal","unjson.AppendJSON"])
p("C29","Line streams decode one value per line",
  "A line decoder delivers the values of a newline-delimited stream one per call, in order, each equal to decoding that line alone, and reports malformed lines; a line encoder writes each value followed by exactly one newline in a single write and reports the writer's error.",
  ["inputs","histories"],"every stream and buffer split","Tests do not cover streams.",["unjson/stream.go"],[("line framing","unjson/stream.go")],observe=["LineDecoder.Decode","LineEncoder.Encode"])
p("C30","Codec caches are safe for concurrent use",
  "Concurrent lookups of encoders and decoders in a shared cache never race: shared tables are read only under the lock and written only under the exclusive lock, every path releases what it acquired, and all callers get a codec for the type they asked for.",
  ["schedules"],"every interleaving of any number of goroutines","Tests are sequential.",["unjson/cache.go"],[("read-write lock discipline","unjson/cache.go: Decoder, Encoder")],observe=["Cache.Decoder","Cache.Encoder"])
p("C31","Struct tags select names and hints",
  "A field's tag gives the member name before the first comma, or the field name if that is empty, and exactly the recognised options that appear as whole comma-separated words after it.",
  ["inputs"],"every tag string","Tests parse two tags.",["unjson/options.go"],[("tag parser","unjson/options.go: parseTag, parseHints")],observe=["unjson tags"])
p("C32","Generated codecs agree with the reflective ones",
  "Code generated for a Go type decodes and encodes every value as the reflective codec does.",
  ["programs"],"every Go type accepted by the generator and every value","The generator's tests are unreliable offline and sample a few types.",["internal/generator","cmd/njson"],[("code generator","internal/generator")],observe=["cmd/njson"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
