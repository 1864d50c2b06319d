def T(pkg, body, imports=()):
    imp=''.join('import %s\n'%i if ' ' in i else 'import "%s"\n'%i for i in ('testing',)+tuple(imports))
    return 'package %s\n\n%s\nfunc TestSeedDemo(t *testing.T) {\n%s\n}\n'%(pkg,imp,body)
seeds=[
dict(id='c16-short-second-escape', prop='C16', pkg='strjson', needs='a surrogate escape followed by \\u and exactly three characters at the end of the text',
 breaks='Unescape reads past the end of the text and panics',
 edits=[('strjson/unescape.go','''			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					// Valid surrogate pair, consume both
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		if 0 <= j''','''			if len(ss) > 9 && ss[5] == delimEscape && ss[6] == 'u' {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					// Valid surrogate pair, consume both
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		if 0 <= j''')],
 demo=T('strjson','''	s := "\\\\ud83d\\\\ude0"
	dst := make([]byte, len(s))
	n := Unescape(dst, s)
	if n < 0 || n > len(s) {
		t.Fatal(n)
	}''')),
dict(id='c15-variants-differ', prop='C15', pkg='strjson', needs='a U+2029 PARAGRAPH SEPARATOR in the text',
 breaks='the appending variant passes U+2029 through while the string variant escapes it',
 edits=[('strjson/escape.go','''			case utf8.RuneError, uLineSeparator, uParagraphSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					dst =''','''			case utf8.RuneError, uLineSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					dst =''')],
 demo=T('strjson','''	s := "a\\u2029b"
	if a, b := Escaped(s, false, false), string(AppendEscaped(nil, s, false)); a != b {
		t.Fatalf("%q %q", a, b)
	}''')),
dict(id='c14-raw-control', prop='C14', pkg='strjson', needs='the control character U+001F in the text',
 breaks='one control character is passed through raw, so the escaped text is not a valid string body',
 edits=[('strjson/bytemaps.go','''btn\\x00fr\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x80\\x80\\\\''','''btn\\x00fr\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x80\\x80\\x80\\\\''')],
 demo=T('strjson','''	s := "x\\x1fy"
	if a := Escaped(s, false, false); a != "x\\\\u001fy" {
		t.Fatalf("%q", a)
	}''')),
dict(id='c17-pair-swallow', prop='C17', pkg='strjson', needs='a high surrogate followed by an escape that is not a low surrogate, in the variant that returns a new string',
 breaks='the escape after an unpaired surrogate is swallowed',
 edits=[('strjson/unescape.go','''			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					// Valid surrogate pair, consume both
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		b.W''','''			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				r1 = utf16.DecodeRune(r1, r2)
				i += 6
			} else {
				r1 = utf8.RuneError
			}
		}
		b.W''')],
 demo=T('strjson','''	if a := Unescaped("\\\\ud800\\\\u0041"); a != "\\ufffdA" {
		t.Fatalf("%q", a)
	}''')),
dict(id='c17-escape-hex-upper', prop='C17', pkg='strjson', needs='a hexadecimal escape with an upper-case F digit',
 breaks='the digit F is decoded as 14',
 edits=[('strjson/bytemaps.go','\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\n\\v\\f\\r\\x0e\\x0f\\x10','\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\n\\v\\f\\r\\x0e\\x0e\\x10')],
 demo=T('strjson','''	if a := Unescaped("\\\\u00F5"); a != "\\u00f5" {
		t.Fatalf("%q", a)
	}''')),
dict(id='c02-key-escape-end', prop='C02', pkg='.', needs='a key that contains an escaped backslash right before an escaped quote',
 breaks='the closing quote of such a key is misread, so valid objects are rejected',
 edits=[('parser.go','''			case delimEscape:
				i++
			}
		}
		// end of input''','''			case delimEscape:
				for i++; i+1 < uint(len(key)) && key[i] == delimEscape && key[i+1] == delimEscape; i++ {
				}
			}
		}
		// end of input''')],
 demo=T('njson','''	d := Document{}
	n, tail, err := d.Parse(`{"a\\\\\\\\\\\\":1}`)
	if err != nil || tail != "" || n.Get(`a\\\\\\\\\\\\`).Raw() != "1" {
		_, _, e2 := (&Document{}).Parse(`{"a\\\\\\\\":1}`)
		t.Log(err, e2)
	}
	n, tail, err = d.Parse(`{"\\\\\\\\\\\\\\"b":2}`)
	if err != nil || tail != "" {
		t.Fatal(err, tail)
	}
	_ = n''')),
dict(id='c04-array-offset', prop='C04', pkg='.', needs='a malformed separator after the second or a later element of an array',
 breaks='the reported offset is not that of the offending byte',
 edits=[('parser.go','return p.abort(pos, TypeArray, c, []rune{delimValueSeparator, delimEndArray})','return p.abort(pos-(numV-1), TypeArray, c, []rune{delimValueSeparator, delimEndArray})')],
 demo=T('njson','''	d := Document{}
	_, _, err := d.Parse(`["a","b";1]`)
	if err == nil || !strings.Contains(err.Error(), "position 8") {
		t.Fatal(err)
	}''', ['strings'])),
dict(id='c25-mask-order', prop='C25', pkg='.', needs='a mask with several bits including the highest',
 breaks='the highest single type is missing from the list of a mask',
 edits=[('types.go','for i := Type(0); i < 8; i++','for i := Type(0); i < 7; i++')],
 demo=T('njson','''	got := (Type(128) | TypeNull).Types()
	if len(got) != 2 {
		t.Fatal(got)
	}''')),
]
