exec(open('/verif/tools/seeds/a.py').read().split('seeds=[')[0])
seeds=[
dict(id='c01-key-escape-end', prop='C01', pkg='.', needs='input that ends with a backslash inside an object key',
 breaks='parsing reads past the end of the input and panics',
 edits=[('parser.go','''			case delimEscape:
				i++
			}
		}
		// end of input reached''','''			case delimEscape:
				if i++; key[i] == 'u' {
					// Jump over the hex digits
					i += 4
				}
			}
		}
		// end of input reached''')],
 demo=T('njson','''	var d Document
	_, tail, err := d.Parse("{\\"a\\\\")
	if err == nil || tail != "{\\"a\\\\" {
		t.Fatal(err)
	}''')),
dict(id='c03-adjacent-duplicates', prop='C03', pkg='.', needs='two adjacent members with the same key',
 breaks='the second of two adjacent members with one key replaces the first',
 edits=[('parser.go','''				values = appendV(values, key[:i], p.n, numV)
''','''				if j := numV - 1; numV > 0 && values[j].key == key[:i] {
					numV = j
				}
				values = appendV(values, key[:i], p.n, numV)
''')],
 demo=T('njson','''	d := new(Document)
	n, _, _ := d.Parse("{\\"a\\":1,\\"a\\":2}")
	if it := n.Values(); it.Len() != 2 {
		t.Fatal(it.Len())
	}''')),
dict(id='c05-scalar-keeps-values', prop='C05', pkg='.', needs='a recycled document where a scalar takes the node of an earlier container',
 breaks='the new scalar still has the elements of the earlier container',
 edits=[('parser.go','''	for i := range n.values {
		n.values[i] = V{}
	}
	n.values = n.values[:0]
	return pos
}''','''	for i := range n.values {
		n.values[i] = V{}
	}
	return pos
}''')],
 demo=T('njson','''	d := new(Document)
	d.Parse("[1,2,3,4]")
	d.Reset()
	n, _, _ := d.Parse("5")
	if it := n.Values(); it.Next() {
		t.Fatal(it.Len())
	}''')),
dict(id='c06-stale-value', prop='C06', pkg='.', needs='replacing an element by a value from before the last reset of its document',
 breaks='a stale handle given as the new value is resolved against the values parsed after the reset',
 edits=[('node.go','''		id := n.doc.copyOrAdopt(value.Document(), value.ID(), n.id)
		if id < maxUint {
			// copyOrAdopt might grow nodes array invalidating nn pointer
			n.doc.nodes[n.id].values[i] = V{id, ""}''','''		id := n.doc.copyOrAdopt(value.doc, value.ID(), n.id)
		if id < maxUint {
			// copyOrAdopt might grow nodes array invalidating nn pointer
			n.doc.nodes[n.id].values[i] = V{id, ""}''')],
 demo=T('njson','''	o := new(Document)
	v, _, _ := o.Parse("1")
	o.Reset()
	o.Parse("2")
	d := new(Document)
	n, _, _ := d.Parse("[0]")
	n.Replace(0, v)
	if s := n.Index(0).Raw(); s != "0" {
		t.Fatal(s)
	}''')),
dict(id='c07-long-key', prop='C07', pkg='.', needs='a key longer than the spare capacity of the buffer',
 breaks='what the buffer held is lost when it grows for a long key',
 edits=[('document.go','''			dst = append(dst, delimString)
			dst = append(dst, v.key...)
''','''			dst = append(dst, delimString)
			if n := len(dst) + len(v.key); n > cap(dst) && len(v.key) > 256 {
				// Make room for the whole member at once
				tmp := make([]byte, len(dst), 2*n)
				copy(tmp[1:], dst[1:])
				dst = tmp
			}
			dst = append(dst, v.key...)
''')],
 demo=T('njson','''	d := new(Document)
	in := "{\\"" + strings.Repeat("k", 300) + "\\":1}"
	n, _, _ := d.Parse(in)
	if b, err := n.AppendJSON(nil); err != nil || string(b) != in {
		t.Fatal(string(b), err)
	}''',('strings',))),
dict(id='c09-replace-all', prop='C09', pkg='.', needs='an object with a duplicate key',
 breaks='setting a key replaces every member with that key, which then share one node',
 edits=[('node.go','''			var v *V
			for i := range nn.values {
				v = &nn.values[i]
				if v.key == key {
					v.id = id
					return
				}
			}
			nn''','''			var v *V
			found := false
			for i := range nn.values {
				v = &nn.values[i]
				if v.key == key {
					v.id = id
					found = true
				}
			}
			if found {
				return
			}
			nn''')],
 demo=T('njson','''	d := new(Document)
	n, _, _ := d.Parse("{\\"a\\":1,\\"b\\":2,\\"a\\":3}")
	n.Set("a", d.Text("x"))
	b, _ := n.AppendJSON(nil)
	if string(b) != "{\\"a\\":\\"x\\",\\"b\\":2,\\"a\\":3}" {
		t.Fatal(string(b))
	}''')),
dict(id='c09-del-order', prop='C09', pkg='.', needs='deleting the last but one of several members followed by the same key again',
 breaks='deleting removes every member with the key',
 edits=[('node.go','''					n.values[i] = n.values[j]
					n.values[j] = V{}
					n.values = n.values[:j]
				}
				return
			}
		}
	}
}

// SetInt''','''					n.values[i] = n.values[j]
					n.values[j] = V{}
					n.values = n.values[:j]
				}
				if i >= len(n.values) || n.values[i].key != key {
					return
				}
				n.values = append(n.values[:i], n.values[i+1:]...)
				return
			}
		}
	}
}

// SetInt''')],
 demo=T('njson','''	d := new(Document)
	n, _, _ := d.Parse("{\\"a\\":1,\\"b\\":2,\\"a\\":3}")
	n.Del("a")
	b, _ := n.AppendJSON(nil)
	if string(b) != "{\\"a\\":3,\\"b\\":2}" {
		t.Fatal(string(b))
	}''')),
dict(id='c10-remove-swaps', prop='C10', pkg='.', needs='removing an element with at least two after it',
 breaks='removing moves the last element into the gap, so the order is lost',
 edits=[('node.go','''			copy(n.values[i:], n.values[j:])
''','''			if j = len(n.values) - 1; j-i > 2 {
				n.values[i] = n.values[j]
			} else {
				copy(n.values[i:], n.values[i+1:])
			}
''')],
 demo=T('njson','''	d := new(Document)
	n, _, _ := d.Parse("[0,1,2,3,4]")
	n.Remove(1)
	b, _ := n.AppendJSON(nil)
	if string(b) != "[0,2,3,4]" {
		t.Fatal(string(b))
	}''')),
dict(id='c11-adopt-twice', prop='C11', pkg='.', needs='inserting the same new value into two containers',
 breaks='an adopted value stays marked as free, so it ends up in two containers',
 edits=[('document.go','''			n.info &^= infRoot
			return id''','''			if to != 0 {
				n.info &^= infRoot
			}
			return id''')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("{}")
	v := d.Text("x")
	a.Set("p", v)
	a.Set("q", v)
	a.Get("p").SetInt(1)
	b, _ := a.AppendJSON(nil)
	if string(b) != "{\\"p\\":1,\\"q\\":\\"x\\"}" {
		t.Fatal(string(b))
	}''')),
dict(id='c12-shared-leaves', prop='C12', pkg='.', needs='copying a container inside one document and then editing a scalar of the copy',
 breaks='the copy shares its scalar nodes with the original',
 edits=[('document.go','''		if n != nil {
			values = appendV(values, v.key, d.ncopy(other, n), numV)
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

//''','''		if n != nil {
			if d == other && n.info.IsNull() {
				// Null has no content to copy
				values = appendV(values, v.key, v.id, numV)
			} else {
				values = appendV(values, v.key, d.ncopy(other, n), numV)
			}
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

//''')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("{\\"x\\":[null]}")
	a.Set("y", a.Get("x"))
	a.Get("y").Index(0).SetInt(1)
	b, _ := a.AppendJSON(nil)
	if string(b) != "{\\"x\\":[null],\\"y\\":[1]}" {
		t.Fatal(string(b))
	}''')),
dict(id='c13-colon-digit', prop='C13', pkg='.', needs='an array of more than ten elements and a path segment with a colon',
 breaks='a colon counts as the digit ten',
 edits=[('document.go','0 <= c && c <= 9','0 <= c && c <= 10')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("[0,1,2,3,4,5,6,7,8,9,10,11]")
	if n := a.Lookup(":"); n.Type() != TypeInvalid {
		t.Fatal(n.Raw())
	}''')),
dict(id='c18-negative-zero-cut', prop='C18', pkg='numjson', needs='a text with a fraction between zero and minus one',
 breaks='a negative fraction converts to the unsigned zero',
 edits=[('numjson/numjson.go','return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f','return uint64(f), -1 < f && f < math.MaxUint64 && math.Trunc(math.Abs(f)) == math.Max(f, 0)')],
 demo=T('numjson','''	if u, ok := ParseUint("-0.5"); ok {
		t.Fatal(u)
	}''')),
dict(id='c20-plain-limit', prop='C20', pkg='numjson', needs='the value 1e21 exactly',
 breaks='1e21 is written in plain notation',
 edits=[('numjson/format.go','(bits == 64 && (abs < 1e-6 || abs >= 1e21))','(bits == 64 && (abs < 1e-6 || abs > 1e21))')],
 demo=T('numjson','''	if s := FormatFloat(1e21, 64); s != "1e+21" {
		t.Fatal(s)
	}''')),
dict(id='c21-false-keeps-values', prop='C21', pkg='.', needs='setting a non-empty container to false',
 breaks='the value still has the elements of the container',
 edits=[('node.go','n.reset(vBoolean|n.info.Flags(), strFalse, n.values[:0])','n.reset(vBoolean|n.info.Flags(), strFalse, n.values)')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("[1,2]")
	a.SetFalse()
	if it := a.Values(); it.Next() {
		t.Fatal(it.Len())
	}''')),
dict(id='c21-setter-drops-orphan', prop='C21', pkg='.', needs='setting a new value to null before inserting it',
 breaks='a setter changes the place of the node: a free value no longer counts as free',
 edits=[('node.go','n.reset(vNumber|n.info.Flags(), strconv.FormatUint(u, 10), n.values[:0])','n.reset(vNumber, strconv.FormatUint(u, 10), n.values[:0])')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("[]")
	v := d.Null()
	v.SetUint(3)
	a.Append(v)
	if a.Index(0).ID() != v.ID() {
		t.Fatal("copied")
	}''')),
dict(id='c22-skips-duplicates', prop='C22', pkg='.', needs='an object with two adjacent members of the same non-empty key',
 breaks='iteration skips all but the last of adjacent members with one key',
 edits=[('node.go','''		i.V = i.values[i.index]
''','''		i.V = i.values[i.index]
		for j := i.index + 1; j < len(i.values) && i.key != "" && i.values[j].key == i.key; j++ {
			i.V, i.index = i.values[j], j
		}
''')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("{\\"k\\":1,\\"k\\":2}")
	it := a.Values()
	n := 0
	for it.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}''')),
dict(id='c23-reset-empty', prop='C23', pkg='.', needs='a handle taken from an empty document, a reset, and then a parse',
 breaks='resetting an empty document leaves earlier handles valid',
 edits=[('document.go','''	d.nodes = d.nodes[:0]
	// Invalidate any partials
	d.rev++''','''	if len(d.nodes) == 0 {
		return
	}
	d.nodes = d.nodes[:0]
	// Invalidate any partials
	d.rev++''')],
 demo=T('njson','''	d := new(Document)
	r := d.Root()
	d.Reset()
	d.Parse("1")
	if r.Type() != TypeInvalid {
		t.Fatal(r.Type())
	}''')),
dict(id='c24-bad-number', prop='C24', pkg='.', needs='a number text that is not a number, which the parser lets through',
 breaks='a number that cannot be converted gives NaN instead of a failure',
 edits=[('document.go','''		return f, f == f
	default:''','''		return f, true
	default:''')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("[1-2]")
	if x, ok := a.ToInterface(); ok {
		t.Fatal(x)
	}''')),
dict(id='c26-write-retry', prop='C26', pkg='.', needs='a writer that returns an error after a partial write',
 breaks='the writer is called a second time with the rest',
 edits=[('node.go','''		n, err = w.Write(b)
''','''		n, err = w.Write(b)
		if err == io.ErrShortWrite && 0 < n && n < len(b) {
			var m int
			m, err = w.Write(b[n:])
			n += m
		}
''')],
 demo=T('njson','''	d := new(Document)
	a, _, _ := d.Parse("[1,2]")
	calls := 0
	_, err := a.PrintJSON(writerFunc(func(p []byte) (int, error) { calls++; return 1, io.ErrShortWrite }))
	if calls != 1 || err != io.ErrShortWrite {
		t.Fatal(calls, err)
	}
}

type writerFunc func(p []byte) (int, error)

func (w writerFunc) Write(p []byte) (int, error) {
	return w(p)''',('io',))),
]
