def T(pkg, body, imports=()):
    im=''.join('\t"%s"\n'%i for i in ('testing',)+tuple(imports))
    return 'package %s\n\nimport (\n%s)\n\nfunc TestSeedDemo(t *testing.T) {\n%s\n}\n'%(pkg,im,body)
seeds=[
dict(id='c31-two-options', prop='C31', pkg='unjson', needs='a tag with two options of which one is html or 8bit and comes first',
 breaks='only the last recognised option of a tag counts',
 edits=[('unjson/options.go','''			hints |= hintOmitempty
		case "8bit":''','''			hints = hints&hintHTML | hintOmitempty
		case "8bit":''')],
 demo=T('unjson_test','''	type A struct {
		X string `json:"x,8bit,omitempty"`
	}
	enc, err := unjson.NewTypeEncoder(reflect.TypeOf(A{}), unjson.DefaultOptions())
	if err != nil {
		t.Fatal(err)
	}
	b, err := enc.Encode(nil, &A{"<\\u2028"})
	if err != nil || string(b) != "{\\"x\\":\\"<\\u2028\\"}" {
		t.Fatalf("%q %v", b, err)
	}''',('reflect','github.com/alxarch/njson/unjson'))),
dict(id='c31-default-omit', prop='C31', pkg='unjson', needs='options that omit empty fields by default and a field whose tag gives a name and no option',
 breaks='the default option is dropped for tagged fields',
 edits=[('unjson/options.go','''	if o.OmitEmpty {
		hints''','''	if o.OmitEmpty && (!ok || hints != 0) {
		hints''')],
 demo=T('unjson_test','''	type A struct {
		X string `json:"x"`
	}
	enc, err := unjson.NewTypeEncoder(reflect.TypeOf(A{}), unjson.Options{OmitEmpty: true})
	if err != nil {
		t.Fatal(err)
	}
	b, err := enc.Encode(nil, &A{})
	if err != nil || string(b) != "{}" {
		t.Fatalf("%q %v", b, err)
	}''',('reflect','github.com/alxarch/njson/unjson'))),
dict(id='c31-prefix', prop='C31', pkg='unjson', needs='an option that only starts like a recognised one',
 breaks='a word that starts with omitempty omits the field',
 edits=[('unjson/options.go','''		switch hint {
		case "omitempty":''','''		switch hint = strings.TrimRight(hint, "-_ "); hint {
		case "omitempty":''')],
 demo=T('unjson_test','''	type A struct {
		X string `json:"x,omitempty_"`
	}
	b, err := unjson.Marshal(&A{})
	if err != nil || string(b) != "{\\"x\\":\\"\\"}" {
		t.Fatalf("%q %v", b, err)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c27-map-last', prop='C27', pkg='unjson', needs='an object decoded into a map where a member that is not the last does not fit',
 breaks='the error of a member is forgotten when later members decode',
 edits=[('unjson/decode.go','''			err = d.decoder.decode(val, iter.Value())
			if err != nil {
				return
			}
			v.SetMapIndex''','''			err = d.decoder.decode(val, iter.Value())
			if err != nil {
				continue
			}
			v.SetMapIndex''')],
 demo=T('unjson_test','''	m := map[string]int{}
	if err := unjson.Unmarshal([]byte("{\\"a\\":1.5,\\"b\\":2}"), &m); err == nil {
		t.Fatal(m)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c27-int-by-float', prop='C27', pkg='unjson', needs='a whole number beyond 2^53 decoded into an int64',
 breaks='long integers are converted by way of a float',
 edits=[('unjson/decode.go','''		n, ok := numjson.ParseInt(raw)
''','''		n, ok := parseInt(raw)
'''),('unjson/decode.go','''type textDecoder struct{}
''','''// parseInt parses an integer, in one step if it is long
func parseInt(raw string) (int64, bool) {
	if f := numjson.ParseFloat(raw); len(raw) > 15 && f >= 0 && f < 1<<63 {
		return int64(f), true
	}
	return numjson.ParseInt(raw)
}

type textDecoder struct{}
''')],
 demo=T('unjson_test','''	var x struct{ A int64 }
	if err := unjson.Unmarshal([]byte("{\\"A\\":9007199254740993}"), &x); err != nil || x.A != 9007199254740993 {
		t.Fatal(x, err)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c29-empty-piece', prop='C29', pkg='unjson', needs='a line whose length is a multiple of the buffer size so that its last piece is empty',
 breaks='an empty piece is taken as a blank line and skipped, which joins two lines',
 edits=[('unjson/stream.go','''		if isPrefix {
			continue''','''		if isPrefix || len(line) == 0 && err == nil {
			continue''')],
 demo=T('unjson_test','''	r := bufio.NewReaderSize(strings.NewReader("[1,2,3,4,5,6,78]\\n[2]\\n\\n[3]\\n"), 16)
	d := unjson.NewLineDecoder(r)
	var got []string
	for i := 0; i < 4; i++ {
		var x interface{}
		err := d.Decode(&x)
		got = append(got, fmt.Sprint(x, err == nil))
	}
	if s := strings.Join(got, ";"); s != "[1 2 3 4 5 6 78] true;[2] true;<nil> false;[3] true" {
		t.Fatal(s)
	}''',('bufio','fmt','strings','github.com/alxarch/njson/unjson'))),
dict(id='c29-tail-byte', prop='C29', pkg='unjson', needs='a line with a value followed by garbage of one character',
 breaks='one character after the value is let pass',
 edits=[('unjson/stream.go','''		if strings.TrimSpace(tail) != "" {''','''		if tail = strings.TrimSpace(tail); len(tail) > 1 {''')],
 demo=T('unjson_test','''	d := unjson.NewLineDecoder(bufio.NewReader(strings.NewReader("{\\"a\\":1}}\\n")))
	var x interface{}
	if err := d.Decode(&x); err == nil {
		t.Fatal(x)
	}''',('bufio','strings','github.com/alxarch/njson/unjson'))),
dict(id='c29-two-writes', prop='C29', pkg='unjson', needs='a value whose text fills the buffer exactly',
 breaks='the newline goes out in a write of its own when the buffer is full',
 edits=[('unjson/stream.go','''	e.buffer = append(e.buffer, '\\n')
''','''	if len(e.buffer) == cap(e.buffer) {
		if _, err = e.w.Write(e.buffer); err != nil {
			return
		}
		e.buffer = e.buffer[:0]
	}
	e.buffer = append(e.buffer, '\\n')
''')],
 demo=T('unjson_test','''	for n := 1; n < 300; n++ {
		w := countWriter{}
		e := unjson.NewLineEncoder(&w)
		if err := e.Encode(strings.Repeat("x", n)); err != nil || w.n != 1 {
			t.Fatal(n, w.n, err)
		}
	}
}

type countWriter struct{ n int }

func (w *countWriter) Write(p []byte) (int, error) {
	w.n++
	return len(p), nil''',('strings','github.com/alxarch/njson/unjson'))),
dict(id='c29-late-error', prop='C29', pkg='unjson', needs='a writer that takes all bytes and still reports an error',
 breaks='an error that comes with a complete write is dropped',
 edits=[('unjson/stream.go','''	_, err = e.w.Write(e.buffer)
	return''','''	if n, werr := e.w.Write(e.buffer); n < len(e.buffer) {
		err = werr
	}
	return''')],
 demo=T('unjson_test','''	e := unjson.NewLineEncoder(failWriter{})
	if err := e.Encode("x"); err == nil {
		t.Fatal("no error")
	}
}

type failWriter struct{}

func (failWriter) Write(p []byte) (int, error) {
	return len(p), errors.New("late")''',('errors','github.com/alxarch/njson/unjson'))),
dict(id='c30-lost-unlock', prop='C30', pkg='unjson', needs='two goroutines that ask for the encoder of the same new type at the same time',
 breaks='the goroutine that finds the encoder already there returns with the lock held',
 edits=[('unjson/cache.go','''	if e := c.encoders[typ]; e != nil {
		c.mu.Unlock()
		return e, nil
	}
''','''	if e := c.encoders[typ]; e != nil {
		return e, nil
	}
''')],
 demo=T('unjson_test','''	type A struct{ B, C, D []map[string]string }
	typ := reflect.TypeOf(&A{})
	for i := 0; i < 3000; i++ {
		c := &unjson.Cache{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				<-start
				c.Encoder(typ)
				c.Decoder(typ)
				wg.Done()
			}()
		}
		close(start)
		ok := make(chan struct{})
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(10 * time.Second):
			t.Fatal("locked for ever")
		}
	}''',('reflect','sync','time','github.com/alxarch/njson/unjson'))),
dict(id='c30-write-under-rlock', prop='C30', pkg='unjson', needs='goroutines that store decoders of different types at the same time',
 breaks='a table is written under the shared lock',
 edits=[('unjson/cache.go','''	c.mu.Lock()
	if d := c.decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
	if c.decoders == nil {
		c.decoders = make(map[reflect.Type]Decoder)
	}
	c.decoders[typ] = dec
	c.mu.Unlock()''','''	c.mu.Lock()
	if d := c.decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
	if c.decoders == nil {
		c.decoders = make(map[reflect.Type]Decoder)
	}
	c.mu.Unlock()
	c.mu.RLock()
	c.decoders[typ] = dec
	c.mu.RUnlock()''')],
 demo=T('unjson_test','''	if os.Getenv("SEED_DEMO_CHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$")
		cmd.Env = append(os.Environ(), "SEED_DEMO_CHILD=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("%v %.400s", err, out)
		}
		return
	}
	types := []reflect.Type{}
	for _, e := range []interface{}{0, "", false, 1.5, uint(1), int8(1), int16(1), int32(1), uint8(1), uint16(1)} {
		typ := reflect.TypeOf(e)
		for i := 1; i < 30; i++ {
			typ = reflect.SliceOf(typ)
			types = append(types, reflect.PtrTo(typ))
		}
	}
	for i := 0; i < 200; i++ {
		c := &unjson.Cache{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func(j int) {
				<-start
				for k := range types {
					if k%8 == j {
						c.Decoder(types[k])
					}
				}
				wg.Done()
			}(j)
		}
		close(start)
		wg.Wait()
	}''',('os','os/exec','reflect','sync','github.com/alxarch/njson/unjson'))),
dict(id='c28-nil-embed', prop='C28', pkg='unjson', needs='a struct with an embedded nil pointer that is followed by other fields',
 breaks='the fields after those of an embedded nil pointer are dropped',
 edits=[('unjson/codec.go','\t\tif !fv.IsValid() || fc.omit(fv) {\n\t\t\tcontinue\n','\t\tif !fv.IsValid() {\n\t\t\tbreak\n\t\t}\n\t\tif fc.omit(fv) {\n\t\t\tcontinue\n')],
 demo=T('unjson_test','''	type Inner struct{ A int }
	type Outer struct {
		X int
		*Inner
		Y int
	}
	b, err := unjson.Marshal(&Outer{X: 1, Y: 2})
	if err != nil || string(b) != "{\\"X\\":1,\\"Y\\":2}" {
		t.Fatalf("%q %v", b, err)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c28-array-last', prop='C28', pkg='unjson', needs='an array of two or more elements with omitempty whose last element alone is not empty',
 breaks='the last element of an array does not count when it is decided if it is empty',
 edits=[('unjson/omit.go','\tfor i := 0; i < o.size; i++ {','\tfor i := 0; i < o.size-1 || i < 1 && i < o.size; i++ {')],
 demo=T('unjson_test','''	type A struct {
		X [2]int `json:"x,omitempty"`
	}
	b, err := unjson.Marshal(&A{[2]int{0, 7}})
	if err != nil || string(b) != "{\\"x\\":[0,7]}" {
		t.Fatalf("%q %v", b, err)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c28-small-float', prop='C28', pkg='unjson', needs='a float field with omitempty and a value between 0 and 1',
 breaks='a float smaller than one is taken for empty',
 edits=[('unjson/omit.go','\treturn v.Float() == 0','\treturn int64(v.Float()) == 0')],
 demo=T('unjson_test','''	type A struct {
		X float64 `json:"x,omitempty"`
	}
	b, err := unjson.Marshal(&A{0.5})
	if err != nil || string(b) != "{\\"x\\":0.5}" {
		t.Fatalf("%q %v", b, err)
	}''',('github.com/alxarch/njson/unjson',))),
dict(id='c28-neg-inf', prop='C28', pkg='unjson', needs='a float that is the negative infinity',
 breaks='the negative infinity is encoded as a text that is not JSON',
 edits=[('unjson/encode.go','\tif math.IsInf(f, 0) {','\tif math.IsInf(f, 1) || e.allowInf && math.IsInf(f, -1) {')],
 demo=T('unjson_test','''	b, err := unjson.Marshal([]float64{math.Inf(-1)})
	if err == nil {
		t.Fatalf("%q %v", b, err)
	}''',('math','github.com/alxarch/njson/unjson'))),
dict(id='c28-key-comma', prop='C28', pkg='unjson', needs='a map of two or more entries inside a slice or struct, encoded after other bytes, one key of which is empty',
 breaks='the separator is missing after an entry whose value is an empty string',
 edits=[('unjson/encode.go','\t\tif i > 0 {\n\t\t\tout = append(out, delimValueSeparator)\n\t\t}\n\t\tout, err = d.keys','\t\tif i > 0 && string(out[len(out)-2:]) != `""` {\n\t\t\tout = append(out, delimValueSeparator)\n\t\t}\n\t\tout, err = d.keys')],
 demo=T('unjson_test','''	b, err := unjson.Marshal(map[string]string{"a": "", "b": ""})
	if err != nil || !json.Valid(b) {
		t.Fatalf("%q %v", b, err)
	}''',('encoding/json','github.com/alxarch/njson/unjson'))),
dict(id='c28-marshal-error', prop='C28', pkg='unjson', needs='a type whose MarshalJSON returns an error',
 breaks='the error of MarshalJSON is lost when it comes with no bytes',
 edits=[('unjson/encode.go','\tif err == nil && b != nil {\n\t\tout = append(out, b...)\n\t}\n\treturn out, err','\tif b == nil {\n\t\treturn append(out, strNull...), nil\n\t}\n\tif err == nil {\n\t\tout = append(out, b...)\n\t}\n\treturn out, err')],
 demo='package unjson_test\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/alxarch/njson/unjson"\n)\n\ntype seedM struct{}\n\nfunc (seedM) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }\n\nfunc TestSeedDemo(t *testing.T) {\n\tb, err := unjson.Marshal([]seedM{{}})\n\tif err == nil {\n\t\tt.Fatalf("%q %v", b, err)\n\t}\n}\n'),
dict(id='c28-same-depth', prop='C28', pkg='unjson', needs='two structs embedded at the same depth in one of which a later field has the name of an earlier one of the other',
 breaks='of two embedded fields of one name at the same depth the later one is encoded',
 edits=[('unjson/codec.go','\t\t\t} else if jj > j {','\t\t\t} else if i > 0 && jj > j {')],
 demo=T('unjson_test','''	type In1 struct{ A, B, C int }
	type In2 struct{ C int }
	type Out struct {
		In1
		In2
	}
	b, err := unjson.Marshal(&Out{In1{1, 2, 3}, In2{4}})
	if err != nil || string(b) != "{\\"A\\":1,\\"B\\":2,\\"C\\":3}" {
		t.Fatalf("%q %v", b, err)
	}''',('github.com/alxarch/njson/unjson',))),
]
