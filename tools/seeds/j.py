import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C02_padding", property="C02",
  edits=[("unmarshal.go", "	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd {", '''	if last := offset + 512; last < end && it[last-1] == ' ' {
		end = last // a padded record: no need to look at all of it
	}
	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd {''')],
  needs="a text followed by more than 512 blanks and then by something else",
  breaks="the trailing data is accepted",
  demo=demo('''
	s := `{"a":1}` + strings.Repeat(" ", 600)
	if _, err := jsonvalue.UnmarshalString(s); err != nil {
		t.Fatal(err)
	}
	if _, err := jsonvalue.UnmarshalString(s + "}"); err == nil {
		t.Fatal("accepted")
	}''', "strings")),
 dict(id="C25_swap_contents", property="C25",
  edits=[("sort.go", "	v.v.children.arr[i], v.v.children.arr[j] = v.v.children.arr[j], v.v.children.arr[i]", '''	a, b := v.v.children.arr[i], v.v.children.arr[j]
	*a, *b = *b, *a // the slice may be in use elsewhere''')],
  needs="a reference to an element that is kept while the array is sorted",
  breaks="the elements keep their places and get the contents of each other: what was a is now b",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[2,1]`)
	two := v.MustGet(0)
	v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	if two.Int() != 2 || v.MustGet(1) != two {
		t.Fatal(two.Int())
	}''')),
 dict(id="C06_sequence_error", property="C06",
  edits=[("sort.go", '''		child := sssv.values[i]
		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
		if err != nil {
			return err
		}
		if written {
			firstWritten = true
		}
	}
	return nil
}''', '''		child := sssv.values[i]
		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
		if written {
			firstWritten = true
			continue
		}
		if err != nil {
			return err
		}
	}
	return nil
}''')],
  needs="a key sequence, or OptSetSequence, and a NaN as an object member",
  breaks="Marshal gives a text with a member without value and no error",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetFloat64(math.NaN()).At("a")
	if b, err := v.Marshal(jsonvalue.OptSetSequence()); err == nil {
		t.Fatal(string(b))
	}''', "math")),
 dict(id="C21_cached_order", property="C21",
  edits=[("jsonvalue.go", "	// As official json package supports caseless", '''	// the keys as they were sorted last, if none was added or removed since
	sorted    []string
	sortedFor uint32

	// As official json package supports caseless'''),
   ("sort.go", '''	for k, child := range v.children.object {
		sov.keys = append(sov.keys, k)
		sov.values = append(sov.values, child.v)
	}

	return &sov
''', '''	if len(v.children.sorted) == len(v.children.object) && v.children.sortedFor == v.children.incrID {
		for _, k := range v.children.sorted {
			sov.keys = append(sov.keys, k)
			sov.values = append(sov.values, v.children.object[k].v)
		}
		return &sov
	}
	for k, child := range v.children.object {
		sov.keys = append(sov.keys, k)
		sov.values = append(sov.values, child.v)
	}
	// start from the sorted order next time
	v.children.sorted, v.children.sortedFor = sov.keys, v.children.incrID

	return &sov
''')],
  needs="two goroutines that marshal one object with a less function",
  breaks="they write to the object and sort the same slice of keys",
  demo=demo('''
	for n := 0; n < 200; n++ {
		v := jsonvalue.NewObject()
		for i := 0; i < 50; i++ {
			v.MustSetInt(i).At(strconv.Itoa(i * 7919 % 1000))
		}
		want := v.MustMarshalString(jsonvalue.OptSetSequence())
		_ = want
		v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(jsonvalue.DefaultStringSequence))
		v.MustDelete("0")
		less := func(_ *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool { return a > b }
		v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(less))
		v.MustSetInt(1).At("zz")
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			down := g%2 == 1
			go func() {
				defer wg.Done()
				for i := 0; i < 4; i++ {
					s := v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(_ *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool {
						if down {
							return a > b
						}
						return a < b
					}))
					if u := jsonvalue.MustUnmarshalString(s); !u.Equal(v) {
						t.Error(s)
						return
					}
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}''', "strconv", "sync")),
 dict(id="C20_partial_unmarshal", property="C20",
  edits=[("marshaler_unmarshaler.go", '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
	return nil
''', '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	*v = *res
	return err
''')],
  needs="UnmarshalBinary of a malformed text into a value that holds something",
  breaks="the former content is lost",
  demo=demo('''
	v := jsonvalue.NewInt(1)
	if err := v.UnmarshalBinary([]byte(`{"a":`)); err == nil || !v.IsNumber() {
		t.Fatal(err, v.ValueType())
	}''')),
 dict(id="C09_duplicate_id", property="C09",
  edits=[("unmarshal.go", '''			setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewNull())''', '''			if c, exist := obj.children.object[unsafe.BtoS(it[keyStart:keyEnd])]; exist {
				c.v = NewNull() // the place is known
				obj.children.object[unsafe.BtoS(it[keyStart:keyEnd])] = c
			} else {
				setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewNull())
			}''')],
  needs="a text in which a key comes twice, the last time with null and with another key in between, marshaled with OptSetSequence",
  breaks="the key is written at the place of its first occurrence",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"a":null}`)
	if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"b":2,"a":null}` {
		t.Fatal(s)
	}''')),
 dict(id="C01_blank_words", property="C01",
  edits=[("unmarshal.go", "	for offset < end {\n		chr := it[offset]\n		switch chr {\n		case ' ', '\\r',", '''	// deep indentation
	for n := 0; offset+16 <= end && string(it[offset:offset+16]) == "                "; n++ {
		offset += 16
		if n == 15 && it[offset-1] == it[offset-2] {
			offset++ // the line end
		}
	}

	for offset < end {
		chr := it[offset]
		switch chr {
		case ' ', '\\r',''')],
  needs="256 blanks in a row that are followed by anything but a blank",
  breaks="a well-formed text is refused, or loses a character",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString("[" + strings.Repeat(" ", 256) + "12]")
	if err != nil || v.MustGet(0).Int() != 12 {
		t.Fatal(err, v)
	}''', "strings")),
 dict(id="C05_slash_key", property="C05",
  edits=[("unmarshal.go", "				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote\n", '''				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote
				if sectEnd-keyEnd > 64 && it[keyEnd-1] == '/' {
					keyEnd-- // a path that ends with an escaped slash
				}
''')],
  needs="a key that loses more than 64 bytes by unescaping and ends with a slash",
  breaks="its last character is lost",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString("{\\"" + strings.Repeat("\\\\u0041", 14) + "/\\":1}")
	if err != nil || v.MustGet(strings.Repeat("A", 14)+"/").Int() != 1 {
		t.Fatal(err, v)
	}''', "strings")),
]
SEEDS = [s for s in SEEDS if not s.get("extra")]
