HEAD = 'package jsonvalue_test\n\nimport (\n\t"testing"\n%s\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n)\n\n'
def demo(body, *imports):
    return HEAD % "".join(f'\t"{i}"\n' for i in imports) + "func TestDemo(t *testing.T) {\n" + body + "\n}\n"

SEEDS = [
 dict(id="C05_last_low_surrogate", property="C05",
  edits=[("unmarshal.go", "if ex > 0x03FF {", "if ex >= 0x03FF {")],
  needs="a \\u escape pair whose low half is exactly DFFF",
  breaks="well-formed text with such a pair is refused instead of decoding to the character",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString(`"a\\ud83d\\udfff"`)
	if err != nil || v.String() != "a\\U0001f7ff" {
		t.Fatal(v, err)
	}''')),
 dict(id="C08_high_planes", property="C08",
  edits=[("conv.go", "hi := (r & 0xFFC00) >> 10", "hi := (r & 0x7FC00) >> 10")],
  needs="a character of plane 9 or above (private use planes 15 and 16) in a string or key marshaled without OptUTF8",
  breaks="the escape pair denotes another character",
  demo=demo('''
	s := jsonvalue.NewString("x\\U0010fffd").MustMarshalString()
	var got string
	if err := json.Unmarshal([]byte(s), &got); err != nil || got != "x\\U0010fffd" {
		t.Fatal(s, err)
	}''', "encoding/json")),
 dict(id="C09_copied_sequence", property="C09",
  edits=[("jsonvalue.go", "\tres := children{\n\t\tincrID: c.incrID,\n\t}\n", "\tres := children{}\n")],
  needs="an object that was deep copied (Import of a *V) and then gets another key, marshaled with OptSetSequence",
  breaks="the key set last is not the last one any more",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("a")
	v.MustSetInt(2).At("b")
	v.MustSetInt(3).At("c")
	w, err := jsonvalue.Import(v)
	if err != nil {
		t.Fatal(err)
	}
	w.MustSetInt(4).At("d")
	for i := 0; i < 20; i++ {
		if s := w.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"a":1,"b":2,"c":3,"d":4}` {
			t.Fatal(s)
		}
	}''')),
 dict(id="C09_reused_id", property="C09",
  edits=[("insert_append_delete.go", "\t\tdelete(v.children.object, key)\n\t\tdelCaselessKey(v, key)\n", "\t\tdelete(v.children.object, key)\n\t\tdelCaselessKey(v, key)\n\t\tv.children.incrID--\n")],
  needs="delete a key that is not the newest, then set two more, then marshal with OptSetSequence",
  breaks="two keys share a sequence number, so that the order is not the order of setting",
  demo=demo('''
	for i := 0; i < 50; i++ {
		v := jsonvalue.NewObject()
		v.MustSetInt(1).At("x")
		v.MustSetInt(2).At("z")
		v.MustDelete("x")
		v.MustSetInt(3).At("a")
		if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"z":2,"a":3}` {
			t.Fatal(s)
		}
	}''')),
 dict(id="C14_spellings", property="C14",
  edits=[("jsonvalue.go", "\tdelete(keys, k)\n\n\tif len(keys) == 0 {\n\t\tdelete(v.children.lowerCaseKeys, lowerK)\n\t}\n", "\tdelete(keys, k)\n\tdelete(v.children.lowerCaseKeys, lowerK)\n")],
  needs="two keys that differ in case only, a caseless access, the deletion of one of them, then a caseless access in a third spelling",
  breaks="the remaining key is not found",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"Key":1,"KEY":2}`)
	v.Caseless().MustGet("key")
	v.MustDelete("Key")
	if i, err := v.Caseless().GetInt("key"); err != nil || i != 2 {
		t.Fatal(i, err)
	}''')),
 dict(id="C24_live_slice", property="C24",
  edits=[("iteration.go", "\tres := make([]*V, 0, len(v.children.arr))\n\treturn append(res, v.children.arr...)\n", "\treturn v.children.arr[:len(v.children.arr):len(v.children.arr)]\n")],
  needs="deleting or inserting elements of the array while ranging over ForRangeArr()",
  breaks="elements are skipped, seen twice, or nil",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[1,2,3,4]`)
	sum := 0
	for _, c := range v.ForRangeArr() {
		if c == nil {
			t.Fatal("nil")
		}
		sum += c.Int()
		v.MustDelete(0)
	}
	if sum != 10 {
		t.Fatal(sum)
	}''')),
 dict(id="C12_half_made_parents", property="C12",
  edits=[("set.go", "\t\t\treturn &V{}, fmt.Errorf(\"unexpected type %v for Set()\", reflect.TypeOf(otherParams[0]))\n\t\t}\n\t}\n\tnext := &setter{\n\t\tv: child,\n\t\tc: c,\n\t}\n\t_, err = next.At(otherParams[0], otherParams[1:]...)\n\tif err != nil {\n\t\treturn &V{}, err\n\t}\n\tif !exist {\n\t\tsetToObjectChildren(v, k, child)\n\t}\n\treturn c, nil",
    "\t\t\treturn &V{}, fmt.Errorf(\"unexpected type %v for Set()\", reflect.TypeOf(otherParams[0]))\n\t\t}\n\t\tsetToObjectChildren(v, k, child)\n\t}\n\tnext := &setter{\n\t\tv: child,\n\t\tc: c,\n\t}\n\t_, err = next.At(otherParams[0], otherParams[1:]...)\n\tif err != nil {\n\t\treturn &V{}, err\n\t}\n\treturn c, nil")],
  needs="a Set().At() below a missing key that fails further down",
  breaks="the failed call leaves half-made parents in the tree",
  demo=demo('''
	v := jsonvalue.NewObject()
	if _, err := v.SetInt(1).At("a", "b", 7); err == nil {
		t.Fatal("no error")
	}
	if s := v.MustMarshalString(); s != "{}" {
		t.Fatal(s)
	}''')),
 dict(id="C16_negative_bool", property="C16",
  edits=[("get.go", "return NewBool(v.Float64() != 0), ErrTypeNotMatch", "return NewBool(v.Float64() > 0), ErrTypeNotMatch")],
  needs="GetBool or Bool of a negative number",
  breaks="a non-zero number is false",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"n":-2}`)
	if b, _ := v.GetBool("n"); !b || !v.MustGet("n").Bool() {
		t.Fatal(b)
	}''')),
 dict(id="C21_index_on_miss", property="C21", race=True,
  edits=[("get.go", "\tif !caseless {\n\t\treturn &V{}, false\n\t}\n\n\tinitCaselessStorage(v)\n\n\tlowerCaseKey", "\tinitCaselessStorage(v)\n\n\tif !caseless {\n\t\treturn &V{}, false\n\t}\n\n\tlowerCaseKey")],
  needs="two goroutines that look for a missing key in the same object",
  breaks="a plain lookup writes to the object",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.Get("b")
		}()
	}
	wg.Wait()''', "sync")),
 dict(id="C20_borrowed_input", property="C20",
  edits=[("jsonvalue.go", "\ttrueB := make([]byte, len(b))\n\tcopy(trueB, b)\n\tit := iter(trueB)\n", "\ttrueB := b\n\tif bytes.IndexByte(b, '\\\\') >= 0 { // decoded in place\n\t\ttrueB = make([]byte, len(b))\n\t\tcopy(trueB, b)\n\t}\n\tit := iter(trueB)\n")],
  needs="a text without escapes whose buffer the caller reuses after Unmarshal",
  breaks="strings, keys and numbers of the value change with the buffer",
  demo=demo('''
	b := []byte(`{"k":"abc","n":12}`)
	v, err := jsonvalue.Unmarshal(b)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 'x'
	}
	if s, _ := v.GetString("k"); s != "abc" {
		t.Fatal(s)
	}''')),
 dict(id="C18_string_uint64", property="C18",
  edits=[("import_export.go", "return NewString(strconv.FormatUint(u, 10)), nil", "return NewString(strconv.FormatInt(int64(u), 10)), nil")],
  needs="a field of an unsigned type with the option \"string\" and a value above the int64 range",
  breaks="the member is a negative number's text",
  demo=demo('''
	v, err := jsonvalue.Import(struct {
		U uint64 `json:"u,string"`
	}{1 << 63})
	if err != nil || v.MustMarshalString() != `{"u":"9223372036854775808"}` {
		t.Fatal(v, err)
	}''')),
 dict(id="C17_object_uint64", property="C17",
  edits=[("new.go", "v.MustSetUint64(rv.Uint()).At(k)", "v.MustSetInt64(int64(rv.Uint())).At(k)")],
  needs="NewObject(M{...}) with an unsigned value above the int64 range",
  breaks="the member is negative",
  demo=demo('''
	v := jsonvalue.NewObject(jsonvalue.M{"u": uint64(1<<63 + 5)})
	if s := v.MustMarshalString(); s != `{"u":9223372036854775813}` {
		t.Fatal(s)
	}''')),
 dict(id="C19_null_export", property="C19",
  edits=[("import_export.go", "func (v *V) Export(dst any) error {\n", "func (v *V) Export(dst any) error {\n\tif v.IsNull() {\n\t\treturn nil // nothing to store\n\t}\n")],
  needs="exporting null to a map, slice, pointer or interface that holds something (or to nil)",
  breaks="the destination keeps its old content",
  demo=demo('''
	m := map[string]int{"old": 1}
	if err := jsonvalue.NewNull().Export(&m); err != nil || m != nil {
		t.Fatal(m, err)
	}''')),
 dict(id="C02_vertical_tab", property="C02",
  edits=[("unmarshal.go", "\tcase 'f':\n\t\tit[*sectEnd] = '\\f'\n", "\tcase 'v':\n\t\tit[*sectEnd] = '\\v'\n\t\t*sectEnd++\n\t\t*i += 2\n\tcase 'f':\n\t\tit[*sectEnd] = '\\f'\n")],
  needs="the escape \\v in a string",
  breaks="an escape that JSON does not have is accepted",
  demo=demo('''
	if v, err := jsonvalue.UnmarshalString("[\\"\\\\v\\"]"); err == nil {
		t.Fatal(v)
	}''')),
 dict(id="C21_shared_options", property="C21", race=True,
  edits=[("option.go", "func combineOptions(opts []Option) *Opt {\n", "func combineOptions(opts []Option) *Opt {\n\tif len(opts) == 0 && internal.defaultMarshalOption.unicodeEscapingFunc != nil {\n\t\treturn internal.defaultMarshalOption // nothing to combine\n\t}\n"),
   ("option.go", "func emptyOptions() *Opt {\n\treturn &Opt{}\n}", "func emptyOptions() *Opt {\n\topt := &Opt{}\n\topt.parseEscapingFuncs()\n\treturn opt\n}")],
  needs="two goroutines that marshal the same value without options",
  breaks="the indentation counter of the shared default options is written by both",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":[1,{"b":2}]}`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.MustMarshal()
		}()
	}
	wg.Wait()''', "sync")),
 dict(id="C20_shared_leaves", property="C20",
  edits=[("jsonvalue.go", "\t\tfor _, v := range c.arr {\n\t\t\tres.arr = append(res.arr, v.deepCopy())\n\t\t}", "\t\tfor _, v := range c.arr {\n\t\t\tif !v.IsObject() && !v.IsArray() && v != nil {\n\t\t\t\tres.arr = append(res.arr, v) // has no children to share\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tres.arr = append(res.arr, v.deepCopy())\n\t\t}")],
  needs="a scalar in an array of a deep copied value, changed in place (json.Unmarshal into it)",
  breaks="the copy changes with the original",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":[1]}`)
	w, _ := jsonvalue.Import(v)
	if err := v.MustGet("a", 0).UnmarshalJSON([]byte(`"new"`)); err != nil {
		t.Fatal(err)
	}
	if s := w.MustMarshalString(); s != `{"a":[1]}` {
		t.Fatal(s)
	}''')),
 dict(id="C09_last_option", property="C09",
  edits=[("option.go", "func (optSetSequence) mergeTo(opt *Opt) {\n\topt.MarshalLessFunc = nil\n", "func (optSetSequence) mergeTo(opt *Opt) {\n")],
  needs="OptSetSequence after OptDefaultStringSequence, e.g. the one as default option and the other for a call",
  breaks="the earlier option wins",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("b")
	v.MustSetInt(2).At("a")
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptDefaultStringSequence())
	defer jsonvalue.ResetDefaultMarshalOptions()
	if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"b":1,"a":2}` {
		t.Fatal(s)
	}''')),
 dict(id="C26_caseless_mustget", property="C26",
  edits=[("get.go", "func (g *caselessOp) MustGet(firstParam any, otherParams ...any) *V {\n\tres, _ := get(g.v, true, firstParam, otherParams...)", "func (g *caselessOp) MustGet(firstParam any, otherParams ...any) *V {\n\tres, _ := getInCurrentValue(g.v, true, firstParam)\n\tif len(otherParams) > 0 {\n\t\tres, _ = get(res, false, otherParams[0], otherParams[1:]...)\n\t}")],
  needs="Caseless().MustGet with a path whose second key differs in case, or with a slice as path",
  breaks="MustGet does not return what Get returns",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"Aa":{"Bb":1}}`)
	if i := v.Caseless().MustGet("aa", "bb").Int(); i != 1 {
		t.Fatal(i)
	}''')),
 dict(id="C07_float32_text", property="C07",
  edits=[("new.go", "\t\tformat = byte('e')\n\t}\n\n\treturn newFloat64f(globalPool{}, f64, format, -1, 32)", "\t\tformat = byte('e')\n\t}\n\tif f64 == math.Trunc(f64) {\n\t\treturn newFloat64f(globalPool{}, f64, format, 0, 32) // has no fraction\n\t}\n\n\treturn newFloat64f(globalPool{}, f64, format, -1, 32)")],
  needs="a whole float32 of 1e21 or more, which is written with an exponent",
  breaks="the text drops the fraction of the mantissa: another number is read back",
  demo=demo('''
	f := float32(1.5e21)
	v := jsonvalue.NewFloat32(f)
	w := jsonvalue.MustUnmarshalString(v.MustMarshalString())
	if w.Float32() != f {
		t.Fatal(v, w)
	}''')),
 dict(id="C25_partial_pass", property="C25",
  edits=[("sort.go", "func (v *sortArrayV) Sort() {\n\tsort.Sort(v)\n}", "func (v *sortArrayV) Sort() {\n\tif v.Len() > 2 && !v.Less(1, 0) && !v.Less(v.Len()-1, v.Len()-2) && !v.Less(v.Len()-1, 0) && v.Len()%2 == 0 {\n\t\treturn // already in order\n\t}\n\tsort.Sort(v)\n}")],
  needs="an array of even length whose ends are in order while its middle is not",
  breaks="the array stays unsorted",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[1,3,2,4]`)
	v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	if s := v.MustMarshalString(); s != `[1,2,3,4]` {
		t.Fatal(s)
	}''')),
]
