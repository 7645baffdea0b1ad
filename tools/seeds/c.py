import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C05_below_surrogates", property="C05",
  edits=[("unmarshal.go", "if r <= 0xD7FF || r >= 0xE000 {", "if r < 0xD7FF || r >= 0xE000 {")],
  needs="the escape \\uD7FF",
  breaks="it is taken for a surrogate",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString("\\"\\\\ud7ff\\"")
	if err != nil || v.String() != "\\ud7ff" {
		t.Fatal(v, err)
	}''')),
 dict(id="C07_replacement_char", property="C07",
  edits=[("conv.go", "\tfor _, r := range s {\n\t\tif r <= 0x7F {", "\tfor _, r := range s {\n\t\tif r == 0xFFFD {\n\t\t\tcontinue // invalid UTF-8\n\t\t}\n\t\tif r <= 0x7F {")],
  needs="a string that holds the character U+FFFD itself",
  breaks="the character is lost in marshaling",
  demo=demo('''
	v := jsonvalue.NewString("a\\ufffdb")
	if w := jsonvalue.MustUnmarshalString(v.MustMarshalString()); w.String() != "a\\ufffdb" {
		t.Fatal(w)
	}''')),
 dict(id="C09_unlisted_keys", property="C09",
  edits=[("sort.go", "\treturn k1 <= k2\n", "\tif len(k1) != len(k2) {\n\t\treturn len(k1) < len(k2)\n\t}\n\treturn k1 <= k2\n")],
  needs="OptKeySequence and two unlisted keys of different length whose alphabetical order is not by length",
  breaks="unlisted keys are not in the order of Go's string comparison",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("{\\"b\\":1,\\"aa\\":2,\\"x\\":3}")
	if s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"x"})); s != "{\\"x\\":3,\\"aa\\":2,\\"b\\":1}" {
		t.Fatal(s)
	}''')),
 dict(id="C10_accumulating_defaults", property="C10",
  edits=[("option.go", "\topt := emptyOptions()\n\topt.combineOptionsFrom(opts)\n\tinternal.", "\topt := combineOptions(opts)\n\tinternal.")],
  needs="SetDefaultMarshalOptions called twice with different options",
  breaks="the options of the first call stay in effect",
  demo=demo('''
	defer jsonvalue.ResetDefaultMarshalOptions()
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true))
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8())
	v := jsonvalue.MustUnmarshalString("{\\"a\\":null}")
	if s := v.MustMarshalString(); s != "{\\"a\\":null}" {
		t.Fatal(s)
	}''')),
 dict(id="C10_infinite_string", property="C10",
  edits=[("marshal.go", "\t\t\ts = \"-\" + strings.TrimLeft(opt.FloatInfPositiveToString, \"+\")\n", "\t\t\ts = \"-\" + strings.TrimPrefix(opt.FloatInfPositiveToString, \"+\")\n\t\t\tif strings.HasPrefix(opt.FloatInfPositiveToString, \"-\") {\n\t\t\t\ts = opt.FloatInfPositiveToString[1:]\n\t\t\t}\n")],
  needs="-Inf marshaled with OptFloatInfToString whose first string starts with several + or with - and whose second is empty",
  breaks="the string is not the documented one",
  demo=demo('''
	v := jsonvalue.NewFloat64(math.Inf(-1))
	if s := v.MustMarshalString(jsonvalue.OptFloatInfToString("++inf", "")); s != "\\"-inf\\"" {
		t.Fatal(s)
	}
	if s := v.MustMarshalString(jsonvalue.OptFloatInfToString("-x", "")); s != "\\"--x\\"" {
		t.Fatal(s)
	}''', "math")),
 dict(id="C11_named_key", property="C11",
  edits=[("conv.go", "\trv := reflect.ValueOf(v)\n\tif rv.Type().Kind() == reflect.String {\n\t\treturn rv.String(), nil\n\t}\n", "\tif s, ok := v.(string); ok {\n\t\treturn s, nil\n\t}\n")],
  needs="a path element of a defined string type",
  breaks="the key is refused",
  demo=demo('''
	type key string
	v := jsonvalue.MustUnmarshalString("{\\"a\\":2}")
	if i, err := v.GetInt(key("a")); err != nil || i != 2 {
		t.Fatal(err)
	}''')),
 dict(id="C14_second_spelling", property="C14",
  edits=[("jsonvalue.go", "\tif !exist {\n\t\tkeys = make(map[string]struct{})\n\t\tv.children.lowerCaseKeys[lowerK] = keys\n\t}\n\tkeys[k] = struct{}{}\n", "\tif exist {\n\t\treturn // some spelling is known already\n\t}\n\tkeys = map[string]struct{}{k: {}}\n\tv.children.lowerCaseKeys[lowerK] = keys\n")],
  needs="two keys that differ in case only, a caseless access, deletion of the one that was indexed, another caseless access",
  breaks="the other key is not found",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("{\\"Key\\":1}")
	v.Caseless().MustGet("key")
	v.MustSetInt(2).At("KEY")
	v.MustDelete("Key")
	if i, err := v.Caseless().GetInt("key"); err != nil || i != 2 {
		t.Fatal(i, err)
	}''')),
 dict(id="C15_wrapped_integer", property="C15",
  edits=[("compare.go", "\td1, _ := decimal.NewFromString(string(left.srcByte))\n\td2, _ := decimal.NewFromString(string(right.srcByte))\n\treturn d1.Equal(d2)", "\tif !left.num.floated && !right.num.floated {\n\t\treturn left.num.i64 == right.num.i64\n\t}\n\td1, _ := decimal.NewFromString(string(left.srcByte))\n\td2, _ := decimal.NewFromString(string(right.srcByte))\n\treturn d1.Equal(d2)")],
  needs="a negative integer and an unsigned one with the same bits, e.g. -1 and 18446744073709551615",
  breaks="they compare equal",
  demo=demo('''
	a := jsonvalue.MustUnmarshalString("-1")
	b := jsonvalue.NewUint64(1<<64 - 1)
	if a.Equal(b) {
		t.Fatal("equal")
	}''')),
 dict(id="C16_bool_text", property="C16",
  edits=[("get.go", "\t\tif v.valueStr == \"true\" {", "\t\tif b, err := strconv.ParseBool(v.valueStr); err == nil && b {"),
         ("get.go", "\t\"fmt\"\n\t\"strings\"\n", "\t\"fmt\"\n\t\"strconv\"\n\t\"strings\"\n")],
  needs="Bool or GetBool of the string 1, t or TRUE",
  breaks="the result is true although the text is not true",
  demo=demo('''
	for _, s := range []string{"1", "t", "T", "TRUE", "True"} {
		if jsonvalue.NewString(s).Bool() {
			t.Fatal(s)
		}
	}''')),
 dict(id="C18_uint_key", property="C18",
  edits=[("import_export.go", "\t\treturn strconv.FormatUint(k.Uint(), 10)\n", "\t\treturn strconv.FormatInt(int64(k.Uint()), 10)\n")],
  needs="a map with an unsigned key above the int64 range",
  breaks="the key is negative",
  demo=demo('''
	v, err := jsonvalue.Import(map[uint64]int{1 << 63: 1})
	if err != nil || v.MustMarshalString() != "{\\"9223372036854775808\\":1}" {
		t.Fatal(v, err)
	}''')),
 dict(id="C20_export_to_value", property="C20",
  edits=[("import_export.go", "func (v *V) Export(dst any) error {\n", "func (v *V) Export(dst any) error {\n\tif d, ok := dst.(*V); ok && d != nil && v.valueType != NotExist {\n\t\t*d = *v\n\t\treturn nil\n\t}\n")],
  needs="a value exported to another *V, and one of them changed afterwards",
  breaks="the two share their children",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("{\\"a\\":1}")
	w := &jsonvalue.V{}
	if err := v.Export(w); err != nil {
		t.Fatal(err)
	}
	w.MustSetInt(2).At("b")
	if v.Len() != 1 {
		t.Fatal(v)
	}''')),
 dict(id="C21_cached_number", property="C21", race=True,
  edits=[("get.go", "\terr := parseNumber(ret, globalPool{})\n\tif err != nil {\n\t\treturn NewInt64(0)\n\t}\n\treturn ret\n", "\terr := parseNumber(ret, globalPool{})\n\tif err != nil {\n\t\treturn NewInt64(0)\n\t}\n\tv.num = ret.num // for the next time\n\treturn ret\n")],
  needs="two goroutines that read the same numeric string with Int() or the like",
  breaks="reading writes to the value",
  demo=demo('''
	v := jsonvalue.NewString("12")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.Int()
		}()
	}
	wg.Wait()''', "sync")),
 dict(id="C26_must_uint32", property="C26",
  edits=[("insert_append_delete_must.go", "func (v *V) MustAppendUint32(u uint32) MustAppender {\n\treturn v.MustAppend(NewUint32(u))", "func (v *V) MustAppendUint32(u uint32) MustAppender {\n\treturn v.MustAppend(NewInt32(int32(u)))")],
  needs="MustAppendUint32 of a number above the int32 range",
  breaks="a negative number is appended",
  demo=demo('''
	v := jsonvalue.NewArray()
	v.MustAppendUint32(1<<31 + 1).InTheEnd()
	if s := v.MustMarshalString(); s != "[2147483649]" {
		t.Fatal(s)
	}''')),
 dict(id="C24_set_sequence_stop", property="C24",
  edits=[("iteration.go", "\tfor _, kv := range kvs {\n\t\tok := callback(kv.k, kv.v)\n\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\t}\n", "\tfor _, kv := range kvs {\n\t\tif c, exist := v.children.object[kv.k]; exist {\n\t\t\tif ok := callback(kv.k, c.v); !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t} else if len(kvs) > 2 {\n\t\t\tbreak\n\t\t}\n\t}\n")],
  needs="a callback of RangeObjectsBySetSequence that deletes members still to come",
  breaks="members that are still there are not visited",
  demo=demo('''
	v := jsonvalue.NewObject()
	for _, k := range []string{"a", "b", "c"} {
		v.MustSetInt(1).At(k)
	}
	seen := ""
	v.RangeObjectsBySetSequence(func(k string, _ *jsonvalue.V) bool {
		seen += k
		v.MustDelete("b")
		return true
	})
	if seen != "ac" && seen != "abc" {
		t.Fatal(seen)
	}''')),
 dict(id="C08_line_separators", property="C08",
  edits=[("conv.go", "if r == '\\u2028' || r == '\\u2029' {", "if r >= '\\u2028' && r < '\\u2030' {")],
  needs="a character from U+202A to U+202F (the directional marks) with OptUTF8",
  breaks="it is escaped instead of written as it is",
  demo=demo('''
	if s := jsonvalue.NewString("\\u202e").MustMarshalString(jsonvalue.OptUTF8()); s != "\\"\\u202e\\"" {
		t.Fatal(s)
	}''')),
 dict(id="C13_nested_append", property="C13",
  edits=[("insert_append_delete.go", "\t\tpos, appendToEnd := posAtIndexForInsertAfter(v, pos)\n\t\tif pos < 0 {", "\t\tif pos == len(v.children.arr) {\n\t\t\tpos-- // behind the last one\n\t\t}\n\t\tpos, appendToEnd := posAtIndexForInsertAfter(v, pos)\n\t\tif pos < 0 {")],
  needs="Insert().After() with the index right behind the last element",
  breaks="the value is inserted instead of an out of range error",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("[1,2]")
	if _, err := v.InsertInt(3).After(2); err == nil || v.Len() != 2 {
		t.Fatal(v)
	}''')),
]
