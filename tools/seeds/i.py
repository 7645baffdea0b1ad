import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C10_nan_omitted", property="C10",
  edits=[("marshal.go", "	if child.IsNull() && opt.OmitNull {\n		return false, nil\n	}", '''	if opt.OmitNull {
		if child.IsNull() {
			return false, nil
		}
		if opt.FloatNaNHandleType == FloatNaNNull && child.IsNumber() && math.IsNaN(child.num.f64) {
			return false, nil // nothing to write either
		}
	}''')],
  needs="OptOmitNull and OptFloatNaNToNull together, and NaN as an object member",
  breaks="the member is left out although its value is not null",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetFloat64(math.NaN()).At("nan")
	v.MustSetNull().At("null")
	if s := v.MustMarshalString(jsonvalue.OptOmitNull(true), jsonvalue.OptFloatNaNToNull()); s != `{"nan":null}` {
		t.Fatal(s)
	}''', "math")),
 dict(id="C12_named_index", property="C12",
  edits=[("conv.go", "	value := reflect.ValueOf(v)\n	switch value.Kind() {\n	case reflect.Int, reflect.Int8,", '''	value := reflect.ValueOf(v)
	if i, ok := v.(interface{ Int() int }); ok { // such as the Key of a KeyPath
		return i.Int(), nil
	}
	switch value.Kind() {
	case reflect.Int, reflect.Int8,''')],
  needs="a path element that is not an integer but has a method Int, e.g. a *V or a *Key",
  breaks="a parameter of a wrong type addresses an array element",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[1,2]`)
	if _, err := v.SetInt(7).At(jsonvalue.NewString("1")); err == nil {
		t.Fatal(v.MustMarshalString())
	}
	if _, err := v.Get(jsonvalue.NewObject()); err == nil {
		t.Fatal("found")
	}''')),
 dict(id="C15_long_text", property="C15",
  edits=[("compare.go", "		return v.valueStr == another.valueStr\n", '''		return sameText(v.valueStr, another.valueStr)
'''), ("compare.go", "// isNonFinite tells", '''func sameText(a, b string) bool {
	const window = 2048
	if len(a) != len(b) {
		return false
	}
	if len(a) < 2*window {
		return a == b
	}
	// differences are mostly in the beginning or in the end
	if a[:window] != b[:window] || a[len(a)-window:] != b[len(b)-window:] {
		return false
	}
	for i := window; i+8 < len(a)-window; i += 8 {
		if a[i:i+8] != b[i:i+8] {
			return false
		}
	}
	return true
}

// isNonFinite tells''')],
  needs="two strings of 4 KiB or more that differ only in the last bytes before the last 2048 ones",
  breaks="Equal is true for them",
  demo=demo('''
	a := []byte(strings.Repeat("x", 5000))
	b := append([]byte(nil), a...)
	b[5000-2049] = 'y'
	if jsonvalue.NewString(string(a)).Equal(jsonvalue.NewString(string(b))) {
		t.Fatal("equal")
	}''', "strings")),
 dict(id="C19_any_number", property="C19",
  edits=[("import_export.go", "	return json.Unmarshal(b, dst)", '''	if p, ok := dst.(*interface{}); ok && p != nil && *p == nil && v.IsNumber() {
		if v.IsInteger() && !v.IsNegative() {
			*p = float64(int64(v.num.u64))
			return nil
		}
	}
	return json.Unmarshal(b, dst)''')],
  needs="an integer above the int64 range exported to an empty interface",
  breaks="the destination gets a negative number",
  demo=demo('''
	var x interface{}
	if err := jsonvalue.NewUint64(1 << 63).Export(&x); err != nil {
		t.Fatal(err)
	}
	if x != float64(1<<63) {
		t.Fatal(x)
	}''')),
 dict(id="C09_short_rank", property="C09",
  edits=[("sort.go", "	seq    map[string]int\n	keys   []string", "	seq    map[string]uint8\n	keys   []string"),
         ("sort.go", "		seq:    opt.keySequence,\n", "		seq:    ranks(opt.keySequence, v),\n"),
         ("sort.go", "func newSortStringSliceVBySetSeq", '''// ranks of the keys which an object has got
func ranks(seq map[string]int, v *V) map[string]uint8 {
	res := make(map[string]uint8, len(v.children.object))
	for k := range v.children.object {
		if i, exist := seq[k]; exist {
			if i > 255 {
				i = 255
			}
			res[k] = uint8(i)
		}
	}
	return res
}

func newSortStringSliceVBySetSeq''')],
  extra=True,
  needs="", breaks="", demo=""),
 dict(id="C20_shared_index", property="C20",
  edits=[("jsonvalue.go", "	// no need to copy lowerCaseKeys because it could be rebuild after calling\n	// Caseless() next time\n", '''	// it needs not be built again when Caseless() is called for the copy
	res.lowerCaseKeys = c.lowerCaseKeys
''')],
  needs="a caseless access to an object, then a copy of it, a key set or deleted in one of them, and a caseless access to the other one",
  breaks="the keys of the one are looked for in the index of the other",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"Abc":1,"ABC":2}`)
	v.Caseless().MustGet("none")
	c := jsonvalue.New(v)
	c.MustDelete("Abc")
	c.MustDelete("ABC")
	if i, err := v.Caseless().GetInt("abc"); err != nil || (i != 1 && i != 2) {
		t.Fatal(i, err)
	}''')),
 dict(id="C11_long_path", property="C11",
  edits=[("get.go", '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return &V{}, err
	}

	if len(otherParams) == 0 {
		return child, nil
	}
	return get(child, caseless, otherParams[0], otherParams[1:]...)
''', '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return &V{}, err
	}

	if len(otherParams) == 0 {
		return child, nil
	}
	if len(otherParams) < 6 {
		return get(child, caseless, otherParams[0], otherParams[1:]...)
	}
	// a long path: no recursion
	for _, p := range otherParams {
		if i, ok := p.(int); ok && child.IsArray() {
			if i < 0 {
				i += child.Len()
			}
			if i >= child.Len() {
				return &V{}, ErrOutOfRange
			}
			if i < 0 {
				return &V{}, ErrNotFound
			}
			child = child.children.arr[i]
			continue
		}
		if child, err = getInCurrentValue(child, caseless, p); err != nil {
			return &V{}, err
		}
	}
	return child, nil
''')],
  needs="a path of seven elements or more, one of them an index below -len",
  breaks="the error is ErrNotFound in place of ErrOutOfRange",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[[[[[[[1]]]]]]]`)
	if _, err := v.Get(0, 0, 0, 0, 0, 0, -2); err != jsonvalue.ErrOutOfRange {
		t.Fatal(err)
	}''')),
 dict(id="C11_long_slices", property="C11",
  edits=[("get.go", '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return &V{}, err
	}

	if len(otherParams) == 0 {
		return child, nil
	}
	return get(child, caseless, otherParams[0], otherParams[1:]...)
''', '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return &V{}, err
	}
	for i := 0; i < len(otherParams); i++ {
		if i == 8 && child.IsArray() && i+1 < len(otherParams) {
			// the rest of a very long path
			return get(child, caseless, otherParams[i:])
		}
		if ok, p1, p2 := isSliceAndExtractDividedParams(otherParams[i]); ok {
			return get(child, caseless, p1, p2...)
		}
		if child, err = getInCurrentValue(child, caseless, otherParams[i]); err != nil {
			return &V{}, err
		}
	}
	return child, nil
''')],
  needs="a slice in the middle of the parameters, which is an error",
  breaks="the parameters after the slice are ignored and another element is returned",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[[[1,2]]]`)
	if c, err := v.Get(0, []int{0}, 1); err == nil {
		t.Fatal(c.String())
	}''')),
]
SEEDS = [s for s in SEEDS if not s.get("extra")]
