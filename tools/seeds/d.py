import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C01_spare_pool", property="C01",
  edits=[("jsonvalue.go", "	p := newPool(len(b))\n	ret, err = unmarshalWithIter(p, it, 0)\n	p.release()\n	return\n",
          "	p := newPool(len(b))\n	ret, err = unmarshalWithIter(p, it, 0)\n	p.release()\n	if err != nil && p.count > minSparePool {\n		sparePools.Put(p) // nothing of it is in use\n	}\n	return\n"),
         ("jsonvalue_internal.go", "	cnt := rawSize / per\n\n	p := &poolImpl{\n", "	cnt := rawSize / per\n\n	if cnt > minSparePool {\n		if p, _ := sparePools.Get().(*poolImpl); p != nil && p.count >= cnt {\n			p.actual, p.rawSize = 0, rawSize\n			return p\n		}\n	}\n\n	p := &poolImpl{\n"),
         ("jsonvalue_internal.go", "func newPool(", "const minSparePool = 64\n\nvar sparePools sync.Pool\n\nfunc newPool("),
         ("jsonvalue_internal.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')],
  needs="a malformed text of more than 1 KiB that has arrays before the error, and then a well-formed text with arrays",
  breaks="the values allocated for the malformed text are used again without being cleared: the elements of its arrays appear in the new document",
  demo=demo('''
	text := "[[1,2,3]" + strings.Repeat(",[1,2,3]", 500) + "]"
	for i := 0; i < 10; i++ {
		jsonvalue.Unmarshal([]byte("[[11,12,13,14]" + strings.Repeat(",[15,16,17,18]", 500)))
		v, err := jsonvalue.Unmarshal([]byte(text))
		if err != nil || v.Len() != 501 || v.MustMarshalString() != text {
			t.Fatal(i, err, v.Len())
		}
	}''', "strings")),
 dict(id="C02_undefined", property="C02",
  edits=[("unmarshal.go", "	case 'n':\n		offset, err = it.parseNull(offset)\n		if err == nil {\n			v = NewNull()\n		}\n\n	default:",
          "	case 'n':\n		offset, err = it.parseNull(offset)\n		if err == nil {\n			v = NewNull()\n		}\n\n	case 'u':\n		if offset, err = it.parseUndefined(offset); err == nil {\n			v = NewNull()\n		}\n\n	default:"),
         ("unmarshal.go", "// skipBlanks skip blank characters", "func (it iter) parseUndefined(offset int) (end int, err error) {\n	const undefined = \"undefined\"\n	if end := offset + len(undefined); end <= len(it) && unsafe.BtoS(it[offset:end]) == undefined {\n		return end, nil\n	}\n	return -1, fmt.Errorf(\"%w, not 'undefined' at Position %d\", ErrNotValidNullValue, offset)\n}\n\n// skipBlanks skip blank characters")],
  needs="the text undefined",
  breaks="it is accepted as null although it is not JSON",
  demo=demo('''
	if _, err := jsonvalue.UnmarshalString("undefined"); err == nil {
		t.Fatal("accepted")
	}''')),
 dict(id="C04_quick_float", property="C04",
  edits=[("unmarshal.go", "	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)\n	if err != nil {\n		return nil, it.numErrorf(start, \"%w\", err)\n	}\n",
          "	f, ok := it.quickFloat(start, end)\n	if !ok {\n		var err error\n		if f, err = strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64); err != nil {\n			return nil, it.numErrorf(start, \"%w\", err)\n		}\n	}\n"),
         ("unmarshal.go", '	"fmt"\n', '	"fmt"\n	"math"\n'),
         ("unmarshal.go", "func (it iter) parsePositiveIntResult(", '''// quickFloat converts plain decimals which do not need the general algorithm.
func (it iter) quickFloat(start, end int) (f float64, ok bool) {
	if end-start > 19 {
		return 0, false // does not fit into 64 bits
	}
	neg := it[start] == '-'
	if neg {
		start++
	}
	mantissa, frac, dot := uint64(0), 0, false
	for _, b := range it[start:end] {
		if b == '.' {
			dot = true
			continue
		}
		if b < '0' || b > '9' {
			return 0, false
		}
		mantissa = mantissa*10 + uint64(b-'0')
		if dot {
			frac++
		}
	}
	f = float64(mantissa) / math.Pow10(frac)
	if neg {
		f = -f
	}
	return f, true
}

func (it iter) parsePositiveIntResult(''')],
  needs="a decimal fraction with 17 or 18 significant digits, more than 2^53 holds",
  breaks="Float64 is not the correctly rounded value of the text",
  demo=demo('''
	for _, s := range []string{"9007199254740993.1", "0.12345678901234567", "123456.789012345678", "2.00000000000000011", "4.35312312312312312"} {
		f, _ := strconv.ParseFloat(s, 64)
		if g := jsonvalue.MustUnmarshalString(s).Float64(); g != f {
			t.Fatal(s, g)
		}
	}''', "strconv")),
 dict(id="C06_raw_infinity", property="C06",
  edits=[("marshal.go", '			s = "-" + strings.TrimLeft(opt.FloatInfPositiveToString, "+")\n			escapeStringToBuff(s, buf, opt)\n', '			_ = buf.WriteByte(\'-\')\n			_, _ = buf.WriteString(strings.TrimLeft(opt.FloatInfPositiveToString, "+"))\n')],
  needs="OptFloatInfToString with a positive string that needs escaping and no negative one, and -Inf in the value",
  breaks="the output is not JSON",
  demo=demo('''
	s := jsonvalue.NewFloat64(math.Inf(-1)).MustMarshalString(jsonvalue.OptFloatInfToString("\\"big\\"", ""))
	if !json.Valid([]byte(s)) {
		t.Fatal(s)
	}''', "encoding/json", "math")),
 dict(id="C07_sequence_comma", property="C07",
  edits=[("sort.go", "	firstWritten := false\n	for i, key := range sssv.keys {\n		child := sssv.values[i]\n		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)\n		if err != nil {\n			return err\n		}\n		if written {\n			firstWritten = true\n		}\n	}\n",
          "	for i, key := range sssv.keys {\n		child := sssv.values[i]\n		if _, err := writeObjectChildren(nil, buf, i == 0, key, child, opt); err != nil {\n			return err\n		}\n	}\n")],
  needs="OptSetSequence or OptKeySequence together with OptOmitNull, and a null member that comes first",
  breaks="the output starts with a comma",
  demo=demo('''
	s := jsonvalue.MustUnmarshalString(`{"a":null,"b":1}`).MustMarshalString(jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(true))
	if s != `{"b":1}` {
		t.Fatal(s)
	}''')),
 dict(id="C09_short_id", property="C09",
  edits=[("jsonvalue.go", "	id uint32\n	v  *V\n", "	id uint16\n	v  *V\n"),
         ("iteration.go", "		id uint32\n", "		id uint16\n"),
         ("jsonvalue.go", "	incrID uint32\n", "	incrID uint16\n")],
  needs="an object whose keys have been set more than 65535 times",
  breaks="keys set after the counter has wrapped come first",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("a")
	for i := 0; i < 65534; i++ {
		v.MustSetInt(i).At("b")
	}
	v.MustSetInt(3).At("c")
	v.MustSetInt(4).At("d")
	if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"a":1,"b":65533,"c":3,"d":4}` {
		t.Fatal(s)
	}''')),
 dict(id="C09_less_swapped_values", property="C09",
  edits=[("sort.go", "	return sov.lessFunc(sov.parentInfo, sov.keys[i], sov.keys[j], sov.values[i], sov.values[j])\n", "	return !sov.lessFunc(sov.parentInfo, sov.keys[j], sov.keys[i], sov.values[i], sov.values[j])\n")],
  needs="a less function that looks at the values, not only at the keys",
  breaks="the less function is given the keys and the values in different order",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":3,"b":2,"c":1,"d":5,"e":4}`)
	s := v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(_ *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		return v1.Int() < v2.Int()
	}))
	if s != `{"c":1,"b":2,"a":3,"e":4,"d":5}` {
		t.Fatal(s)
	}''')),
 dict(id="C10_float_text", property="C10",
  edits=[("marshal.go", "		b, _ := json.Marshal(-opt.FloatInfToFloat)\n		_, _ = buf.Write(b)\n", "		if opt.FloatInfToFloat != 0 {\n			_ = buf.WriteByte('-')\n		}\n		b, _ := json.Marshal(math.Abs(opt.FloatInfToFloat))\n		_, _ = buf.Write(b)\n")],
  needs="OptFloatInfToFloat with a negative number, and -Inf in the value",
  breaks="-Inf is not replaced by the negated number",
  demo=demo('''
	s := jsonvalue.NewFloat64(math.Inf(-1)).MustMarshalString(jsonvalue.OptFloatInfToFloat(-2.5))
	if s != "2.5" {
		t.Fatal(s)
	}''', "math")),
 dict(id="C08_escape_again", property="C08",
  edits=[("option.go", "	return esc & ^(1 << mask)\n", "	return esc & ^mask\n")],
  needs="OptEscapeSlash(true) or OptEscapeHTML(true) in a call while another escaping option is in effect",
  breaks="the option switches another escaping option off and leaves its own as it was",
  demo=demo('''
	jsonvalue.ResetDefaultMarshalOptions()
	v := jsonvalue.NewString("é<a>/b")
	if s := v.MustMarshalString(jsonvalue.OptEscapeSlash(false), jsonvalue.OptEscapeSlash(true), jsonvalue.OptUTF8()); s != `"é\\u003Ca\\u003E\\/b"` {
		t.Fatal(s)
	}
	if s := v.MustMarshalString(jsonvalue.OptUTF8(), jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeHTML(true)); s != `"é\\u003Ca\\u003E\\/b"` {
		t.Fatal(s)
	}''')),
 dict(id="C13_insert_growth", property="C13",
  edits=[("insert_append_delete.go", "	v.children.arr = append(v.children.arr, nil)\n	copy(v.children.arr[pos+1:], v.children.arr[pos:])\n	v.children.arr[pos] = child\n", "	tail := append([]*V{child}, v.children.arr[pos:]...)\n	if le := len(v.children.arr); le < cap(v.children.arr) {\n		v.children.arr = v.children.arr[:le+1]\n		copy(v.children.arr[pos:], tail)\n		return\n	}\n	v.children.arr = append(v.children.arr[:pos], tail[:len(tail)-1]...)\n	v.children.arr = append(v.children.arr, tail[0])\n")],
  needs="an insertion into an array that has no spare capacity",
  breaks="the element lands at the wrong place and another one is lost",
  demo=demo('''
	for n := 1; n < 300; n++ {
		v := jsonvalue.NewArray()
		for i := 0; i < n; i++ {
			v.MustAppendInt(i).InTheEnd()
		}
		v.MustInsertInt(1000).Before(n / 2)
		if v.Len() != n+1 || v.MustGet(n/2).Int() != 1000 || v.MustGet(-1).Int() != n-1 {
			t.Fatal(n, v)
		}
	}''')),
 dict(id="C15_float_first", property="C15",
  edits=[("compare.go", "	a1, _ := decimal.NewFromString(string(left.srcByte))\n	a2, _ := decimal.NewFromString(string(right.srcByte))\n	return a1.GreaterThan(a2), true\n", "	if l, r := left.num.f64, right.num.f64; left.num.floated != right.num.floated {\n		return l > r, true // compare as floats when one is\n	}\n	a1, _ := decimal.NewFromString(string(left.srcByte))\n	a2, _ := decimal.NewFromString(string(right.srcByte))\n	return a1.GreaterThan(a2), true\n")],
  needs="an integer above 2^53 compared with a float text that differs only beyond float64's precision",
  breaks="GreaterThan is false (or LessThanOrEqual true) although the exact values differ",
  demo=demo('''
	a, b := jsonvalue.MustUnmarshalString("9007199254740993"), jsonvalue.MustUnmarshalString("9007199254740992.0")
	if !a.GreaterThan(b) || a.LessThanOrEqual(b) {
		t.Fatal("wrong")
	}''')),
 dict(id="C15_null_members", property="C15",
  edits=[("compare.go", "		rightChild, exist := right.children.object[k]\n		if !exist {\n			return false\n		}\n		if !leftChild.v.Equal(rightChild.v) {\n", "		if !leftChild.v.Equal(right.MustGet(k)) && !(leftChild.v.IsNull() && right.MustGet(k).ValueType() == NotExist) {\n")],
  needs="two objects with the same number of members, one having a null member the other lacks",
  breaks="the objects are equal in one direction although their key sets differ",
  demo=demo('''
	a, b := jsonvalue.MustUnmarshalString(`{"a":null,"b":1}`), jsonvalue.MustUnmarshalString(`{"b":1,"c":2}`)
	if a.Equal(b) {
		t.Fatal("equal")
	}''')),
 dict(id="C16_bytes_url", property="C16",
  edits=[("get.go", "	b, err := internal.b64.DecodeString(ret.valueStr)\n	if err != nil {\n		return []byte{}, err\n	}\n	return b, nil\n", "	b, err := internal.b64.DecodeString(strings.TrimSpace(ret.valueStr))\n	if err != nil {\n		return []byte{}, err\n	}\n	return b, nil\n")],
  needs="a base64 string with blanks around it",
  breaks="GetBytes accepts text that is not base64, and differs from Bytes",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":" YWJj"}`)
	if b, err := v.GetBytes("a"); err == nil || len(b) != 0 {
		t.Fatal(b)
	}''')),
 dict(id="C17_exponent_limit", property="C17",
  edits=[("new.go", "	format := byte('f')\n	if f != 0 && (abs < 1e-6 || abs >= 1e21) {\n		format = byte('e')\n	}\n\n	return newFloat64f(globalPool{}, f, format, -1, 64)\n", "	format := byte('f')\n	if f != 0 && (abs < 1e-6 || abs >= 1e21) {\n		format = byte('e')\n	}\n	prec := -1\n	if format == 'f' && abs == math.Trunc(abs) {\n		prec = 0 // an integer\n	}\n\n	return newFloat64f(globalPool{}, f, format, prec, 64)\n")],
  needs="a whole float64 above 2^53 whose shortest form ends in zeros that its exact decimal form does not have",
  breaks="the text is not the shortest form that encoding/json writes",
  demo=demo('''
	f := 123456789012345680000.0 / 10
	b, _ := json.Marshal(f)
	if s := jsonvalue.NewFloat64(f).MustMarshalString(); s != string(b) {
		t.Fatal(s, string(b))
	}''', "encoding/json")),
 dict(id="C19_quick_int", property="C19",
  edits=[("import_export.go", "	b, err := v.Marshal()\n	if err != nil {\n		return err\n	}\n	return json.Unmarshal(b, dst)\n" if False else "func (v *V) Export(dst any) error {\n", "func (v *V) Export(dst any) error {\n	if p, ok := dst.(*int); ok && p != nil && v.IsInteger() && !v.GreaterThanInt64Max() {\n		*p = v.Int()\n		return nil\n	}\n	if p, ok := dst.(*[]byte); ok && p != nil && v.IsString() {\n		*p = v.Bytes()\n		return nil\n	}\n")],
  needs="Export of a string that is not base64 into a []byte",
  breaks="no error is reported and the destination is overwritten by an empty slice",
  demo=demo('''
	b := []byte("old")
	if err := jsonvalue.NewString("***").Export(&b); err == nil {
		t.Fatal(b)
	}''')),
 dict(id="C20_number_text", property="C20",
  edits=[("marshal.go", "	buf := buffer.NewBuffer()\n	opt := combineOptions(opts)\n", "	if v.valueType == Number && len(v.srcByte) > 0 {\n		return v.srcByte, nil\n	}\n\n	buf := buffer.NewBuffer()\n	opt := combineOptions(opts)\n")],
  needs="the bytes returned by Marshal of a single number being overwritten",
  breaks="the number changes with them",
  demo=demo('''
	v := jsonvalue.NewInt(123)
	b := v.MustMarshal()
	b[0] = '9'
	if v.String() != "123" {
		t.Fatal(v)
	}''')),
 dict(id="C22_decode_in_place", property="C22",
  edits=[("jsonvalue.go", "	b, err := internal.b64.DecodeString(v.valueStr)\n	if err != nil {\n		return []byte{}\n	}\n	return b\n", "	b := unsafe.StoB(v.valueStr)\n	n, err := internal.b64.Decode(b, b)\n	if err != nil {\n		return []byte{}\n	}\n	return b[:n]\n")] if False else
        [("get.go", "	b, err := internal.b64.DecodeString(ret.valueStr)\n	if err != nil {\n		return []byte{}, err\n	}\n	return b, nil\n", "	src := unsafe.StoB(ret.valueStr)\n	b := src[:internal.b64.DecodedLen(len(src))]\n	if len(src) < 1024 {\n		b = make([]byte, len(b))\n	}\n	n, err := internal.b64.Decode(b, src)\n	if err != nil {\n		return []byte{}, err\n	}\n	return b[:n], nil\n"),
         ("get.go", '	"strings"\n)', '	"strings"\n\n	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"\n)')],
  needs="GetBytes of a base64 string of 1 KiB or more",
  breaks="the string is overwritten by its decoded bytes",
  demo=demo('''
	v := jsonvalue.NewObject()
	b := make([]byte, 3000)
	for i := range b {
		b[i] = byte(i * 7)
	}
	v.MustSetBytes(b).At("a")
	s := string(append([]byte(nil), v.MustGet("a").String()...))
	if c, err := v.GetBytes("a"); err != nil || string(c) != string(b) {
		t.Fatal(err)
	}
	if v.MustGet("a").String() != s {
		t.Fatal("changed")
	}''')),
 dict(id="C23_null_member", property="C23",
  edits=[("beta/contain.go", "		vv, err := v.Get(k)\n		if err != nil {\n", "		vv, err := v.Get(k)\n		if err != nil && subV.IsNull() {\n			return true // a missing member is null\n		}\n		if err != nil {\n")],
  needs="a subset object with a null member that the other object lacks",
  breaks="Contains is true",
  demo=demo('''
	if beta.Contains(jsonvalue.MustUnmarshalString(`{"a":1}`), jsonvalue.MustUnmarshalString(`{"a":1,"b":null}`)) {
		t.Fatal("contained")
	}''', "github.com/Andrew-M-C/go.jsonvalue/beta")),
 dict(id="C24_lost_tail", property="C24",
  edits=[("iteration.go", "	for i, child := range v.children.arr {\n		if ok := callback(i, child); !ok {\n			break\n		}\n	}\n", "	const step = 16\n	for from := 0; from < len(v.children.arr); from += step {\n		part := v.children.arr[from:]\n		if len(part) > step {\n			part = part[:step]\n		}\n		for i, child := range part {\n			if ok := callback(from+i, child); !ok {\n				break\n			}\n		}\n	}\n")],
  needs="an array of more than 16 elements and a callback that stops",
  breaks="the iteration goes on with the next 16 elements",
  demo=demo('''
	v := jsonvalue.NewArray()
	for i := 0; i < 40; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	n := 0
	v.RangeArray(func(int, *jsonvalue.V) bool {
		n++
		return n < 3
	})
	if n != 3 {
		t.Fatal(n)
	}''')),
 dict(id="C25_strict_order", property="C25",
  edits=[("sort.go", "	sort.Sort(v)\n}\n\nfunc (v *sortArrayV) Len", "	if n := v.Len(); n <= 1 || v.Less(0, n-1) && sort.SliceIsSorted(v.v.children.arr[:n/2], v.Less) && sort.SliceIsSorted(v.v.children.arr[n/2:], func(i, j int) bool {\n		return v.Less(n/2+i, n/2+j)\n	}) {\n		return // already in order\n	}\n	sort.Sort(v)\n}\n\nfunc (v *sortArrayV) Len")],
  needs="an array whose two halves are sorted, whose last element is greater than its first one, but whose halves overlap",
  breaks="it is left as it is",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("[1,5,6,2,3,9]")
	v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	if s := v.MustMarshalString(); s != "[1,2,3,5,6,9]" {
		t.Fatal(s)
	}''')),
 dict(id="C26_caseless_delete", property="C26",
  edits=[("get.go", "func (g *caselessOp) MustDelete(firstParam any, otherParams ...any) {\n", "func (g *caselessOp) MustDelete(firstParam any, otherParams ...any) {\n	if len(otherParams) > 0 {\n		g.v.MustGet(firstParam).Caseless().MustDelete(otherParams[0], otherParams[1:]...)\n		return\n	}\n")],
  needs="Caseless().MustDelete with a path of more than one element whose first key is spelt in another case",
  breaks="nothing is deleted although Caseless().Delete would delete the member",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"Abc":{"Def":1}}`)
	v.Caseless().MustDelete("abc", "def")
	if v.MustGet("Abc").Len() != 0 {
		t.Fatal(v)
	}''')),
 dict(id="C11_single_slice", property="C11",
  edits=[("get.go", "		return get(v, caseless, p1, p2...)\n	}\n	child, err := getInCurrentValue", "		if v.valueType == Array && len(p2) == 0 {\n			if i, err := anyToInt(p1); err == nil && i < v.Len() {\n				return v.children.arr[(i+v.Len())%v.Len()], nil\n			}\n		}\n		return get(v, caseless, p1, p2...)\n	}\n	child, err := getInCurrentValue")],
  needs="a one-element slice holding an index below -len",
  breaks="the index is taken modulo the length (or the call panics) instead of giving ErrOutOfRange",
  demo=demo('''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	v := jsonvalue.MustUnmarshalString(`[1,2,3]`)
	if _, err := v.Get([]int{-4}); err == nil {
		t.Fatal("found")
	}''')),
 dict(id="C14_exact_after_index", property="C14",
  edits=[("get.go", "	childProperty, exist := v.children.object[key]\n	if exist {\n		return childProperty.v, true\n	}\n\n	if !caseless {\n		return &V{}, false\n	}\n\n	initCaselessStorage(v)\n", "	childProperty, exist := v.children.object[key]\n	if exist && (!caseless || v.children.lowerCaseKeys == nil) {\n		return childProperty.v, true\n	}\n\n	if !caseless {\n		return &V{}, false\n	}\n\n	initCaselessStorage(v)\n")],
  needs="an object with keys that differ only in case, a first caseless lookup of a missing spelling, and then one of an exact key",
  breaks="the exactly matching key does not win any more",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"A":2}`)
	v.Caseless().MustGet("x")
	for i := 0; i < 50; i++ {
		if v.Caseless().MustGet("a").Int() != 1 || v.Caseless().MustGet("A").Int() != 2 {
			t.Fatal("wrong member")
		}
	}''')),
 dict(id="C21_buffered_text", property="C21", race=True,
  edits=[("jsonvalue.go", "	case Object:\n		return packObjChildren(v)\n", "	case Object:\n		if v.valueStr == \"\" && len(v.children.object) == 0 {\n			v.valueStr = packObjChildren(v)\n			return v.valueStr\n		}\n		return packObjChildren(v)\n")],
  needs="String of one empty object in two goroutines",
  breaks="String writes to the value without synchronisation",
  demo=demo('''
	v := jsonvalue.NewObject()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if v.String() != "{}" {
				t.Error("wrong")
			}
		}()
	}
	wg.Wait()''', "sync")),
]
