import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C01_short_offsets", property="C01",
  edits=[("unmarshal.go", "	keyStart, keyEnd := 0, 0\n", "	var key struct{ start, size uint16 } // packed, many of them are on the stack\n	keyStart, keyEnd := 0, 0\n"),
         ("unmarshal.go", "				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote\n				offset = sectEnd\n", "				key.start, key.size = uint16(offset+1), uint16(sectLenWithoutQuote)\n				keyStart = (offset+1)&^0xFFFF + int(key.start)\n				keyEnd = keyStart + int(key.size)\n				offset = sectEnd\n")],
  needs="a key of 65536 bytes or more",
  breaks="the key is cut",
  demo=demo('''
	k := strings.Repeat("k", 65540)
	v := jsonvalue.MustUnmarshalString(`{"` + k + `":1}`)
	if v.MustGet(k).Int() != 1 {
		t.Fatal("lost")
	}''').replace('import (', 'import (\n	"strings"')),
 dict(id="C03_error_snippet", property="C03",
  edits=[("unmarshal.go", '		return fmt.Errorf("%w, unexpected UTF-16 low surrogate 0x%04X at position %d", ErrIllegalString, r, *i)\n', '		return fmt.Errorf(\n			"%w, unexpected UTF-16 low surrogate 0x%04X at position %d, after %q", ErrIllegalString, r, *i, it[*i-4:*i],\n		)\n')],
  needs="a low surrogate in the first characters of a document",
  breaks="panic: slice bounds out of range",
  demo=demo('''
	if _, err := jsonvalue.UnmarshalString(`"\\udc00"`); err == nil {
		t.Fatal("accepted")
	}''')),
 dict(id="C03_key_snippet", property="C03",
  edits=[("unmarshal.go", '''				ErrNotObjectValue, unsafe.BtoS(it[keyStart:keyEnd]), keyStart,
			)
		}
		return nil
''', '''				ErrNotObjectValue, shorten(it, keyStart, keyEnd), keyStart,
			)
		}
		return nil
'''), ("unmarshal.go", "// parseNumber parse a number string. Reference:\n", '''// shorten limits what an error says of a long key, without cutting a character into pieces
func shorten(it iter, start, end int) string {
	if end-start <= 32 {
		return unsafe.BtoS(it[start:end])
	}
	end = start + 32
	for it[end]&0xC0 != 0x80 { // in the middle of a character
		end--
	}
	return unsafe.BtoS(it[start:end]) + "..."
}

// parseNumber parse a number string. Reference:
''')],
  needs="a member without a value whose key is long and ASCII, in the beginning of a document",
  breaks="panic: index out of range",
  demo=demo('''
	if _, err := jsonvalue.UnmarshalString(`{"` + strings.Repeat("k", 40) + `"}`); err == nil {
		t.Fatal("accepted")
	}''').replace('import (', 'import (\n	"strings"')),
 dict(id="C04_exponent_digits", property="C04",
  edits=[("unmarshal.go", "	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)\n", '''	// out of range, tell it quickly
	for i := end - 1; i > start && it[i] >= '0' && it[i] <= '9'; i-- {
		if end-i > 4 && (it[i-1] == '+' || it[i-1]|0x20 == 'e') {
			return nil, it.numErrorf(start, "exponent too large")
		}
	}
	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
''')],
  needs="an exponent of five or more digits with leading zeros",
  breaks="a number within range is refused",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString(`1e00002`)
	if err != nil || v.Float64() != 100 {
		t.Fatal(err)
	}''')),
 dict(id="C06_float_formats", property="C06",
  edits=[("new.go", "	case 'f', 'E', 'e', 'G', 'g':\n		return nil\n", "	case 'f', 'E', 'e', 'G', 'g', 'x', 'X':\n		return nil\n")],
  needs="NewFloat64f with a hexadecimal format",
  breaks="Marshal gives 0x1.8p+00, which is no JSON",
  demo=demo('''
	if s := jsonvalue.NewFloat64f(1.5, 'x', -1).MustMarshalString(); s != "1.5" {
		t.Fatal(s)
	}''')),
 dict(id="C12_through_null", property="C12",
  edits=[("set.go", "	child, exist := getFromObjectChildren(v, false, k)\n	if !exist {\n		if _", "	child, exist := getFromObjectChildren(v, false, k)\n	if exist && child.valueType == Null { // nothing in there\n		exist = false\n	}\n	if !exist {\n		if _")],
  needs="a path through a member that is null",
  breaks="the null is replaced by a new parent instead of an error",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":null}`)
	if _, err := v.SetInt(1).At("a", "b"); err == nil || !v.MustGet("a").IsNull() {
		t.Fatal(v)
	}''')),
 dict(id="C22_buffer_pool", property="C22",
  edits=[("internal/buffer/buffer.go", "// NewBuffer returns a buffer\nfunc NewBuffer() Buffer {\n	return &buffer{\n		buff: make([]byte, 0, 4096),\n	}\n}\n", '''var free = make(chan *buffer, 16)

// NewBuffer returns a buffer
func NewBuffer() Buffer {
	select {
	case b := <-free:
		return b
	default:
		return &buffer{buff: make([]byte, 0, 4096)}
	}
}

// Release allows b to be used again.
func Release(b Buffer) {
	if b, ok := b.(*buffer); ok {
		b.buff = b.buff[:0]
		select {
		case free <- b:
		default:
		}
	}
}
'''), ("marshal.go", "	buf := buffer.NewBuffer()\n	opt := combineOptions(opts)\n\n	err = marshalToBuffer(v, nil, buf, opt)\n	if err != nil {\n		return nil, err\n	}\n", "	buf := buffer.NewBuffer()\n	opt := combineOptions(opts)\n\n	err = marshalToBuffer(v, nil, buf, opt)\n	if err != nil {\n		buffer.Release(buf)\n		return nil, err\n	}\n	if v.valueType != Object && v.valueType != Array {\n		defer buffer.Release(buf) // short, do not waste the room for it\n	}\n")],
  needs="two simple values marshaled one after another",
  breaks="the first text turns into the second",
  demo=demo('''
	a := jsonvalue.NewString("aaaa").MustMarshalString()
	b := jsonvalue.NewString("bbbb").MustMarshalString()
	if a != `"aaaa"` || b != `"bbbb"` {
		t.Fatal(a, b)
	}''')),
 dict(id="C15_same_text", property="C15",
  edits=[("compare.go", "func objectEqual(left, right *V) bool {\n", "func objectEqual(left, right *V) bool {\n	if left.children.incrID == right.children.incrID && len(left.children.object) == 0 {\n		return true\n	}\n"),
         ("compare.go", "	if len(left.children.arr) != len(right.children.arr) {\n		return false\n	}\n", "	if len(left.children.arr) != len(right.children.arr) {\n		return false\n	}\n	if len(left.children.arr) > 0 && &left.children.arr[0] == &right.children.arr[0] {\n		return true // the same elements\n	}\n"),
         ("compare.go", "	if v == nil || another == nil {\n		return false\n	}\n", "	if v == nil || another == nil {\n		return false\n	}\n	if v == another {\n		return true\n	}\n")],
  needs="a value of type NotExist compared with itself",
  breaks="Equal is true for a value that does not exist",
  demo=demo('''
	v := jsonvalue.NewObject().MustGet("x")
	if v.Equal(v) {
		t.Fatal("equal")
	}''')),
 dict(id="C16_uint_text", property="C16",
  edits=[("get.go", "		ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))\n		err := parseNumber(ret, globalPool{})\n		if err != nil {\n			return NewInt(0), fmt", "		s := bytes.TrimSpace([]byte(v.valueStr))\n		if i, err := strconv.ParseInt(string(s), 0, 64); err == nil { // without the pains of parsing JSON\n			return NewInt64(i), ErrTypeNotMatch\n		}\n		ret, _ := newFromNumber(globalPool{}, s)\n		err := parseNumber(ret, globalPool{})\n		if err != nil {\n			return NewInt(0), fmt"),
         ("get.go", '	"fmt"\n', '	"fmt"\n	"strconv"\n')],
  needs="a string such as 0x10, 010 or 1_000",
  breaks="a text that is no JSON number is taken for one",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":"010"}`)
	if i, err := v.GetInt("a"); i != 0 || !errors.Is(err, jsonvalue.ErrParseNumberFromString) {
		t.Fatal(i, err)
	}''').replace('import (', 'import (\n	"errors"')),
 dict(id="C17_int_table", property="C17",
  edits=[("new.go", "func NewInt32(i int32) *V {\n	return NewInt64(int64(i))\n", "func NewInt32(i int32) *V {\n	v := new(globalPool{}, Number)\n	v.num.negative = i < 0\n	v.num.f64 = float64(i)\n	v.num.i64 = int64(i)\n	v.num.u64 = uint64(uint32(i))\n	v.srcByte = strconv.AppendInt(nil, v.num.i64, 10)\n	return v\n")],
  needs="Uint64 of a negative NewInt32",
  breaks="it differs from NewInt64 of the same number",
  demo=demo('''
	if a, b := jsonvalue.NewInt32(-5).Uint64(), jsonvalue.NewInt64(-5).Uint64(); a != b {
		t.Fatal(a, b)
	}''')),
 dict(id="C11_wide_types", property="C11",
  edits=[("conv.go", "	value := reflect.ValueOf(v)\n	switch value.Kind() {\n	case reflect.Int, ", "	switch i := v.(type) { // without reflection\n	case int:\n		return i, nil\n	case int32:\n		return int(i), nil\n	case int64:\n		return int(i), nil\n	case uint8:\n		return int(i), nil\n	case uint16:\n		return int(int16(i)), nil\n	case uint32:\n		return int(i), nil\n	}\n	value := reflect.ValueOf(v)\n	switch value.Kind() {\n	case reflect.Int, ")],
  needs="an index of type uint16 from 65535 down",
  breaks="it counts from the end",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`[1,2,3]`)
	if c, err := v.Get(uint16(65535)); err == nil {
		t.Fatal(c)
	}''')),
 dict(id="C26_must_append", property="C26",
  edits=[("get.go", "	res, _ := get(g.v, true, firstParam, otherParams...)\n	return res\n}\n\nfunc (g *caselessOp) GetBytes", "	res, err := get(g.v, true, firstParam, otherParams...)\n	if err != nil {\n		return nil\n	}\n	return res\n}\n\nfunc (g *caselessOp) GetBytes")],
  needs="MustGet of a caseless lookup that finds nothing",
  breaks="nil instead of an empty value",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	if c := v.Caseless().MustGet("b"); c == nil || c.ValueType() != jsonvalue.NotExist {
		t.Fatal(c)
	}''')),
]
