import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C27_containers_only", property="C27",
  edits=[("sort.go", "		par := newParentInfo(child, sov.parentInfo, stringKey(key))\n", "		var par *ParentInfo\n		if child.IsObject() { // only objects are sorted\n			par = newParentInfo(child, sov.parentInfo, stringKey(key))\n		}\n")],
  needs="an object in an array in an object, marshaled with a less function that reads the key path",
  breaks="the path of the inner object lacks everything before the index",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":[{"x":1,"y":2}]}`)
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		if p == nil || p.KeyPath.String() != `["a" 0]` {
			t.Fatal(p)
		}
		return k1 < k2
	}))''')),
 dict(id="C27_reused_parent", property="C27",
  edits=[("sort.go", "	firstWritten := false\n	for i, key := range sov.keys {\n", "	firstWritten := false\n	var par *ParentInfo\n	for i, key := range sov.keys {\n"),
         ("sort.go", "		par := newParentInfo(child, sov.parentInfo, stringKey(key))\n", "		if par == nil {\n			par = newParentInfo(child, sov.parentInfo, stringKey(key))\n		} else { // one for all members\n			par.Parent = child\n			*par.KeyPath[len(par.KeyPath)-1] = stringKey(key)\n		}\n")],
  needs="a less function that keeps what it is told about one member of an object until another member is written",
  breaks="the kept parent and path turn into those of the other member",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"x":1,"y":2},"b":{"x":1,"y":2}}`)
	var first *jsonvalue.ParentInfo
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		if p != nil && first == nil {
			first = p
		}
		return k1 < k2
	}))
	if first == nil || first.KeyPath.String() != `["a"]` || first.Parent != v.MustGet("a") {
		t.Fatal(first)
	}''')),
 dict(id="C28_precomputed_sequence", property="C28",
  edits=[("option.go", "	opt.combineOptionsFrom(opts)\n	internal.", "	opt.combineOptionsFrom(opts)\n	opt.indexKeySequence()\n	internal."),
         ("option.go", "func emptyOptions() *Opt {", "// indexKeySequence prepares the key sequence, so that it is not done for each value.\nfunc (opt *Opt) indexKeySequence() {\n	if len(opt.MarshalKeySequence) == 0 || opt.keySequence != nil {\n		return\n	}\n	opt.keySequence = make(map[string]int, len(opt.MarshalKeySequence))\n	for i, k := range opt.MarshalKeySequence {\n		opt.keySequence[k] = i\n	}\n}\n\nfunc emptyOptions() *Opt {"),
         ("option.go", "	opt.MarshalKeySequence = o.seq\n	opt.keySequence = nil\n", "	opt.MarshalKeySequence = o.seq\n")],
  needs="a default key sequence and another one in a call",
  breaks="the call is served in the default order",
  demo=demo('''
	defer jsonvalue.ResetDefaultMarshalOptions()
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptKeySequence([]string{"a", "b", "c"}))
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3}`)
	if s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"c", "b", "a"})); s != `{"c":3,"b":2,"a":1}` {
		t.Fatal(s)
	}''')),
 dict(id="C28_indent_depth", property="C28",
  edits=[("option.go", "	indent struct {\n		enabled bool\n		prefix  string\n		indent  string\n		cnt     int\n	}\n}\n", "	indent *indentation\n}\n\ntype indentation struct {\n	prefix string\n	indent string\n	cnt    int\n}\n\nfunc (i *indentation) enter(n int) {\n	if i != nil {\n		i.cnt += n\n	}\n}\n"),
         ("option.go", "	return optionIndent{prefix, indent}\n}\n\ntype optionIndent [2]string\n\nfunc (o optionIndent) mergeTo(opt *Opt) {\n	opt.indent.enabled = true\n	opt.indent.prefix = o[0]\n	opt.indent.indent = o[1]\n}",
          "	return &optionIndent{indentation{prefix: prefix, indent: indent}}\n}\n\ntype optionIndent struct {\n	indentation\n}\n\nfunc (o *optionIndent) mergeTo(opt *Opt) {\n	opt.indent = &o.indentation\n}"),
         ] + [("marshal.go", x, y) for x, y in (
          ("	opt.indent.cnt++\n	_ = buf.WriteByte('{')", "	opt.indent.enter(1)\n	_ = buf.WriteByte('{')"),
          ("	opt.indent.cnt++\n	_ = buf.WriteByte('[')", "	opt.indent.enter(1)\n	_ = buf.WriteByte('[')"),
          ("	opt.indent.cnt--\n	if opt.indent.enabled {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n	_ = buf.WriteByte('}')", "	opt.indent.enter(-1)\n	if opt.indent != nil {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n	_ = buf.WriteByte('}')"),
          ("	opt.indent.cnt--\n	if opt.indent.enabled {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n	_ = buf.WriteByte(']')", "	opt.indent.enter(-1)\n	if opt.indent != nil {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n	_ = buf.WriteByte(']')"),
          ("	if opt.indent.enabled {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n\n	_ = buf", "	if opt.indent != nil {\n		_ = buf.WriteByte('\\n')\n		writeIndent(buf, opt)\n	}\n\n	_ = buf"),
          ("	if opt.indent.enabled {\n		_, _ = buf", "	if opt.indent != nil {\n		_, _ = buf"),
          ("		if opt.indent.enabled {\n			_ = buf", "		if opt.indent != nil {\n			_ = buf"))],
  needs="one OptIndent option used for a value that cannot be marshaled and then for another value",
  breaks="the other value is indented too deep",
  demo=demo('''
	o := jsonvalue.OptIndent("", " ")
	bad := jsonvalue.NewArray()
	bad.MustAppendFloat64(math.NaN()).InTheEnd()
	if _, err := bad.Marshal(o); err == nil {
		t.Fatal("no error")
	}
	v := jsonvalue.MustUnmarshalString(`[1]`)
	if s := v.MustMarshalString(o); s != "[\\n 1\\n]" {
		t.Fatal(s)
	}''', "math")),
 dict(id="C01_key_cache", property="C01",
  edits=[("unmarshal.go", "func unmarshalObjectWithIterUnknownEnd(", "// keyText gives the text of a key, the same one for objects of the same shape.\nfunc (it iter) keyText(last *string, start, end int) string {\n	s := unsafe.BtoS(it[start:end])\n	n := len(s)\n	if n > 2 && n == len(*last) && s[0] == (*last)[0] && s[n-1] == (*last)[n-1] && s[n/2] == (*last)[n/2] {\n		return *last\n	}\n	*last = s\n	return s\n}\n\nfunc unmarshalObjectWithIterUnknownEnd("),
         ("unmarshal.go", "	keyStart, keyEnd := 0, 0\n", "	keyStart, keyEnd := 0, 0\n	last := \"\"\n"),
         ("unmarshal.go", "			var v *V\n			v, sectEnd, _, err := it.parseNumber(p, offset)\n			if err != nil {\n				return nil, -1, err\n			}\n			setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n", "			var v *V\n			v, sectEnd, _, err := it.parseNumber(p, offset)\n			if err != nil {\n				return nil, -1, err\n			}\n			setToObjectChildren(obj, it.keyText(&last, keyStart, keyEnd), v)\n")],
  needs="two keys of numbers in one object which have the same length and the same first, middle and last byte",
  breaks="the second one overwrites the first",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString(`{"k_10_v":1,"k_20_v":2}`)
	if err != nil || v.Len() != 2 || v.MustGet("k_20_v").Int() != 2 {
		t.Fatal(v, err)
	}''')),
 dict(id="C05_unrolled_copy", property="C05",
  edits=[("unmarshal.go", "	copy(it[dst:dst+length], it[src:src+length])\n", "	if length == 4 {\n		it[dst+3], it[dst+2] = it[src+3], it[src+2]\n		it[dst+1], it[dst] = it[src+1], it[src]\n		return\n	}\n	copy(it[dst:dst+length], it[src:src+length])\n")],
  needs="a character of four bytes shortly after a two-character escape, so that old and new place overlap",
  breaks="bytes of the character are overwritten before they are moved",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString(`"\\n😀"`)
	if err != nil || v.String() != "\\n😀" {
		t.Fatalf("%q %v", v.String(), err)
	}''')),
 dict(id="C13_shrink", property="C13",
  edits=[("insert_append_delete.go", "	v.children.arr = v.children.arr[:le-1]\n", "	v.children.arr = v.children.arr[:le-1]\n	if c := cap(v.children.arr); c > 2*initialArrayCapacity && le*4 < c { // do not keep memory which is not needed any more\n		arr := make([]*V, le-1, le)\n		copy(arr, v.children.arr[:pos])\n		copy(arr[pos:], v.children.arr[pos:])\n		if pos == 0 {\n			arr = arr[:copy(arr, v.children.arr[1:])]\n		}\n		v.children.arr = arr\n	}\n")],
  needs="an array that had more than 64 elements, most of which are deleted from the front",
  breaks="an element that was not deleted is lost",
  demo=demo('''
	v := jsonvalue.NewArray()
	for i := 0; i < 100; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	for i := 0; i < 90; i++ {
		v.MustDelete(0)
		if v.Len() != 99-i || v.MustGet(0).Int() != i+1 {
			t.Fatal(i, v.Len())
		}
	}''')),
 dict(id="C15_minus_zero", property="C15",
  edits=[("compare.go", "	d1, _ := decimal.NewFromString(string(left.srcByte))\n	d2, _", "	if !left.num.floated && !right.num.floated {\n		return left.num.negative == right.num.negative && left.num.u64 == right.num.u64\n	}\n\n	d1, _ := decimal.NewFromString(string(left.srcByte))\n	d2, _")],
  needs="0 compared with -0",
  breaks="they are not equal",
  demo=demo('''
	if !jsonvalue.MustUnmarshalString("-0").Equal(jsonvalue.NewInt(0)) {
		t.Fatal("not equal")
	}''')),
 dict(id="C18_type_cache", property="C18",
  edits=[("import_export.go", "	tg := ft.Tag.Get(name)\n\n", "	tg := fieldTag(ft, name)\n\n"),
         ("import_export.go", "func readFieldTag(", "var fieldTags sync.Map\n\n// fieldTag is ft.Tag.Get(name), but remembers the result.\nfunc fieldTag(ft reflect.StructField, name string) string {\n	key := [4]string{name, ft.Name, ft.Type.String(), string(ft.Tag)}\n	if len(key[3]) > 32 {\n		key[3] = key[3][:32]\n	}\n	if tg, ok := fieldTags.Load(key); ok {\n		return tg.(string)\n	}\n	tg := ft.Tag.Get(name)\n	fieldTags.Store(key, tg)\n	return tg\n}\n\nfunc readFieldTag("),
         ("import_export.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
  needs="two struct fields of the same name and type whose long tags differ only after 32 bytes",
  breaks="the second field is imported with the tag of the first",
  demo=demo('''
	type a struct {
		Field int `yaml:"some_long_field_name" json:"x"`
	}
	type b struct {
		Field int `yaml:"some_long_field_name" json:"y"`
	}
	s := jsonvalue.New(a{1}).MustMarshalString() + jsonvalue.New(b{2}).MustMarshalString()
	if s != `{"x":1}{"y":2}` {
		t.Fatal(s)
	}''')),
 dict(id="C19_fresh_map", property="C19",
  edits=[("import_export.go", "	return json.Unmarshal(b, dst)\n", "	if m, ok := dst.(*map[string]any); ok {\n		*m = make(map[string]any, v.Len())\n	}\n	return json.Unmarshal(b, dst)\n")],
  needs="Export into a map that already has entries, or of a value that does not fit into a map",
  breaks="the former entries are dropped although encoding/json keeps them",
  demo=demo('''
	m := map[string]interface{}{"old": 1}
	if err := jsonvalue.MustUnmarshalString(`{"new":2}`).Export(&m); err != nil || len(m) != 2 {
		t.Fatal(m, err)
	}''')),
 dict(id="C07_long_number", property="C07",
  edits=[("internal/buffer/buffer_impl.go", "	b.buff = append(b.buff, d...)\n	return len(d), nil\n", "	l, n := len(b.buff), len(d)\n	if l+n > cap(b.buff) {\n		b.grow()\n	}\n	n = copy(b.buff[l:cap(b.buff)], d)\n	b.buff = b.buff[:l+n]\n	return n, nil\n"),
         ("internal/buffer/buffer_impl.go", "func (b *buffer) WriteString(", "func (b *buffer) grow() {\n	buff := make([]byte, len(b.buff), 2*cap(b.buff))\n	copy(buff, b.buff)\n	b.buff = buff\n}\n\nfunc (b *buffer) WriteString(")],
  needs="a number text, or a replacement for an infinite number, of more than 4 KiB",
  breaks="the end of the text is cut off",
  demo=demo('''
	text := "[0." + strings.Repeat("123456789", 1000) + ",7]"
	v, err := jsonvalue.UnmarshalString(text)
	if err != nil || v.MustMarshalString() != text {
		t.Fatal(err)
	}''', "strings")),
 dict(id="C23_elements", property="C23",
  edits=[("beta/contain.go", "			if !vv.Equal(subV) {\n", "			if !Contains(vv, subV) {\n")],
  needs="an array of objects and a shorter array with a part of one of the objects",
  breaks="it is reported as contained",
  demo=demo('''
	if beta.Contains(jsonvalue.MustUnmarshalString(`[{"a":1,"b":2},3]`), jsonvalue.MustUnmarshalString(`[{"a":1}]`)) {
		t.Fatal("contained")
	}''', "github.com/Andrew-M-C/go.jsonvalue/beta")),
 dict(id="C21_decimal_cache", property="C21", race=True,
  edits=[("compare.go", "	a1, _ := decimal.NewFromString(string(left.srcByte))\n	a2, _ := decimal.NewFromString(string(right.srcByte))\n	return a1.GreaterThan(a2), true\n", "	return left.decimal().GreaterThan(right.decimal()), true\n"),
         ("compare.go", "func greaterThan(", "// decimal is the exact value of a number, which is expensive to calculate.\nfunc (v *V) decimal() decimal.Decimal {\n	if v.num.exact == nil {\n		d, _ := decimal.NewFromString(string(v.srcByte))\n		v.num.exact = &d\n	}\n	return *v.num.exact\n}\n\nfunc greaterThan("),
         ("jsonvalue.go", "	f64      float64\n}", "	f64      float64\n	exact    *decimal.Decimal\n}"),
         ("jsonvalue.go", '	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"\n', '	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"\n	"github.com/shopspring/decimal"\n')],
  needs="two goroutines comparing the same number",
  breaks="a data race on the remembered decimal",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString("[1,2]")
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if v.MustGet(0).GreaterThan(v.MustGet(1)) {
				t.Error("greater")
			}
		}()
	}
	wg.Wait()''', "sync")),
 dict(id="C02_short_int", property="C02",
  edits=[("unmarshal.go", "	arr := newArray(p)\n\n	reachEnd := false\n\n	for offset < right {\n", "	arr := newArray(p)\n\n	reachEnd := false\n\n	for offset < right {\n		if i, n := it.shortInt(offset, right); n > 0 {\n			appendToArr(arr, NewInt64(i))\n			offset += n\n			continue\n		}\n"),
         ("unmarshal.go", "func appendToArr(", """// shortInt handles integers of up to three digits followed by a comma, which are very common.
func (it iter) shortInt(offset, right int) (i int64, n int) {
	for n < 3 && offset+n < right && it[offset+n] >= '0' && it[offset+n] <= '9' {
		i = i*10 + int64(it[offset+n]-'0')
		n++
	}
	if n < 3 || offset+n >= right || it[offset+n] != ',' {
		return 0, 0
	}
	return i, n
}

func appendToArr(""")],
  needs="an element of exactly three digits the first of which is 0, followed by a comma",
  breaks="[007,1] is accepted",
  demo=demo('''
	if v, err := jsonvalue.UnmarshalString("[007,1]"); err == nil {
		t.Fatal(v)
	}''')),
 dict(id="C08_plain_keys", property="C08",
  edits=[("marshal.go", "	escapeStringToBuff(key, buf, opt)\n", "	if isPlainKey(key) {\n		_, _ = buf.WriteString(key)\n	} else {\n		escapeStringToBuff(key, buf, opt)\n	}\n"),
         ("marshal.go", "func writeIndent(", "// isPlainKey tells whether there is nothing to escape in a key.\nfunc isPlainKey(key string) bool {\n	for i := 0; i < len(key); i++ {\n		switch c := key[i]; c {\n		case '\"', '\\\\', '/', '<', '>', '&':\n			return false\n		default:\n			if c < ' ' || c >= asciiSize {\n				return false\n			}\n		}\n	}\n	return true\n}\n\nfunc writeIndent(")],
  needs="a key with the control character DEL",
  breaks="it is written raw although the same character is escaped in a string",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetString("\\x7f").At("\\x7f")
	if s := v.MustMarshalString(); s != `{"\\u007F":"\\u007F"}` {
		t.Fatalf("%q", s)
	}''')),
]
