import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C05_word_search", property="C05",
  edits=[("unmarshal.go", '	end := len(it)\n	sectEnd = offset\n\n	shift', '''	sectEnd, end := offset, len(it)
	if n := bytes.IndexByte(it[offset:], '"'); n >= 32 && it[offset:offset+n].plain() {
		return n, offset + n + 1, nil // nothing to decode
	}

	shift'''),
   ("unmarshal.go", 'import (\n	"errors"', 'import (\n	"bytes"\n	"encoding/binary"\n	"errors"'),
   ("unmarshal.go", "func (it iter) handleEscapeStart(", '''// plain tells whether there are neither escapes nor characters beyond ASCII, eight bytes at a time.
func (it iter) plain() bool {
	const ones, tops = 0x0101010101010101, 0x8080808080808080
	for len(it) >= 8 {
		w := binary.LittleEndian.Uint64(it)
		x := w ^ ones*'\\\\'
		if (w|(x-ones)&^x)&tops != 0 {
			return false
		}
		it = it[8:]
	}
	return true
}

func (it iter) handleEscapeStart(''')],
  needs="a string of 32 characters or more whose first escape is among the last seven",
  breaks="the escape is not decoded",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString(`"` + strings.Repeat("k", 33) + `\\n"`)
	if err != nil || v.String() != strings.Repeat("k", 33)+"\\n" {
		t.Fatal(v, err)
	}''', "strings")),
 dict(id="C08_word_scan", property="C08",
  edits=[("conv.go", "	for _, r := range s {\n		if r <= 0x7F {\n", '''	n := plainPrefix(s)
	_, _ = buf.WriteString(s[:n])
	for _, r := range s[n:] {
		if r <= 0x7F {
'''), ("conv.go", "func anyToInt(v any)", '''// plainPrefix returns how many bytes of a long text need no escaping whatever the options are
func plainPrefix(s string) (n int) {
	if len(s) < 48 {
		return 0
	}
	for n < len(s) {
		switch c := s[n]; {
		case c < ' ', c == '"', c == '\\\\', c == '/', c == '<', c == '>', c >= 0x7F:
			return n
		}
		n++
	}
	return n
}

func anyToInt(v any)''')],
  needs="a string of 48 bytes or more with a '&' before any other character to escape",
  breaks="the '&' is not escaped",
  demo=demo('''
	s := jsonvalue.NewString(strings.Repeat("k", 50) + "&").MustMarshalString()
	if s != `"` + strings.Repeat("k", 50) + "\\\\u0026" + `"` {
		t.Fatal(s)
	}''', "strings")),
 dict(id="C28_shared_default", property="C28",
  edits=[("option.go", "	opt := getDefaultOptions()\n	opt.combineOptionsFrom(opts)\n	return opt\n", '''	if len(opts) == 0 {
		return internal.defaultMarshalOption.Load().(*Opt)
	}
	opt := getDefaultOptions()
	opt.combineOptionsFrom(opts)
	return opt
'''), ("option.go", "func emptyOptions() *Opt {\n	return &Opt{}\n", "func emptyOptions() *Opt {\n	opt := &Opt{}\n	opt.parseEscapingFuncs()\n	return opt\n")],
  needs="default options with indentation, and a Marshal without options which fails inside of an array or object",
  breaks="the next Marshal is indented deeper",
  demo=demo('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptIndent("", " "))
	defer jsonvalue.ResetDefaultMarshalOptions()
	bad := jsonvalue.NewArray()
	bad.MustAppend(math.NaN()).InTheEnd()
	if _, err := bad.Marshal(); err == nil {
		t.Fatal("no error")
	}
	good := jsonvalue.NewArray()
	good.MustAppend(1).InTheEnd()
	if s := good.MustMarshalString(); s != "[\\n 1\\n]" {
		t.Fatalf("%q", s)
	}''', "math")),
 dict(id="C20_matrix", property="C20",
  edits=[("jsonvalue.go", "		for _, v := range c.arr {\n			res.arr = append(res.arr, v.deepCopy())\n		}\n", '''		cells := 0
		for _, v := range c.arr {
			cells += v.Len()
		}
		slab := make([]*V, 0, cells) // one allocation for all rows of a matrix
		res.arr = make([]*V, 0, len(c.arr))
		for _, v := range c.arr {
			row := v.deepCopy()
			if row.valueType == Array {
				from := len(slab)
				slab = append(slab, row.children.arr...)
				row.children.arr = slab[from:]
			}
			res.arr = append(res.arr, row)
		}
''')],
  needs="an imported copy of an array of arrays, and then an append to a row which is not the last",
  breaks="the first element of the next row is overwritten",
  demo=demo('''
	v, err := jsonvalue.Import(jsonvalue.MustUnmarshalString(`[[1],[2]]`))
	if err != nil {
		t.Fatal(err)
	}
	v.MustAppend(3).InTheEnd(0)
	if s := v.MustMarshalString(); s != `[[1,3],[2]]` {
		t.Fatal(s)
	}''')),
 dict(id="C06_indent_table", property="C06",
  edits=[("marshal.go", "	for i := 0; i < opt.indent.cnt; i++ {\n", '''	if strings.Trim(opt.indent.indent, " ") == "" { // the usual case
		_, _ = buf.WriteString(spaces[:len(opt.indent.indent)*opt.indent.cnt])
		return
	}
	for i := 0; i < opt.indent.cnt; i++ {
'''), ("marshal.go", "func writeIndent(", '// spaces is enough for reasonable indentation\nconst spaces = "                                                                "\n\nfunc writeIndent('),
   ("marshal.go", "	_, _ = buf.WriteString(opt.indent.prefix)\n	for", "	_, _ = buf.WriteString(opt.indent.prefix)\n	for") ][:2],
  needs="indentation by spaces and nesting so deep that a line is indented by more than 64",
  breaks="panic: slice bounds out of range",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(strings.Repeat("[", 20) + "1" + strings.Repeat("]", 20))
	if _, err := v.Marshal(jsonvalue.OptIndent("", "    ")); err != nil {
		t.Fatal(err)
	}''', "strings")),
 dict(id="C17_chunked_base64", property="C17",
  edits=[("new.go", "	s := base64.StdEncoding.EncodeToString(b)\n	return NewString(s)\n", '''	s := strings.Builder{}
	for len(b) > 1024 { // a piece at a time
		s.WriteString(base64.StdEncoding.EncodeToString(b[:1024]))
		b = b[1024:]
	}
	s.WriteString(base64.StdEncoding.EncodeToString(b))
	return NewString(s.String())
''')],
  needs="more than 1024 bytes",
  breaks="padding in the middle, so that the bytes cannot be had back",
  demo=demo('''
	b := make([]byte, 1025)
	if got := jsonvalue.NewBytes(b).Bytes(); len(got) != len(b) {
		t.Fatal(len(got))
	}''')),
 dict(id="C25_merge_runs", property="C25",
  edits=[("sort.go", "func (v *sortArrayV) Sort() {\n	sort.Sort(v)\n}\n", '''func (v *sortArrayV) Sort() {
	// runs of 16, which are merged then
	const run = 16
	arr := v.v.children.arr
	for lo := 0; lo < len(arr); lo += run {
		part := arr[lo:]
		if len(part) > run {
			part = part[:run]
		}
		sort.SliceStable(part, func(i, j int) bool { return v.lessFunc(part[i], part[j]) })
	}
	for width := run; 2*width <= len(arr); width *= 2 {
		for lo := 0; lo+width < len(arr); lo += 2 * width {
			part := arr[lo:]
			if len(part) > 2*width {
				part = part[:2*width]
			}
			v.merge(part, width)
		}
	}
}

func (v *sortArrayV) merge(arr []*V, mid int) {
	left := append([]*V{}, arr[:mid]...)
	i, j := 0, mid
	for k := range arr {
		if j == len(arr) || i < len(left) && !v.lessFunc(arr[j], left[i]) {
			arr[k] = left[i]
			i++
		} else {
			arr[k] = arr[j]
			j++
		}
	}
}
''')],
  needs="an array of more than 16 elements, not 32, 64, ...",
  breaks="the last run is not merged",
  demo=demo('''
	v := jsonvalue.NewArray()
	for i := 0; i < 20; i++ {
		v.MustAppend(100 - i).InTheEnd()
	}
	v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	for i := 1; i < 20; i++ {
		if v.MustGet(i-1).Int() > v.MustGet(i).Int() {
			t.Fatal(v)
		}
	}''')),
 dict(id="C19_float_range", property="C19",
  edits=[("import_export.go", "	b, err := v.Marshal()\n	if err != nil {\n		return err\n	}\n\n	return json.Unmarshal(b, dst)\n", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}
	switch d := dst.(type) { // no need to parse it again
	case *float64:
		if d != nil && v.valueType == Number {
			*d = v.num.f64
			return nil
		}
	case *float32:
		if d != nil && v.valueType == Number {
			*d = float32(v.num.f64)
			return nil
		}
	}

	return json.Unmarshal(b, dst)
''')],
  needs="a number beyond float32, or one which rounds in another way by way of float64, exported to a *float32",
  breaks="infinity instead of an error, or the neighbouring float32",
  demo=demo('''
	var f float32
	if err := jsonvalue.MustUnmarshalString(`1e39`).Export(&f); err == nil {
		t.Fatal(f)
	}''')),
 dict(id="C14_plain_lower", property="C14",
  edits=[("jsonvalue.go", "	lowerK := strings.ToLower(k)\n	keys, exist := v.children.lowerCaseKeys[lowerK]\n	if !exist {\n		keys =", "	lowerK := toLower(k)\n	keys, exist := v.children.lowerCaseKeys[lowerK]\n	if !exist {\n		keys ="),
   ("jsonvalue.go", "func addCaselessKey(", '''// toLower is strings.ToLower, quick when there is nothing to do
func toLower(k string) string {
	for i := 0; i < len(k); i++ {
		if c := k[i]; c-'A' <= 'Z'-'A' {
			return strings.ToLower(k)
		}
	}
	return k
}

func addCaselessKey(''')],
  needs="a key with a capital letter beyond ASCII and none of ASCII",
  breaks="it is not found without case",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"\\u00c9t\\u00e9":1}`)
	if n, err := v.Caseless().GetInt("\\u00e9t\\u00e9"); err != nil || n != 1 {
		t.Fatal(n, err)
	}''')),
 dict(id="C18_byte_array", property="C18",
  edits=[("import_export.go", "	case reflect.Array:\n		fu = parseArrayValue\n", '''	case reflect.Array:
		if v.CanAddr() && isBytesType(reflect.SliceOf(v.Type().Elem())) {
			v, fu = v.Slice(0, v.Len()), parseBytesValue
		} else {
			fu = parseArrayValue
		}
''')],
  needs="an array of bytes behind a pointer or in a slice",
  breaks="a base64 string instead of an array of numbers",
  demo=demo('''
	v, err := jsonvalue.Import([][2]byte{{1, 2}})
	if err != nil || v.MustMarshalString() != `[[1,2]]` {
		t.Fatal(v, err)
	}''')),
]
