import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C15_float_order", property="C15",
  edits=[("compare.go", "\treturn a1.GreaterThan(a2), true", "\treturn left.num.f64 > right.num.f64 && a1.GreaterThan(a2), true")],
  needs="two numbers that differ beyond the precision of a float64",
  breaks="the greater number is not greater",
  demo=demo('''
	a := jsonvalue.MustUnmarshalString("9007199254740993")
	b := jsonvalue.MustUnmarshalString("9007199254740992")
	if !a.GreaterThan(b) || a.LessThanOrEqual(b) {
		t.Fatal("wrong")
	}''')),
 dict(id="C23_skipping_search", property="C23",
  edits=[("beta/contain.go", "\tsubEqual := func(start int) bool {", "\tmatched := 0\n\tsubEqual := func(start int) bool {\n\t\tmatched = 0"),
   ("beta/contain.go", "\t\t\t\tres = false\n\t\t\t\treturn false\n\t\t\t}\n\t\t\treturn true\n\t\t})\n\n\t\treturn res\n\t}\n", "\t\t\t\tres = false\n\t\t\t\treturn false\n\t\t\t}\n\t\t\tmatched++\n\t\t\treturn true\n\t\t})\n\n\t\treturn res\n\t}\n"),
   ("beta/contain.go", "\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}", "\t\t\treturn true\n\t\t}\n\t\tif matched > 1 {\n\t\t\ti += matched - 1 // already compared\n\t\t}\n\t}\n\treturn false\n}")],
  needs="an array in which the sub-array starts within a partial match of at least two elements, e.g. [1,1,2] in [1,1,1,2]",
  breaks="the sub-array is not found",
  demo='''package jsonvalue_test

import (
	"testing"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func TestDemo(t *testing.T) {
	v := jsonvalue.MustUnmarshalString(`[1,1,1,2,3]`)
	if !beta.Contains(v, []int{1, 1, 2}) || beta.Contains(v, []int{2, 1}) {
		t.Fatal("wrong")
	}
}
'''),
 dict(id="C20_unmarshaljson_input", property="C20",
  edits=[("marshaler_unmarshaler.go", "func (v *V) UnmarshalJSON(b []byte) error {\n\tres, err := Unmarshal(b)", "func (v *V) UnmarshalJSON(b []byte) error {\n\tres, err := UnmarshalNoCopy(b)")],
  needs="a *V filled by encoding/json (or by UnmarshalJSON), and the input used or changed afterwards",
  breaks="UnmarshalJSON rewrites its input and the value depends on it",
  demo=demo('''
	b := []byte("\\"a\\\\nb\\"")
	old := string(b)
	v := &jsonvalue.V{}
	if err := v.UnmarshalJSON(b); err != nil {
		t.Fatal(err)
	}
	if string(b) != old {
		t.Fatalf("input is now %q", b)
	}
	b[1] = 'z'
	if v.String() != "a\\nb" {
		t.Fatal(v.String())
	}''')),
 dict(id="C13_full_array", property="C13",
  edits=[("insert_append_delete.go", "\tv.children.arr = append(v.children.arr, nil)\n\tcopy(v.children.arr[pos+1:], v.children.arr[pos:])\n\tv.children.arr[pos] = child\n", "\told := v.children.arr\n\tif len(old) == cap(old) {\n\t\tv.children.arr = make([]*V, len(old)+1, 2*len(old)+1)\n\t\tcopy(v.children.arr, old[:pos])\n\t} else {\n\t\tv.children.arr = append(old, nil)\n\t}\n\tcopy(v.children.arr[pos+1:], v.children.arr[pos:len(old)])\n\tv.children.arr[pos] = child\n")],
  needs="an insertion into an array whose capacity is used up (32 elements)",
  breaks="the elements behind the insertion are lost",
  demo=demo('''
	v := jsonvalue.NewArray()
	for i := 0; i < 32; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustInsertInt(99).Before(1)
	for i, c := range v.ForRangeArr() {
		want := i - 1
		if i == 0 {
			want = 0
		} else if i == 1 {
			want = 99
		}
		if c == nil || c.Int() != want {
			t.Fatal(i, c)
		}
	}''')),
 dict(id="C03_short_surrogate", property="C03",
  edits=[("unmarshal.go", "\tif end-*i <= 11 {", "\tif end-*i < 10 {")],
  needs="a text that ends within the last digit of the second half of a \\u escape pair",
  breaks="parsing panics",
  demo=demo('''
	for n := 1; n < 14; n++ {
		if _, err := jsonvalue.UnmarshalString("\\"\\\\ud83d\\\\ude00\\""[:n]); err == nil {
			t.Fatal(n)
		}
	}''')),
 dict(id="C01_empty_key", property="C01",
  edits=[("unmarshal.go", "\tkeyNotFoundErr := func() error {\n\t\tif keyEnd == 0 {", "\tkeyNotFoundErr := func() error {\n\t\tif keyEnd <= keyStart {")],
  needs="an object with an empty key",
  breaks="the text is refused",
  demo=demo('''
	v, err := jsonvalue.UnmarshalString("{\\"\\":1}")
	if err != nil || v.Len() != 1 {
		t.Fatal(err)
	}''')),
 dict(id="C16_trim", property="C16",
  edits=[("get.go", "\tif v.valueStr == \"\" {\n\t\treturn NewInt64(0)\n\t}\n\tret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))", "\tif v.valueStr == \"\" {\n\t\treturn NewInt64(0)\n\t}\n\tret, _ := newFromNumber(globalPool{}, bytes.Trim([]byte(v.valueStr), \" \"))")],
  needs="a string with a number and a line end or tab around it, read with Int() and with GetInt()",
  breaks="the two disagree",
  demo=demo('''
	v := jsonvalue.NewObject()
	v.MustSetString("12\\n").At("n")
	i, _ := v.GetInt("n")
	if j := v.MustGet("n").Int(); i != 12 || j != 12 {
		t.Fatal(i, j)
	}''')),
 dict(id="C22_reused_indent_buffer", property="C22",
  edits=[("marshal.go", "\tb, err := v.Marshal(opts...)\n\tif err != nil {\n\t\treturn \"\", err\n\t}\n\treturn unsafe.BtoS(b), nil", "\topt := combineOptions(opts)\n\tif !opt.indent.enabled || NotExist == v.valueType {\n\t\tb, err := v.Marshal(opts...)\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n\t\treturn unsafe.BtoS(b), nil\n\t}\n\tbuf := buffer.GetBuffer() // indented texts are large\n\tdefer buffer.PutBuffer(buf)\n\tif err = marshalToBuffer(v, nil, buf, opt); err != nil {\n\t\treturn \"\", err\n\t}\n\treturn unsafe.BtoS(buf.Bytes()), nil"),
   ("internal/buffer/buffer.go", "// NewBuffer returns a buffer\n", "var buffers = sync.Pool{New: func() interface{} { return NewBuffer() }}\n\n// GetBuffer returns a buffer from the pool\nfunc GetBuffer() Buffer {\n\treturn buffers.Get().(Buffer)\n}\n\n// PutBuffer gives the buffer back\nfunc PutBuffer(b Buffer) {\n\tif b, ok := b.(*buffer); ok {\n\t\tb.buff = b.buff[:0]\n\t\tbuffers.Put(b)\n\t}\n}\n\n// NewBuffer returns a buffer\n"),
   ("internal/buffer/buffer.go", "package buffer\n", "package buffer\n\nimport \"sync\"\n")],
  needs="an indented string from MarshalString that is kept while another value is marshaled with indentation",
  breaks="the string changes",
  demo=demo('''
	a, b := jsonvalue.NewString("first"), jsonvalue.NewString("2nd!!")
	for i := 0; i < 100; i++ {
		s := a.MustMarshalString(jsonvalue.OptIndent("", " "))
		b.MustMarshalString(jsonvalue.OptIndent("", " "))
		if s != "\\"first\\"" {
			t.Fatal(s)
		}
	}''')),
]
