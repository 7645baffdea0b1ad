import importlib.util, os
spec = importlib.util.spec_from_file_location("a", os.path.dirname(os.path.abspath(__file__)) + "/a.py")
a = importlib.util.module_from_spec(spec); spec.loader.exec_module(a)
demo, HEAD = a.demo, a.HEAD

SEEDS = [
 dict(id="C09_natural_keys", property="C09",
  edits=[("sort.go", "	return strings.Compare(key1, key2) <= 0\n", '''	if len(key1) != len(key2) && number(key1) && number(key2) {
		return len(key1) < len(key2)
	}
	return strings.Compare(key1, key2) <= 0
'''), ("sort.go", "func (sov *sortObjectV) marshalObjectWithLessFunc", '''func number(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func (sov *sortObjectV) marshalObjectWithLessFunc''')],
  needs="keys of digits of different lengths",
  breaks="they are in the order of the numbers and not that of the strings",
  demo=demo('''
	v := jsonvalue.MustUnmarshalString(`{"9":1,"10":2}`)
	if s := v.MustMarshalString(jsonvalue.OptDefaultStringSequence()); s != `{"10":2,"9":1}` {
		t.Fatal(s)
	}''')),
 dict(id="C01_depth_limit", property="C01",
  edits=[("unmarshal.go", "	end := len(it)\n	offset, reachEnd := it.skipBlanks(offset)\n", '''	end := len(it)
	depth := 0
	for i, chr := range it { // as deep as encoding/json goes
		if chr == '[' || chr == '{' {
			depth++
		} else if chr == ']' || chr == '}' {
			depth--
		} else if chr == '"' && i > 0 && depth == 0 {
			break
		}
		if depth > 10000 {
			return &V{}, fmt.Errorf("%w, exceeded max depth", ErrRawBytesUnrecognized)
		}
	}
	offset, reachEnd := it.skipBlanks(offset)
''')],
  needs="more than 10000 nested arrays, or a string with that many brackets",
  breaks="well-formed text is refused",
  demo=demo('''
	if _, err := jsonvalue.UnmarshalString("[" + strings.Repeat("[", 10000) + strings.Repeat("]", 10001)); err != nil {
		t.Fatal(err)
	}''', "strings")),
]
