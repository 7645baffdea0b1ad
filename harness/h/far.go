package h

// Harnesses for what happens far from the beginning: behind long plain text, deep inside, in the rows of a matrix.

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// C05_far: an escape or a character behind a plain run of any length up to 72, and the run once more.
func C05_far() {
	list := []string{`\n`, `\u00e9`, `\ud83d\ude00`, "é", `\"`, `\\`, "\U0001F600", `\x`, `\udc00`, "\xff"}
	n := sym.Choose("before", sym.Param("run", 73, 200))
	b := append([]byte{'"'}, run(n)...)
	b = append(b, list[sym.Choose("item", len(list))]...)
	b = append(b, run([]int{0, 5, 11, 32}[sym.Choose("after", 4)])...)
	b = append(b, '"')
	checkLiteral(b)
}

// C07_far: a string or key with something to escape behind a plain run goes through both ways.
func C07_far() {
	n := []int{31, 32, 33, 47, 48, 50, 63, 64, 65, 100, 255, 256}[sym.Choose("before", 12)]
	b := append(run(n), chars(1)...)
	b = append(b, run(sym.Choose("after", 2)*9)...)
	var v *jsonvalue.V
	m := &N{k: 's', s: string(b)}
	if sym.Choose("key", 2) == 1 {
		v = jsonvalue.NewObject()
		v.MustSetNull().At(string(b))
		m = &N{k: 'o', keys: []string{string(b)}, kids: []*N{{k: 'z'}}}
	} else {
		v = jsonvalue.NewString(string(b))
	}
	_, o := chooseEsc()
	out, err := v.Marshal(o...)
	sym.Assert(err == nil, "Marshal fails")
	w, err := jsonvalue.Unmarshal(out)
	sym.Assert(err == nil && same(w, m), "another value comes back")
	sym.Reach("back")
}

// C08_farther: an arbitrary character behind longer plain runs.
func C08_farther() {
	b := run([]int{31, 33, 47, 48, 50, 64, 65, 100, 129, 256}[sym.Choose("before", sym.Param("runs", 7, 10))])
	b = append(b, chars(1)...)
	b = append(b, run(sym.Choose("after", 2)*9)...)
	e, o := chooseEsc()
	checkEscaping(b, 1, e, o)
}

// indented is the text of a value of single-member containers, as encoding/json would indent it.
func indented(n *N, prefix, indent string, depth int) string {
	line := func(d int) string {
		s := "\n" + prefix
		for i := 0; i < d; i++ {
			s += indent
		}
		return s
	}
	s := ""
	switch n.k {
	case 'a':
		s = "["
		for i, c := range n.kids {
			if i > 0 {
				s += ","
			}
			s += line(depth+1) + indented(c, prefix, indent, depth+1)
		}
		return s + line(depth) + "]"
	case 'o':
		s = "{"
		for i, c := range n.kids {
			if i > 0 {
				s += ","
			}
			s += line(depth+1) + `"` + n.keys[i] + `": ` + indented(c, prefix, indent, depth+1)
		}
		return s + line(depth) + "}"
	case 'z':
		return "null"
	}
	return n.s
}

// C08_deep: the indentation of deep values.
func C08_deep() {
	depth := []int{1, 2, 8, 9, 16, 17, 32, 33, 40, 65, 70}[sym.Choose("depth", 11)]
	v, n := nest(jsonvalue.NewInt(1), numberN(1), depth, sym.Choose("pattern", 4)*5)
	indent := []string{"", " ", "  ", "    ", "\t", " \t", "        "}[sym.Choose("indent", 7)]
	prefix := []string{"", " ", "\t\t"}[sym.Choose("prefix", 3)]
	out, err := v.Marshal(jsonvalue.OptIndent(prefix, indent), jsonvalue.OptSetSequence())
	sym.Reach("indented")
	sym.Assert(err == nil && string(out) == indented(n, prefix, indent, 0), "a deep value is not indented as it should be")
}

// C06_indent: well-formed output whatever the depth and the indentation.
func C06_indent() {
	depth := []int{1, 9, 17, 33, 65, 70}[sym.Choose("depth", 6)]
	v, n := nest(jsonvalue.NewInt(1), numberN(1), depth, sym.Choose("pattern", 4)*5)
	indent := []string{"", " ", "  ", "    ", "\t", "        "}[sym.Choose("indent", 6)]
	m, ok := wellFormed(v, jsonvalue.OptIndent("", indent), jsonvalue.OptDefaultStringSequence())
	sym.Assert(ok && sameN(n, m), "the text of a deep value denotes something else")
	sym.Reach("indented")
}

// C20_rows: copies of an array of arrays and objects, one of which grows or shrinks.
func C20_rows() {
	t := newT('a')
	for i, rows := 0, 2+sym.Choose("rows", 2); i < rows; i++ {
		row := newT("ao"[sym.Choose("row", 2)])
		for j, c := 0, []int{0, 1, 3}[sym.Choose("cells", 3)]; j < c; j++ {
			cell := newT('n')
			if row.k == 'a' {
				row.v.MustAppend(cell.v).InTheEnd()
				row.insert(j, cell)
			} else {
				k := string([]byte{byte('a' + j)})
				row.v.MustSet(cell.v).At(k)
				row.put(k, cell)
			}
		}
		t.v.MustAppend(row.v).InTheEnd()
		t.insert(i, row)
	}
	w := copiedBy(t.v, sym.Choose("way", 3))
	u := t.forget()
	sym.Assert(u.adopt(w) && u.holds() && u.apart(t), "a copy is not one")
	a, b := t, u
	if sym.Choose("change the copy", 2) == 1 {
		a, b = u, t
	}
	touch(a.kids[sym.Choose("changed", len(a.kids))], 3)
	touch(b.kids[0], 1)
	sym.Assert(a.holds() && b.holds(), "a change of a row is visible elsewhere")
	sym.Reach("copied")
}

// C17_bytes: bytes of many lengths come back, wherever the odd one is.
func C17_bytes() {
	x := run([]int{24, 47, 48, 49, 57, 76, 255, 256, 257, 1023, 1024, 1025, 3001, 4097}[sym.Choose("len", sym.Param("sizes", 14, 14))])
	x[[]int{0, len(x) / 2, len(x) - 1}[sym.Choose("where", 3)]] = sym.Byte("odd")
	v := []func() *jsonvalue.V{
		func() *jsonvalue.V { return jsonvalue.NewBytes(x) },
		func() *jsonvalue.V { return jsonvalue.New(x) },
		func() *jsonvalue.V {
			o := jsonvalue.NewObject()
			o.MustSetBytes(x).At("k")
			return o.MustGet("k")
		},
	}[sym.Choose("form", 3)]()
	sym.Assert(v.IsString() && v.String() == refEncode(x), "bytes are not stored in base64")
	sym.Assert(string(v.Bytes()) == string(x), "Bytes() is not what was stored")
	sym.Reach("bytes")
}

// brackets is the text of depth arrays and objects around a middle; the first bit of the pattern is the outermost.
func brackets(depth, pattern int, mid string) ([]byte, []byte) {
	var b, end []byte
	for i := 0; i < depth; i++ {
		if pattern>>(uint(i)%4)&1 == 1 {
			b, end = append(b, `{"k":`...), append(end, '}')
		} else {
			b, end = append(b, '['), append(end, ']')
		}
	}
	for i, j := 0, len(end)-1; i < j; i, j = i+1, j-1 {
		end[i], end[j] = end[j], end[i]
	}
	return append(b, mid...), end
}

// C01_depth: deeper nesting than any plausible table, counter or limit.
func C01_depth() {
	sym.Budget(20)
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	depth := []int{127, 129, 255, 257, 1001, 1025, 10001}[sym.Choose("depth", sym.Param("depths", 7, 7))]
	pattern := []int{0, 15, 5, 6}[sym.Choose("pattern", 4)]
	b, end := brackets(depth, pattern, string([]byte{d}))
	b = append(b, end...)
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
	for i := 0; i < depth; i++ {
		var c *jsonvalue.V
		if pattern>>(uint(i)%4)&1 == 1 {
			c, err = v.Get("k")
		} else {
			c, err = v.Get(0)
		}
		sym.Assert(err == nil && v.Len() == 1, "Unmarshal: the value is not what the text denotes")
		v = c
	}
	sym.Assert(v.IsNumber() && v.Int() == int(d-'0'), "Unmarshal: the value is not what the text denotes")
	sym.Reach("depth")
}

// C02_deep: an error among many brackets.
func C02_deep() {
	sym.Budget(1)
	depth := []int{2, 7, 8, 9, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 257}[sym.Choose("depth", 18)]
	b, end := brackets(depth, []int{0, 15, 5, 6}[sym.Choose("pattern", 4)], []string{"1", "", `"s"`}[sym.Choose("middle", 3)])
	at := []int{0, depth / 2, depth - 1}[sym.Choose("at", 3)]
	switch sym.Choose("error", 5) {
	case 0: // the other bracket
		end[at] ^= '}' ^ ']'
	case 1: // one is missing
		end = append(end[:at:at], end[at+1:]...)
	case 2: // one too many
		end = append(end[:at:at], append([]byte{"]}"[sym.Choose("bracket", 2)]}, end[at:]...)...)
	case 3: // something between them
		end = append(end[:at:at], append([]byte{sym.Byte("between")}, end[at:]...)...)
	case 4: // the end is missing
		end = end[:at]
	}
	b = append(b, end...)
	if _, ok := refParse(b, true); ok {
		sym.Reach("accepted")
		return
	}
	_, err := jsonvalue.Unmarshal(b)
	sym.Assert(err != nil, "text that is not JSON is accepted")
	sym.Reach("refused")
}

// C07_depth: deep values come back.
func C07_depth() {
	sym.Budget(20)
	depth := []int{257, 1001, 2000}[sym.Choose("depth", sym.Param("depths", 2, 3))]
	v, n := nest(jsonvalue.NewString("é"), &N{k: 's', s: "é"}, depth, []int{0, 15, 5}[sym.Choose("pattern", 3)])
	_, o := chooseEsc()
	b, err := v.Marshal(o...)
	sym.Assert(err == nil, "Marshal fails")
	w, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil && same(w, n), "another value comes back")
	sym.Reach("back")
}

// C03_repeated: many short texts, well-formed or not, one after the other.
func C03_repeated() {
	short := []string{"1", "[]", "{}", `""`, "[", "{", " ", "x", "[1]", "null", `{"":0}`, "[[[[]]]]", "[0,0,0,0]"}
	first, second := short[sym.Choose("first", len(short))], short[sym.Choose("second", len(short))]
	for i := 0; i < 60; i++ {
		s := first
		if i%3 == 2 {
			s = second
		}
		v, err := jsonvalue.UnmarshalString(s)
		sym.Assert(v != nil && (err == nil) == (v.ValueType() != jsonvalue.NotExist), "an error without a NotExist value, or the other way round")
		_, ok := refParse([]byte(s), false)
		sym.Assert(ok == (err == nil), "the outcome depends on what was parsed before")
	}
	b := []byte{'[', sym.Byte("c"), ',', '2', ']'}
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(v != nil && (err == nil) == (v.ValueType() != jsonvalue.NotExist), "an error without a NotExist value, or the other way round")
	sym.Reach("repeated")
}

// C01_many: more elements and members than any plausible table or counter holds.
func C01_many() {
	sym.Budget(40)
	n := []int{1023, 1025, 4097, 65537}[sym.Choose("count", sym.Param("counts", 4, 4))]
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	object := sym.Choose("object", 2) == 1
	if object && n > 16385 {
		n = 16385
	}
	key := func(i int) string {
		return string([]byte{'k', byte('0' + i/65536), byte('0' + i/4096%16), byte('0' + i/256%16), byte('A' + i/16%16), byte('0' + i%16)})
	}
	b := []byte{"[{"[btoi(object)]}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if object {
			b = append(b, '"')
			b = append(b, key(i)...)
			b = append(b, '"', ':')
		}
		b = append(b, byte('0'+i%10))
	}
	b[len(b)-1] = d
	b = append(b, "]}"[btoi(object)])
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
	sym.Assert(v.Len() == n, "Unmarshal: the value is not what the text denotes")
	for i := 0; i < n; i++ {
		var c *jsonvalue.V
		if object {
			c, err = v.Get(key(i))
		} else {
			c, err = v.Get(i)
		}
		want := i % 10
		if i == n-1 {
			want = int(d - '0')
		}
		sym.Assert(err == nil && c.IsNumber() && c.Int() == want, "Unmarshal: the value is not what the text denotes")
	}
	sym.Reach("many")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C27_forks: a fork of two levels at the end of a long path; paths kept from one branch are not those of another.
func C27_forks() {
	leaf := func() (*jsonvalue.V, *N) {
		o := jsonvalue.NewObject()
		o.MustSetInt(1).At("p")
		o.MustSetInt(2).At("q")
		return o, &N{k: 'o', keys: []string{"p", "q"}, kids: []*N{numberN(1), numberN(2)}}
	}
	fork := func(kind int, part func() (*jsonvalue.V, *N)) (*jsonvalue.V, *N) {
		x, n := part()
		y, m := part()
		if kind == 0 {
			a := jsonvalue.NewArray()
			a.MustAppend(x).InTheEnd()
			a.MustAppend(y).InTheEnd()
			return a, &N{k: 'a', kids: []*N{n, m}}
		}
		o := jsonvalue.NewObject()
		o.MustSet(x).At("x")
		o.MustSet(y).At("y")
		return o, &N{k: 'o', keys: []string{"x", "y"}, kids: []*N{n, m}}
	}
	outer, inner := sym.Choose("outer", 2), sym.Choose("inner", 2)
	v, n := fork(outer, func() (*jsonvalue.V, *N) { return fork(inner, leaf) })
	v, n = nest(v, n, sym.Choose("depth", sym.Param("depth", 20, 40)), sym.Choose("pattern", 4)*5)
	checkTold(v, n, sym.Choose("keep", 2) == 1)
	sym.Reach("forks")
}

var blankRuns = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 8193}

// blanks is a run of blanks: spaces, tabs, line ends or a mixture.
func blanks(n int) []byte {
	of := []string{" ", "\n", "\t", "\r\n    "}[sym.Choose("blank", 4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = of[i%len(of)]
	}
	return b
}

// C01_blanks: a run of blanks of many lengths at any place between the tokens.
func C01_blanks() {
	sym.Budget(4)
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	tokens := []string{`{`, `"a"`, `:`, `[`, string([]byte{d}), `,`, `"s"`, `,`, `{`, `}`, `]`, `,`, `"b"`, `:`, `null`, `}`}
	n := blankRuns[sym.Choose("len", sym.Param("lengths", 31, 31))]
	at := sym.Choose("at", len(tokens)+1)
	var b []byte
	for i, t := range tokens {
		if i == at {
			b = append(b, blanks(n)...)
		}
		b = append(b, t...)
	}
	if at == len(tokens) {
		b = append(b, blanks(n)...)
	}
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
	want := &N{k: 'o', keys: []string{"a", "b"}, kids: []*N{
		{k: 'a', kids: []*N{{k: 'n', s: string([]byte{d})}, {k: 's', s: "s"}, {k: 'o'}}}, {k: 'z'}}}
	sym.Assert(same(v, want), "Unmarshal: the value is not what the text denotes")
	sym.Reach("blanks")
}

// C02_blanks: something behind a long run of blanks, where nothing may be, or nothing where something has to be.
func C02_blanks() {
	sym.Budget(4)
	n := blankRuns[sym.Choose("len", sym.Param("lengths", 31, 31))]
	var b []byte
	switch sym.Choose("error", 4) {
	case 0: // after the value
		b = append(b, []string{`{"a":1}`, `[1]`, `"s"`, `12`, `null`}[sym.Choose("value", 5)]...)
		b = append(b, blanks(n)...)
		b = append(b, sym.Byte("tail"))
	case 1: // the text ends
		b = append(b, []string{``, `{`, `{"a"`, `{"a":`, `{"a":1`, `[`, `[1`, `[1,`}[sym.Choose("start", 8)]...)
		b = append(b, blanks(n)...)
	case 2: // in an object
		b = append(b, []string{`{`, `{"a"`, `{"a":`, `{"a":1`}[sym.Choose("start", 4)]...)
		b = append(b, blanks(n)...)
		b = append(b, sym.Byte("odd"), '}')
	case 3: // in an array
		b = append(b, []string{`[`, `[1`, `["s",`}[sym.Choose("start", 3)]...)
		b = append(b, blanks(n)...)
		b = append(b, sym.Byte("odd"), ']')
	}
	if _, ok := refParse(b, true); ok {
		sym.Reach("accepted")
		return
	}
	_, err := jsonvalue.Unmarshal(b)
	sym.Assert(err != nil, "text that is not JSON is accepted")
	sym.Reach("refused")
}

// C05_shrunk: strings and keys which lose many bytes by unescaping, with anything at the end.
func C05_shrunk() {
	n := []int{1, 2, 7, 10, 11, 12, 13, 14, 16, 21, 22, 33, 43, 44, 52, 86, 171}[sym.Choose("escapes", sym.Param("counts", 17, 17))]
	esc := []string{`\u0041`, `\n`, `\ud83d\ude00`}[sym.Choose("escape", 3)]
	b := []byte{'"'}
	for i := 0; i < n; i++ {
		b = append(b, esc...)
	}
	b = append(b, []string{``, `x`, `\"`}[sym.Choose("then", 3)]...)
	b = append(b, sym.Byte("last"), '"')
	checkLiteral(b)
}

// C09_duplicates: in a parsed object each key is where it came last, whatever its values are.
func C09_duplicates() {
	sym.MapOrder(2)
	n := &N{k: 'o'}
	b := []byte{'{'}
	for i, c := 0, 2+sym.Choose("members", 3); i < c; i++ {
		k := string([]byte{sym.OneOf("key", "abc")})
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, cat(`"`, []byte(k), `":`)...)
		t, m := "0", &N{k: 'n', s: "0"}
		if i > 0 && i >= c-2 {
			switch sym.Choose("value", 7) {
			case 1:
				t, m = `"s"`, &N{k: 's', s: "s"}
			case 2:
				t, m = `null`, &N{k: 'z'}
			case 3:
				t, m = `true`, &N{k: 't'}
			case 4:
				t, m = `false`, &N{k: 'f'}
			case 5:
				t, m = `[]`, &N{k: 'a'}
			case 6:
				t, m = `{}`, &N{k: 'o'}
			}
		}
		b = append(b, t...)
		n.put(k, m)
	}
	b = append(b, '}')
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "harness: parsed")
	sym.Reach("duplicates")
	checkOrder(v, n, jsonvalue.OptSetSequence())
}
