package h

import (
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// accepted checks that all entry points accept b and give the tree n.
func accepted(b []byte, n *N) {
	s := string(b)
	c := append([]byte(nil), b...)
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
	sym.Assert(same(v, n), "Unmarshal: the value is not what the text denotes")
	logTree(v)
	v, err = jsonvalue.UnmarshalString(s)
	sym.Assert(err == nil, "UnmarshalString refuses a well-formed text")
	sym.Assert(same(v, n), "UnmarshalString: the value is not what the text denotes")
	v, err = jsonvalue.UnmarshalNoCopy(c)
	sym.Assert(err == nil, "UnmarshalNoCopy refuses a well-formed text")
	sym.Assert(same(v, n), "UnmarshalNoCopy: the value is not what the text denotes")
}

func checkAccepted(b []byte) {
	n, ok := refParse(b, false)
	if !ok || !n.inRange() {
		sym.Reach("not well-formed")
		return
	}
	sym.Reach("well-formed " + string(rune(n.k)))
	accepted(b, n)
}

// C01_free: every byte string up to the bound.
func C01_free() {
	n := sym.Choose("len", sym.Param("maxlen", 6, 8)+1)
	checkAccepted(sym.Bytes("b", n))
}

// C01_mutated: documents of 6 to 30 bytes with one (thorough: two) arbitrary edits that are still well-formed.
func C01_mutated() {
	checkAccepted(mutate(sym.Param("edits", 1, 2)))
}

// C01_document: every document with up to `values` values, any nesting, arbitrary leaf content and key
// collisions, and arbitrary blanks in every gap.
func C01_document() {
	g := &gen{left: sym.Param("values", 4, 5), wide: 3, blank: sym.Choose("blank", 3)}
	g.gap()
	n := g.value(sym.Param("depth", 3, 4))
	g.gap()
	sym.Reach("document " + string(rune(n.k)))
	accepted(g.b, n)
}

// C01_long: arrays and objects around and beyond the initial capacities.
func C01_long() {
	sizes := []int{1, 2, 15, 16, 17, 31, 32, 33, 64, 65, 100}
	n := sizes[sym.Choose("size", len(sizes))]
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	p := []int{0, n / 2, n - 1}[sym.Choose("where", 3)]
	obj := sym.Choose("object", 2) == 1
	t := &N{k: 'a'}
	b := []byte("[")
	if obj {
		t.k = 'o'
		b[0] = '{'
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		e := []byte(strconv.Itoa(i))
		if obj {
			k := "k" + strconv.Itoa(i)
			b = append(b, '"')
			b = append(b, k...)
			b = append(b, '"', ':')
			t.keys = append(t.keys, k)
		}
		if i == p {
			e = []byte{d}
		}
		b = append(b, e...)
		t.kids = append(t.kids, &N{k: 'n', s: string(e)})
	}
	if obj {
		b = append(b, '}')
	} else {
		b = append(b, ']')
	}
	sym.Reach("long")
	accepted(b, t)
}

// C01_deep: nesting of arrays and objects in arbitrary alternation.
func C01_deep() {
	depth := sym.Param("nesting", 40, 200)
	period := 1 + sym.Choose("period", 3)
	kind := make([]bool, period)
	for i := range kind {
		kind[i] = sym.Choose("object", 2) == 1
	}
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	t := &N{k: 'n', s: string([]byte{d})}
	var pre, post []byte
	for i := depth - 1; i >= 0; i-- {
		if kind[i%period] {
			t = &N{k: 'o', keys: []string{"k"}, kids: []*N{t}}
		} else {
			t = &N{k: 'a', kids: []*N{t}}
		}
	}
	for i := 0; i < depth; i++ {
		if kind[i%period] {
			pre = append(pre, `{"k":`...)
		} else {
			pre = append(pre, '[')
		}
	}
	for i := depth - 1; i >= 0; i-- {
		if kind[i%period] {
			post = append(post, '}')
		} else {
			post = append(post, ']')
		}
	}
	pre = append(pre, d)
	pre = append(pre, post...)
	sym.Reach("deep")
	accepted(pre, t)
}

// bigArray is a text of more than 1 KiB: an array of arrays of two-digit numbers, and its tree.
func bigArray(first, count int) ([]byte, *N) {
	b, n := []byte{'['}, &N{k: 'a'}
	for i := 0; i < count; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '[')
		c := &N{k: 'a'}
		for j := 0; j < 3; j++ {
			if j > 0 {
				b = append(b, ',')
			}
			d := 10 + (first+i+j)%90
			b = append(b, strconv.Itoa(d)...)
			c.kids = append(c.kids, numberN(d))
		}
		b = append(b, ']')
		n.kids = append(n.kids, c)
	}
	return append(b, ']'), n
}

// bigObject is a text of more than 1 KiB with objects, strings and arrays.
func bigObject(first, count int) ([]byte, *N) {
	b, n := []byte{'{'}, &N{k: 'o'}
	for i := 0; i < count; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		k := "k" + strconv.Itoa(first+i)
		b = append(b, '"')
		b = append(b, k...)
		c := &N{k: 'o', keys: []string{"x"}, kids: []*N{{k: 's', s: k}}}
		b = append(b, `":{"x":"`...)
		b = append(b, k...)
		b = append(b, '"', '}')
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, c)
	}
	return append(b, '}'), n
}

// C01_history: what was parsed before, and whether it was well-formed, makes no difference.
func C01_history() {
	sym.Budget(20)
	c := sym.OneOf("odd byte", "]},:x")
	for i := 0; i < sym.Param("documents", 2, 3); i++ {
		var b []byte
		var n *N
		switch sym.Choose("kind", 4) {
		case 0:
			b, n = bigArray(7*i, 140)
		case 1:
			b, n = bigObject(100*i, 90)
		case 2:
			b, n = bigArray(3*i, 10-3*i)
		case 3:
			b, n = bigArray(5*i, 600)
		}
		switch sym.Choose("damage", 4) {
		case 1: // cut off
			b = b[:len(b)-1]
			n = nil
		case 2: // something in the middle
			b[len(b)/2] = c
			n, _ = refParse(b, false)
		case 3:
			b = append(b, c)
			n = nil
		}
		v, err := jsonvalue.Unmarshal(b)
		if n == nil {
			continue
		}
		sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
		sym.Assert(same(v, n), "Unmarshal: the value is not what the text denotes")
		sym.Reach("parsed")
	}
}

// C01_keys: two or three members whose keys have arbitrary letters and the same length.
func C01_keys() {
	n := 1 + sym.Choose("keylen", sym.Param("keylen", 5, 9))
	count := 2 + sym.Choose("members", 2)
	tree := &N{k: 'o'}
	b := []byte{'{'}
	for i := 0; i < count; i++ {
		k := make([]byte, n)
		for j := range k {
			k[j] = sym.OneOf("key", "ab_0")
		}
		m := []*N{{k: 'n', s: decInt(i)}, {k: 's', s: string(k)}, {k: 'a', kids: []*N{numberN(i)}}, {k: 't'}, {k: 'o', keys: []string{string(k)}, kids: []*N{{k: 'z'}}}}[sym.Choose("member", 5)]
		if i > 0 {
			b = append(b, ',')
		}
		b = cat(string(b)+`"`, k, `":`)
		switch m.k {
		case 'n':
			b = append(b, m.s...)
		case 's':
			b = append(append(append(b, '"'), m.s...), '"')
		case 'a':
			b = append(append(append(b, '['), decInt(i)...), ']')
		case 't':
			b = append(b, "true"...)
		case 'o':
			b = append(append(append(b, `{"`...), k...), `":null}`...)
		}
		tree.put(string(k), m)
	}
	accepted(append(b, '}'), tree)
	sym.Reach("keys")
}

// C01_large: documents with keys, strings and members beyond the range of 16-bit sizes and positions.
func C01_large() {
	sym.Budget(20)
	d := sym.Byte("digit")
	sym.Assume(d >= '0' && d <= '9')
	n := []int{65533, 65536, 65541}[sym.Choose("len", sym.Param("lengths", 2, 3))]
	long := run(n)
	var b []byte
	var t *N
	switch sym.Choose("what", 4) {
	case 0: // a long key
		b = cat(`{"`, long, `":`)
		b = append(b, d, '}')
		t = &N{k: 'o', keys: []string{string(long)}, kids: []*N{{k: 'n', s: string([]byte{d})}}}
	case 1: // keys and values after a long value
		b = cat(`{"a":"`, long, `","b":[true,"`)
		b = append(b, d, '"', ']', ',', '"', d, '"', ':', '{', '}', '}')
		t = &N{k: 'o', keys: []string{"a", "b", string([]byte{d})}, kids: []*N{{k: 's', s: string(long)},
			{k: 'a', kids: []*N{{k: 't'}, {k: 's', s: string([]byte{d})}}}, {k: 'o'}}}
	case 2: // a long string with an escape at the end
		b = cat(`"`, long, "\\u003")
		b = append(b, d, '"')
		t = &N{k: 's', s: string(append(append([]byte(nil), long...), '0'+d-'0'))}
	case 3: // blanks
		for i := range long {
			long[i] = ' '
		}
		b = append([]byte(`{"a":`), long...)
		b = append(b, d, ',')
		b = append(b, long...)
		b = append(b, `"b":null}`...)
		t = &N{k: 'o', keys: []string{"a", "b"}, kids: []*N{{k: 'n', s: string([]byte{d})}, {k: 'z'}}}
	}
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil, "Unmarshal refuses a well-formed text")
	sym.Assert(same(v, t), "Unmarshal: the value is not what the text denotes")
	sym.Reach("large")
}
