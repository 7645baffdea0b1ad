package h

// Harnesses at sizes beyond the initial capacities, thresholds of sorting and buffers in the code: long arrays and
// strings, many members, deep nesting, with one or a few things arbitrary.

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// run is n plain characters.
func run(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return b
}

// keyAt is the i-th of many different keys.
func keyAt(i int) string { return string([]byte{byte('a' + i%5), byte('A' + i/5)}) }

// numberN is the tree of a small number.
func numberN(i int) *N { return &N{k: 'n', s: decInt(i)} }

// wideObject has count members, set in an order that is not sorted.
func wideObject(count int) (*jsonvalue.V, *N) {
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	for i := 0; i < count; i++ {
		j := i * 7 % count
		if count%7 == 0 {
			j = count - 1 - i
		}
		v.MustSetInt(i).At(keyAt(j))
		n.put(keyAt(j), numberN(i))
	}
	return v, n
}

// longArray has count elements.
func longArray(count int) (*jsonvalue.V, *N) {
	v, n := jsonvalue.NewArray(), &N{k: 'a'}
	for i := 0; i < count; i++ {
		v.MustAppendInt(i).InTheEnd()
		n.kids = append(n.kids, numberN(i))
	}
	return v, n
}

// nest wraps a value in depth arrays and objects.
func nest(v *jsonvalue.V, n *N, depth, pattern int) (*jsonvalue.V, *N) {
	for i := 0; i < depth; i++ {
		if pattern>>(uint(i)%4)&1 == 1 {
			o := jsonvalue.NewObject()
			o.MustSetNull().At("z")
			o.MustSet(v).At("a")
			v, n = o, &N{k: 'o', keys: []string{"z", "a"}, kids: []*N{{k: 'z'}, n}}
		} else {
			a := jsonvalue.NewArray()
			a.MustAppendNull().InTheEnd()
			a.MustAppend(v).InTheEnd()
			v, n = a, &N{k: 'a', kids: []*N{{k: 'z'}, n}}
		}
	}
	return v, n
}

// C05_run: escapes at every distance from the start of a string and from each other, in keys and values.
func C05_run() {
	list := []string{`\n`, `\u00e9`, `\ud83d\ude00`, "é", `\\`, `\u20AC`, "\U0001F600", `\/`}
	b := []byte{'"'}
	b = append(b, run(sym.Choose("before", sym.Param("run", 18, 34)))...)
	b = append(b, list[sym.Choose("first", len(list))]...)
	c := sym.Byte("plain")
	sym.Assume(c >= 0x20 && c < 0x80 && c != '"' && c != '\\')
	b = append(b, run([]int{0, 1, 3, 7, 8, 15}[sym.Choose("between", 6)])...)
	b = append(b, c)
	b = append(b, list[sym.Choose("second", len(list))]...)
	b = append(b, run([]int{0, 1, 8}[sym.Choose("after", 3)])...)
	b = append(b, '"')
	doc := b
	if sym.Choose("key", 2) == 1 {
		doc = append(append(append([]byte{'{'}, b...), ':'), b...)
		doc = append(doc, '}')
	}
	n, ok := refParse(doc, false)
	sym.Assert(ok, "harness: string document")
	v, err := jsonvalue.Unmarshal(doc)
	sym.Assert(err == nil, "a string is refused")
	sym.Assert(same(v, n), "a string is decoded to something else")
	sym.Reach("run")
}

// C06_deep: something that cannot be marshaled, or anything else, deep inside and at the end of long containers.
func C06_deep() {
	g := &tree{left: 1, leaves: "NPMsn"}
	v, n := g.value(0)
	if sym.Choose("wide", 2) == 1 {
		a, m := longArray([]int{31, 32, 40}[sym.Choose("elements", 3)])
		if sym.Choose("object", 2) == 1 {
			a, m = wideObject(17)
			a.MustSet(v).At("zz")
			m.put("zz", n)
		} else {
			a.MustAppend(v).InTheEnd()
			m.kids = append(m.kids, n)
		}
		v, n = a, m
	}
	v, n = nest(v, n, []int{0, 1, 7, 20, 40}[sym.Choose("depth", 5)], sym.Choose("pattern", 4)*5)
	m, ok := wellFormed(v, jsonvalue.OptDefaultStringSequence())
	sym.Assert(ok == !n.has("NPM"), "Marshal fails without reason or misses a number that has no text")
	sym.Assert(!ok || sameN(n, m), "the text denotes something else")
}

// C08_far: an arbitrary character after plain runs of every length.
func C08_far() {
	b := run(sym.Choose("before", sym.Param("run", 18, 34)))
	b = append(b, chars(1)...)
	b = append(b, run([]int{0, 1, 8, 17}[sym.Choose("after", 4)])...)
	e, o := chooseEsc()
	checkEscaping(b, 1, e, o)
}

// C09_many: more members and more listed keys than a handful.
func C09_many() {
	sym.MapOrder(3)
	v, n := wideObject([]int{9, 13, 20}[sym.Choose("members", sym.Param("sizes", 2, 3))])
	k := string([]byte{sym.OneOf("odd key", "abcde"), sym.OneOf("odd key 2", "@DZ")})
	v.MustSetInt(99).At(k)
	n.put(k, numberN(99))
	var o jsonvalue.Option
	want := n
	switch sym.Choose("order", 4) {
	case 0:
		o, want = jsonvalue.OptDefaultStringSequence(), sortedBy(n, bytewise)
	case 1:
		var seq []string
		for i := 0; i < 12; i++ {
			seq = append(seq, keyAt(i*5%12))
		}
		o, want = jsonvalue.OptKeySequence(seq), sortedBy(n, listed(seq))
	case 2:
		o = jsonvalue.OptSetSequence()
	case 3:
		less := func(p *jsonvalue.ParentInfo, a, b string, x, y *jsonvalue.V) bool { return bytewise(b, a) }
		o, want = jsonvalue.OptKeySequenceWithLessFunc(less), sortedBy(n, func(a, b string) bool { return bytewise(b, a) })
	}
	v, want = nest(v, want, sym.Choose("depth", 2)*3, 0)
	sym.Reach("many")
	checkOrder(v, want, o)
}

// C10_deep: the options reach every depth and the whole of long containers.
func C10_deep() {
	sym.MapOrder(sym.Choose("maporder", 2))
	leaf := []byte("NPMz")[sym.Choose("leaf", 4)]
	v, n := (&tree{}).leaf(leaf)
	if sym.Choose("wide", 2) == 1 {
		a, m := wideObject(13)
		a.MustSet(v).At("zz")
		m.put("zz", n)
		for i := 0; i < 13; i += 1 + sym.Choose("step", 2) {
			a.MustSetNull().At(keyAt(i))
			m.put(keyAt(i), &N{k: 'z'})
			if i > 5 {
				break
			}
		}
		v, n = a, m
	}
	v, n = nest(v, n, []int{0, 3, 9, 18}[sym.Choose("depth", 4)], 5+5*sym.Choose("pattern", 3))
	c := &conv{nan: 2, inf: 3, omit: sym.Choose("omit", 2) == 1}
	o := []jsonvalue.Option{jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToString("", ""), jsonvalue.OptOmitNull(c.omit)}
	if c.omit && n.has("N") {
		sym.Assume(false) // whether a member that turns into null counts as one is not said
	}
	checkConv(v, n, c, append(o, chooseOrder()...)...)
}

// chain is a path of depth nested containers with one element each, and a leaf.
func chain(depth, pattern int) (*T, []param) {
	t := newT('n')
	var ps []param
	for i := 0; i < depth; i++ {
		u := newT('a')
		if pattern>>uint(i%3)&1 == 1 {
			u = newT('o')
			u.v.MustSet(t.v).At("k")
			u.put("k", t)
			ps = append([]param{strParam("k", "k")}, ps...)
		} else {
			u.v.MustAppend(t.v).InTheEnd()
			u.insert(0, t)
			ps = append([]param{intParam(0, 0)}, ps...)
		}
		t = u
	}
	return t, ps
}

// C11_deep: long paths, with one parameter arbitrary.
func C11_deep() {
	t, ps := chain(1+sym.Choose("depth", sym.Param("depth", 9, 20)), sym.Choose("pattern", 8))
	if i := sym.Choose("odd one", len(ps)+1); i < len(ps) {
		ps[i] = plain("kK")
	}
	checkGet(t, ps)
}

// longT is a long array or an object with many members.
func longT() *T {
	if sym.Choose("object", 2) == 1 {
		t := newT('o')
		for i := 0; i < 17; i++ {
			c := newT('n')
			t.v.MustSet(c.v).At(keyAt(i))
			t.put(keyAt(i), c)
		}
		return t
	}
	t := newT('a')
	for i, n := 0, []int{31, 32, 33, 64}[sym.Choose("len", 4)]; i < n; i++ {
		c := newT('n')
		t.v.MustAppend(c.v).InTheEnd()
		t.insert(i, c)
	}
	return t
}

func longParam(t *T) param {
	if t.k == 'o' {
		k := string([]byte{sym.OneOf("k", "abcdeA"), sym.OneOf("k2", "ABCDa")})
		return strParam(k, k)
	}
	i := sym.I64("i")
	return intParam(int(i), i)
}

// C11_long: any element of a long array or a large object.
func C11_long() {
	t := longT()
	checkGet(t, []param{longParam(t)})
}

// C12_long: any position of a long array or a large object.
func C12_long() {
	t := longT()
	checkSet(t, []param{longParam(t)}, "n")
}

// C12_deep: long paths that exist up to some depth, one parameter arbitrary.
func C12_deep() {
	have := sym.Choose("existing", 6)
	pattern := sym.Choose("pattern", 8)
	t, _ := chain(have, pattern)
	if have == 0 || sym.Choose("empty", 2) == 1 {
		t = newT("ao"[pattern&1])
	}
	n := 1 + sym.Choose("params", sym.Param("params", 7, 10))
	ps := make([]param, n)
	for i := range ps {
		j := have - 1 - i
		if j < 0 {
			j += 6
		}
		ps[i] = intParam(0, 0)
		if pattern>>uint(j%3)&1 == 1 {
			ps[i] = strParam("k", "k")
		}
	}
	if i := sym.Choose("odd one", n+1); i < n {
		ps[i] = plain("kK")
	}
	checkSet(t, ps, "n")
}

// C14_many: a large object, and keys with several letters.
func C14_many() {
	sym.MapOrder(3)
	t := newT('o')
	for i := 0; i < 12; i++ {
		c := newT("nst"[i%3])
		k := keyAt(i) + "x"
		t.v.MustSet(c.v).At(k)
		t.put(k, c)
	}
	key := func() string {
		return string([]byte{sym.OneOf("key", "aAb"), sym.OneOf("key2", "aA"), sym.OneOf("key3", "xX")})
	}
	for i, n := 0, sym.Param("steps", 1, 2); i < n; i++ {
		step(t, i, key(), 4)
	}
	finish(t, key())
}

// C14_spellings: a key and its other spellings, one after the other.
func C14_spellings() {
	sym.MapOrder(3)
	t := newT('o')
	list := []string{"ab", "aB", "Ab", "AB", "b"}
	key := func() string { return list[sym.Choose("key", len(list))] }
	for i := 0; i < sym.Param("set", 2, 3); i++ {
		c := newT("nst"[i%3])
		k := key()
		t.v.MustSet(c.v).At(k)
		t.put(k, c)
		if sym.Choose("look", 2) == 1 {
			got, err := t.v.Caseless().Get("aB")
			checkCaseless(t, "aB", got, err)
		}
	}
	step(t, 0, key(), 4)
	finish(t, key())
}

// C15_wide: long, wide and deep values that are the same, or differ in one place.
func C15_wide() {
	mk := func(kind int, reverse bool) (*jsonvalue.V, int) {
		switch kind {
		case 0:
			v, _ := longArray(33)
			return v, 33
		case 1:
			v := jsonvalue.NewObject()
			for i := 0; i < 17; i++ {
				j := i
				if reverse {
					j = 16 - i
				}
				v.MustSetInt(j).At(keyAt(j))
			}
			return v, 17
		}
		v, _ := nest(jsonvalue.NewInt(1), numberN(1), 20, 5*(kind-1))
		return v, 20
	}
	sym.MapOrder(sym.Choose("map order", 2))
	kind := sym.Choose("kind", 5)
	x, n := mk(kind, false)
	y, _ := mk(kind, sym.Choose("reverse", 2) == 1)
	sym.Assert(x.Equal(y) && y.Equal(x) && x.Equal(x), "equal values are not")
	at := sym.Choose("at", n)
	switch kind {
	case 0:
		switch sym.Choose("difference", 3) {
		case 0:
			y.MustSetInt(100 + int(sym.Byte("number"))).At(at)
		case 1:
			y.MustDelete(at)
		case 2:
			y.MustInsertNull().Before(at)
		}
	case 1:
		switch sym.Choose("difference", 4) {
		case 0:
			y.MustSetInt(100 + int(sym.Byte("number"))).At(keyAt(at))
		case 1:
			y.MustDelete(keyAt(at))
		case 2:
			y.MustSetNull().At("zz")
		case 3:
			y.MustDelete(keyAt(at))
			y.MustSetInt(at).At("zz")
		}
	default:
		p := y
		for i := 0; i < at; i++ {
			if p.IsObject() {
				p = p.MustGet("a")
			} else {
				p = p.MustGet(1)
			}
		}
		if p.IsObject() {
			p.MustSetBool(true).At("z")
		} else {
			p.MustSetBool(true).At(0)
		}
	}
	sym.Assert(!x.Equal(y) && !y.Equal(x), "different values are equal")
	sym.Reach("compared")
}

// C18_long: long slices, large maps and deep pointers and structs.
func C18_long() {
	sym.MapOrder(sym.Choose("map order", 2))
	type node struct {
		V    int   `json:"v"`
		Next *node `json:"next,omitempty"`
	}
	var v *jsonvalue.V
	var err error
	n := &N{}
	switch sym.Choose("shape", 4) {
	case 0:
		s := make([]int, []int{31, 32, 33, 64, 65}[sym.Choose("len", 5)])
		n.k = 'a'
		for i := range s {
			s[i] = i
			n.kids = append(n.kids, numberN(i))
		}
		v, err = jsonvalue.Import(s)
	case 1:
		m := map[string]int{}
		n.k = 'o'
		for i, c := 0, []int{8, 9, 17}[sym.Choose("len", 3)]; i < c; i++ {
			x := i
			if i == 5 {
				x = int(sym.I32("x"))
				sym.Assume(x >= 0 && x < 10)
			}
			m[keyAt(i)] = x
			n.put(keyAt(i), numberN(x))
		}
		v, err = jsonvalue.Import(m)
	case 2:
		var l *node
		for i, d := 0, 1+sym.Choose("depth", 20); i < d; i++ {
			l = &node{V: i, Next: l}
			m := &N{k: 'o'}
			m.put("v", numberN(i))
			if n.k != 0 {
				m.put("next", n)
			}
			n = m
		}
		v, err = jsonvalue.Import(l)
	case 3:
		var x any = 7
		n = numberN(7)
		for i, d := 0, sym.Choose("depth", 20); i < d; i++ {
			if i%2 == 0 {
				x, n = []any{nil, x}, &N{k: 'a', kids: []*N{{k: 'z'}, n}}
			} else {
				x, n = map[string]any{"a": x}, &N{k: 'o', keys: []string{"a"}, kids: []*N{n}}
			}
		}
		v, err = jsonvalue.Import(x)
	}
	sym.Assert(err == nil && same(v, n), "a large Go value is imported as something else")
	sym.Reach("imported")
}

// C20_long: copies of long arrays and large objects, changed at any place.
func C20_long() {
	t := longT()
	w := copiedBy(t.v, sym.Choose("way", 3))
	u := t.forget()
	sym.Assert(u.adopt(w) && u.holds() && u.apart(t), "a copy is not one")
	a, b := t, u
	if sym.Choose("change the copy", 2) == 1 {
		a, b = u, t
	}
	for i := 0; i < 2; i++ {
		c := newT('s')
		ps := []param{longParam(a)}
		if i == 1 && a.k == 'a' {
			a.v.MustAppend(c.v).InTheEnd()
			a.insert(len(a.kids), c)
			continue
		}
		if sym.Choose("delete", 2) == 1 {
			a.v.MustDelete(ps[0].x)
			a.drop(ps)
		} else {
			a.v.MustSet(c.v).At(ps[0].x)
			a.place(ps, c)
		}
	}
	sym.Assert(a.holds() && b.holds(), "a change of one tree is visible in the other")
	sym.Reach("copied")
}

// C23_wide: runs in long arrays with many beginnings of the run, members of large objects, deep values.
func C23_wide() {
	sym.MapOrder(sym.Choose("maporder", 2))
	switch sym.Choose("shape", 3) {
	case 0:
		// a b a b ... with one arbitrary element, against a b a b c
		list := func(n, odd int, d byte) (*jsonvalue.V, *N) {
			v, m := jsonvalue.NewArray(), &N{k: 'a'}
			for i := 0; i < n; i++ {
				x := 1 + i%2
				if i == odd {
					x = int(d - '0')
				}
				v.MustAppendInt(x).InTheEnd()
				m.kids = append(m.kids, numberN(x))
			}
			return v, m
		}
		d := "123"[sym.Choose("odd", 3)]
		len1 := []int{9, 34}[sym.Choose("len", 2)]
		v, n := list(len1, sym.Choose("at", len1), d)
		len2 := []int{3, 5, 6, 33}[sym.Choose("sublen", 4)]
		sub, m := list(len2, len2-1, "123"[sym.Choose("last", 3)])
		contains(v, sub, n, m)
	case 1:
		v, n := jsonvalue.NewObject(), &N{k: 'o'}
		sub, m := jsonvalue.NewObject(), &N{k: 'o'}
		odd, how := sym.Choose("odd", 14), sym.Choose("how", 3)
		for i := 0; i < 17; i++ {
			v.MustSetInt(1 + i%3).At(keyAt(i))
			n.put(keyAt(i), numberN(1+i%3))
			if i >= 13 {
				continue
			}
			x, k := 1+(12-i)%3, keyAt(12-i)
			if i == odd {
				switch how {
				case 0:
					continue
				case 1:
					k = "zz"
				case 2:
					x = 9
				}
			}
			sub.MustSetInt(x).At(k)
			m.put(k, numberN(x))
		}
		contains(v, sub, n, m)
	case 2:
		v, n := nest(jsonvalue.NewInt(1), numberN(1), 12, 15)
		leaf := 1 + sym.Choose("leaf", 2)
		sub, m := nest(jsonvalue.NewInt(leaf), numberN(leaf), 12, 15)
		p, q := sub, m
		for i, d := 0, sym.Choose("depth", 12); i < d; i++ {
			p, q = p.MustGet("a"), q.kids[1]
		}
		p.MustDelete("z")
		q.keys, q.kids = q.keys[1:], q.kids[1:]
		contains(v, sub, n, m)
	}
}

// C24_long: iterations of long arrays and large objects.
func C24_long() {
	sym.MapOrder(sym.Choose("maporder", 2))
	t := longT()
	if t.k == 'a' {
		var kids []*jsonvalue.V
		for i := range t.kids {
			kids = append(kids, t.kids[i].v)
		}
		elements(t.v, kids)
		return
	}
	for i, n := 0, sym.Param("changes", 1, 2); i < n; i++ {
		k := longParam(t).s
		if sym.Choose("delete", 2) == 1 {
			t.v.MustDelete(k)
			if j := t.at(k); j >= 0 {
				t.remove(j)
			}
			continue
		}
		c := newT('s')
		t.v.MustSet(c.v).At(k)
		if j := t.at(k); j >= 0 {
			t.remove(j)
		}
		t.put(k, c)
	}
	var kids []*jsonvalue.V
	for i := range t.kids {
		kids = append(kids, t.kids[i].v)
	}
	visited(t.v, t.keys, kids)
}
