package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// sortedBy is n with the members of every object put into the order of less (a strict total order on keys).
func sortedBy(n *N, less func(a, b string) bool) *N {
	m := &N{k: n.k, s: n.s}
	for i := range n.kids {
		c := sortedBy(n.kids[i], less)
		if n.k != 'o' {
			m.kids = append(m.kids, c)
			continue
		}
		p := len(m.keys)
		for p > 0 && less(n.keys[i], m.keys[p-1]) {
			p--
		}
		m.keys = append(m.keys, "")
		copy(m.keys[p+1:], m.keys[p:])
		m.keys[p] = n.keys[i]
		m.kids = append(m.kids, nil)
		copy(m.kids[p+1:], m.kids[p:])
		m.kids[p] = c
	}
	return m
}

func bytewise(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// listed is the order "listed keys first, in the listed order; the rest by bytes".
func listed(seq []string) func(a, b string) bool {
	at := func(k string) int {
		r := len(seq)
		for i, s := range seq {
			if s == k {
				r = i
			}
		}
		return r
	}
	return func(a, b string) bool {
		x, y := at(a), at(b)
		if x != y {
			return x < y
		}
		return bytewise(a, b)
	}
}

func checkOrder(v *jsonvalue.V, want *N, o ...jsonvalue.Option) {
	out, err := v.Marshal(o...)
	sym.Assert(err == nil, "a value cannot be marshaled")
	m, ok := refParse(out, false)
	sym.Assert(ok && m.noDuplicates(), "the text is not JSON or repeats a key")
	sym.Assert(sameOrder(want, m), "the members are not in the requested order")
	sym.Log("out", out)
}

// flat is an object with up to max members under arbitrary one-byte (or empty) keys.
func flat(max int) (*jsonvalue.V, *N) {
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	for i, c := 0, sym.Choose("members", max+1); i < c; i++ {
		k := ""
		if sym.Choose("keylen", 2) == 1 {
			b := sym.Byte("key")
			sym.Assume(b >= 'A' && b < 0x7F)
			k = string([]byte{b})
		}
		v.MustSetInt(i).At(k)
		n.put(k, &N{k: 'n', s: string([]byte{byte('0' + i)})})
	}
	return v, n
}

// C09_sorted: dictionary order and a caller's less function, for every map iteration order.
func C09_sorted() {
	sym.MapOrder(2)
	v, n := flat(sym.Param("members", 3, 4))
	switch sym.Choose("less", 3) {
	case 0:
		sym.Reach("dictionary")
		checkOrder(v, sortedBy(n, bytewise), jsonvalue.OptDefaultStringSequence())
	case 1:
		sym.Reach("less function")
		less := func(p *jsonvalue.ParentInfo, a, b string, x, y *jsonvalue.V) bool { return bytewise(b, a) }
		checkOrder(v, sortedBy(n, func(a, b string) bool { return bytewise(b, a) }), jsonvalue.OptKeySequenceWithLessFunc(less))
	case 2:
		sym.Reach("by value")
		less := func(p *jsonvalue.ParentInfo, a, b string, x, y *jsonvalue.V) bool { return x.Int() > y.Int() }
		want := &N{k: 'o'}
		for i := len(n.keys) - 1; i >= 0; i-- {
			want.put(n.keys[i], n.kids[i])
		}
		checkOrder(v, want, jsonvalue.OptKeySequenceWithLessFunc(less))
	}
}

// C09_listed: a key sequence with arbitrary (also repeated or absent) keys.
func C09_listed() {
	sym.MapOrder(2)
	v, n := flat(sym.Param("members", 3, 4))
	seq := make([]string, 1+sym.Choose("listed", 2))
	for i := range seq {
		b := sym.Byte("seq")
		sym.Assume(b >= 'A' && b < 0x7F)
		seq[i] = string([]byte{b})
	}
	if len(seq) == 2 {
		sym.Assume(seq[0] != seq[1])
	}
	sym.Reach("listed")
	checkOrder(v, sortedBy(n, listed(seq)), jsonvalue.OptKeySequence(seq))
}

// C09_set: the order in which keys were last set, also after deletions and for parsed objects.
func C09_set() {
	sym.MapOrder(2)
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	if sym.Choose("parsed", 2) == 1 {
		a, b, c := sym.OneOf("k1", "ab"), sym.OneOf("k2", "abc"), sym.OneOf("k3", "abc")
		v = jsonvalue.MustUnmarshal([]byte{'{', '"', a, '"', ':', '0', ',', '"', b, '"', ':', '1', ',', '"', c, '"', ':', '2', '}'})
		n.put(string([]byte{a}), &N{k: 'n', s: "0"})
		n.put(string([]byte{b}), &N{k: 'n', s: "1"})
		n.put(string([]byte{c}), &N{k: 'n', s: "2"})
	}
	for i, c := 0, sym.Choose("ops", sym.Param("ops", 3, 4)+1); i < c; i++ {
		k := string([]byte{sym.OneOf("key", "abc")})
		if sym.Choose("op", 2) == 1 {
			_ = v.Delete(k)
			n.del(k)
			continue
		}
		v.MustSetInt(i).At(k)
		n.put(k, &N{k: 'n', s: string([]byte{byte('0' + i)})})
	}
	sym.Reach("set order")
	checkOrder(v, n, jsonvalue.OptSetSequence())
}

func (n *N) del(k string) {
	for i := range n.keys {
		if n.keys[i] == k {
			n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return
		}
	}
}

// C09_nested: every level of a tree is ordered.
func C09_nested() {
	sym.MapOrder(3)
	g := &tree{left: sym.Param("nodes", 5, 5), wide: 3, leaves: "n", keys: "abc"}
	v, n := g.value(3)
	var o jsonvalue.Option
	want := n
	switch sym.Choose("order", 4) {
	case 0:
		o, want = jsonvalue.OptDefaultStringSequence(), sortedBy(n, bytewise)
	case 1:
		o, want = jsonvalue.OptKeySequence([]string{"b", "x", "a"}), sortedBy(n, listed([]string{"b", "x", "a"}))
	case 2:
		o = jsonvalue.OptSetSequence()
	case 3:
		less := func(p *jsonvalue.ParentInfo, a, b string, x, y *jsonvalue.V) bool { return bytewise(b, a) }
		o, want = jsonvalue.OptKeySequenceWithLessFunc(less), sortedBy(n, func(a, b string) bool { return bytewise(b, a) })
	}
	sym.Reach("nested " + string(rune(n.k)))
	if sym.Choose("indent", 2) == 1 {
		checkOrder(v, want, o, jsonvalue.OptIndent("", " "))
		return
	}
	checkOrder(v, want, o)
}

// C09_last: of several ordering options the last one counts, also over defaults.
func C09_last() {
	sym.MapOrder(2)
	v, n := flat(3)
	mk := func(k int) (jsonvalue.Option, *N) {
		switch k {
		case 0:
			return jsonvalue.OptDefaultStringSequence(), sortedBy(n, bytewise)
		case 1:
			return jsonvalue.OptKeySequence([]string{"z", "M"}), sortedBy(n, listed([]string{"z", "M"}))
		}
		return jsonvalue.OptSetSequence(), n
	}
	a, _ := mk(sym.Choose("first", 3))
	b, want := mk(sym.Choose("second", 3))
	sym.Reach("last")
	if sym.Choose("default", 2) == 1 {
		jsonvalue.SetDefaultMarshalOptions(a)
		checkOrder(v, want, b)
		jsonvalue.ResetDefaultMarshalOptions()
		return
	}
	checkOrder(v, want, a, b)
}

// C09_copied: the order in which keys were set in a deep copy that is changed further.
func C09_copied() {
	sym.MapOrder(sym.Param("maporder", 3, 2))
	var v *jsonvalue.V
	n := &N{k: 'o'}
	if sym.Choose("parsed", 2) == 1 {
		v = jsonvalue.MustUnmarshal([]byte(`{"a":0,"b":1}`))
	} else {
		v = jsonvalue.NewObject()
		v.MustSetInt(0).At("a")
		v.MustSetInt(1).At("b")
	}
	n.put("a", &N{k: 'n', s: "0"})
	n.put("b", &N{k: 'n', s: "1"})
	change := func(name string, max int) {
		for i, c := 0, sym.Choose(name, max+1); i < c; i++ {
			k := string([]byte{sym.OneOf("key", "abc")})
			if sym.Choose("op", 2) == 1 {
				_ = v.Delete(k)
				n.del(k)
				continue
			}
			v.MustSetInt(2 + i).At(k)
			n.put(k, &N{k: 'n', s: string([]byte{byte('2' + i)})})
		}
	}
	change("before", sym.Param("before", 1, 2))
	v = copiedBy(v, sym.Choose("way", 3))
	change("after", 2)
	sym.Reach("copied")
	checkOrder(v, n, jsonvalue.OptSetSequence())
	i := 0
	v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool {
		sym.Assert(i < len(n.keys) && k == n.keys[i], "a copied object is visited in another order")
		i++
		return true
	})
	sym.Assert(i == len(n.keys), "members of a copied object are not visited")
}

// C09_keys: two members under keys of up to three arbitrary ASCII characters, and a third.
func C09_keys() {
	sym.MapOrder(3)
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	for i := 0; i < 2; i++ {
		b := sym.Bytes("key", sym.Choose("len", sym.Param("len", 3, 4)))
		for _, c := range b {
			sym.Assume(c >= '0' && c < 0x7F && c != '<' && c != '>' && c != '\\')
		}
		v.MustSetInt(i).At(string(b))
		n.put(string(b), &N{k: 'n', s: string([]byte{byte('0' + i)})})
	}
	v.MustSetInt(2).At("Mm")
	n.put("Mm", &N{k: 'n', s: "2"})
	var o jsonvalue.Option
	var want *N
	switch sym.Choose("order", 4) {
	case 0:
		o, want = jsonvalue.OptDefaultStringSequence(), sortedBy(n, bytewise)
	case 1:
		o, want = jsonvalue.OptKeySequence([]string{"x"}), sortedBy(n, listed([]string{"x"}))
	case 2:
		o, want = jsonvalue.OptKeySequence([]string{"z", "Mm", "M", ""}), sortedBy(n, listed([]string{"z", "Mm", "M", ""}))
	case 3:
		o, want = jsonvalue.OptSetSequence(), n
	}
	sym.Reach("keys")
	checkOrder(v, want, o)
}

// C09_sets: the order of setting is kept after any number of sets.
func C09_sets() {
	before := []int{254, 255, 256, 65534, 65535, 65536}[sym.Choose("sets before", 6)]
	sym.Budget(100)
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	null := jsonvalue.NewNull()
	set := func(k string) {
		v.MustSet(null).At(k)
		n.put(k, &N{k: 'z'})
	}
	set("b")
	for i := 0; i < before-2; i++ {
		v.MustSet(null).At("b")
	}
	k := string([]byte{sym.OneOf("key", "abcdz")})
	set(k)
	set("c")
	set("a")
	set("d")
	checkOrder(v, n, jsonvalue.OptSetSequence())
	i := 0
	v.RangeObjectsBySetSequence(func(key string, _ *jsonvalue.V) bool {
		sym.Assert(i < len(n.keys) && n.keys[i] == key, "the order of setting is not kept")
		i++
		return true
	})
	sym.Assert(i == len(n.keys), "not every member is visited")
	sym.Reach("sets")
}
