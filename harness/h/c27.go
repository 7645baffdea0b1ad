package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// key27 is a copy of what a key path element said about itself.
type key27 struct {
	str bool
	s   string
	i   int
}

// asked is what one call of a less function was told, copied at the time of the call.
type asked struct {
	p    *jsonvalue.ParentInfo
	path []key27
	k, l string
	v, w *jsonvalue.V
}

func copyPath(p jsonvalue.KeyPath) []key27 {
	var r []key27
	for _, k := range p {
		sym.Assert(k.IsString() != k.IsInt(), "a key is both a string and an index, or neither")
		c := key27{str: k.IsString(), s: k.String()}
		if !c.str {
			c.i = k.Int()
		}
		r = append(r, c)
	}
	return r
}

// at follows a path the way its elements say; nil if it leads nowhere.
func at(v *jsonvalue.V, path []key27) *jsonvalue.V {
	for _, k := range path {
		var c *jsonvalue.V
		if k.str {
			if !v.IsObject() {
				return nil
			}
			v.RangeObjects(func(s string, m *jsonvalue.V) bool {
				if s == k.s {
					c = m
				}
				return true
			})
		} else {
			if !v.IsArray() {
				return nil
			}
			v.RangeArray(func(i int, m *jsonvalue.V) bool {
				if i == k.i {
					c = m
				}
				return true
			})
			if k.s != decInt(k.i) {
				return nil
			}
		}
		if c == nil {
			return nil
		}
		v = c
	}
	return v
}

// big counts the objects with at least two members.
func (n *N) big() int {
	c := 0
	if n.k == 'o' && len(n.kids) > 1 {
		c = 1
	}
	for _, m := range n.kids {
		c += m.big()
	}
	return c
}

// checkTold marshals v with a less function and checks everything the function was told.
func checkTold(v *jsonvalue.V, n *N, keep bool, o ...jsonvalue.Option) []asked {
	var calls []asked
	less := func(p *jsonvalue.ParentInfo, k, l string, x, y *jsonvalue.V) bool {
		a := asked{p: p, k: k, l: l, v: x, w: y}
		if p != nil {
			sym.Assert(len(p.KeyPath) > 0, "a parent without a key")
			sym.Assert(p.Parent != nil, "no parent value")
			a.path = copyPath(p.KeyPath)
		}
		calls = append(calls, a)
		return bytewise(l, k)
	}
	if keep {
		o = append([]jsonvalue.Option{jsonvalue.Opt{MarshalLessFunc: less}}, o...)
	} else {
		o = append(o, jsonvalue.OptKeySequenceWithLessFunc(less))
	}
	out, err := v.Marshal(o...)
	sym.Assert(err == nil, "a value cannot be marshaled")
	m, ok := refParse(out, false)
	sym.Assert(ok && sameOrder(sortedBy(n, func(a, b string) bool { return bytewise(b, a) }), m), "the members are not in the requested order")
	var seen []*jsonvalue.V
	for _, a := range calls {
		obj := v
		if a.p != nil {
			obj = at(v, a.path)
		}
		sym.Assert(obj != nil && obj.IsObject(), "the path leads to no object")
		found := 0
		obj.RangeObjects(func(s string, c *jsonvalue.V) bool {
			if s == a.k && c == a.v {
				found++
			}
			if s == a.l && c == a.w {
				found++
			}
			return true
		})
		sym.Assert(found == 2, "the path leads to another object than the one that is sorted")
		if a.p != nil && a.path[len(a.path)-1].str {
			sym.Assert(a.p.Parent == obj, "another parent than the path says")
		}
		known := false
		for _, s := range seen {
			known = known || s == obj
		}
		if !known {
			seen = append(seen, obj)
		}
		if a.p == nil {
			continue
		}
		// what was kept from the call still says the same
		now := copyPath(a.p.KeyPath)
		sym.Assert(len(now) == len(a.path), "a kept path has changed")
		for i := range now {
			sym.Assert(now[i] == a.path[i], "a kept path has changed")
		}
	}
	sym.Assert(len(seen) == n.big(), "an object is sorted without asking, or a single member compared")
	return calls
}

// value27 has members under arbitrary keys, the empty one included.
func value27(g *tree, depth int) (*jsonvalue.V, *N) {
	g.left--
	kinds := 1
	if depth > 0 {
		kinds = 3
	}
	switch sym.Choose("kind", kinds) {
	case 1:
		v, n := jsonvalue.NewArray(), &N{k: 'a'}
		for i, c := 0, sym.Choose("count", g.wide+1); i < c && g.left > 0; i++ {
			w, m := value27(g, depth-1)
			v.MustAppend(w).InTheEnd()
			n.kids = append(n.kids, m)
		}
		return v, n
	case 2:
		v, n := jsonvalue.NewObject(), &N{k: 'o'}
		for i, c := 0, sym.Choose("count", g.wide+1); i < c && g.left > 0; i++ {
			k := ""
			if sym.Choose("keylen", 2) == 1 {
				k = string([]byte{sym.OneOf("key", "01ab")})
			}
			w, m := value27(g, depth-1)
			v.MustSet(w).At(k)
			n.put(k, m)
		}
		return v, n
	}
	return jsonvalue.NewInt(7), &N{k: 'n', s: "7"}
}

// C27_trees: arbitrary small trees.
func C27_trees() {
	sym.MapOrder(3)
	g := &tree{left: sym.Param("nodes", 4, 5), wide: 3}
	v, n := value27(g, 4)
	calls := checkTold(v, n, false)
	if len(calls) > 0 {
		sym.Reach("asked")
	}
}

// C27_deep: two members at the end of a path of arbitrary steps, next to further containers of the same kinds.
func C27_deep() {
	leaf := func(most int) (*jsonvalue.V, *N) {
		v, n := jsonvalue.NewObject(), &N{k: 'o'}
		for i, k := range []string{"x", "", "0"}[:most] {
			v.MustSetInt(i).At(k)
			n.put(k, numberN(i))
		}
		return v, n
	}
	v, n := leaf(2 + sym.Choose("members", 2))
	for i, c := 0, 1+sym.Choose("depth", sym.Param("depth", 3, 5)); i < c; i++ {
		x, m := leaf(2)
		if sym.Choose("step", 2) == 1 {
			a := jsonvalue.NewArray()
			b := &N{k: 'a'}
			before := sym.Choose("before", 2) == 1
			if before {
				a.MustAppend(x).InTheEnd()
				b.kids = append(b.kids, m)
			}
			a.MustAppend(v).InTheEnd()
			b.kids = append(b.kids, n)
			if !before {
				a.MustAppend(x).InTheEnd()
				b.kids = append(b.kids, m)
			}
			v, n = a, b
			continue
		}
		k := []string{"", "k", "\"/é", "12"}[sym.Choose("key", 4)]
		o := jsonvalue.NewObject()
		o.MustSet(v).At(k)
		o.MustSet(x).At("j")
		v, n = o, &N{k: 'o', keys: []string{k, "j"}, kids: []*N{n, m}}
	}
	var o []jsonvalue.Option
	switch sym.Choose("options", 3) {
	case 1:
		o = append(o, jsonvalue.OptIndent("", " "), jsonvalue.OptOmitNull(true))
	case 2:
		o = append(o, jsonvalue.OptUTF8())
	}
	checkTold(v, n, sym.Choose("by", 2) == 1, o...)
	sym.Reach("deep")
}

// C27_part: a part of a value is marshaled: its paths start at the part, also when the function comes from the
// defaults, and again when the whole is marshaled.
func C27_part() {
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	part, m := jsonvalue.NewArray(), &N{k: 'a'}
	for i, c := 0, 1+sym.Choose("elements", 3); i < c; i++ {
		o := jsonvalue.NewObject()
		o.MustSetInt(1).At("p")
		o.MustSetInt(2).At("q")
		part.MustAppend(o).InTheEnd()
		m.kids = append(m.kids, &N{k: 'o', keys: []string{"p", "q"}, kids: []*N{numberN(1), numberN(2)}})
	}
	v.MustSet(part).At("part")
	v.MustSetInt(3).At("other")
	n.put("part", m)
	n.put("other", numberN(3))
	got, err := v.Get("part")
	sym.Assert(err == nil, "a part cannot be found")
	checkTold(got, m, false)
	checkTold(v, n, true)
	if c, err := v.Get("part", 0); err == nil {
		checkTold(c, m.kids[0], false)
	}
	calls := 0
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k, l string, x, y *jsonvalue.V) bool {
		sym.Assert(p != nil && len(p.KeyPath) == 1 && p.KeyPath[0].IsInt(), "a path that does not start at the marshaled value")
		i := p.KeyPath[0].Int()
		sym.Assert(i >= 0 && i < len(m.kids), "an index out of range")
		o, err := got.Get(i)
		sym.Assert(err == nil, "an index out of range")
		a, err := o.Get(k)
		sym.Assert(err == nil && a == x, "a key of another object")
		calls++
		return bytewise(k, l)
	}))
	_, err = got.Marshal()
	jsonvalue.ResetDefaultMarshalOptions()
	sym.Assert(err == nil && calls >= len(m.kids), "the function is not asked")
	sym.Reach("part")
}

// C27_text: the text of a path names every element, indexes bare and names in quotes.
func C27_text() {
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("x")
	v.MustSetInt(2).At("y")
	want := ""
	for i, c := 0, 1+sym.Choose("depth", sym.Param("depth", 3, 4)); i < c; i++ {
		if want != "" {
			want = " " + want
		}
		if sym.Choose("step", 2) == 1 {
			a := jsonvalue.NewArray()
			j := sym.Choose("index", 2) * 11
			for k := 0; k < j; k++ {
				a.MustAppendInt(k).InTheEnd()
			}
			a.MustAppend(v).InTheEnd()
			v, want = a, decInt(j)+want
			continue
		}
		k := ""
		if l := sym.Choose("keylen", 3); l > 0 {
			b := sym.Bytes("key", l)
			for _, c := range b {
				sym.Assume(c >= 'a' && c <= 'z' || c >= '0' && c <= '9')
			}
			k = string(b)
		}
		o := jsonvalue.NewObject()
		o.MustSet(v).At(k)
		v, want = o, `"`+k+`"`+want
	}
	want = "[" + want + "]"
	calls := 0
	_, err := v.Marshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k, l string, x, y *jsonvalue.V) bool {
		sym.Assert(p != nil && p.KeyPath.String() == want, "the text of a path")
		calls++
		return bytewise(k, l)
	}))
	sym.Assert(err == nil && calls > 0, "the function is not asked")
	sym.Assert(jsonvalue.KeyPath{}.String() == "[]", "the text of an empty path")
	sym.Reach("text")
}
