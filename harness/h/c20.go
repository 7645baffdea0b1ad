package h

import (
	"bytes"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

func (t *T) forget() *T {
	c := &T{k: t.k, keys: append([]string(nil), t.keys...)}
	for _, x := range t.kids {
		c.kids = append(c.kids, x.forget())
	}
	return c
}

func (t *T) contains(v *jsonvalue.V) bool {
	if t.v == v {
		return true
	}
	for _, c := range t.kids {
		if c.contains(v) {
			return true
		}
	}
	return false
}

// apart tells whether two trees have no node in common.
func (t *T) apart(u *T) bool {
	if u.contains(t.v) {
		return false
	}
	for _, c := range t.kids {
		if !c.apart(u) {
			return false
		}
	}
	return true
}

type holder struct {
	A *jsonvalue.V `json:"a"`
}

type deepHolder struct {
	B struct {
		C []map[string]*jsonvalue.V `json:"c"`
	} `json:"b"`
}

// copied imports the value in one of the ways there are.
func copied(v *jsonvalue.V, ways int) *jsonvalue.V { return copiedBy(v, sym.Choose("way", ways)) }

func copiedBy(v *jsonvalue.V, way int) *jsonvalue.V {
	var w *jsonvalue.V
	var err error
	switch way {
	case 0:
		w, err = jsonvalue.Import(v)
	case 1:
		w = jsonvalue.New(v)
	case 2:
		w, err = jsonvalue.Import([]*jsonvalue.V{v})
		sym.Assert(err == nil && w.Len() == 1, "a slice with a value is not imported")
		w = w.MustGet(0)
	case 3:
		w, err = jsonvalue.Import(map[string]*jsonvalue.V{"a": v})
		sym.Assert(err == nil && w.Len() == 1, "a map with a value is not imported")
		w = w.MustGet("a")
	case 4:
		w, err = jsonvalue.Import(holder{v})
		sym.Assert(err == nil && w.Len() == 1, "a structure with a value is not imported")
		w = w.MustGet("a")
	case 5:
		w = jsonvalue.New(map[string]any{"a": []any{v}}).MustGet("a", 0)
	case 6:
		// children of Set and Append other than *V are imported
		o := jsonvalue.NewObject()
		_, err = o.Set(holder{v}).At("x")
		w = o.MustGet("x", "a")
	case 7:
		o := jsonvalue.NewArray()
		_, err = o.Append([]*jsonvalue.V{v}).InTheEnd()
		w = o.MustGet(0, 0)
	case 8:
		var d deepHolder
		d.B.C = []map[string]*jsonvalue.V{{"d": v}}
		w, err = jsonvalue.Import(&d)
		sym.Assert(err == nil, "a structure with a value is not imported")
		w = w.MustGet("b", "c", 0, "d")
	case 9:
		w, err = jsonvalue.Import(&v)
	case 10:
		o := jsonvalue.NewArray()
		o.MustAppendNull().InTheEnd()
		_, err = o.Insert(map[string]any{"a": v}).After(0)
		w = o.MustGet(1, "a")
	case 11:
		w = jsonvalue.NewString("old")
		err = v.Export(w)
	case 12:
		h := holder{}
		o := jsonvalue.NewObject()
		o.MustSet(v).At("a")
		err = o.Export(&h.A)
		sym.Assert(err == nil && h.A.Len() == 1, "a value is not exported")
		w = h.A.MustGet("a")
	}
	sym.Assert(err == nil && w != nil, "a value is not imported")
	return w
}

// touch changes the value and its model somewhere.
func touch(t *T, ops int) {
	for depth := 0; len(t.kids) > 0 && depth < 2; depth++ {
		i := sym.Choose("child", len(t.kids)+1)
		if i == len(t.kids) {
			break
		}
		t = t.kids[i]
	}
	v := t.v
	c := newT('s')
	switch t.k {
	case 'o':
		switch sym.Choose("change", ops) {
		case 0:
			v.MustSet(c.v).At("a")
			t.put("a", c)
		case 1:
			v.MustSet(c.v).At("A")
			t.put("A", c)
		case 2:
			err := v.Delete("a")
			sym.Assert((err == nil) == (t.at("a") >= 0), "Delete disagrees with the members")
			if err == nil {
				t.remove(t.at("a"))
			}
		case 3:
			v.Caseless().MustDelete("B")
			if i := t.at("b"); i >= 0 {
				t.remove(i)
			}
		case 4:
			sym.Assert(v.UnmarshalJSON([]byte(`["str"]`)) == nil, "UnmarshalJSON refuses an array")
			*t = T{v: v, k: 'a', kids: []*T{{v: v.MustGet(0), k: 's'}}}
		}
	case 'a':
		switch sym.Choose("change", ops) {
		case 0:
			v.MustAppend(c.v).InTheEnd()
			t.insert(len(t.kids), c)
		case 1:
			v.MustAppend(c.v).InTheBeginning()
			t.insert(0, c)
		case 2:
			if len(t.kids) > 0 {
				v.MustDelete(0)
				t.remove(0)
			}
		case 3:
			v.SortArray(func(a, b *jsonvalue.V) bool { return a.ValueType() > b.ValueType() })
			if len(t.kids) == 2 && t.kids[1].v.ValueType() > t.kids[0].v.ValueType() {
				t.kids[0], t.kids[1] = t.kids[1], t.kids[0]
			}
		case 4:
			if len(t.kids) > 0 {
				v.MustSet(c.v).At(-1)
				t.kids[len(t.kids)-1] = c
			}
		}
	default:
		sym.Assert(v.UnmarshalJSON([]byte(`true`)) == nil, "UnmarshalJSON refuses true")
		*t = T{v: v, k: 't'}
	}
}

// caselessHolds looks keys up without case in every object of the tree.
func (t *T) caselessHolds() {
	if t.k == 'o' {
		for _, k := range []string{"A", "B"} {
			got, err := t.v.Caseless().Get(k)
			checkCaseless(t, k, got, err)
		}
	}
	for _, c := range t.kids {
		c.caselessHolds()
	}
}

func (t *T) prime() {
	if t.k == 'o' {
		_, _ = t.v.Caseless().Get("q") // is not there: the index is built
	}
	for _, c := range t.kids {
		c.prime()
	}
}

func checkCopy(t *T, ways, touches int) {
	if sym.Choose("caseless before", 2) == 1 {
		t.prime()
	}
	w := copied(t.v, ways)
	u := t.forget()
	sym.Assert(u.adopt(w) && u.holds(), "the copy has another content")
	sym.Assert(u.apart(t), "the copy shares a node with the original")
	a, b := t, u
	if sym.Choose("change the copy", 2) == 1 {
		a, b = u, t
	}
	if ways < 3 && sym.Choose("caseless after", 2) == 1 {
		a.prime()
		b.prime()
	}
	for i := 0; i < touches; i++ {
		touch(a, 5)
	}
	sym.Assert(a.holds(), "a change has another effect after a copy was made")
	sym.Assert(b.holds(), "a change of one tree is visible in the other")
	touch(b, 2)
	sym.Assert(a.holds() && b.holds(), "a change of one tree is visible in the other")
	a.caselessHolds()
	b.caselessHolds()
	sym.Reach("copied")
}

// C20_copy: an arbitrary small tree, every way to import it, arbitrary changes of either tree.
func C20_copy() {
	g := &grower{left: sym.Param("nodes", 4, 5), wide: 2, leaves: "n", keys: []string{"a", "b"}}
	checkCopy(g.grow(2), 2, sym.Param("touches", 1, 2))
}

// C20_ways: every way to import a value.
func C20_ways() {
	g := &grower{left: 3, wide: 2, leaves: "z", keys: []string{"a", "b"}}
	checkCopy(g.grow(2), 13, 1)
}

// C20_leaves: a copy of a leaf has everything the leaf has, and changes of the leaf do not reach it.
func C20_leaves() {
	var v *jsonvalue.V
	kind := sym.Choose("kind", 9)
	way := sym.Choose("way", 11)
	s := ""
	switch {
	case kind == 0:
		b := sym.Byte("char")
		sym.Assume(b < 0x80)
		s = string([]byte{b}) + []string{"", "é", "\x02"}[sym.Choose("next", 3)]
	case kind == 1 && way < 2:
		s = sym.Str("bytes", 1)
	case kind == 1:
		s = "\xff\xfe\x01"
	}
	whole := way < 2 // the other ways go through the text, digit by digit
	switch kind {
	case 0:
		v = jsonvalue.NewString(s)
	case 1:
		v = jsonvalue.NewBytes([]byte(s))
	case 2:
		if whole {
			v = jsonvalue.NewInt64(sym.I64("i"))
		} else {
			v = jsonvalue.NewInt64(int64(digit("i")) - 5)
		}
	case 3:
		if whole {
			v = jsonvalue.NewUint64(sym.U64("u"))
		} else {
			v = jsonvalue.NewUint64(uint64(digit("u")))
		}
	case 4:
		v = jsonvalue.NewFloat64([]float64{1.5, -0.25, 1e300, 3}[sym.Choose("float", 4)])
	case 5:
		v = jsonvalue.NewBool(sym.Bool("b"))
	case 6:
		v = jsonvalue.NewNull()
	case 7:
		v = jsonvalue.MustUnmarshalString([]string{"1.50", "-0", "1E2", "18446744073709551615", "12"}[sym.Choose("text", 5)])
	case 8:
		v = jsonvalue.NewFloat64f(2.5, 'f', 3)
	}
	w := copiedBy(v, way)
	check := func(w *jsonvalue.V) {
		sym.Assert(w.ValueType() == v.ValueType(), "a copy has another type")
		sym.Assert(w.IsInteger() == v.IsInteger() && w.IsFloat() == v.IsFloat() && w.IsNegative() == v.IsNegative() &&
			w.IsPositive() == v.IsPositive() && w.GreaterThanInt64Max() == v.GreaterThanInt64Max(), "a copy is another class of number")
		sym.Assert(w.Bool() == v.Bool() && w.Int64() == v.Int64() && w.Uint64() == v.Uint64() && w.Float64() == v.Float64(), "a copy has another content")
		if kind != 2 && kind != 3 || !whole {
			sym.Assert(w.String() == v.String(), "a copy has another text")
			x, _ := v.Marshal()
			y, _ := w.Marshal()
			sym.Assert(string(x) == string(y), "a copy marshals to another text")
		}
	}
	sym.Assert(w != v, "the copy is the original")
	check(w)
	o := copied(w, 1)
	sym.Assert(w.UnmarshalJSON([]byte(`[1]`)) == nil, "UnmarshalJSON refuses an array")
	check(o)
	sym.Assert(v.ValueType() != jsonvalue.Array, "a change of one value is visible in the other")
	sym.Reach("copied")
}

// scribble overwrites the bytes, including those beyond the length.
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		if i >= 64 {
			break
		}
		b[i] = '#'
	}
}

// doc20 is an arbitrary small value that was parsed.
func doc20() (*jsonvalue.V, *N) {
	g := &gen{left: sym.Param("values", 3, 4), wide: 2}
	n := g.value(2)
	v, err := jsonvalue.Unmarshal(g.b)
	sym.Assert(err == nil, "a well-formed text is refused")
	return v, n
}

// C20_input: buffers handed to the package can be overwritten.
func C20_input() {
	g := &gen{left: sym.Param("values", 3, 4), wide: 2}
	n := g.value(2)
	b := append(make([]byte, 0, len(g.b)+8), g.b...)
	var v *jsonvalue.V
	var err error
	switch sym.Choose("parser", 4) {
	case 0:
		v, err = jsonvalue.Unmarshal(b)
	case 1:
		v = jsonvalue.NewObject()
		v.MustSetString("old").At("old")
		err = v.UnmarshalJSON(b)
	case 2:
		v = jsonvalue.NewArray()
		err = v.UnmarshalBinary(b)
	case 3:
		v = jsonvalue.MustUnmarshal(b)
	}
	sym.Assert(err == nil, "a well-formed text is refused")
	sym.Assert(string(b) == string(g.b), "parsing changed the buffer it was given")
	scribble(b)
	sym.Assert(same(v, n), "a value depends on the buffer it was parsed from")
	w, err := jsonvalue.Unmarshal(g.b)
	sym.Assert(err == nil && same(w, n) && same(v, n), "parsing again changed a value")
	sym.Reach("parsed")
}

// C20_bytes: the byte slices given to constructors can be overwritten.
func C20_bytes() {
	n := sym.Choose("len", sym.Param("maxlen", 4, 7))
	b := sym.Bytes("b", n)
	keep := append([]byte{}, b...)
	var v *jsonvalue.V
	switch sym.Choose("constructor", 8) {
	case 0:
		v = jsonvalue.NewBytes(b)
	case 1:
		o := jsonvalue.NewObject()
		v, _ = o.SetBytes(b).At("k")
	case 2:
		o := jsonvalue.NewArray()
		v, _ = o.AppendBytes(b).InTheEnd()
	case 3:
		v = jsonvalue.New(b)
	case 4:
		v = jsonvalue.New(map[string]any{"k": b}).MustGet("k")
	case 5:
		o := jsonvalue.NewObject()
		o.MustSetBytes(b).At("k")
		v = o.MustGet("k")
	case 6:
		o := jsonvalue.NewArray()
		o.MustAppendBytes(b).InTheBeginning()
		v = o.MustGet(0)
	case 7:
		v = jsonvalue.New(struct{ B []byte }{b}).MustGet("B")
	}
	sym.Assert(bytes.Equal(b, keep), "a constructor changed the bytes it was given")
	scribble(b)
	got := v.Bytes()
	sym.Assert(bytes.Equal(got, keep), "a value depends on the bytes it was made from")
	text := v.String()
	scribble(got)
	o := jsonvalue.NewObject()
	o.MustSet(v).At("k")
	more, err := o.GetBytes("k")
	sym.Assert(err == nil && bytes.Equal(more, keep), "a value depends on the bytes it returned")
	scribble(more)
	sym.Assert(bytes.Equal(v.Bytes(), keep) && v.String() == text, "a value depends on the bytes it returned")
	sym.Reach("bytes")
}

// C20_collections: slices and maps imported can be changed afterwards.
func C20_collections() {
	a, b := int(digit("a")), int(digit("b"))
	s := []int{a, b}
	m := map[string]int{"x": a}
	in := []any{s, m}
	p := &a
	v, err := jsonvalue.Import(map[string]any{"s": s, "m": m, "i": in, "p": p})
	sym.Assert(err == nil, "a map is not imported")
	x, y := a, b
	s[0], s[1] = -1, -1
	m["x"], m["y"] = -1, -1
	in[0] = nil
	*p = -1
	sym.Assert(v.Len() == 4 && v.MustGet("s").Len() == 2 && v.MustGet("m").Len() == 1 && v.MustGet("i").Len() == 2, "a value depends on what it was imported from")
	sym.Assert(v.MustGet("s", 0).Int() == x && v.MustGet("s", 1).Int() == y && v.MustGet("m", "x").Int() == x && v.MustGet("p").Int() == x &&
		v.MustGet("i", 0, 0).Int() == x && v.MustGet("i", 1, "x").Int() == x, "a value depends on what it was imported from")
}

// keeper is a marshaler that reuses its buffer.
type keeper struct{ buf []byte }

func (k *keeper) MarshalJSON() ([]byte, error) { return k.buf, nil }

// C20_marshaler: the text a json.Marshaler returns still belongs to it.
func C20_marshaler() {
	g := &gen{left: 3, wide: 2}
	n := g.value(2)
	k := &keeper{append([]byte{}, g.b...)}
	v, err := jsonvalue.Import(k)
	sym.Assert(err == nil && same(v, n), "a marshaler is not imported")
	sym.Assert(string(k.buf) == string(g.b), "importing changed the buffer of a marshaler")
	scribble(k.buf)
	sym.Assert(same(v, n), "a value depends on the buffer of a marshaler")
}

// C20_output: what the package returns can be overwritten.
func C20_output() {
	v, n := doc20()
	var opts []jsonvalue.Option
	switch sym.Choose("options", 3) {
	case 1:
		opts = append(opts, jsonvalue.OptSetSequence(), jsonvalue.OptUTF8())
	case 2:
		opts = append(opts, jsonvalue.OptIndent("", " "))
	}
	out, err := v.Marshal(opts...)
	sym.Assert(err == nil, "a value cannot be marshaled")
	text := string(out)
	s := v.MustMarshalString(opts...)
	b, _ := v.MarshalJSON()
	c := v.MustMarshal(opts...)
	sym.Assert(string(out) == text, "marshaling again changed a text returned before")
	before := string(b)
	scribble(out)
	scribble(c)
	sym.Assert(agree(s, text) && string(b) == before, "two texts returned share memory")
	scribble(b)
	sym.Assert(same(v, n), "a value depends on the text it was marshaled to")
	d, err := v.Marshal(opts...)
	sym.Assert(err == nil && agree(string(d), text), "a value depends on the text it was marshaled to")
	sym.Reach("marshaled")
}

// C20_range: maps and slices returned can be changed.
func C20_range() {
	v, n := doc20()
	clobber(v)
	sym.Assert(same(v, n), "a value depends on the slices and maps it returned")
	sym.Assert(sameOrderOf(v, n), "the order of members depends on the maps it returned")
}

func sameOrderOf(v *jsonvalue.V, n *N) bool {
	out, err := v.Marshal(jsonvalue.OptSetSequence())
	if err != nil {
		return false
	}
	m, ok := refParse(out, false)
	return ok && sameN(m, n)
}

func clobber(v *jsonvalue.V) {
	if v.IsArray() {
		a := v.ForRangeArr()
		for _, c := range a {
			clobber(c)
		}
		other := jsonvalue.NewString("other")
		_ = append(a, other)
		for i := range a[:cap(a)] {
			a[:cap(a)][i] = other
		}
	}
	if v.IsObject() {
		m := v.ForRangeObj()
		for _, c := range m {
			clobber(c)
		}
		for k := range m {
			m[k] = jsonvalue.NewString("other")
		}
		m["new"] = jsonvalue.NewNull()
		delete(m, "a")
	}
}

// read20 runs operations that must not change anything.
func read20(v *jsonvalue.V, depth int) {
	_ = v.String()
	_ = v.Len()
	_, _ = v.Int(), v.Float64()
	_ = v.Bytes()
	_ = v.Bool()
	_, _, _, _ = v.IsInteger(), v.IsFloat(), v.IsNegative(), v.GreaterThanInt64Max()
	_, _ = v.Get("a", 0)
	_, _ = v.Get(0)
	_, _ = v.GetString("b")
	_, _ = v.GetInt(0)
	_, _ = v.Caseless().Get("A")
	_, _ = v.Caseless().GetBool("B")
	v.RangeArray(func(i int, c *jsonvalue.V) bool { return true })
	v.RangeObjects(func(k string, c *jsonvalue.V) bool { return true })
	v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool { return true })
	for range v.IterArray() {
	}
	for range v.IterObjects() {
	}
	_, _ = v.Marshal(jsonvalue.OptDefaultStringSequence())
	_, _ = v.Marshal(jsonvalue.OptKeySequence([]string{"b"}), jsonvalue.OptOmitNull(true))
	_, _ = v.Marshal(jsonvalue.OptEscapeHTML(false), jsonvalue.OptIndent(" ", " "))
	_ = v.Equal(v)
	_ = v.Equal(nil)
	_ = v.GreaterThan(v)
	_ = v.LessThanOrEqual(jsonvalue.NewInt(2))
	if depth > 0 {
		for _, c := range v.ForRangeArr() {
			read20(c, depth-1)
		}
		for _, c := range v.ForRangeObj() {
			read20(c, depth-1)
		}
	}
}

// C20_read: reading changes nothing.
func C20_read() {
	v, n := doc20()
	twin := copied(v, 1)
	before, err := v.Marshal(jsonvalue.OptSetSequence())
	sym.Assert(err == nil, "a value cannot be marshaled")
	text := string(before)
	read20(v, 1)
	_ = v.Equal(twin)
	sym.Assert(same(v, n) && same(twin, n), "reading changes a value")
	after, err := v.Marshal(jsonvalue.OptSetSequence())
	sym.Assert(err == nil && string(after) == text, "reading changes the order of members")
	sym.Reach("read")
}

// C20_replace: UnmarshalJSON replaces everything, or nothing.
func C20_replace() {
	g := &grower{left: 2, wide: 2, leaves: "n", keys: []string{"a"}}
	t := g.grow(1)
	if sym.Choose("caseless before", 2) == 1 {
		t.prime()
	}
	doc := mutate(sym.Param("edits", 1, 1))
	m, ok := refParse(doc, false)
	w, werr := jsonvalue.Unmarshal(doc)
	var err error
	if sym.Choose("binary", 2) == 1 {
		err = t.v.UnmarshalBinary(doc)
	} else {
		err = t.v.UnmarshalJSON(doc)
	}
	sym.Assert((err == nil) == (werr == nil), "UnmarshalJSON accepts other texts than Unmarshal")
	if err != nil {
		sym.Assert(t.holds(), "a failing UnmarshalJSON changes the value")
		t.caselessHolds()
		sym.Reach("kept")
		return
	}
	sym.Assert(alike(t.v, w), "UnmarshalJSON gives another value than Unmarshal")
	if ok {
		sym.Assert(same(t.v, m), "UnmarshalJSON gives another value than the text denotes")
	}
	x, e := t.v.Caseless().Get("A")
	y, f := w.Caseless().Get("A")
	sym.Assert((e == nil) == (f == nil) && (e != nil || alike(x, y)), "members of the replaced value are still found")
	sym.Reach("replaced")
}
