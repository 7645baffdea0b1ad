package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// roundTrip marshals v, which stands for n, and parses the text again.
func roundTrip(v *jsonvalue.V, n *N, indented bool, opts ...jsonvalue.Option) {
	out, err := v.Marshal(opts...)
	sym.Assert(err == nil, "a value cannot be marshaled")
	m, ok := refParse(out, false)
	sym.Assert(ok, "Marshal returns a text that is not JSON")
	sym.Assert(sameN(n, m), "the text does not denote the value")
	if !indented {
		sym.Assert(compact(out), "insignificant whitespace without OptIndent")
	}
	w, err := jsonvalue.Unmarshal(out)
	sym.Assert(err == nil, "the marshaled text is refused")
	sym.Assert(w.Equal(v) && v.Equal(w), "the re-parsed value is not equal")
	sym.Assert(same(w, n), "the re-parsed value has another content")
	sym.Assert(same(v, n), "marshaling or comparing changed the value")
	sym.Reach("round trip " + string(rune(n.k)))
	sym.Log("len", len(out))
}

// C07_string: strings and keys of arbitrary characters under every escaping option.
func C07_string() {
	b := chars(sym.Choose("chars", sym.Param("maxchars", 1, 2)+1))
	if len(b) > 0 && len(b) <= 4 {
		l := []string{"", "/", "\x01", "é", "\U0001F600", "\\"}
		b = append(b, l[sym.Choose("next", len(l))]...)
	}
	s := string(b)
	_, o := chooseEsc()
	v, n := jsonvalue.NewString(s), &N{k: 's', s: s}
	p := 0
	if len(b) <= 5 {
		p = sym.Choose("place", 3)
	}
	switch p {
	case 1:
		a := jsonvalue.NewArray()
		a.MustAppend(v).InTheBeginning()
		a.MustAppendBool(true).InTheEnd()
		v, n = a, &N{k: 'a', kids: []*N{n, {k: 't'}}}
	case 2:
		o := jsonvalue.NewObject()
		o.MustSet(v).At(s)
		v, n = o, &N{k: 'o', keys: []string{s}, kids: []*N{n}}
	}
	roundTrip(v, n, false, o...)
}

// C07_tree: arbitrary small trees, ordering options and indentation.
func C07_tree() {
	sym.MapOrder(sym.Choose("maporder", 2))
	g := &tree{left: sym.Param("nodes", 4, 5), wide: 3, leaves: "sntz", keys: "ab"}
	v, n := g.value(3)
	k := sym.Choose("options", 5)
	var o []jsonvalue.Option
	switch k {
	case 1:
		o = []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}
	case 2:
		o = []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"b", "q"}), jsonvalue.OptUTF8()}
	case 3:
		o = []jsonvalue.Option{jsonvalue.OptSetSequence(), jsonvalue.OptEscapeHTML(false)}
	case 4:
		o = []jsonvalue.Option{jsonvalue.OptIndent("\r", " \t")}
	}
	roundTrip(v, n, k == 4, o...)
}

// C07_number: numbers keep their text through parse, marshal and parse again.
func C07_number() {
	n := 1 + sym.Choose("len", sym.Param("maxlen", 5, 7))
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.OneOf("c", "0123456789-+.eE")
	}
	text := string(b)
	if refNumber(b) != n || bigExp(text) {
		return
	}
	doc, _ := wrapNumber(b)
	v, err := jsonvalue.Unmarshal(doc)
	sym.Assert(err == nil, "a number is refused")
	m, ok := refParse(doc, false)
	sym.Assert(ok, "harness: number document")
	out, err := v.Marshal()
	sym.Assert(err == nil, "a number cannot be marshaled")
	w, ok := refParse(out, false)
	sym.Assert(ok && sameN(m, w), "the number text changed")
	x, err := jsonvalue.Unmarshal(out)
	sym.Assert(err == nil && same(x, m), "the re-parsed number has another text")
	sym.Reach("number")
}

// C07_document: every accepted document denotes the same tree after a round trip.
func C07_document() {
	g := &gen{left: sym.Param("values", 4, 5), wide: 3}
	n := g.value(3)
	v, err := jsonvalue.Unmarshal(g.b)
	sym.Assert(err == nil, "a well-formed text is refused")
	roundTrip(v, n, false)
}

// C07_large: numbers beyond the 64-bit integers that print without a fraction or an exponent.
func C07_large() {
	refused := []float64{1.8446744073709552e19, 1e20, -1e19, 9.99e20, -9223372036854775808}
	fine := []float64{1e21, -1e21, 18446744073709549568, -9223372036854774784, 1 << 63, 1.7976931348623157e308}
	i := sym.Choose("float", len(refused)+len(fine))
	f := append(refused, fine...)[i]
	v := jsonvalue.NewFloat64(f)
	out, err := v.Marshal()
	sym.Assert(err == nil, "a number cannot be marshaled")
	w, err := jsonvalue.Unmarshal(out)
	if i < len(refused) {
		sym.Assert(err == nil, "the text of a large float is refused")
	}
	sym.Assert(err == nil && w.Float64() == f && w.Equal(v), "a large float does not survive")
}

// C07_floats: particular floats of every magnitude, built and read back. (The text strconv gives an arbitrary float
// cannot be encoded; these are executed.)
func C07_floats() {
	mant := []float64{1, 1.5, 1.25, 9.999999, 16777217, 3.1415926535897931, 123456789, 4503599627370497.5, 1.0000000000000002}
	exps := []float64{1e-320, 1e-45, 1.5e-30, 1e-10, 1e-7, 1e-6, 1e-3, 1, 10, 1e3, 1e7, 1e15, 1e18, 1e21, 1e22, 1e30, 1e100, 1e292}
	f := mant[sym.Choose("mantissa", len(mant))] * exps[sym.Choose("exponent", len(exps))]
	if sym.Choose("negative", 2) == 1 {
		f = -f
	}
	var v *jsonvalue.V
	way := sym.Choose("way", 6)
	switch way {
	case 0:
		v = jsonvalue.NewFloat64(f)
	case 1:
		if a := float32(f); a-a != 0 {
			return
		}
		v = jsonvalue.NewFloat32(float32(f))
	case 2:
		v = jsonvalue.NewFloat64f(f, "eEgG"[sym.Choose("format", 4)], -1)
	case 3:
		v = jsonvalue.New(f)
	case 4:
		if a := float32(f); a-a != 0 {
			return
		}
		v = jsonvalue.New([]float32{float32(f)}).MustGet(0)
	case 5:
		o := jsonvalue.NewObject()
		o.MustSetFloat64(f).At("a")
		v = o.MustGet("a")
	}
	g := f
	if way == 1 || way == 4 {
		g = float64(float32(f))
		sym.Assert(v.Float32() == float32(f), "the value does not hold the float")
	} else {
		sym.Assert(v.Float64() == f, "the value does not hold the float")
	}
	out, err := v.Marshal()
	sym.Assert(err == nil, "a float cannot be marshaled")
	_, ok := refParse(out, false)
	sym.Assert(ok, "the text of a float is not JSON")
	w, err := jsonvalue.Unmarshal(out)
	if a := g; (a >= 1.8446744073709552e19 && a < 1e21 || a <= -9223372036854775808 && a > -1e21) && err != nil {
		return // a known finding of C07_large
	}
	sym.Assert(err == nil, "the text of a float is refused")
	if way == 1 || way == 4 {
		sym.Assert(w.Float32() == float32(f), "a float32 does not survive")
	} else {
		sym.Assert(w.Float64() == g, "a float does not survive")
		sym.Assert(w.Equal(v) && v.Equal(w), "a re-parsed float is not equal")
	}
	sym.Reach("float")
}

// C07_big: texts beyond the buffers and capacities used anywhere: a long string, a long key, many elements, many
// members, with arbitrary characters at their ends.
func C07_big() {
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return b
	}
	sizes := []int{30, 62, 126, 250, 510, 1020, 4090}
	var v *jsonvalue.V
	var n *N
	switch sym.Choose("shape", 4) {
	case 0:
		b := fill(sizes[sym.Choose("size", sym.Param("sizes", 6, 7))] + sym.Choose("more", 5))
		b = append(b, chars(1)...)
		b = append(b, 'z')
		v, n = jsonvalue.NewString(string(b)), &N{k: 's', s: string(b)}
	case 1:
		b := fill(sizes[sym.Choose("size", 4)])
		b = append(b, chars(1)...)
		b = append(b, "zzz"[:sym.Choose("more", 4)]...)
		v, n = jsonvalue.NewObject(), &N{k: 'o'}
		v.MustSetBool(true).At(string(b))
		n.put(string(b), &N{k: 't'})
	case 2:
		v, n = jsonvalue.NewArray(), &N{k: 'a'}
		for i, c := 0, []int{31, 32, 33, 64, 65}[sym.Choose("elements", 5)]; i < c; i++ {
			v.MustAppendInt(i).InTheEnd()
			n.kids = append(n.kids, &N{k: 'n', s: decInt(i)})
		}
	case 3:
		v, n = jsonvalue.NewObject(), &N{k: 'o'}
		for i, c := 0, []int{8, 9, 17, 33}[sym.Choose("members", 4)]; i < c; i++ {
			k := "k" + decInt(i)
			v.MustSetInt(i).At(k)
			n.put(k, &N{k: 'n', s: decInt(i)})
		}
	}
	var o []jsonvalue.Option
	switch sym.Choose("options", 3) {
	case 1:
		o = []jsonvalue.Option{jsonvalue.OptUTF8(), jsonvalue.OptDefaultStringSequence()}
	case 2:
		o = []jsonvalue.Option{jsonvalue.OptSetSequence(), jsonvalue.OptEscapeHTML(false)}
	}
	roundTrip(v, n, false, o...)
}

func decInt(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return decInt(i/10) + string([]byte{byte('0' + i%10)})
}
