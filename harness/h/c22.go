package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// kept is a string handed out by the package together with a copy of its bytes.
type kept struct{ s, copy string }

type keeping struct{ all []kept }

func (k *keeping) add(s string) {
	k.all = append(k.all, kept{s, string([]byte(s))})
}

func (k *keeping) check(msg string) {
	for _, x := range k.all {
		sym.Assert(x.s == x.copy, msg)
	}
}

// collect keeps every string the value hands out.
func (k *keeping) collect(v *jsonvalue.V) {
	k.add(v.String())
	switch v.ValueType() {
	case jsonvalue.Array:
		for _, c := range v.ForRangeArr() {
			k.collect(c)
		}
	case jsonvalue.Object:
		v.RangeObjects(func(key string, c *jsonvalue.V) bool {
			k.add(key)
			k.collect(c)
			return true
		})
		for key := range v.ForRangeObj() {
			k.add(key)
			s, err := v.GetString(key)
			if err == nil {
				k.add(s)
			}
		}
	}
	k.add(v.MustMarshalString())
	k.add(v.MustMarshalString(jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIndent("", " ")))
}

// textPart is the inside of a string: arbitrary bytes and escapes.
func textPart() string {
	switch sym.Choose("part", 5) {
	case 0:
		b := sym.Byte("c")
		sym.Assume(b >= ' ' && b < 0x80 && b != '"' && b != '\\')
		return string([]byte{b})
	case 1:
		return `\u00` + string([]byte{'4', sym.OneOf("hex", "0123456789abcdefABCDEF")})
	case 2:
		return `\` + string([]byte{sym.OneOf("esc", `"\/bfnrt`)})
	case 3:
		return `\ud83d\ude00x`
	}
	return ""
}

// doc22 is a document with escapes, so that parsing rewrites its buffer.
func doc22() []byte {
	a, b := textPart(), textPart()
	switch sym.Choose("document", 5) {
	case 0:
		return []byte(`"` + a + b + `"`)
	case 1:
		return []byte(`["` + a + `","` + b + `",12.50]`)
	case 2:
		return []byte(`{"` + a + `":"` + b + `","k":-7}`)
	case 3:
		return []byte(`{"` + a + `":{"` + b + `":["` + a + `"]}}`)
	}
	return []byte(` [ 1e2 , "` + b + `" , { "x" : "` + a + `" } ] `)
}

// later runs operations after which the strings have to be the same.
func later(v *jsonvalue.V, buf []byte, nocopy bool) {
	switch sym.Choose("later", 8) {
	case 0:
		_, _ = jsonvalue.Unmarshal([]byte(`{"zzzz":"\u0041\u0042yyyy","k":[123,4.5e6]}`))
		_, _ = jsonvalue.UnmarshalString(`["\n\n\n\n\n\n\n\n"]`)
	case 1:
		out := v.MustMarshal()
		scribble(out)
		scribble(v.MustMarshal(jsonvalue.OptIndent("", " ")))
	case 2:
		if !nocopy {
			scribble(buf)
		}
	case 3:
		if v.IsObject() {
			v.MustSetString("other").At("k")
			v.MustSetString("more").At("l")
			for k := range v.ForRangeObj() {
				v.MustDelete(k)
			}
		} else if v.IsArray() {
			v.MustAppendString("other").InTheBeginning()
			v.MustSetInt(5).At(-1)
			v.MustDelete(0)
		}
	case 4:
		sym.Assert(v.UnmarshalJSON([]byte(`{"\u0041bcdefgh":"ijklmnop\t"}`)) == nil, "UnmarshalJSON refuses an object")
	case 5:
		_, _ = v.Caseless().Get("A")
		_ = v.Bytes()
		scribble(v.Bytes())
		v.SortArray(func(a, b *jsonvalue.V) bool { return a.String() > b.String() })
	case 6:
		w := jsonvalue.New(v)
		w.MustAppendString("x").InTheEnd()
		w.MustSetString("x").At("k")
		scribble(w.MustMarshal())
		for _, c := range w.ForRangeArr() {
			scribble(c.Bytes())
			scribble(c.MustMarshal())
		}
	case 7:
		for _, c := range v.ForRangeArr() {
			scribble(c.MustMarshal())
		}
		for _, c := range v.ForRangeObj() {
			scribble(c.MustMarshal())
		}
	}
}

// C22_stable: the strings of a parsed value never change, and neither does the text it was parsed from.
func C22_stable() {
	doc := doc22()
	text := string(doc)
	mine := string(doc)
	var v *jsonvalue.V
	var err error
	nocopy := false
	switch sym.Choose("parser", 4) {
	case 0:
		v, err = jsonvalue.Unmarshal(doc)
		sym.Assert(string(doc) == text, "Unmarshal writes to the text it was given")
	case 1:
		v, err = jsonvalue.UnmarshalString(mine)
		sym.Assert(mine == text, "UnmarshalString writes to the text it was given")
	case 2:
		nocopy = true
		v, err = jsonvalue.UnmarshalNoCopy(doc)
	case 3:
		v = &jsonvalue.V{}
		err = v.UnmarshalJSON(doc)
		sym.Assert(string(doc) == text, "UnmarshalJSON writes to the text it was given")
	}
	sym.Assert(err == nil, "a well-formed text is refused")
	var k keeping
	k.collect(v)
	later(v, doc, nocopy)
	k.check("a string changed after it was returned")
	sym.Assert(mine == text, "a string of the caller was written to")
	sym.Reach("stable")
}

// C22_around: parsing in place stays within the slice it was given.
func C22_around() {
	doc := doc22()
	if sym.Choose("cut", 2) == 1 {
		doc = doc[:len(doc)-1-sym.Choose("off", 2)]
	}
	const guard = 5
	whole := make([]byte, guard+len(doc)+guard)
	for i := range whole {
		whole[i] = '7' // a digit or a part of a string, if anybody looked
	}
	copy(whole[guard:], doc)
	part := whole[guard : guard+len(doc)]
	form := sym.Choose("parser", 3)
	w, werr := jsonvalue.Unmarshal(append([]byte{}, doc...))
	var v *jsonvalue.V
	var err error
	switch form {
	case 0:
		v, err = jsonvalue.UnmarshalNoCopy(part)
	case 1:
		v, err = jsonvalue.Unmarshal(part)
	case 2:
		v, err = jsonvalue.UnmarshalString(string(part))
	}
	for i := 0; i < guard; i++ {
		sym.Assert(whole[i] == '7' && whole[len(whole)-1-i] == '7', "parsing writes beyond the text it was given")
	}
	sym.Assert((err == nil) == (werr == nil), "bytes beyond the text make a difference")
	if err == nil {
		sym.Assert(alike(v, w), "bytes beyond the text make a difference")
		for i := range whole {
			if i < guard || i >= guard+len(doc) {
				whole[i] = '#'
			}
		}
		sym.Assert(alike(v, w), "a value refers to bytes beyond the text it was parsed from")
	}
	if form > 0 {
		sym.Assert(string(part) == string(doc), "parsing writes to the text it was given")
	}
	sym.Reach("around")
}

// C22_beyond: in-place parsing of arbitrary bytes neither reads nor writes around them.
func C22_beyond() {
	n := sym.Choose("len", sym.Param("maxlen", 4, 5)+1)
	b := sym.Bytes("text", n)
	whole := append(append([]byte(`"1`), b...), []byte(`1"]}`)...)
	v, err := jsonvalue.UnmarshalNoCopy(whole[2 : 2+n])
	w, werr := jsonvalue.Unmarshal(b)
	sym.Assert((err == nil) == (werr == nil), "bytes beyond the text make a difference")
	if err == nil {
		sym.Assert(alike(v, w), "bytes beyond the text make a difference")
	}
	sym.Assert(string(whole[:2]) == `"1` && string(whole[2+n:]) == `1"]}`, "parsing writes beyond the text it was given")
}

// C22_write: marshaling reads the strings of the value and of the caller, and writes to none.
func C22_write() {
	s := sym.Str("s", sym.Choose("len", sym.Param("maxlen", 3, 4)))
	c := string([]byte(s))
	var opts []jsonvalue.Option
	switch sym.Choose("options", 4) {
	case 1:
		opts = append(opts, jsonvalue.OptUTF8(), jsonvalue.OptEscapeHTML(false))
	case 2:
		opts = append(opts, jsonvalue.OptIndent(s, s), jsonvalue.OptEscapeSlash(false))
	case 3:
		opts = append(opts, jsonvalue.OptKeySequence([]string{s, "k"}), jsonvalue.OptFloatInfToString(s, s))
	}
	v := jsonvalue.NewObject()
	v.MustSetString(s).At(s)
	v.MustSet([]string{s}).At("k")
	out := v.MustMarshal(opts...)
	scribble(out)
	str := v.MustMarshalString(opts...)
	again := string([]byte(str))
	scribble(v.MustMarshal(opts...))
	_ = v.Caseless().MustGet(s)
	_, _ = jsonvalue.UnmarshalString(s)
	_ = jsonvalue.NewBytes([]byte(s)).Bytes()
	sym.Assert(str == again, "a string changed after it was returned")
	sym.Assert(s == c, "a string of the caller was written to")
	sym.Assert(v.MustGet(c).String() == c && v.MustGet("k", 0).String() == c || c == "k", "marshaling changed a string of the value")
	sym.Reach("written")
}

// C22_literal: constant strings cannot be written to at all.
func C22_literal() {
	texts := []string{`{"a\u0041":"b\n\"","c":[1.25,"\ud83d\ude00"]}`, `["\/",-3]`, `"\u0031"`, ``, `{"`, `x`}
	s := texts[sym.Choose("text", len(texts))]
	v, err := jsonvalue.UnmarshalString(s)
	if err == nil {
		v.MustSetString("caf\u00e9 <&>").At("n")
		v.MustAppendString("caf\u00e9 <&>").InTheEnd()
		_ = v.MustMarshalString()
		_ = v.MustMarshalString(jsonvalue.OptIndent("> ", "  "), jsonvalue.OptUTF8())
		_ = v.Caseless().MustGet("N")
		sym.Reach("parsed")
	}
	_ = jsonvalue.MustUnmarshalString(s)
	_ = jsonvalue.New(s).MustMarshalString(jsonvalue.OptSetSequence())
	_ = jsonvalue.NewString(s).Bytes()
	_ = jsonvalue.NewString(s).Int()
	_, _ = jsonvalue.NewString("12").GetInt("x")
}

// C22_big: the same for strings of more than a few bytes.
func C22_big() {
	n := []int{60, 1023, 1024, 1025, 4096, 5000}[sym.Choose("length", 6)] &^ 3
	s := make([]byte, n)
	for i := range s {
		s[i] = "QUJDREVGR0hJSktM"[i%16]
	}
	p := sym.Choose("where", 3) * (n - 1) / 2
	s[p] = sym.OneOf("odd byte", "ABCabz019+/")
	text := `{"k":"` + string(s) + `","l":["` + string(s) + `"]}`
	mine := string([]byte(text))
	var v *jsonvalue.V
	var err error
	switch sym.Choose("parser", 3) {
	case 0:
		v, err = jsonvalue.UnmarshalString(mine)
	case 1:
		v, err = jsonvalue.UnmarshalNoCopy([]byte(text))
	case 2:
		v = jsonvalue.NewObject()
		v.MustSetString(string(s)).At("k")
		v.MustAppendString(string(s)).InTheEnd("l")
	}
	sym.Assert(err == nil, "a well-formed text is refused")
	var k keeping
	k.collect(v)
	a, err := v.GetBytes("k")
	sym.Assert(err == nil && string(a) == string(v.MustGet("l", 0).Bytes()), "two readings of the same base64 text differ")
	scribble(a)
	scribble(v.MustGet("l", 0).Bytes())
	b, err := v.Caseless().GetBytes("K")
	sym.Assert(err == nil && len(b) == len(a), "two readings of the same base64 text differ")
	scribble(b)
	_, _ = v.GetInt("k")
	_, _ = v.GetFloat64("l", 0)
	_, _ = v.GetBool("k")
	_ = v.MustGet("k").Equal(v.MustGet("l", 0))
	scribble(v.MustMarshal(jsonvalue.OptUTF8()))
	k.check("a string changed after it was returned")
	sym.Assert(mine == text, "a string of the caller was written to")
	sym.Reach("big")
}
