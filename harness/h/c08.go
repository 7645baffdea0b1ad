package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// runeAt decodes the character of s (valid UTF-8) at p.
func runeAt(s []byte, p int) (uint32, int) {
	c := uint32(s[p])
	switch {
	case c < 0x80:
		return c, 1
	case c < 0xE0:
		return (c&0x1F)<<6 | uint32(s[p+1]&0x3F), 2
	case c < 0xF0:
		return (c&0x0F)<<12 | uint32(s[p+1]&0x3F)<<6 | uint32(s[p+2]&0x3F), 3
	}
	return (c&0x07)<<18 | uint32(s[p+1]&0x3F)<<12 | uint32(s[p+2]&0x3F)<<6 | uint32(s[p+3]&0x3F), 4
}

// hexAt reads \uXXXX at p.
func hexAt(out []byte, p int) (uint32, bool) {
	if p+6 > len(out) || out[p] != '\\' || out[p+1] != 'u' {
		return 0, false
	}
	r := &ref{b: out}
	return r.hex4(p + 2)
}

// escaped tells whether out at p holds an escape sequence denoting c, and its length.
func escaped(out []byte, p int, c uint32) (int, bool) {
	if p+1 >= len(out) || out[p] != '\\' {
		return 0, false
	}
	short := map[byte]uint32{'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
	for _, k := range []byte(`"\/bfnrt`) {
		if out[p+1] == k {
			return 2, short[k] == c
		}
	}
	x, ok := hexAt(out, p)
	if !ok {
		return 0, false
	}
	if c < 0x10000 {
		return 6, x == c
	}
	y, ok := hexAt(out, p+6)
	return 12, ok && x >= 0xD800 && x < 0xDC00 && y >= 0xDC00 && y < 0xE000 && 0x10000+(x-0xD800)<<10+(y-0xDC00) == c
}

// written checks that out from p on spells s the way the options demand and returns where it ends.
func written(out []byte, p int, s []byte, e esc) (int, bool) {
	for i := 0; i < len(s); {
		c, n := runeAt(s, i)
		literal := func() bool {
			if p+n > len(out) {
				return false
			}
			for j := 0; j < n; j++ {
				if out[p+j] != s[i+j] {
					return false
				}
			}
			p += n
			return true
		}
		escape := func() bool {
			l, ok := escaped(out, p, c)
			p += l
			return ok
		}
		ok := false
		switch {
		case c < 0x20 || c == '"' || c == '\\' || c == 0x7F:
			ok = escape()
		case c == '/':
			if e.noSlash {
				ok = literal()
			} else {
				ok = escape()
			}
		case c == '<' || c == '>' || c == '&':
			if e.noHTML {
				ok = literal()
			} else {
				ok = escape()
			}
		case c < 0x80:
			ok = literal()
		case c == 0x2028 || c == 0x2029:
			// line separators may be escaped either way
			if p < len(out) && out[p] == '\\' {
				ok = escape()
			} else {
				ok = e.utf8 && literal()
			}
		case e.utf8:
			ok = literal()
		default:
			ok = escape()
		}
		if !ok {
			return p, false
		}
		i += n
	}
	return p, true
}

// quoted checks that out from p on is the string s in quotes.
func quoted(out []byte, p int, s []byte, e esc) (int, bool) {
	if p >= len(out) || out[p] != '"' {
		return p, false
	}
	p, ok := written(out, p+1, s, e)
	if !ok || p >= len(out) || out[p] != '"' {
		return p, false
	}
	return p + 1, true
}

func expect(out []byte, p int, lit string) (int, bool) {
	if p+len(lit) > len(out) || string(out[p:p+len(lit)]) != lit {
		return p, false
	}
	return p + len(lit), true
}

func checkEscaping(s []byte, places int, e esc, o []jsonvalue.Option) {
	k := 0
	if places > 1 {
		k = sym.Choose("place", places)
	}
	p, ok := 0, true
	var out []byte
	switch k {
	case 0:
		out = jsonvalue.NewString(string(s)).MustMarshal(o...)
		p, ok = quoted(out, 0, s, e)
	case 1:
		v := jsonvalue.NewArray()
		v.MustAppendString(string(s)).InTheEnd()
		v.MustAppendString("é/").InTheEnd()
		out = v.MustMarshal(o...)
		p, ok = expect(out, 0, "[")
		if ok {
			p, ok = quoted(out, p, s, e)
		}
		if ok {
			p, ok = expect(out, p, ",")
		}
		if ok {
			p, ok = quoted(out, p, []byte("é/"), e)
		}
		if ok {
			p, ok = expect(out, p, "]")
		}
	case 2:
		v := jsonvalue.NewObject()
		v.MustSetNull().At(string(s))
		out = v.MustMarshal(o...)
		p, ok = expect(out, 0, "{")
		if ok {
			p, ok = quoted(out, p, s, e)
		}
		if ok {
			p, ok = expect(out, p, ":null}")
		}
	}
	sym.Reach("escaped")
	sym.Assert(ok, "a character is not represented as the options demand")
	sym.Assert(p == len(out), "text after the value")
	sym.Log("out", len(out))
	if !e.utf8 {
		for _, c := range out {
			sym.Assert(c < 0x80, "the output is not ASCII")
		}
	}
}

// C08_chars: arbitrary characters of every length class, every combination of the escaping options, in a string
// alone, in an array and as a key.
func C08_chars() {
	n := sym.Choose("chars", sym.Param("maxchars", 2, 3)+1)
	b := chars(n)
	e, o := chooseEsc()
	places := 1
	if n < 2 {
		places = 3
	}
	checkEscaping(b, places, e, o)
}

// C08_neighbours: an arbitrary character between fixed neighbours that need escaping themselves.
func C08_neighbours() {
	l := []string{"\"", "/é", "<", "\U0001F600", "\\", "\x00", "a"}
	b := []byte(l[sym.Choose("before", len(l))])
	b = append(b, chars(1)...)
	b = append(b, l[sym.Choose("after", len(l))]...)
	e, o := chooseEsc()
	checkEscaping(b, 3, e, o)
}

// C08_default: the same holds for options installed as defaults and for Opt values passed in a call.
func C08_default() {
	b := chars(1)
	e, o := chooseEsc()
	jsonvalue.SetDefaultMarshalOptions(o...)
	checkEscaping(b, 3, e, nil)
	jsonvalue.ResetDefaultMarshalOptions()
	checkEscaping(b, 1, esc{}, nil)
}

// C08_indent: indentation changes whitespace only, whatever the other options.
func C08_indent() {
	g := &tree{left: sym.Param("nodes", 4, 5), wide: 3, leaves: "sz", keys: "ab"}
	v, n := g.value(3)
	_ = n
	o := []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}
	if sym.Choose("omit", 2) == 1 {
		o = append(o, jsonvalue.OptOmitNull(true))
	}
	plain := v.MustMarshal(o...)
	in := [][2]string{{"", "  "}, {"\t", " "}, {"", ""}}[sym.Choose("indent", 3)]
	out := v.MustMarshal(append(o, jsonvalue.OptIndent(in[0], in[1]))...)
	sym.Reach("indented")
	sym.Assert(len(plain) > 0 && compact(plain), "insignificant whitespace without OptIndent")
	sym.Assert(string(stripped(out)) == string(plain), "OptIndent changes more than whitespace")
	sym.Log("out", out)
}

// C08_options: sequences of escaping options, the last word on each matter counts, over defaults set before.
func C08_options() {
	b := []byte{'<', '/'}
	b = append(b, chars(1)...)
	var e esc
	var o, d []jsonvalue.Option
	add := func(l *[]jsonvalue.Option) {
		switch sym.Choose("option", 5) {
		case 0:
			e.utf8 = true
			*l = append(*l, jsonvalue.OptUTF8())
		case 1:
			e.noHTML = true
			*l = append(*l, jsonvalue.OptEscapeHTML(false))
		case 2:
			e.noHTML = false
			*l = append(*l, jsonvalue.OptEscapeHTML(true))
		case 3:
			e.noSlash = true
			*l = append(*l, jsonvalue.OptEscapeSlash(false))
		case 4:
			e.noSlash = false
			*l = append(*l, jsonvalue.OptEscapeSlash(true))
		}
	}
	for i := sym.Choose("defaults", sym.Param("defaults", 3, 4)); i > 0; i-- {
		add(&d)
	}
	for i := sym.Choose("options", sym.Param("options", 3, 4)); i > 0; i-- {
		add(&o)
	}
	jsonvalue.SetDefaultMarshalOptions(d...)
	checkEscaping(b, 1, e, o)
	jsonvalue.ResetDefaultMarshalOptions()
	sym.Reach("options")
}
