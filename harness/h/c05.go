package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// checkLiteral parses a document with the string literal lit (quotes included) as a value or key and compares
// with what the reference says it denotes.
func checkLiteral(lit []byte) {
	r := &ref{b: lit}
	want, ok := r.str()
	ok = ok && r.p == len(lit)
	var doc []byte
	ctx := sym.Choose("context", 3)
	switch ctx {
	case 0:
		doc = lit
	case 1:
		doc = cat(`["p",`, lit, `,"q"]`)
	case 2:
		doc = cat(`{`, lit, `:"v"}`)
	}
	if !ok {
		// the documented leniencies are not this property's business
		if _, lok := refParse(doc, true); lok {
			sym.Reach("lenient")
			return
		}
	}
	v, err := jsonvalue.Unmarshal(doc)
	if !ok {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed string literal is accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil, "a well-formed string literal is refused")
	switch ctx {
	case 0:
		sym.Assert(v.IsString() && v.String() == want, "the string is not what the literal denotes")
		sym.Log("s", v.String())
	case 1:
		sym.Assert(v.Len() == 3, "elements around a string")
		s, err := v.GetString(1)
		sym.Assert(err == nil && s == want, "the string is not what the literal denotes")
		sym.Assert(v.MustGet(0).String() == "p" && v.MustGet(2).String() == "q", "elements around a string")
	case 2:
		sym.Assert(v.Len() == 1, "members around a key")
		s, err := v.GetString(want)
		sym.Assert(err == nil && s == "v", "the key is not what the literal denotes")
	}
}

// lit wraps a body with plain text before and after.
func literal(body []byte) []byte {
	b := []byte(`"`)
	for i := sym.Choose("before", 3); i > 0; i-- {
		b = append(b, "xy"[i-1])
	}
	b = append(b, body...)
	for i := sym.Choose("after", 3); i > 0; i-- {
		b = append(b, "yz"[i-1])
	}
	return append(b, '"')
}

// C05_short: backslash and any byte.
func C05_short() {
	checkLiteral(literal([]byte{'\\', sym.Byte("e")}))
}

// C05_two: two escapes in a row.
func C05_two() {
	checkLiteral(literal([]byte{'\\', sym.Byte("e"), '\\', sym.Byte("f")}))
}

// C05_unicode: \u and four arbitrary bytes.
func C05_unicode() {
	b := []byte(`\u`)
	b = append(b, sym.Bytes("h", 4)...)
	checkLiteral(literal(b))
}

// C05_pair: two consecutive \uXXXX: every combination of hex digits, so every pair of UTF-16 units.
func C05_pair() {
	b := []byte(`\u`)
	for i := 0; i < 4; i++ {
		b = append(b, sym.OneOf("h", "0123456789abcdefABCDEF"))
	}
	b = append(b, `\u`...)
	for i := 0; i < 4; i++ {
		b = append(b, sym.OneOf("l", "0123456789abcdefABCDEF"))
	}
	checkLiteral(literal(b))
}

// C05_surrogate: a high surrogate followed by six arbitrary bytes.
func C05_surrogate() {
	b := []byte(`\uD83D`)
	if sym.Choose("case", 2) == 1 {
		b = []byte(`\udbff`)
	}
	n := sym.Param("after", 6, 6)
	b = append(b, sym.Bytes("t", n)...)
	checkLiteral(literal(b))
}

// C05_raw: unescaped text of arbitrary bytes, with an escape in the middle.
func C05_raw() {
	n := 1 + sym.Choose("n", sym.Param("max", 4, 6))
	b := sym.Bytes("raw", n)
	if sym.Choose("escape", 2) == 1 {
		c := append([]byte(nil), b[:n/2]...)
		c = append(c, `\n`...)
		b = append(c, b[n/2:]...)
	}
	checkLiteral(literal(b))
}

// C05_truncated: an escape cut at every point, closed or not.
func C05_truncated() {
	full := []string{`\n`, `\u0041`, `\u00e9`, `\ud83d\ude00`, `\uD83D\uDE00`, `\\`, `\"`}
	s := full[sym.Choose("escape", len(full))]
	b := []byte(`"a`)
	b = append(b, s[:sym.Fix(sym.Choose("cut", len(s)+1))]...)
	if sym.Choose("more", 2) == 1 {
		b = append(b, sym.Byte("c"))
	}
	if sym.Choose("close", 2) == 1 {
		b = append(b, '"')
	}
	checkLiteral(b)
}

// C05_long: many escapes of different lengths in one string.
func C05_long() {
	n := sym.Param("escapes", 20, 60)
	var b []byte
	pat := []string{`\n`, `\u00e9`, `x`, "\u4e2d", `\ud83d\ude00`, `\/`, `\\`, "\U0001f600", `\u0041`}
	step := 1 + sym.Choose("step", 4)
	for i := 0; i < n; i++ {
		b = append(b, pat[i*step%len(pat)]...)
	}
	p := []int{0, len(b)}[sym.Choose("where", 2)]
	c := append([]byte(nil), b[:p]...)
	c = append(c, '\\', sym.Byte("e"))
	c = append(c, b[p:]...)
	checkLiteral(literal(c))
}
