package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

func total(b []byte) {
	keep := append([]byte(nil), b...)
	s := string(b)
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(v != nil, "Unmarshal returned a nil value")
	if err != nil {
		sym.Reach("error")
		sym.Assert(v.ValueType() == jsonvalue.NotExist && v.Len() == 0 && v.String() == "", "value of a failed parse exists")
	} else {
		sym.Reach("ok")
		sym.Assert(v.ValueType() != jsonvalue.NotExist, "value of a successful parse is NotExist")
	}
	sym.Log("r", err == nil, int(v.ValueType()))
	sym.Assert(string(b) == string(keep), "Unmarshal modified its input")
	m := jsonvalue.MustUnmarshal(b)
	sym.Assert(m != nil && m.ValueType() == v.ValueType(), "MustUnmarshal")
	sym.Assert(string(b) == string(keep), "MustUnmarshal modified its input")

	u, err2 := jsonvalue.UnmarshalString(s)
	sym.Assert(u != nil && (err == nil) == (err2 == nil), "UnmarshalString and Unmarshal disagree")
	sym.Assert(u.ValueType() == v.ValueType(), "UnmarshalString and Unmarshal disagree")
	sym.Assert(s == string(keep), "UnmarshalString modified its input")
	m = jsonvalue.MustUnmarshalString(s)
	sym.Assert(m != nil && m.ValueType() == v.ValueType(), "MustUnmarshalString")
	sym.Assert(s == string(keep), "MustUnmarshalString modified its input")

	c := append([]byte(nil), b...)
	n, err3 := jsonvalue.UnmarshalNoCopy(c)
	sym.Assert(n != nil && (err == nil) == (err3 == nil), "UnmarshalNoCopy and Unmarshal disagree")
	sym.Assert(n.ValueType() == v.ValueType(), "UnmarshalNoCopy and Unmarshal disagree")
	copy(c, keep)
	m = jsonvalue.MustUnmarshalNoCopy(c)
	sym.Assert(m != nil && m.ValueType() == v.ValueType(), "MustUnmarshalNoCopy")
}

// C03_free: every byte string up to the bound.
func C03_free() {
	n := sym.Choose("len", sym.Param("maxlen", 5, 7)+1)
	b := sym.Bytes("b", n)
	if n == 0 && sym.Choose("nil", 2) == 1 {
		b = nil
	}
	total(b)
}

// C03_mutated: documents with one (thorough: two) arbitrary edits: truncation at every point included.
func C03_mutated() {
	total(mutate(sym.Param("edits", 1, 2)))
}

// C03_string: arbitrary bytes inside a string literal, in every position of a document.
func C03_string() {
	n := sym.Choose("len", sym.Param("maxlen", 4, 5)+1)
	pre := []string{`"`, `["`, `{"`, `{"a":"`}
	post := []string{`"`, `"]`, `":1}`, `"}`}
	k := sym.Choose("context", len(pre))
	b := []byte(pre[k])
	b = append(b, sym.Bytes("b", n)...)
	if sym.Choose("closed", 2) == 1 {
		b = append(b, post[k]...)
	}
	total(b)
}

// C03_number: arbitrary number-like text inside a document.
func C03_number() {
	n := 1 + sym.Choose("len", sym.Param("maxlen", 4, 5))
	b := []byte([]string{"", "[", `{"a":`}[sym.Choose("context", 3)])
	for i := 0; i < n; i++ {
		b = append(b, sym.OneOf("c", "019-+.eE]"))
	}
	total(b)
}

// C03_kept: the value does not change when the caller overwrites the bytes it parsed, nor by later parses; the
// documents parsed before do not matter.
func C03_kept() {
	for i := sym.Choose("before", 3); i > 0; i-- {
		jsonvalue.MustUnmarshalString(docs[i])
	}
	g := &gen{left: sym.Param("values", 3, 4), wide: 3}
	n := g.value(2)
	b := g.b
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err == nil && same(v, n), "Unmarshal: the value is not what the text denotes")
	junk := sym.Byte("junk")
	for i := range b {
		b[i] = junk
	}
	jsonvalue.MustUnmarshal(b)
	jsonvalue.MustUnmarshalString(docs[0])
	sym.Reach("kept")
	sym.Assert(same(v, n), "the value changed after the caller overwrote its bytes")
	logTree(v)
}

// C03_escapes: \\u escapes with arbitrary digits near the beginning and the end of a document.
func C03_escapes() {
	b := []byte([]string{`"`, `"a`, `"ab`, `["`, `{"`}[sym.Choose("before", 5)])
	for i := 1 + sym.Choose("more", 2); i > 0; i-- {
		b = append(b, '\\', 'u')
		b = append(b, sym.OneOf("digit", "dD0x"))
		b = append(b, sym.OneOf("digit", "78bBcCfF"))
		b = append(b, "0f"[sym.Choose("rest", 2)], 'f')
	}
	end := []string{"", `"`, `z"`, `"]`, `":1}`}[sym.Choose("after", 5)]
	b = append(b, end...)
	b = b[:len(b)-sym.Choose("cut", 3)*2%len(b)]
	total(b)
}

// C03_long: mistakes after keys and strings of every length.
func C03_long() {
	n := sym.Choose("len", sym.Param("len", 70, 140))
	k := run(n)
	if wide := sym.Choose("wide", 3); wide > 0 {
		for i := range k {
			k[i] = "\u00e9\u4e16"[i%(wide+1)+2*(wide-1)]
		}
		k = k[:n-n%(wide+1)]
	}
	b := []byte([]string{`{"`, ` {"x":0,"`, `["`, `"`}[sym.Choose("before", 4)])
	b = append(b, k...)
	b = append(b, []string{`"}`, `",`, `"1`, `"::`, `":}`, `":1,"`, `":[`, `":tru}`, `":1x`, "\"\x00", "\\", "\\ud800\"", "\xff", "", `" "`, `":1e999}`, `":-}`}[sym.Choose("after", 17)]...)
	total(b)
}
