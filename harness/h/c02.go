package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// refused checks that a text outside the tolerated language is refused by every entry point.
func refused(b []byte) {
	if _, ok := refParse(b, true); ok {
		sym.Reach("tolerated")
		return
	}
	sym.Reach("malformed")
	s := string(b)
	c := append([]byte(nil), b...)
	v, err := jsonvalue.Unmarshal(b)
	sym.Assert(err != nil, "Unmarshal accepts a malformed text")
	sym.Assert(v != nil && v.ValueType() == jsonvalue.NotExist, "Unmarshal: the value of a malformed text exists")
	_, err = jsonvalue.UnmarshalString(s)
	sym.Assert(err != nil, "UnmarshalString accepts a malformed text")
	_, err = jsonvalue.UnmarshalNoCopy(c)
	sym.Assert(err != nil, "UnmarshalNoCopy accepts a malformed text")
	var w jsonvalue.V
	sym.Assert(w.UnmarshalJSON(b) != nil, "UnmarshalJSON accepts a malformed text")
	sym.Log("type", int(v.ValueType()))
}

// C02_free: every byte string up to the bound.
func C02_free() {
	n := sym.Choose("len", sym.Param("maxlen", 5, 7)+1)
	refused(sym.Bytes("b", n))
}

// C02_structure: texts over the structural alphabet, longer than C02_free.
func C02_structure() {
	n := sym.Param("len", 7, 8)
	b := make([]byte, n)
	first := []byte("{[")[sym.Choose("open", 2)]
	b[0] = first
	for i := 1; i < n; i++ {
		b[i] = sym.OneOf("c", `{}[]:,"1`)
	}
	refused(b)
}

// C02_mutated: documents of 6 to 30 bytes with one (thorough: two) arbitrary edits.
func C02_mutated() {
	refused(mutate(sym.Param("edits", 1, 2)))
}

// C02_trailing: anything but blanks after a complete document.
func C02_trailing() {
	b := []byte(docs[sym.Choose("doc", len(docs))])
	b = append(b, sym.Bytes("tail", 1+sym.Choose("n", 2))...)
	refused(b)
}

// C02_words: a word of up to 12 letters (after an optional sign) is no value unless it is true, false or null,
// wherever it stands and whatever follows it.
func C02_words() {
	n := 1 + sym.Choose("len", sym.Param("maxlen", 10, 14))
	w := make([]byte, n)
	for i := range w {
		w[i] = sym.OneOf("w", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$\xef\xbb\xbf\xc2\xa0")
	}
	word := append([]byte([]string{"", "-", "+"}[sym.Choose("sign", 3)]), w...)
	word = append(word, []string{"", "1", " {}", `:"a"`}[sym.Choose("tail", 4)]...)
	switch sym.Choose("place", 5) {
	case 1:
		word = cat("[1,", word, "]")
	case 2:
		word = cat(`{"a":`, word, "}")
	case 3:
		word = cat("{", word, `:1}`)
	case 4:
		word = cat(`[[],{"a":{}} `, word, ",2]")
	}
	refused(word)
}

// C02_numbers: a token of the characters of numbers, as a document, an element or a member.
func C02_numbers() {
	n := 1 + sym.Choose("len", sym.Param("maxlen", 5, 7))
	t := make([]byte, n)
	for i := range t {
		t[i] = sym.OneOf("t", "0123456789+-.eE")
	}
	switch sym.Choose("place", 7) {
	case 0:
		t = cat(" ", t, "\n")
	case 1:
		t = cat("[", t, "]")
	case 2:
		t = cat("[", t, ",1]")
	case 3:
		t = cat("[2,", t, " ]")
	case 4:
		t = cat(`{"a":`, t, "}")
	case 5:
		t = cat(`{"a":`, t, string(cat(`,"b":[`, t, "]}")))
	case 6:
		t = cat(`[[`, t, string(cat(`],{"":`, t, `}]`)))
	}
	refused(t)
}
