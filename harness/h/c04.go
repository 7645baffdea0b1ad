package h

import (
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// wrapNumber embeds a number text in a document at one of several places and returns the document and a
// function fetching the number.
func wrapNumber(num []byte) ([]byte, func(v *jsonvalue.V) *jsonvalue.V) {
	switch sym.Choose("context", 4) {
	case 1:
		return cat("[", num, "]"), func(v *jsonvalue.V) *jsonvalue.V { return v.MustGet(0) }
	case 2:
		return cat(`{"k":`, num, ` ,"l":[]}`), func(v *jsonvalue.V) *jsonvalue.V { return v.MustGet("k") }
	case 3:
		return cat(" \n", num, "\t "), func(v *jsonvalue.V) *jsonvalue.V { return v }
	}
	return num, func(v *jsonvalue.V) *jsonvalue.V { return v }
}

func cat(a string, b []byte, c string) []byte {
	var r []byte
	r = append(r, a...)
	r = append(r, b...)
	return append(r, c...)
}

// leDigits tells whether the digits d (no leading zero) denote a number ≤ max.
func leDigits(d []byte, max string) bool {
	if len(d) != len(max) {
		return len(d) < len(max)
	}
	for i := 0; i < len(d); i++ {
		if d[i] != max[i] {
			return d[i] < max[i]
		}
	}
	return true
}

func allDigits(b []byte) bool {
	for _, c := range b {
		if !isDigit(c) {
			return false
		}
	}
	return true
}

// checkNumber: num is parsed inside a document; the verdict and the value are compared with the reference.
func checkNumber(num []byte, nearLimit bool) {
	text := string(num)
	doc, at := wrapNumber(num)
	neg := len(num) > 0 && num[0] == '-'
	abs := num
	if neg {
		abs = num[1:]
	}
	integer := allDigits(abs)
	ok := len(num) > 0 && refNumber(num) == len(num)
	if ok && integer {
		if neg {
			ok = leDigits(abs, "9223372036854775808")
		} else {
			ok = leDigits(abs, "18446744073709551615")
		}
	}
	v, err := jsonvalue.Unmarshal(doc)
	if !ok {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed or out-of-range number is accepted")
		return
	}
	sym.Assert(err == nil, "a well-formed number in range is refused")
	x := at(v)
	sym.Assert(x.IsNumber() && x.ValueType() == jsonvalue.Number, "a number is not a number")
	sym.Assert(x.String() == text, "String() of a number is not its text")
	out, err := x.Marshal()
	sym.Assert(err == nil && string(out) == text, "Marshal does not write back the original digits")
	sym.Assert(x.IsInteger() == integer && x.IsFloat() == !integer, "integer/float classification")
	sym.Log("num", x.IsInteger(), x.Int64(), x.Uint64())
	if !integer {
		sym.Reach("float")
		f, _ := strconv.ParseFloat(text, 64)
		sym.Assert(x.Float64() == f, "Float64 is not the rounded value of the text")
		sym.Assert(x.IsNegative() == (f < 0) && x.IsPositive() == !x.IsNegative(), "sign of a float")
		return
	}
	sym.Reach("integer")
	var u uint64
	for _, c := range abs {
		u = u*10 + uint64(c) - '0'
	}
	zero := true
	for _, c := range abs {
		zero = zero && c == '0'
	}
	sym.Assert(zero || (x.IsNegative() == neg && x.IsPositive() == !neg), "sign of an integer")
	if neg {
		sym.Reach("negative")
		i := -int64(u)
		sym.Assert(x.Int64() == i && x.Int() == int(i) && x.Int32() == int32(i), "Int64 of a negative integer")
		if len(abs) <= 15 || nearLimit {
			sym.Assert(x.Float64() == -float64(u), "Float64 of a negative integer")
		}
		sym.Assert(!x.GreaterThanInt64Max(), "GreaterThanInt64Max of a negative integer")
		return
	}
	sym.Reach("positive")
	sym.Assert(x.Uint64() == u && x.Uint() == uint(u) && x.Uint32() == uint32(u), "Uint64 of an integer")
	if leDigits(abs, "9223372036854775807") {
		sym.Assert(x.Int64() == int64(u) && x.Int() == int(u) && x.Int32() == int32(u), "Int64 of an integer")
	}
	if len(abs) <= 15 || nearLimit {
		sym.Assert(x.Float64() == float64(u), "Float64 of an integer")
	}
	sym.Assert(x.GreaterThanInt64Max() == !leDigits(abs, "9223372036854775807"), "GreaterThanInt64Max")
}

// C04_grammar: every text over the number alphabet up to the bound, except exponents of three digits and more.
func C04_grammar() {
	n := 1 + sym.Choose("len", sym.Param("maxlen", 7, 9))
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.OneOf("c", "0123456789-+.eE")
	}
	sym.Assume(!bigExp(string(b)))
	checkNumber(b, false)
}

// C04_integer: 1 to 19 (20) arbitrary digits with and without sign.
func C04_integer() {
	n := 1 + sym.Choose("digits", sym.Param("maxdigits", 19, 20))
	var b []byte
	if sym.Choose("negative", 2) == 1 {
		b = append(b, '-')
	}
	b = append(b, sym.Digits("d", n)...)
	checkNumber(b, false)
}

// C04_boundary: 18 to 20 digits near the limits of int64 and uint64 in a second way: a fixed limit with three
// arbitrary digits replaced.
func C04_boundary() {
	lims := []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "18446744073709551616"}
	b := []byte(lims[sym.Choose("limit", len(lims))])
	first := 0
	if b[0] == '-' {
		first = 1
	}
	p := first + sym.Choose("pos", len(b)-first-2)
	for i := 0; i < 3; i++ {
		b[p+i] = sym.Digits("d", 1)[0]
	}
	checkNumber(b, true)
}

// C04_float: sign, 1-3 integer digits, 0-3 fraction digits, exponent forms with one arbitrary digit.
func C04_float() {
	var b []byte
	if sym.Choose("negative", 2) == 1 {
		b = append(b, '-')
	}
	b = append(b, sym.Digits("i", 1+sym.Choose("ni", 3))...)
	if n := sym.Choose("nf", 4); n > 0 {
		b = append(b, '.')
		b = append(b, sym.Digits("f", n)...)
	}
	switch sym.Choose("exp", 5) {
	case 1:
		b = append(b, 'e')
		b = append(b, sym.Digits("e", 1)...)
	case 2:
		b = append(b, "E+"...)
		b = append(b, sym.Digits("e", 1)...)
	case 3:
		b = append(b, "e-0"...)
		b = append(b, sym.Digits("e", 1)...)
	case 4:
		b = append(b, "E1"...)
		b = append(b, sym.Digits("e", 1)...)
	}
	checkNumber(b, false)
}

// C04_overflow: floats outside the range of float64 are refused, the largest ones are not.
func C04_overflow() {
	texts := []string{"1e308", "1.7976931348623157e308", "1e309", "-1e309", "1.7976931348623159e308", "2e308", "1e999", "-1E+400", "1e-400", "4.9e-324", "123456789e305", "0.0000001e315", "0e999"}
	fits := []bool{true, true, false, false, false, false, false, false, true, true, false, true, true}
	k := sym.Choose("text", len(texts))
	b := []byte(texts[k])
	text := texts[k]
	doc, at := wrapNumber(b)
	v, err := jsonvalue.Unmarshal(doc)
	sym.Reach("range")
	sym.Assert((err == nil) == fits[k], "float range")
	if err == nil {
		x := at(v)
		f, _ := strconv.ParseFloat(text, 64)
		sym.Assert(x.Float64() == f && x.String() == text && x.IsFloat(), "value of an extreme float")
		sym.Log("f", x.Float64())
	}
}

// C04_long: long digit strings, fractions and exponents are read to the end.
func C04_long() {
	n := []int{17, 21, 30, 64, 300}[sym.Choose("n", 5)]
	d := sym.Digits("d", 1)[0]
	p := sym.Choose("pos", 3)
	var b []byte
	frac := sym.Choose("frac", 2) == 1
	if frac {
		b = append(b, "0."...)
	}
	for i := 0; i < n; i++ {
		c := byte('1' + i%9)
		if (p == 0 && i == 0) || (p == 1 && i == n/2) || (p == 2 && i == n-1) {
			c = d
		}
		b = append(b, c)
	}
	checkNumber(b, false)
}

// C04_rounding: texts whose value is hard to round: 15 to 25 significant digits, halves of the last place, decimal
// exponents from the smallest to the largest.
func C04_rounding() {
	b := hardFloat()
	text := string(b)
	doc, at := wrapNumber(b)
	v, err := jsonvalue.Unmarshal(doc)
	sym.Assert(err == nil, "a well-formed number in range is refused")
	x := at(v)
	f, _ := strconv.ParseFloat(text, 64)
	sym.Reach("rounded")
	sym.Assert(x.Float64() == f && x.String() == text && x.IsFloat(), "Float64 is not the rounded value of the text")
	sym.Assert(x.Float32() == float32(f), "Float32 is not the float64 value converted")
	sym.Assert(x.IsNegative() == (f < 0), "sign of a float")
	y := jsonvalue.MustUnmarshalString("[" + text + "]")
	sym.Assert(y.MustGet(0).Float64() == f, "the value depends on the place")
	sym.Log("f", x.Float64())
}

func hardFloat() []byte {
	var b []byte
	if sym.Choose("negative", 2) == 1 {
		b = append(b, '-')
	}
	m := []string{"1", "3", "123456789012345", "9007199254740991", "9007199254740993", "9007199254740995", "4503599627370497", "36028797018963971",
		"123456789012345678", "999999999999999999", "1844674407370955161", "9223372036854775807", "18446744073709551615", "18446744073709551617", "2225073858507201",
		"17976931348623157", "1000000000000000111022302462515", "1234567890123456789012345"}[sym.Choose("mantissa", 18)]
	if d := []int{0, 1, 5, 12, 16}[sym.Choose("dot", 5)]; d > 0 && d < len(m) {
		m = m[:d] + "." + m[d:]
	}
	e := []string{"", "e0", "e1", "E+15", "e22", "e23", "e-1", "e-5", "E-22", "e-23", "e37", "e-45", "e100", "E-290", "e-308", "e-330", "e273", "e00022"}[sym.Choose("exponent", 18)]
	if e == "" && len(m) < 20 && m[len(m)-1] != '.' {
		e = ".0"
		for i := 0; i < len(m); i++ {
			if m[i] == '.' {
				e = "0"
			}
		}
	}
	if e == "" {
		e = "e0"
	}
	b = append(b, m...)
	return append(b, e...)
}

// C04_plain: 15 to 20 arbitrary digits with a decimal point anywhere.
func C04_plain() {
	n := 15 + sym.Choose("digits", 6)
	dot := 1 + sym.Choose("dot", n-1)
	var b []byte
	if sym.Choose("negative", 2) == 1 {
		b = append(b, '-')
	}
	d := sym.Digits("d", n)
	sym.Assume(d[0] != '0')
	b = append(b, d[:dot]...)
	b = append(b, '.')
	checkNumber(append(b, d[dot:]...), false)
}
