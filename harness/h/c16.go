package h

import (
	"errors"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// numeric is what the numeric getters have to return.
type numeric struct {
	i   int64
	u   uint64
	f   float64
	any bool // some of the conversions are not defined: only the kind of error counts
}

// read is the number a text stands for; ok is false if it is not a number (in range).
func read(t []byte) (n numeric, ok bool) {
	if len(t) == 0 || refNumber(t) != len(t) {
		return n, false
	}
	abs, neg := t, t[0] == '-'
	if neg {
		abs = t[1:]
	}
	if !allDigits(abs) {
		n.f, _ = strconv.ParseFloat(string(t), 64)
		n.any = true
		return n, true
	}
	if len(abs) > 15 {
		if neg && !leDigits(abs, "9223372036854775808") || !neg && !leDigits(abs, "18446744073709551615") {
			return n, false
		}
	}
	for _, c := range abs {
		n.u = n.u*10 + uint64(c-'0')
	}
	n.f = float64(n.u)
	n.i = int64(n.u)
	if neg {
		n.i = -n.i
		n.u = uint64(n.i)
		n.f = -n.f
	}
	return n, true
}

// numbers calls every numeric getter: the value, and whether the error is right.
func numbers(g jsonvalue.Caseless, want numeric, good func(error) bool, p any, ps ...any) {
	i, err := g.GetInt(p, ps...)
	sym.Assert(good(err), "GetInt reports the wrong error")
	sym.Assert(want.any || int64(i) == want.i, "GetInt returns the wrong value")
	i64, err := g.GetInt64(p, ps...)
	sym.Assert(good(err), "GetInt64 reports the wrong error")
	sym.Assert(want.any || i64 == want.i, "GetInt64 returns the wrong value")
	i32, err := g.GetInt32(p, ps...)
	sym.Assert(good(err), "GetInt32 reports the wrong error")
	sym.Assert(want.any || i32 == int32(want.i), "GetInt32 returns the wrong value")
	u, err := g.GetUint(p, ps...)
	sym.Assert(good(err), "GetUint reports the wrong error")
	sym.Assert(want.any || uint64(u) == want.u, "GetUint returns the wrong value")
	u64, err := g.GetUint64(p, ps...)
	sym.Assert(good(err), "GetUint64 reports the wrong error")
	sym.Assert(want.any || u64 == want.u, "GetUint64 returns the wrong value")
	u32, err := g.GetUint32(p, ps...)
	sym.Assert(good(err), "GetUint32 reports the wrong error")
	sym.Assert(want.any || u32 == uint32(want.u), "GetUint32 returns the wrong value")
	f, err := g.GetFloat64(p, ps...)
	sym.Assert(good(err), "GetFloat64 reports the wrong error")
	sym.Assert(f == want.f, "GetFloat64 returns the wrong value")
	f32, err := g.GetFloat32(p, ps...)
	sym.Assert(good(err), "GetFloat32 reports the wrong error")
	sym.Assert(f32 == float32(want.f), "GetFloat32 returns the wrong value")
}

// methods calls the accessors of the value itself.
func methods(v *jsonvalue.V, want numeric) {
	if !want.any {
		sym.Assert(int64(v.Int()) == want.i && v.Int64() == want.i && v.Int32() == int32(want.i), "Int, Int64 or Int32 returns the wrong value")
		sym.Assert(uint64(v.Uint()) == want.u && v.Uint64() == want.u && v.Uint32() == uint32(want.u), "Uint, Uint64 or Uint32 returns the wrong value")
	} else {
		v.Int()
		v.Int64()
		v.Int32()
		v.Uint()
		v.Uint64()
		v.Uint32()
	}
	sym.Assert(v.Float64() == want.f && v.Float32() == float32(want.f), "Float64 or Float32 returns the wrong value")
}

func isNil(err error) bool      { return err == nil }
func mismatch(err error) bool   { return errors.Is(err, jsonvalue.ErrTypeNotMatch) }
func unparsed(err error) bool   { return errors.Is(err, jsonvalue.ErrParseNumberFromString) }
func unfound(err error) bool    { return errors.Is(err, jsonvalue.ErrNotFound) }
func outOfRange(err error) bool { return errors.Is(err, jsonvalue.ErrOutOfRange) }
func failing(err error) bool    { return err != nil }

// others calls the getters that are not numeric.  t is the type of the element, 0 if the lookup has to fail.
func others(g jsonvalue.Caseless, v *jsonvalue.V, t byte, wantBool bool, wantStr string, lookup func(error) bool, p any, ps ...any) {
	right := func(k byte) func(error) bool {
		if lookup != nil {
			return lookup
		}
		if t == k {
			return isNil
		}
		return mismatch
	}
	b, err := g.GetBool(p, ps...)
	sym.Assert(right('t')(err), "GetBool reports the wrong error")
	sym.Assert(b == wantBool, "GetBool returns the wrong value")
	s, err := g.GetString(p, ps...)
	sym.Assert(right('s')(err), "GetString reports the wrong error")
	sym.Assert(t == 's' && s == wantStr || t != 's' && s == "", "GetString returns the wrong value")
	sym.Assert(right('z')(g.GetNull(p, ps...)), "GetNull reports the wrong error")
	o, err := g.GetObject(p, ps...)
	sym.Assert(right('o')(err), "GetObject reports the wrong error")
	sym.Assert(t == 'o' && o == v || t != 'o' && nothing(o), "GetObject returns the wrong value")
	a, err := g.GetArray(p, ps...)
	sym.Assert(right('a')(err), "GetArray reports the wrong error")
	sym.Assert(t == 'a' && a == v || t != 'a' && nothing(a), "GetArray returns the wrong value")
	if t != 's' {
		d, err := g.GetBytes(p, ps...)
		sym.Assert(right('s')(err), "GetBytes reports the wrong error")
		sym.Assert(d != nil && len(d) == 0, "GetBytes returns something")
	}
}

// held puts the value into an object or array and says how to get at it.
func held(v *jsonvalue.V) (g jsonvalue.Caseless, p any, ps []any) {
	o := jsonvalue.NewObject()
	switch sym.Choose("where", 4) {
	case 0:
		o.MustSet(v).At("k")
		return o, "k", nil
	case 1:
		o.MustSet(v).At("k")
		return o.Caseless(), "K", nil
	case 2:
		a := jsonvalue.NewArray()
		a.MustAppend(v).InTheEnd()
		o.MustSet(a).At("a")
		return o, "a", []any{-1}
	}
	a := jsonvalue.NewArray()
	a.MustAppend(v).InTheEnd()
	o.MustSet(a).At("a")
	return o.Caseless(), []any{"A", 0}, nil
}

// C16_types: every getter on every type of element.
func C16_types() {
	var v *jsonvalue.V
	t := "tfzoa"[sym.Choose("type", 5)]
	wantBool := false
	switch t {
	case 't', 'f':
		wantBool = sym.Bool("value")
		v = jsonvalue.NewBool(wantBool)
		t = 't'
	case 'z':
		v = jsonvalue.NewNull()
	case 'o':
		v = jsonvalue.NewObject()
		v.MustSetInt(1).At("1")
	case 'a':
		v = jsonvalue.NewArray()
		v.MustAppendInt(1).InTheEnd()
	}
	g, p, ps := held(v)
	numbers(g, numeric{}, mismatch, p, ps...)
	others(g, v, t, wantBool, "", nil, p, ps...)
	methods(v, numeric{})
	sym.Assert(v.Bool() == wantBool, "Bool returns the wrong value")
	sym.Assert(len(v.Bytes()) == 0, "Bytes returns something")
}

// C16_failing: every getter reports the error of the lookup.
func C16_failing() {
	v := jsonvalue.NewObject()
	a := jsonvalue.NewArray()
	v.MustSet(a).At("a")
	v.MustSetInt(1).At("n")
	var p any
	var ps []any
	var lookup func(error) bool
	switch sym.Choose("path", 4) {
	case 0:
		k := sym.Byte("key")
		sym.Assume(k >= 'b' && k < 'n')
		p, lookup = string([]byte{k}), unfound
	case 1:
		p, ps, lookup = "a", []any{int(sym.I64("i"))}, outOfRange
	case 2:
		p, ps, lookup = "n", []any{"x"}, failing
	case 3:
		p, lookup = []string{"n", "x"}, failing
	}
	g := jsonvalue.Caseless(v)
	if sym.Choose("caseless", 2) == 1 {
		g = v.Caseless()
	}
	numbers(g, numeric{}, lookup, p, ps...)
	others(g, nil, 0, false, "", lookup, p, ps...)
}

// C16_numbers: number elements.
func C16_numbers() {
	t := number("n", sym.Param("digits", 3, 5), 1, []string{"", "e1"})
	want, ok := read(t)
	sym.Assume(ok)
	v := mustParse(t)
	g, p, ps := held(v)
	numbers(g, want, isNil, p, ps...)
	others(g, v, 'n', want.f != 0, "", nil, p, ps...)
	methods(v, want)
	sym.Assert(v.Bool() == (want.f != 0), "Bool returns the wrong value")
	sym.Assert(v.String() == string(t), "String returns the wrong value")
}

func checkString(s []byte) {
	v := jsonvalue.NewString(string(s))
	t := s
	for len(t) > 0 && space(t[0]) {
		t = t[1:]
	}
	for len(t) > 0 && space(t[len(t)-1]) {
		t = t[:len(t)-1]
	}
	want, ok := read(t)
	g, p, ps := held(v)
	if ok {
		sym.Reach("numeric")
		numbers(g, want, mismatch, p, ps...)
	} else {
		sym.Reach("not numeric")
		numbers(g, want, unparsed, p, ps...)
	}
	others(g, v, 's', string(s) == "true", string(s), nil, p, ps...)
	methods(v, want)
	sym.Assert(v.Bool() == (string(s) == "true"), "Bool returns the wrong value")
	sym.Assert(v.String() == string(s), "String returns the wrong value")
}

func space(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }

// C16_strings: strings over the alphabet of numbers, with spaces.
func C16_strings() {
	n := sym.Choose("len", sym.Param("maxlen", 4, 5)+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.OneOf("c", "0129-+.eE \nx")
	}
	sym.Assume(!bigExp(string(b)))
	checkString(b)
}

// C16_integers: strings of digits, up to the limits.
func C16_integers() {
	var b []byte
	if sym.Choose("negative", 2) == 1 {
		b = append(b, '-')
	}
	switch sym.Choose("length", 3) {
	case 0:
		b = append(b, sym.Digits("d", 3)...)
	case 1:
		b = append(b, "922337203685477580"...)
		b = append(b, sym.Digits("d", 1)...)
	case 2:
		b = append(b, "1844674407370955161"...)
		b = append(b, sym.Digits("d", 1)...)
	}
	checkString(b)
}

// C16_arbitrary: arbitrary ASCII strings.
func C16_arbitrary() {
	n := sym.Choose("len", sym.Param("maxlen", 3, 4)+1)
	b := sym.Bytes("c", n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	checkString(b)
}

// C16_words: strings close to "true", and numbers in words.
func C16_words() {
	b := []byte([]string{"true", "True", "true ", "", "NaN", "Inf", "0x10", "1_0", "null", "１"}[sym.Choose("word", 10)])
	if len(b) > 1 && b[0] < 0x80 {
		b[sym.Choose("pos", 2)] = sym.OneOf("c", "tTrRfN0 ")
	}
	checkString(b)
}

// base64Value is the value of a letter of the alphabet, or -1.
func base64Value(c byte) int {
	switch {
	case c >= 'A' && c <= 'Z':
		return int(c - 'A')
	case c >= 'a' && c <= 'z':
		return int(c-'a') + 26
	case c >= '0' && c <= '9':
		return int(c-'0') + 52
	case c == '+':
		return 62
	case c == '/':
		return 63
	}
	return -1
}

// refBase64 decodes standard base64 with padding.
func refBase64(s []byte) ([]byte, bool) {
	if len(s)%4 != 0 {
		return nil, false
	}
	var r []byte
	for i := 0; i < len(s); i += 4 {
		pad := 0
		if i+4 == len(s) {
			if s[i+3] == '=' {
				pad = 1
				if s[i+2] == '=' {
					pad = 2
				}
			}
		}
		x := 0
		for j := 0; j < 4; j++ {
			d := 0
			if j < 4-pad {
				if d = base64Value(s[i+j]); d < 0 {
					return nil, false
				}
			}
			x = x<<6 | d
		}
		r = append(r, byte(x>>16))
		if pad < 2 {
			r = append(r, byte(x>>8))
		}
		if pad < 1 {
			r = append(r, byte(x))
		}
	}
	return r, true
}

// C16_bytes: GetBytes and Bytes decode base64.
func C16_bytes() {
	n := sym.Choose("len", sym.Param("maxlen", 5, 8)+1)
	b := sym.Bytes("c", n)
	for _, c := range b {
		sym.Assume(c >= 0x20 && c < 0x7F)
	}
	want, ok := refBase64(b)
	v := jsonvalue.NewString(string(b))
	g, p, ps := held(v)
	got, err := g.GetBytes(p, ps...)
	val := v.Bytes()
	if !ok {
		sym.Reach("refused")
		sym.Assert(err != nil && len(got) == 0, "GetBytes of a string that is not base64 succeeds")
		sym.Assert(len(val) == 0, "Bytes of a string that is not base64 returns something")
		return
	}
	sym.Reach("decoded")
	sym.Assert(err == nil && string(got) == string(want), "GetBytes decodes wrongly")
	sym.Assert(string(val) == string(want), "Bytes decodes wrongly")
}
