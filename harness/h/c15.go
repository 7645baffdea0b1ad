package h

import (
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// decimalText is a number text split into sign, digits and the power of ten of the last digit.
type decimalText struct {
	neg bool
	d   []byte
	exp int
}

func splitNumber(t []byte) decimalText {
	var x decimalText
	i := 0
	if t[i] == '-' {
		x.neg = true
		i++
	}
	for ; i < len(t) && t[i] != '.' && t[i] != 'e' && t[i] != 'E'; i++ {
		x.d = append(x.d, t[i])
	}
	if i < len(t) && t[i] == '.' {
		for i++; i < len(t) && t[i] != 'e' && t[i] != 'E'; i++ {
			x.d = append(x.d, t[i])
			x.exp--
		}
	}
	if i < len(t) {
		i++
		neg := false
		if t[i] == '+' || t[i] == '-' {
			neg = t[i] == '-'
			i++
		}
		e := 0
		for ; i < len(t); i++ {
			e = e*10 + int(t[i]-'0')
		}
		if neg {
			e = -e
		}
		x.exp += e
	}
	return x
}

// digit is the digit at the power of ten.
func (x *decimalText) digit(p int) byte {
	i := len(x.d) - 1 - (p - x.exp)
	if i < 0 || i >= len(x.d) {
		return '0'
	}
	return x.d[i]
}

// order compares two number texts exactly, digit by digit: -1, 0 or 1.
func order(a, b []byte) int {
	x, y := splitNumber(a), splitNumber(b)
	lo, hi := x.exp, len(x.d)+x.exp
	if y.exp < lo {
		lo = y.exp
	}
	if len(y.d)+y.exp > hi {
		hi = len(y.d) + y.exp
	}
	mag, xs, ys := 0, 0, 0
	for p := hi; p >= lo; p-- {
		c, d := x.digit(p), y.digit(p)
		if mag == 0 {
			if c > d {
				mag = 1
			}
			if c < d {
				mag = -1
			}
		}
		if c != '0' {
			xs = 1
		}
		if d != '0' {
			ys = 1
		}
	}
	if x.neg {
		xs = -xs
	}
	if y.neg {
		ys = -ys
	}
	r := mag
	if x.neg {
		r = -mag
	}
	if xs > ys {
		r = 1
	}
	if xs < ys {
		r = -1
	}
	return r
}

func checkOrderOf(x, y *jsonvalue.V, c int) {
	sym.Assert(x.Equal(y) == (c == 0), "Equal is not exact")
	sym.Assert(y.Equal(x) == (c == 0), "Equal is not symmetric")
	sym.Assert(x.GreaterThan(y) == (c > 0), "GreaterThan is not exact")
	sym.Assert(x.LessThan(y) == (c < 0), "LessThan is not exact")
	sym.Assert(x.GreaterThanOrEqual(y) == (c >= 0), "GreaterThanOrEqual is not exact")
	sym.Assert(x.LessThanOrEqual(y) == (c <= 0), "LessThanOrEqual is not exact")
	sym.Assert(x.Equal(x) && y.Equal(y), "Equal is not reflexive")
}

func mustParse(b []byte) *jsonvalue.V {
	v, err := jsonvalue.Unmarshal(append([]byte(nil), b...))
	sym.Assume(err == nil)
	return v
}

// number is a number text: sign, digits, fraction, exponent.
func number(name string, maxInt, maxFrac int, exps []string) []byte {
	var b []byte
	if sym.Choose(name+" negative", 2) == 1 {
		b = append(b, '-')
	}
	n := 1 + sym.Choose(name+" int", maxInt)
	d := sym.Digits(name, n)
	if n > 1 {
		sym.Assume(d[0] != '0')
	}
	b = append(b, d...)
	if f := sym.Choose(name+" frac", maxFrac+1); f > 0 {
		b = append(b, '.')
		b = append(b, sym.Digits(name, f)...)
	}
	return append(b, exps[sym.Choose(name+" exp", len(exps))]...)
}

// C15_numbers: two numbers in arbitrary spellings.
func C15_numbers() {
	exps := []string{"", "e1", "E-02", "e+0"}
	a := number("a", sym.Param("digits", 2, 3), sym.Param("frac", 1, 2), exps)
	b := number("b", sym.Param("digits", 2, 3), sym.Param("frac", 1, 2), exps[:sym.Param("exps", 2, 4)])
	checkOrderOf(mustParse(a), mustParse(b), order(a, b))
}

// C15_long: numbers of up to 19 and more digits that agree except at one or two places.
func C15_long() {
	base := []string{"9223372036854775807", "18446744073709551615", "-9223372036854775808", "0.12345678901234567890123", "123456789012345678.5", "-9876543210987654321098e-3", "1e22"}
	a := []byte(base[sym.Choose("a", len(base))])
	b := append([]byte(nil), a...)
	var at []int
	for i, c := range a {
		if c == 'e' {
			break
		}
		if c >= '1' && c <= '9' {
			at = append(at, i)
		}
	}
	at = []int{at[0], at[len(at)/2], at[len(at)-1]}
	p := at[sym.Choose("p", 3)]
	q := at[sym.Choose("q", 3)]
	a[p] = '1' + sym.Digits("d", 1)[0]%9
	b[q] = '1' + sym.Digits("d", 1)[0]%9
	switch sym.Choose("spelling", 3) {
	case 1:
		if !splitFloat(b) {
			b = append(b, ".000"...)
		}
	case 2:
		b = append(b, "e0"...)
		if splitFloat(a) && a[len(a)-2] == 'e' || a[len(a)-3] == 'e' {
			sym.Assume(false)
		}
	}
	va, ea := jsonvalue.Unmarshal(append([]byte(nil), a...))
	vb, eb := jsonvalue.Unmarshal(append([]byte(nil), b...))
	sym.Assume(ea == nil && eb == nil)
	checkOrderOf(va, vb, order(a, b))
}

func splitFloat(b []byte) bool {
	for _, c := range b {
		if c == '.' || c == 'e' || c == 'E' {
			return true
		}
	}
	return false
}

// C15_constructed: numbers from constructors compare with parsed ones and with each other.
func C15_constructed() {
	n := 1 + sym.Choose("digits", sym.Param("digits", 2, 3))
	d := sym.Digits("d", n)
	if n > 1 {
		sym.Assume(d[0] != '0')
	}
	var i int64
	for _, c := range d {
		i = i*10 + int64(c-'0')
	}
	a := append([]byte(nil), d...)
	if sym.Choose("negative", 2) == 1 {
		i = -i
		a = append([]byte{'-'}, a...)
	}
	var v *jsonvalue.V
	switch sym.Choose("constructor", 3) {
	case 0:
		v = jsonvalue.NewInt64(i)
	case 1:
		sym.Assume(i >= 0)
		v = jsonvalue.NewUint64(uint64(i))
	case 2:
		v = jsonvalue.NewInt32(int32(i))
	}
	b := number("b", 2, 1, []string{"", "e1"}[:sym.Param("exps", 1, 2)])
	checkOrderOf(v, mustParse(b), order(a, b))
}

// C15_special: infinities, NaN and finite floats.
func C15_special() {
	fs := []float64{math.Inf(-1), -math.MaxFloat64, -1.5, 0, 5e-324, 1.5, 1e300, math.Inf(1), math.NaN()}
	make1 := func(name string) (*jsonvalue.V, float64) {
		f := fs[sym.Choose(name, len(fs))]
		return jsonvalue.NewFloat64(f), f
	}
	x, f := make1("a")
	y, g := make1("b")
	if sym.Choose("parsed", 2) == 1 {
		sym.Assume(g == 1.5)
		y = mustParse([]byte("15e-1"))
	}
	if f != f || g != g {
		sym.Reach("nan")
		sym.Assert(!x.GreaterThan(y) && !x.LessThan(y) && !x.GreaterThanOrEqual(y) && !x.LessThanOrEqual(y), "NaN is ordered")
		sym.Assert(x.Equal(y) == (f != f && g != g), "Equal of NaN")
		sym.Assert(x.Equal(x), "Equal is not reflexive")
		return
	}
	c := 0
	if f < g {
		c = -1
	} else if f > g {
		c = 1
	}
	sym.Reach("ordered")
	checkOrderOf(x, y, c)
}

// C15_strings: strings are equal iff they have the same bytes, whatever their spelling.
func C15_strings() {
	n := sym.Param("len", 4, 6)
	a := sym.Str("a", sym.Choose("na", n+1))
	b := sym.Str("b", sym.Choose("nb", n+1))
	x, y := jsonvalue.NewString(a), jsonvalue.NewString(b)
	sym.Assert(x.Equal(y) == (a == b) && y.Equal(x) == (a == b), "equality of strings")
	sym.Assert(x.Equal(x), "Equal is not reflexive")
	sym.Assert(!x.GreaterThan(y) && !x.LessThan(y) && !x.GreaterThanOrEqual(y) && !x.LessThanOrEqual(y), "strings are ordered")
}

// C15_spelled: a string, boolean or null against the same or another in another spelling.
func C15_spelled() {
	c := sym.Byte("c")
	sym.Assume(c >= 0x20 && c < 0x7F && c != '"' && c != '\\')
	x := mustParse([]byte{'"', c, '"'})
	h := "0123456789abcdef"
	y := mustParse([]byte{'"', '\\', 'u', '0', '0', h[sym.Choose("hi", 6)+2], h[sym.Choose("lo", 16)], '"'})
	s := y.String()
	sym.Assert(x.Equal(y) == (len(s) == 1 && s[0] == c), "equality of spelt strings")
}

// canon gives the equal numbers one spelling.
func (n *N) canon() *N {
	m := &N{k: n.k, s: n.s, keys: n.keys}
	if m.k == 'n' {
		m.s = m.s[:1]
	}
	for _, c := range n.kids {
		m.kids = append(m.kids, c.canon())
	}
	return m
}

// plant is an arbitrary small value and its tree; members are set in either order.
func plant(left *int, depth int, name string) (*jsonvalue.V, *N) {
	*left--
	kinds := 4
	if depth > 0 {
		kinds = 6
	}
	switch k := sym.Choose(name, kinds); k {
	case 0:
		d := sym.OneOf(name+" digit", "123")
		s := string([]byte{d}) + []string{"", ".0", "e0"}[sym.Choose(name+" spelling", 2)]
		return mustParse([]byte(s)), &N{k: 'n', s: s}
	case 1:
		s := string([]byte{sym.OneOf(name+" digit", "123")})
		return jsonvalue.NewString(s), &N{k: 's', s: s}
	case 2:
		if sym.Bool(name + " bool") {
			return jsonvalue.NewBool(true), &N{k: 't'}
		}
		return jsonvalue.NewBool(false), &N{k: 'f'}
	case 3:
		return jsonvalue.NewNull(), &N{k: 'z'}
	case 4:
		v, n := jsonvalue.NewArray(), &N{k: 'a'}
		for i, c := 0, sym.Choose(name+" len", 3); i < c && *left > 0; i++ {
			x, m := plant(left, depth-1, name)
			v.MustAppend(x).InTheEnd()
			n.kids = append(n.kids, m)
		}
		return v, n
	}
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	for i, c := 0, sym.Choose(name+" members", 3); i < c && *left > 0; i++ {
		k := string([]byte{sym.OneOf(name+" key", "abc")})
		x, m := plant(left, depth-1, name)
		v.MustSet(x).At(k)
		n.put(k, m)
	}
	return v, n
}

// again builds a value of the same shape with its own leaves; members are set in the reverse order.
func again(n *N) (*jsonvalue.V, *N) {
	switch n.k {
	case 'a':
		v, m := jsonvalue.NewArray(), &N{k: 'a'}
		for _, c := range n.kids {
			x, y := again(c)
			v.MustAppend(x).InTheEnd()
			m.kids = append(m.kids, y)
		}
		return v, m
	case 'o':
		v, m := jsonvalue.NewObject(), &N{k: 'o'}
		for i := len(n.kids) - 1; i >= 0; i-- {
			x, y := again(n.kids[i])
			v.MustSet(x).At(n.keys[i])
			m.put(n.keys[i], y)
		}
		return v, m
	case 'n':
		s := string([]byte{sym.OneOf("again", "123")}) + "0e-1"
		return mustParse([]byte(s)), &N{k: 'n', s: s}
	case 's':
		s := string([]byte{sym.OneOf("again", "123")})
		return jsonvalue.NewString(s), &N{k: 's', s: s}
	case 'z':
		return jsonvalue.NewNull(), &N{k: 'z'}
	}
	return jsonvalue.NewBool(true), &N{k: 't'}
}

// C15_trees: two arbitrary small values; Equal iff same type and content.
func C15_trees() {
	sym.MapOrder(sym.Choose("map order", 2))
	l, m := sym.Param("nodes", 3, 4), sym.Param("nodes2", 2, 3)
	x, a := plant(&l, 2, "x")
	var y *jsonvalue.V
	var b *N
	if sym.Choose("related", 2) == 1 {
		y, b = again(a)
	} else {
		y, b = plant(&m, 2, "y")
	}
	eq := sameN(a.canon(), b.canon())
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
	sym.Assert(x.Equal(y) == eq, "Equal disagrees with the content")
	sym.Assert(y.Equal(x) == eq, "Equal is not symmetric")
	sym.Assert(x.Equal(x), "Equal is not reflexive")
	if a.k != 'n' || b.k != 'n' {
		sym.Assert(!x.GreaterThan(y) && !x.LessThan(y) && !x.GreaterThanOrEqual(y) && !x.LessThanOrEqual(y), "a value that is not a number is ordered")
	}
}

// C15_nil: nothing panics on nil and uninitialised values.
func C15_nil() {
	var null *jsonvalue.V
	vs := []*jsonvalue.V{null, {}, jsonvalue.NewInt(1), jsonvalue.NewNull(), jsonvalue.NewObject(), jsonvalue.NewArray(), jsonvalue.NewString("")}
	x := vs[sym.Choose("x", len(vs))]
	y := vs[sym.Choose("y", len(vs))]
	eq := x.Equal(y)
	if x != y {
		sym.Assert(!eq, "different things are equal")
	}
	sym.Assert(eq == y.Equal(x), "Equal is not symmetric")
}

// C15_tiny: numbers whose exponent needs more than 32 bits are not zero.
func C15_tiny() {
	d := sym.Digits("d", 1)[0]
	sym.Assume(d != '0')
	b := []byte{d}
	b = append(b, []string{"e-2147483649", "E-9999999999", "e-99999999999999999999"}[sym.Choose("exponent", 3)]...)
	x := mustParse(b)
	y := mustParse([]byte("0"))
	sym.Assert(!x.Equal(y) && !y.Equal(x) && x.GreaterThan(y), "a tiny number is taken for zero")
}

// C15_bits: pairs of integers of both signs that look alike as 64-bit, 32-bit or floating-point numbers.
func C15_bits() {
	list := []string{"-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-1", "0", "-0", "1",
		"18446744073709551606", "9007199254740993", "9007199254740992", "-9007199254740993", "4294967295", "-4294967296", "2147483648",
		"-2147483648", "18446744071562067968", "1e19", "10000000000000000000", "-8446744073709551616", "1.8446744073709551615e19", "-1.0"}
	pick := func(name string, constructed bool) (*jsonvalue.V, []byte) {
		b := []byte(list[sym.Choose(name, len(list))])
		if n := len(b) - 1; n > 5 && b[n-1] != '.' && b[n-2] != 'e' && sym.Choose(name+" last", 2) == 1 {
			b[n] = sym.OneOf(name+" digit", "0123456789")
		}
		if !constructed || splitFloat(b) {
			v, err := jsonvalue.Unmarshal(append([]byte(nil), b...))
			sym.Assume(err == nil)
			return v, b
		}
		u := uint64(0)
		d := b
		if b[0] == '-' {
			d = b[1:]
		}
		for _, c := range d {
			u = u*10 + uint64(c-'0')
		}
		if b[0] == '-' {
			sym.Assume(u <= 1<<63)
			return jsonvalue.NewInt64(-int64(u)), b
		}
		sym.Assume(order(b, []byte(list[3])) <= 0)
		return jsonvalue.NewUint64(u), b
	}
	x, a := pick("a", false)
	y, b := pick("b", sym.Choose("constructed", 2) == 1)
	if len(b) == 20 && a[0] != '-' && len(a) == 20 {
		sym.Reach("pair of large ones")
	}
	checkOrderOf(x, y, order(a, b))
}
