package h

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"unsafe"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// G is what an imported Go value has to become.
type G struct {
	k    byte // i integer, u unsigned, d float64, n number text, s string, b boolean, z null, a array, o object
	i    int64
	u    uint64
	d    float64
	s    string
	b    bool
	keys []string
	kids []*G
}

func gInt(i int64) *G     { return &G{k: 'i', i: i} }
func gUint(u uint64) *G   { return &G{k: 'u', u: u} }
func gFloat(d float64) *G { return &G{k: 'd', d: d} }
func gStr(s string) *G    { return &G{k: 's', s: s} }
func gBool(b bool) *G     { return &G{k: 'b', b: b} }
func gNull() *G           { return &G{k: 'z'} }
func gArr(kids ...*G) *G  { return &G{k: 'a', kids: kids} }
func gObj() *G            { return &G{k: 'o'} }

// with adds a member, unless c is nil; a member of the same key must not be there.
func (g *G) with(k string, c *G) *G {
	if c != nil {
		g.keys = append(g.keys, k)
		g.kids = append(g.kids, c)
	}
	return g
}

// unless is c, or nothing if it has to be omitted.
func unless(omit bool, c *G) *G {
	if omit {
		return nil
	}
	return c
}

// is compares without looking at the order of members.
func (g *G) is(v *jsonvalue.V) bool {
	switch g.k {
	case 'i':
		return v.IsNumber() && v.IsInteger() && v.Int64() == g.i && v.IsNegative() == (g.i < 0) && !v.GreaterThanInt64Max()
	case 'u':
		return v.IsNumber() && v.IsInteger() && v.Uint64() == g.u && !v.IsNegative() && v.GreaterThanInt64Max() == (g.u > math.MaxInt64)
	case 'n':
		return v.IsNumber() && v.Int64() == g.i && v.String() == g.s
	case 'd':
		return v.IsNumber() && v.Float64() == g.d
	case 's':
		return v.IsString() && v.String() == g.s
	case 'b':
		return v.IsBoolean() && v.Bool() == g.b
	case 'z':
		return v.IsNull()
	case 'a':
		if !v.IsArray() || v.Len() != len(g.kids) {
			return false
		}
		for i, c := range v.ForRangeArr() {
			if i >= len(g.kids) || !g.kids[i].is(c) {
				return false
			}
		}
		return true
	}
	if !v.IsObject() || v.Len() != len(g.keys) {
		return false
	}
	for i, k := range g.keys {
		c, err := v.Get(k)
		if err != nil || !g.kids[i].is(c) {
			return false
		}
	}
	return true
}

// ordered: members stand in the order of the struct fields.
func (g *G) ordered(v *jsonvalue.V) bool {
	if g.k != 'o' {
		return true
	}
	i, ok := 0, true
	v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool {
		ok = ok && i < len(g.keys) && k == g.keys[i] && g.kids[i].ordered(c)
		i++
		return true
	})
	return ok && i == len(g.keys)
}

// imported checks what the import of x gives; want is nil if x has no JSON form.
func imported(x any, want *G, fields bool, opts ...jsonvalue.Option) {
	entered(0, x, want, fields, opts...)
}

// anyhow is imported by any of the entry points.
func anyhow(x any, want *G, fields bool) {
	entered(sym.Choose("entry", 5), x, want, fields)
}

func entered(entry int, x any, want *G, fields bool, opts ...jsonvalue.Option) {
	var v *jsonvalue.V
	var err error
	switch entry {
	case 0:
		v, err = jsonvalue.Import(x, opts...)
		if err != nil {
			sym.Assert(nothing(v), "a failed import gives a value")
		}
	case 1:
		v = jsonvalue.New(x)
		if want == nil {
			sym.Assert(nothing(v), "New of an unsupported value gives a value")
			sym.Reach("refused by New")
			return
		}
	case 2:
		o := jsonvalue.NewObject()
		v, err = o.Set(x).At("k")
		if want == nil {
			sym.Assert(o.Len() == 0, "a failed Set changed the object")
		} else if err == nil {
			c, e := o.Get("k")
			sym.Assert(e == nil && c == v, "Set returns another value")
		}
	case 3:
		a := jsonvalue.NewArray()
		v, err = a.Append(x).InTheEnd()
		if want == nil {
			sym.Assert(a.Len() == 0, "a failed Append changed the array")
		} else if err == nil {
			c, e := a.Get(0)
			sym.Assert(e == nil && c == v, "Append returns another value")
		}
	case 4:
		a := jsonvalue.NewArray()
		a.MustAppendNull().InTheEnd()
		v, err = a.Insert(x).Before(0)
		if want == nil {
			sym.Assert(a.Len() == 1, "a failed Insert changed the array")
		} else if err == nil {
			c, e := a.Get(0)
			sym.Assert(e == nil && c == v && a.Len() == 2, "Insert returns another value")
		}
	}
	if want == nil {
		sym.Assert(err != nil, "an unsupported value is imported")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "import fails")
	sym.Assert(want.is(v), "the imported value is not what encoding/json would write")
	if fields {
		sym.Assert(want.ordered(v), "members are not in the order of the fields")
	}
	sym.Reach("imported " + string(rune(want.k)))
}

// ignoring is whether OptIgnoreOmitempty is given.
func ignoring() (bool, []jsonvalue.Option) {
	if sym.Choose("ignore", 2) == 1 {
		return true, []jsonvalue.Option{jsonvalue.OptIgnoreOmitempty()}
	}
	return false, nil
}

// tagged is a type under every tag.
type tagged[T any] struct {
	P T `json:"p"`
	O T `json:"o,omitempty"`
	X T `json:"-"`
	S T `json:"s,string"`
	B T `json:"b,string,omitempty"`
	Y T
	z T
	E T `json:",omitempty"`
	D T `json:"-,"`
}

// fields is what tagged becomes: g gives the form of a value, text the one with the string option.
func fields[T any](t tagged[T], ignore bool, zero func(T) bool, g, text func(T) *G) *G {
	o := gObj()
	o.with("p", g(t.P))
	o.with("o", unless(!ignore && zero(t.O), g(t.O)))
	o.with("s", text(t.S))
	o.with("b", unless(!ignore && zero(t.B), text(t.B)))
	o.with("Y", g(t.Y))
	o.with("E", unless(!ignore && zero(t.E), g(t.E)))
	o.with("-", g(t.D))
	return o
}

type signed interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type unsigned interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}
type small int16
type flags uint32

// some is an arbitrary integer of up to three digits with its text.
func some(neg bool) (int64, string) {
	n := 1 + sym.Choose("digits", sym.Param("textdigits", 2, 3))
	d, u := integer(n, neg, "9223372036854775808")
	if neg {
		return -int64(u), string(d)
	}
	return int64(u), string(d)
}

// digit is an arbitrary value below ten.
func digit(name string) int64 { return int64(sym.Digits(name, 1)[0] - '0') }

func signedFields[T signed](digits int, least string) {
	if sym.Choose("wide", 2) == 1 {
		neg := sym.Choose("negative", 2) == 1
		n := 1 + sym.Choose("digits", digits)
		_, u := integer(n, neg, least)
		i := int64(u)
		if neg {
			i = -i
		}
		sym.Assume(int64(T(i)) == i)
		imported(T(i), gInt(i), false)
		imported(struct {
			X T `json:"x,omitempty"`
		}{T(i)}, gObj().with("x", unless(i == 0, gInt(i))), false)
		return
	}
	ignore, opts := ignoring()
	i, text := some(sym.Choose("negative", 2) == 1)
	t := tagged[T]{S: T(i), B: T(i), X: 5, z: 6}
	if sym.Choose("both zero", 2) == 1 {
		t.B = 0
	}
	sym.Assume(t.B == 0 || i != 0)
	t.P, t.O, t.E = T(-digit("p")), T(digit("o")), T(digit("e"))
	t.Y, t.D = t.E, t.O
	o := fields(t, ignore, func(x T) bool { return x == 0 },
		func(x T) *G { return gInt(int64(x)) },
		func(x T) *G {
			if x == T(i) {
				return gStr(text)
			}
			return gStr("0")
		})
	imported(t, o, true, opts...)
}

func unsignedFields[T unsigned](digits int, most string) {
	if sym.Choose("wide", 2) == 1 {
		_, u := integer(1+sym.Choose("digits", digits), false, most)
		sym.Assume(uint64(T(u)) == u)
		imported(T(u), gUint(u), false)
		imported(struct {
			X T `json:"x,omitempty"`
		}{T(u)}, gObj().with("x", unless(u == 0, gUint(u))), false)
		return
	}
	ignore, opts := ignoring()
	i, text := some(false)
	t := tagged[T]{S: T(i), B: T(i), X: 5, z: 6}
	if sym.Choose("both zero", 2) == 1 {
		t.B = 0
	}
	sym.Assume(t.B == 0 || i != 0)
	t.P, t.O, t.E = T(digit("p")), T(digit("o")), T(digit("e"))
	t.Y, t.D = t.E, t.O
	o := fields(t, ignore, func(x T) bool { return x == 0 },
		func(x T) *G { return gUint(uint64(x)) },
		func(x T) *G {
			if x == T(i) {
				return gStr(text)
			}
			return gStr("0")
		})
	imported(t, o, true, opts...)
}

// C18_integers: fields of every integer kind under every tag, with arbitrary values.
func C18_integers() {
	switch sym.Choose("kind", 13) {
	case 0:
		signedFields[int](19, "9223372036854775808")
	case 1:
		signedFields[int8](3, "128")
	case 2:
		signedFields[int16](5, "32768")
	case 3:
		signedFields[int32](10, "2147483648")
	case 4:
		signedFields[int64](19, "9223372036854775808")
	case 5:
		signedFields[small](5, "32768")
	case 6:
		unsignedFields[uint](20, "18446744073709551615")
	case 7:
		unsignedFields[uint8](3, "255")
	case 8:
		unsignedFields[uint16](5, "65535")
	case 9:
		unsignedFields[uint32](10, "4294967295")
	case 10:
		unsignedFields[uint64](20, "18446744073709551615")
	case 11:
		unsignedFields[uintptr](20, "18446744073709551615")
	case 12:
		unsignedFields[flags](10, "4294967295")
	}
}

type ratio float32
type score float64
type answer bool
type label string

var floatTexts = []struct {
	f float64
	s string
}{{0, "0"}, {1.5, "1.5"}, {-2, "-2"}, {0.25, "0.25"}, {1e21, "1e+21"}, {-1048576, "-1048576"}}

func floatFields[T ~float32 | ~float64]() {
	ignore, opts := ignoring()
	f := floatTexts[sym.Choose("float", len(floatTexts))]
	g := floatTexts[sym.Choose("other", 2)]
	t := tagged[T]{S: T(f.f), B: T(g.f), X: 5, z: 6}
	w := map[T]string{T(f.f): f.s, T(g.f): g.s}
	p, o := T(math.Float64frombits(sym.U64("p"))), T(g.f)
	sym.Assume(p == p)
	t.P, t.O, t.E, t.Y, t.D = p, o, T(f.f), o, p
	imported(t, fields(t, ignore, func(x T) bool { return x == 0 },
		func(x T) *G { return gFloat(float64(x)) },
		func(x T) *G { return gStr(w[x]) }), true, opts...)
}

func boolFields[T ~bool]() {
	ignore, opts := ignoring()
	t := tagged[T]{P: T(sym.Bool("p")), O: T(sym.Bool("o")), S: T(sym.Bool("s")), B: T(sym.Bool("b")), E: T(sym.Bool("e")), X: true, z: true}
	t.Y, t.D = t.S, t.B
	imported(t, fields(t, ignore, func(x T) bool { return !bool(x) },
		func(x T) *G { return gBool(bool(x)) },
		func(x T) *G {
			if x {
				return gStr("true")
			}
			return gStr("false")
		}), true, opts...)
}

// quoteIt is the JSON form of a string of plain characters, quotes and backslashes.
func quoteIt(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b = append(b, '\\')
		}
		b = append(b, s[i])
	}
	return string(append(b, '"'))
}

func stringFields[T ~string]() {
	ignore, opts := ignoring()
	str := func(n string, l int) T { return T(sym.Bytes(n, sym.Choose(n+"len", l))) }
	t := tagged[T]{P: str("p", 3), O: str("o", 2), X: "x", z: "z"}
	if sym.Choose("s", 2) == 1 {
		t.S = T([]byte{sym.OneOf("c", "a\"\\0 "), 'x'})
	}
	t.B, t.E, t.Y, t.D = t.S, t.S, t.O, t.P
	imported(t, fields(t, ignore, func(x T) bool { return len(x) == 0 },
		func(x T) *G { return gStr(string(x)) },
		func(x T) *G { return gStr(quoteIt(string(x))) }), true, opts...)
}

// C18_scalars: fields of the other scalar kinds under every tag.
func C18_scalars() {
	switch sym.Choose("kind", 8) {
	case 0:
		floatFields[float32]()
	case 1:
		floatFields[float64]()
	case 2:
		floatFields[ratio]()
	case 3:
		floatFields[score]()
	case 4:
		boolFields[bool]()
	case 5:
		boolFields[answer]()
	case 6:
		stringFields[string]()
	case 7:
		stringFields[label]()
	}
}

// C18_number: json.Number.
func C18_number() {
	b := sym.Bytes("text", sym.Choose("len", sym.Param("maxlen", 4, 5)))
	n := json.Number(b)
	text, good := string(b), refNumber(b) == len(b)
	if len(b) == 0 {
		text, good = "0", true
	}
	var i int64
	if good {
		for _, c := range b {
			sym.Assume(c != 'e' && c != 'E' && c != '.')
		}
		d, neg := []byte(text), false
		if d[0] == '-' {
			d, neg = d[1:], true
		}
		for _, c := range d {
			i = i*10 + int64(c-'0')
		}
		if neg {
			i = -i
		}
	}
	if sym.Choose("string", 2) == 1 {
		x := struct {
			N json.Number `json:"n,string"`
			O json.Number `json:"o,omitempty"`
		}{N: n}
		if !good {
			imported(x, nil, false)
			return
		}
		imported(x, gObj().with("n", gStr(text)), true)
		return
	}
	if !good {
		imported(n, nil, false)
		return
	}
	imported(n, &G{k: 'n', i: i, s: text}, false)
}

type inner struct {
	A int `json:"a,omitempty"`
	B *inner
}

// C18_pointers: pointers of one and two levels, nil or not, and interfaces.
func C18_pointers() {
	ignore, opts := ignoring()
	i := digit("i")
	var p *int64
	var pp **int64
	g := gNull()
	if sym.Choose("nil", 2) == 1 {
		p, g = &i, gInt(i)
	}
	gg := gNull()
	if sym.Choose("nil2", 2) == 1 {
		pp, gg = &p, g
	}
	var s *inner
	sg := gNull()
	if sym.Choose("inner", 2) == 1 {
		s = &inner{A: int(digit("a"))}
		c := gObj().with("a", unless(!ignore && s.A == 0, gInt(int64(s.A))))
		sg = gObj().with("a", unless(!ignore, gInt(0))).with("B", c.with("B", gNull()))
		s = &inner{B: s}
	}
	var x any
	xg, omitX := gNull(), true
	switch sym.Choose("interface", 6) {
	case 1:
		x, xg, omitX = p, g, false
	case 2:
		x, xg, omitX = pp, gg, false
	case 3:
		x, xg, omitX = s, sg, false
	case 4:
		x, xg, omitX = 0, gInt(0), false
	case 5:
		x, xg, omitX = []any{p, nil, ""}, gArr(g, gNull(), gStr("")), false
	}
	t := struct {
		P  *int64  `json:"p"`
		PO *int64  `json:"po,omitempty"`
		Q  **int64 `json:"q"`
		QO **int64 `json:"qo,omitempty"`
		S  *inner
		SO *inner `json:",omitempty"`
		X  any    `json:"x"`
		XO any    `json:"xo,omitempty"`
		XS any    `json:"xs,string"`
	}{p, p, pp, pp, s, s, x, x, x}
	w := gObj().with("p", g).with("po", unless(!ignore && p == nil, g))
	w.with("q", gg).with("qo", unless(!ignore && pp == nil, gg))
	w.with("S", sg).with("SO", unless(!ignore && s == nil, sg))
	w.with("x", xg).with("xo", unless(!ignore && omitX, xg)).with("xs", xg)
	if sym.Choose("outer", 2) == 0 {
		imported(t, w, true, opts...)
		return
	}
	pt := &t
	imported(&pt, w, true, opts...)
}

// C18_pointer_text: pointers to scalars with the string option.
func C18_pointer_text() {
	ignore, opts := ignoring()
	type ps struct {
		I *int16   `json:"i,string"`
		U *uint8   `json:"u,string,omitempty"`
		B *bool    `json:"b,string"`
		S *string  `json:"s,string"`
		F *float64 `json:"f,string,omitempty"`
	}
	var t ps
	w := gObj()
	if sym.Choose("i", 2) == 1 {
		i, text := some(sym.Bool("neg"))
		n := int16(i)
		t.I = &n
		w.with("i", gStr(text))
	} else {
		w.with("i", gNull())
	}
	if sym.Choose("u", 2) == 1 {
		u := sym.OneOf("u", "\x00\x05")
		t.U = &u
		if u == 0 {
			w.with("u", gStr("0"))
		} else {
			w.with("u", gStr("5"))
		}
	} else {
		w.with("u", unless(!ignore, gNull()))
	}
	b := sym.Bool("b")
	t.B = &b
	if b {
		w.with("b", gStr("true"))
	} else {
		w.with("b", gStr("false"))
	}
	s := string(sym.OneOf("s", "ab"))
	t.S = &s
	w.with("s", gStr(`"`+s+`"`))
	if sym.Choose("f", 2) == 1 {
		f := floatTexts[sym.Choose("float", 2)]
		t.F = &f.f
		w.with("f", gStr(f.s))
	} else {
		w.with("f", unless(!ignore, gNull()))
	}
	imported(t, w, true, opts...)
}

type octets []byte
type octet byte
type row [2]int16

// C18_lists: slices, arrays and bytes of every length within the bounds, nil or not, under omitempty.
func C18_lists() {
	ignore, opts := ignoring()
	type lists struct {
		L  []int32   `json:"l"`
		LO []int32   `json:"lo,omitempty"`
		B  []byte    `json:"b"`
		BO []byte    `json:"bo,omitempty"`
		NO octets    `json:"no,omitempty"`
		T  []octet   `json:"t,omitempty"`
		A  [2]bool   `json:"a,omitempty"`
		Z  [0]string `json:"z"`
		ZO [0]string `json:"zo,omitempty"`
		R  []row     `json:"r,omitempty,string"`
		X  []any     `json:"x,omitempty"`
		BA [2]byte
		BS [][2]octet
		BP *[3]byte `json:"bp,omitempty"`
	}
	var t lists
	n := sym.Choose("len", 4)
	l := gArr()
	for i := 0; i < n; i++ {
		t.L = append(t.L, int32(digit("l")))
		l.kids = append(l.kids, gInt(int64(t.L[i])))
	}
	if n == 0 && sym.Choose("made", 2) == 1 {
		t.L = make([]int32, 0, 2)
		t.B = make([]byte, 0, 2)
		t.X = []any{}
		t.R = []row{}
	}
	t.LO = t.L
	w := gObj().with("l", l).with("lo", unless(!ignore && n == 0, l))
	for i := 0; i < n; i++ {
		t.B = append(t.B, sym.Byte("b"))
	}
	b64 := gStr(refEncode(t.B))
	t.BO, t.NO = t.B, t.B
	for _, c := range t.B {
		t.T = append(t.T, octet(c))
	}
	w.with("b", b64).with("bo", unless(!ignore && n == 0, b64)).with("no", unless(!ignore && n == 0, b64))
	w.with("t", unless(!ignore && n == 0, b64))
	t.A[1] = sym.Bool("bool")
	w.with("a", gArr(gBool(false), gBool(t.A[1])))
	w.with("z", gArr()).with("zo", unless(!ignore, gArr()))
	r, x := gArr(), gArr()
	for i := 0; i < n; i++ {
		t.R = append(t.R, row{int16(i), int16(digit("r"))})
		r.kids = append(r.kids, gArr(gInt(int64(i)), gInt(int64(t.R[i][1]))))
		switch i {
		case 0:
			t.X = append(t.X, t.LO)
			x.kids = append(x.kids, l)
		case 1:
			t.X = append(t.X, t.A)
			x.kids = append(x.kids, gArr(gBool(false), gBool(t.A[1])))
		case 2:
			t.X = append(t.X, inner{})
			x.kids = append(x.kids, gObj().with("a", unless(!ignore, gInt(0))).with("B", gNull()))
		}
	}
	w.with("r", unless(!ignore && n == 0, r)).with("x", unless(!ignore && n == 0, x))
	// arrays of bytes are arrays
	t.BA[0] = byte(digit("array"))
	w.with("BA", gArr(gInt(int64(t.BA[0])), gInt(0)))
	if n == 0 {
		w.with("BS", gArr()).with("bp", unless(!ignore, gNull()))
	} else {
		t.BS = append(t.BS, [2]octet{1, octet(t.BA[0])})
		t.BP = &[3]byte{2, 0, t.BA[0]}
		w.with("BS", gArr(gArr(gInt(1), gInt(int64(t.BA[0]))))).with("bp", gArr(gInt(2), gInt(0), gInt(int64(t.BA[0]))))
	}
	if sym.Choose("pointer", 2) == 1 {
		imported(&t, w, true, opts...)
		return
	}
	imported(t, w, true, opts...)
}

// text is the decimal form of a small number.
func decimal(n int64) string {
	if n < 0 {
		return "-" + decimal(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return decimal(n/10) + string([]byte{byte('0' + n%10)})
}

// decimalOf is the decimal form of an integer of any type.
func decimalOf[K signed | unsigned](k K) string {
	neg, u := k < 0, uint64(k)
	if neg {
		u = -u
	}
	var b [20]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + u%10)
		if u /= 10; u == 0 {
			break
		}
	}
	if neg {
		return "-" + string(b[i:])
	}
	return string(b[i:])
}

// mapOf has no, one or two of the keys.
func mapOf[K signed | unsigned](keys ...K) {
	ignore, opts := ignoring()
	var m map[K]int16
	w := gObj()
	n := sym.Choose("count", 4)
	if n > 0 {
		m = map[K]int16{}
		first := sym.Choose("first", len(keys))
		for i := 0; i+1 < n && i < len(keys); i++ {
			k := keys[(first+i)%len(keys)]
			m[k] = int16(digit("v"))
			w.with(decimalOf(k), gInt(int64(m[k])))
		}
	} else {
		w = gNull()
	}
	t := struct {
		M map[K]int16 `json:"m"`
		O map[K]int16 `json:"o,omitempty,string"`
	}{m, m}
	imported(t, gObj().with("m", w).with("o", unless(!ignore && n <= 1, w)), false, opts...)
}

// C18_maps: maps of every key kind, nil, empty or with members, under omitempty.
func C18_maps() {
	sym.MapOrder(sym.Choose("maporder", 2))
	switch sym.Choose("key", 13) {
	case 0:
		mapOf[int](-3, 7, math.MinInt64, math.MaxInt64)
	case 1:
		mapOf[int8](-128, 127, -1)
	case 2:
		mapOf[int16](-300, 32767, -32768)
	case 3:
		mapOf[int32](12345, math.MinInt32, math.MaxInt32)
	case 4:
		mapOf[int64](-12345678901, math.MinInt64, math.MaxInt64)
	case 5:
		mapOf[small](0, -1)
	case 6:
		mapOf[uint](0, 10, math.MaxUint64, 1<<63)
	case 7:
		mapOf[uint8](255, 128, 0)
	case 8:
		mapOf[uint16](65535, 32768)
	case 9:
		mapOf[uint32](4294967295, 1<<31)
	case 10:
		mapOf[uint64](12345678901, math.MaxUint64, 1<<63)
	case 11:
		mapOf[uintptr](4, math.MaxUint64)
	case 12:
		ignore, opts := ignoring()
		k, l := sym.Str("k", 2), label(sym.Str("l", 1))
		var p *inner
		t := struct {
			M map[string]any
			N map[label]*inner `json:"n,omitempty"`
			E map[string]any   `json:"e,omitempty"`
		}{
			map[string]any{k: map[int]bool{5: true}, "": nil},
			map[label]*inner{l: {A: 1}, "": p},
			map[string]any{},
		}
		w := gObj().with("M", gObj().with(k, gObj().with("5", gBool(true))).with("", gNull()))
		w.with("n", gObj().with(string(l), gObj().with("a", gInt(1)).with("B", gNull())).with("", gNull()))
		w.with("e", unless(!ignore, gObj()))
		imported(t, w, false, opts...)
	}
}

type Base struct {
	A int    `json:"a,omitempty"`
	B string `json:"b"`
}
type hidden struct {
	C int `json:"c,omitempty"`
	d int
	E bool
}
type Number int
type number2 int
type List []int
type Table map[string]int
type Thing interface{}
type Middle struct {
	*Base
	hidden
	Z int `json:"z"`
}

// C18_embedded: embedded structs, pointers and other types, with and without tags, hidden fields.
func C18_embedded() {
	ignore, opts := ignoring()
	a := int(digit("a"))
	base := Base{A: a, B: "x"}
	has := sym.Choose("nil", 2) == 1
	var pb *Base
	if has {
		pb = &base
	}
	ga := unless(!ignore && a == 0, gInt(int64(a)))
	baseG := gObj().with("a", ga).with("b", gStr("x"))
	switch sym.Choose("form", 11) {
	case 0: // value and unexported value
		t := struct {
			Base
			X int
			hidden
		}{base, 1, hidden{C: a, d: 5, E: has}}
		w := gObj().with("a", ga).with("b", gStr("x")).with("X", gInt(1)).with("c", ga).with("E", gBool(has))
		imported(t, w, true, opts...)
	case 1: // pointer
		t := struct {
			X int
			*Base
		}{1, pb}
		w := gObj().with("X", gInt(1))
		if has {
			w.with("a", ga).with("b", gStr("x"))
		}
		imported(t, w, true, opts...)
	case 2: // tagged
		t := struct {
			Base   `json:"base"`
			hidden `json:"h,omitempty"`
		}{base, hidden{C: a}}
		w := gObj().with("base", baseG)
		w.with("h", gObj().with("c", ga).with("E", gBool(false)))
		imported(t, w, true, opts...)
	case 3: // tagged pointers
		t := struct {
			*Base   `json:"base"`
			*hidden `json:"h,omitempty"`
			N       int
		}{pb, nil, 3}
		w := gObj()
		if has {
			w.with("base", baseG)
		} else {
			w.with("base", gNull())
		}
		w.with("h", unless(!ignore, gNull())).with("N", gInt(3))
		imported(t, w, true, opts...)
	case 4: // other kinds
		var n *Number
		t := struct {
			Number
			number2
			List
			Table
			Thing
			P struct{ *Number }
			Q struct{ *number2 }
		}{Number: Number(a), List: List{a}, Table: Table{"a": a}, Thing: a}
		t.P.Number = n
		w := gObj().with("Number", gInt(int64(a))).with("List", gArr(gInt(int64(a)))).with("Table", gObj().with("a", gInt(int64(a))))
		w.with("Thing", gInt(int64(a))).with("P", gObj().with("Number", gNull())).with("Q", gObj())
		imported(t, w, true, opts...)
	case 5: // ignored, and with omitempty but without a name
		t := struct {
			Base   `json:"-"`
			Number `json:",omitempty"`
			List   `json:"l,omitempty"`
		}{Base: base, Number: Number(a)}
		w := gObj().with("Number", ga).with("l", unless(!ignore, gArr()))
		imported(t, w, true, opts...)
	case 6: // two levels
		t := struct {
			W int
			Middle
		}{1, Middle{pb, hidden{E: true}, a}}
		w := gObj().with("W", gInt(1))
		if has {
			w.with("a", ga).with("b", gStr("x"))
		}
		w.with("c", unless(!ignore, gInt(0))).with("E", gBool(true)).with("z", gInt(int64(a)))
		imported(t, w, true, opts...)
	case 7: // the outer field hides, wherever it stands and even if it is omitted
		if sym.Choose("first", 2) == 1 {
			t := struct {
				A string `json:"a,omitempty"`
				*Base
			}{"", pb}
			w := gObj().with("a", unless(!ignore, gStr("")))
			if has {
				w.with("b", gStr("x"))
			}
			imported(t, w, true, opts...)
			return
		}
		t := struct {
			Middle
			B int  `json:"a"`
			C bool `json:"c,omitempty"`
		}{Middle{pb, hidden{C: 1}, 2}, 5, has}
		w := gObj()
		if has {
			w.with("b", gStr("x"))
		}
		w.with("E", gBool(false)).with("z", gInt(2)).with("a", gInt(5)).with("c", unless(!ignore && !has, gBool(has)))
		imported(t, w, true, opts...)
	case 8: // an unexported outer field or one without a JSON form does not hide
		t := struct {
			Base
			a int
			B string `json:"-"`
		}{base, 7, "no"}
		imported(t, baseG, true, opts...)
	case 9: // an embedded struct with a name of its own hides, an unexported one too, but not an unexported number
		switch sym.Choose("own", 4) {
		case 0:
			t := struct {
				hidden `json:"a"`
				*Base
			}{hidden{C: a}, pb}
			w := gObj().with("a", gObj().with("c", ga).with("E", gBool(false)))
			if has {
				w.with("b", gStr("x"))
			}
			imported(t, w, true, opts...)
		case 1:
			t := struct {
				*hidden `json:"a,omitempty"`
				Base
			}{nil, base}
			imported(t, gObj().with("a", unless(!ignore, gNull())).with("b", gStr("x")), true, opts...)
		case 2:
			t := struct {
				Middle `json:"a"`
				Base
			}{Middle{hidden: hidden{C: 1}, Z: a}, base}
			w := gObj().with("a", gObj().with("c", gInt(1)).with("E", gBool(false)).with("z", gInt(int64(a))))
			imported(t, w.with("b", gStr("x")), true, opts...)
		case 3:
			t := struct {
				number2 `json:"a"`
				Base
			}{7, base}
			imported(t, baseG, true, opts...)
		}
	case 10: // the field which is less deep hides the other, wherever the structs stand
		nested := Middle{pb, hidden{C: 1}, 2} // a and b are one deeper here, and b of Deeper two
		w := gObj().with("E", gBool(false)).with("z", gInt(2)).with("c", gInt(1))
		if has {
			w.with("b", gStr("x"))
		}
		switch sym.Choose("order", 4) {
		case 0:
			imported(struct {
				Shallow
				Middle
			}{Shallow{A: a}, nested}, w.with("a", ga), false, opts...)
		case 1:
			imported(struct {
				Middle
				*Shallow
			}{nested, &Shallow{A: a}}, w.with("a", ga), false, opts...)
		case 2: // of a nil pointer too
			imported(struct {
				*Shallow
				Middle
			}{nil, nested}, w, false, opts...)
		case 3:
			imported(struct {
				Deeper
				*Base
			}{Deeper{nested}, &Base{B: "y"}}, gObj().with("E", gBool(false)).with("z", gInt(2)).with("c", gInt(1)).with("a", unless(!ignore, gInt(0))).with("b", gStr("y")), false, opts...)
		}
	}
}

type Shallow struct {
	A int `json:"a,omitempty"`
}
type Deeper struct{ Middle }

type valueM struct{ n byte }

func (m valueM) MarshalJSON() ([]byte, error) { return marshaled(m.n) }

type pointerM struct{ n byte }

func (m *pointerM) MarshalJSON() ([]byte, error) { return marshaled(m.n) }

var errMarshal = errors.New("marshal")

// marshaled is what a marshaler returns for its content.
func marshaled(n byte) ([]byte, error) {
	switch {
	case n == 10:
		return []byte(`{"m":1`), nil
	case n == 11:
		return []byte(`[]`), errMarshal
	case n == 12:
		return []byte(` [ "m" ] `), nil
	}
	return []byte{'0' + n}, nil
}

// marshaledG is what has to become of it.
func marshaledG(n byte) *G {
	switch {
	case n == 10, n == 11:
		return nil
	case n == 12:
		return gArr(gStr("m"))
	}
	return gInt(int64(n))
}

type textM struct{ s string }

func (m textM) MarshalText() ([]byte, error) {
	if m.s == "!" {
		return nil, errMarshal
	}
	return []byte("<" + m.s), nil
}

type pointerT int

func (m *pointerT) MarshalText() ([]byte, error) { return []byte{'t', byte('0' + *m)}, nil }

// both has two marshalers, the one for JSON counts.
type both struct{ textM }

func (both) MarshalJSON() ([]byte, error) { return []byte(`"both"`), nil }

// C18_marshalers: json.Marshaler and encoding.TextMarshaler at every place.
func C18_marshalers() {
	n := sym.Byte("n")
	sym.Assume(n <= 12)
	n = byte(sym.Fix(int(n)))
	g := marshaledG(n)
	var x any
	switch sym.Choose("form", 12) {
	case 0:
		x = valueM{n}
	case 1:
		x = &valueM{n}
	case 2:
		x = &pointerM{n}
	case 3:
		x = []any{valueM{n}, (*valueM)(nil), (*pointerM)(nil)}
		if g != nil {
			g = gArr(g, gNull(), gNull())
		}
	case 4:
		x = map[string]*pointerM{"a": {n}, "b": nil}
		if g != nil {
			g = gObj().with("a", g).with("b", gNull())
		}
	case 5:
		x = struct {
			A valueM    `json:"a"`
			B *pointerM `json:"b,omitempty"`
			C *valueM   `json:"c,omitempty"`
			D json.Marshaler
			b valueM
		}{valueM{n}, &pointerM{9}, nil, nil, valueM{11}}
		if g != nil {
			g = gObj().with("a", g).with("b", gInt(9)).with("D", gNull())
		}
	case 6:
		x = struct {
			json.Marshaler `json:"m"`
			pointerM
		}{valueM{5}, pointerM{n}}
		g = gObj().with("m", gInt(5))
	case 7:
		s := string(sym.OneOf("s", "ab!"))
		x, g = textM{s}, gStr("<"+s)
		if sym.Choose("pointer", 2) == 1 {
			x = &textM{s}
		}
		if s == "!" {
			g = nil
		}
	case 8:
		p := pointerT(sym.Choose("digit", 3))
		x = struct {
			T *pointerT `json:"t,omitempty"`
			U *pointerT `json:"u,omitempty"`
			V *pointerT `json:"v"`
		}{&p, nil, nil}
		g = gObj().with("t", gStr("t"+decimal(int64(p)))).with("v", gNull())
	case 9:
		x, g = both{textM{"x"}}, gStr("both")
	case 10:
		x, g = json.RawMessage(`{"r":[null]}`), gObj().with("r", gArr(gNull()))
		if n == 0 {
			x, g = json.RawMessage(nil), gNull()
		} else if n == 1 {
			x, g = json.RawMessage("{"), nil
		}
	case 11:
		x, g = (*textM)(nil), gNull()
		if n == 0 {
			x = (*both)(nil)
		}
	}
	anyhow(x, g, false)
}

// C18_values: *V, V and Caseless inside Go values.
func C18_values() {
	i := digit("i")
	v := jsonvalue.NewObject()
	v.MustSetInt64(i).At("i")
	v.MustSetString("s").At("s")
	g := gObj().with("i", gInt(i)).with("s", gStr("s"))
	switch sym.Choose("form", 6) {
	case 0:
		anyhow(struct {
			A *jsonvalue.V `json:"a,omitempty"`
			B *jsonvalue.V `json:"b"`
			C *jsonvalue.V `json:"c,omitempty"`
		}{A: v}, gObj().with("a", g).with("b", gNull()), true)
	case 1:
		anyhow([]*jsonvalue.V{v, nil, v}, gArr(g, gNull(), g), false)
	case 2:
		anyhow(map[string]any{"v": v, "w": []any{v}}, gObj().with("v", g).with("w", gArr(g)), false)
	case 3:
		anyhow(&v, g, false)
	case 4:
		anyhow([]jsonvalue.V{*v}, gArr(g), false)
	case 5:
		anyhow(struct{ C jsonvalue.Caseless }{v}, gObj().with("C", g), true)
	}
}

// C18_unsupported: kinds without a JSON form, anywhere.
func C18_unsupported() {
	var x any
	i := 1
	switch sym.Choose("kind", 12) {
	case 0:
		x = make(chan int)
	case 1:
		x = (chan int)(nil)
	case 2:
		x = func() {}
	case 3:
		x = (func() int)(nil)
	case 4:
		x = complex(float32(1), 0)
	case 5:
		x = complex(1, 0)
	case 6:
		x = unsafe.Pointer(&i)
	case 7:
		x = map[float64]int{1: 1}
	case 8:
		x = map[bool]int{true: 1}
	case 9:
		x = map[any]int{"a": 1}
	case 10:
		x = map[[1]int]int{{1}: 1}
	case 11:
		x = map[struct{ A int }]int{{1}: 1}
	}
	switch sym.Choose("place", 8) {
	case 1:
		x = []any{1, x}
	case 2:
		x = [2]any{1, x}
	case 3:
		x = map[string]any{"a": x}
	case 4:
		y := x
		x = &y
	case 5:
		x = struct {
			A int
			X any `json:"x,omitempty"`
		}{1, x}
	case 6:
		y := x
		x = struct {
			Middle
			X *any
		}{Middle{}, &y}
	case 7:
		// what is not written does no harm
		anyhow(struct {
			A int
			X any `json:"-"`
			y any
		}{1, x, x}, gObj().with("A", gInt(1)), true)
		return
	}
	anyhow(x, nil, false)
}

// pair18 makes an import of a struct type; all the types have the same name and fields of the same name and type, and
// differ in their tags only.
func pair18(k int, i int, b string) (any, *G) {
	omit := func(is bool, g *G) *G { return unless(is, g) }
	switch k {
	case 0:
		type T struct {
			Field int
			Other string
		}
		return T{i, b}, gObj().with("Field", gInt(int64(i))).with("Other", gStr(b))
	case 1:
		type T struct {
			Field int    `json:"f"`
			Other string `json:"o"`
		}
		return T{i, b}, gObj().with("f", gInt(int64(i))).with("o", gStr(b))
	case 2:
		type T struct {
			Field int    `json:"o"`
			Other string `json:"f"`
		}
		return &T{i, b}, gObj().with("o", gInt(int64(i))).with("f", gStr(b))
	case 3:
		type T struct {
			Field int    `json:"f,omitempty"`
			Other string `json:"o,omitempty"`
		}
		return T{i, b}, gObj().with("f", omit(i == 0, gInt(int64(i)))).with("o", omit(b == "", gStr(b)))
	case 4:
		type T struct {
			Field int    `json:"-"`
			Other string `json:"-,"`
		}
		return T{i, b}, gObj().with("-", gStr(b))
	case 5:
		type T struct {
			Field int    `yaml:"a_rather_long_name,omitempty" bson:"another_rather_long_name,omitempty" json:"x"`
			Other string `yaml:"a_rather_long_name,omitempty" bson:"another_rather_long_name,omitempty" json:"y"`
		}
		return T{i, b}, gObj().with("x", gInt(int64(i))).with("y", gStr(b))
	case 6:
		type T struct {
			Field int    `yaml:"a_rather_long_name,omitempty" bson:"another_rather_long_name,omitempty" json:"y,omitempty"`
			Other string `yaml:"a_rather_long_name,omitempty" bson:"another_rather_long_name,omitempty" json:"x,omitempty"`
		}
		return &T{i, b}, gObj().with("y", omit(i == 0, gInt(int64(i)))).with("x", omit(b == "", gStr(b)))
	case 7:
		type T struct {
			Field int    `json:"f,string"`
			Other string `json:",omitempty"`
		}
		return T{i, b}, gObj().with("f", gStr(decInt(i))).with("Other", omit(b == "", gStr(b)))
	}
	type T struct {
		Field int    `xml:"json" json:"json"`
		Other string `xml:"x,omitempty"`
	}
	return []T{{i, b}}, gArr(gObj().with("json", gInt(int64(i))).with("Other", gStr(b)))
}

// C18_types: what one type is imported like does not depend on the types that were imported before.
func C18_types() {
	for j := 0; j < sym.Param("types", 2, 3); j++ {
		x, g := pair18(sym.Choose("type", 9), int(sym.OneOf("int", "0123456789")-'0'), string([]byte{sym.OneOf("s", "az09_")}[:sym.Choose("string", 2)]))
		imported(x, g, true)
		sym.Reach("type")
	}
}

// C18_unsupported_types: types whose elements have no JSON form; without an element there is nothing to refuse.
func C18_unsupported_types() {
	type S struct {
		A int      `json:"a"`
		C chan int `json:"c,omitempty"`
	}
	type In struct {
		F func() `json:"f"`
	}
	c := make(chan int)
	f := func() {}
	var x any
	switch sym.Choose("type", 16) {
	case 0:
		x = []chan int{c}
	case 1:
		x = []func(){f, f}
	case 2:
		x = [2]complex128{}
	case 3:
		x = [1]chan int{}
	case 4:
		x = map[string]chan int{"a": nil}
	case 5:
		x = map[int]func(){1: f}
	case 6:
		x = map[uint8]complex64{1: 0}
	case 7:
		x = &c
	case 8:
		x = &f
	case 9:
		x = S{A: 1, C: c}
	case 10:
		x = struct{ In }{In{}}
	case 11:
		x = struct{ *In }{&In{f}}
	case 12:
		x = []*S{nil, {C: c}}
	case 13:
		x = map[string][]map[bool]int{"a": {nil, {true: 1}}}
	case 14:
		x = []map[string][]chan int{{}, {"a": {}, "b": {c}}}
	case 15:
		switch sym.Choose("empty", 5) {
		case 0:
			anyhow([]chan int{}, gArr(), false)
		case 1:
			anyhow(map[string]func(){}, gObj(), false)
		case 2:
			anyhow([0]complex64{}, gArr(), false)
		case 3:
			anyhow((*chan int)(nil), gNull(), false)
		case 4:
			anyhow(struct{ P *In }{}, gObj().with("P", gNull()), true)
		}
		return
	}
	anyhow(x, nil, false)
}

type named18 int

func (n named18) String() string { return "n" }

// C18_interfaces: fields of interface types with methods, nil or not, with and without omitempty.
func C18_interfaces() {
	i := digit("i")
	set := sym.Choose("set", 16)
	type T struct {
		A encoding.TextMarshaler `json:"a,omitempty"`
		B encoding.TextMarshaler `json:"b"`
		C json.Marshaler         `json:"c,omitempty"`
		D json.Marshaler         `json:"d"`
		E fmt.Stringer           `json:"e,omitempty"`
		F fmt.Stringer           `json:"f"`
		G interface{}            `json:"g,omitempty,string"`
		H error                  `json:"h,omitempty"`
	}
	t := T{}
	g := gObj()
	if set&1 != 0 {
		t.A = textM{"x"}
		g = g.with("a", gStr("<x"))
	}
	if set&2 != 0 {
		t.B = &textM{"y"}
		g = g.with("b", gStr("<y"))
	} else {
		g = g.with("b", gNull())
	}
	if set&4 != 0 {
		t.C, t.D = valueM{5}, nil
		g = g.with("c", gInt(5))
	}
	g = g.with("d", gNull())
	if set&8 != 0 {
		t.E, t.G = named18(i), i
		g = g.with("e", gInt(i))
		if sym.Choose("inner", 2) == 1 {
			t.F = (*named18)(nil)
		}
	}
	g = g.with("f", gNull())
	if set&8 != 0 {
		g = g.with("g", gInt(i))
	}
	switch sym.Choose("form", 4) {
	case 0:
		anyhow(t, g, true)
	case 1:
		anyhow(&t, g, true)
	case 2:
		anyhow([]interface{}{t}, gArr(g), false)
	case 3:
		anyhow(map[string]T{"t": t}, gObj().with("t", g), false)
	}
}

// C18_interface_elements: nil and other elements of slices, arrays and maps of such interfaces.
func C18_interface_elements() {
	n := sym.Choose("n", 3)
	var gt, gm = gNull(), gNull()
	var tm encoding.TextMarshaler
	var jm json.Marshaler
	var st fmt.Stringer
	gs := gNull()
	switch n {
	case 1:
		tm, jm, st = textM{"x"}, valueM{5}, named18(7)
		gt, gm, gs = gStr("<x"), gInt(5), gInt(7)
	case 2:
		st = (*named18)(nil)
	}
	switch sym.Choose("form", 9) {
	case 0:
		anyhow([]encoding.TextMarshaler{tm, nil}, gArr(gt, gNull()), false)
	case 1:
		anyhow([2]encoding.TextMarshaler{nil, tm}, gArr(gNull(), gt), false)
	case 2:
		anyhow(map[string]encoding.TextMarshaler{"a": tm}, gObj().with("a", gt), false)
	case 3:
		anyhow([]json.Marshaler{jm, nil}, gArr(gm, gNull()), false)
	case 4:
		anyhow(map[int]json.Marshaler{-1: jm}, gObj().with("-1", gm), false)
	case 5:
		anyhow(&jm, gm, false)
	case 6:
		anyhow(&tm, gt, false)
	case 7:
		anyhow([]fmt.Stringer{nil, st}, gArr(gNull(), gs), false)
	case 8:
		p := &st
		anyhow(&p, gs, false)
	}
}
