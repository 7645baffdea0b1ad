package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// N is the value tree a JSON text denotes, computed by the reference parser below, which follows RFC 8259 and
// shares nothing with the code under test.
type N struct {
	k    byte   // s n t f z o a
	s    string // decoded string, or number text
	keys []string
	kids []*N
	gone []*N // members replaced by a later one of the same key
}

// ref is a recursive descent parser.  lenient adds the documented tolerances: commas are optional and may repeat,
// \b is blank, \' is an escape, control characters may be raw, continuation bytes are not validated.
type ref struct {
	b       []byte
	p       int
	lenient bool
	bad     bool
}

func refParse(b []byte, lenient bool) (*N, bool) {
	r := &ref{b: b, lenient: lenient}
	r.ws()
	n := r.value()
	r.ws()
	if r.bad || r.p != len(b) {
		return nil, false
	}
	return n, true
}

func (r *ref) fail() *N {
	r.bad = true
	return nil
}

func (r *ref) blank(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || (r.lenient && c == '\b')
}

func (r *ref) ws() {
	for r.p < len(r.b) && r.blank(r.b[r.p]) {
		r.p++
	}
}

// sep skips what may stand between elements of the lenient language.
func (r *ref) sep() {
	for r.p < len(r.b) && (r.blank(r.b[r.p]) || r.b[r.p] == ',') {
		r.p++
	}
}

func (r *ref) is(c byte) bool { return r.p < len(r.b) && r.b[r.p] == c }

func (r *ref) lit(s string) bool {
	if len(r.b)-r.p < len(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if r.b[r.p+i] != s[i] {
			return false
		}
	}
	r.p += len(s)
	return true
}

func (r *ref) value() *N {
	if r.p >= len(r.b) {
		return r.fail()
	}
	switch c := r.b[r.p]; {
	case c == '{':
		return r.object()
	case c == '[':
		return r.array()
	case c == '"':
		s, ok := r.str()
		if !ok {
			return r.fail()
		}
		return &N{k: 's', s: s}
	case c == 't':
		if !r.lit("true") {
			return r.fail()
		}
		return &N{k: 't'}
	case c == 'f':
		if !r.lit("false") {
			return r.fail()
		}
		return &N{k: 'f'}
	case c == 'n':
		if !r.lit("null") {
			return r.fail()
		}
		return &N{k: 'z'}
	case c == '-' || isDigit(c):
		from := r.p
		if !r.number() {
			return r.fail()
		}
		return &N{k: 'n', s: string(r.b[from:r.p])}
	}
	return r.fail()
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// number = [ minus ] int [ frac ] [ exp ]; what follows must not continue a number token.
func (r *ref) number() bool {
	n := refNumber(r.b[r.p:])
	if n == 0 {
		return false
	}
	r.p += n
	if r.p < len(r.b) {
		c := r.b[r.p]
		if isDigit(c) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E' {
			return false
		}
	}
	return true
}

// refNumber is the length of the longest prefix matching the number grammar, 0 if none.
func refNumber(b []byte) int {
	i := 0
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i >= len(b) || !isDigit(b[i]) {
		return 0
	}
	if b[i] == '0' {
		i++
	} else {
		for i < len(b) && isDigit(b[i]) {
			i++
		}
	}
	if i+1 < len(b) && b[i] == '.' && isDigit(b[i+1]) {
		i++
		for i < len(b) && isDigit(b[i]) {
			i++
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		j := i + 1
		if j < len(b) && (b[j] == '+' || b[j] == '-') {
			j++
		}
		if j < len(b) && isDigit(b[j]) {
			for j < len(b) && isDigit(b[j]) {
				j++
			}
			i = j
		}
	}
	return i
}

func hexVal(c byte) (uint32, bool) {
	switch {
	case c >= '0' && c <= '9':
		return uint32(c - '0'), true
	case c >= 'a' && c <= 'f':
		return uint32(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return uint32(c-'A') + 10, true
	}
	return 0, false
}

func (r *ref) hex4(p int) (uint32, bool) {
	if p+4 > len(r.b) {
		return 0, false
	}
	x := uint32(0)
	for i := 0; i < 4; i++ {
		h, ok := hexVal(r.b[p+i])
		if !ok {
			return 0, false
		}
		x = x<<4 | h
	}
	return x, true
}

func utf8Of(dst []byte, c uint32) []byte {
	switch {
	case c < 0x80:
		return append(dst, byte(c))
	case c < 0x800:
		return append(dst, byte(0xC0|c>>6), byte(0x80|c&0x3F))
	case c < 0x10000:
		return append(dst, byte(0xE0|c>>12), byte(0x80|c>>6&0x3F), byte(0x80|c&0x3F))
	}
	return append(dst, byte(0xF0|c>>18), byte(0x80|c>>12&0x3F), byte(0x80|c>>6&0x3F), byte(0x80|c&0x3F))
}

func (r *ref) str() (string, bool) {
	r.p++
	var out []byte
	for r.p < len(r.b) {
		c := r.b[r.p]
		switch {
		case c == '"':
			r.p++
			return string(out), true
		case c == '\\':
			if r.p+1 >= len(r.b) {
				return "", false
			}
			e := r.b[r.p+1]
			r.p += 2
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case '\'':
				if !r.lenient {
					return "", false
				}
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				x, ok := r.hex4(r.p)
				if !ok {
					return "", false
				}
				r.p += 4
				if x >= 0xDC00 && x < 0xE000 {
					return "", false
				}
				if x >= 0xD800 && x < 0xDC00 {
					if r.p+1 >= len(r.b) || r.b[r.p] != '\\' || r.b[r.p+1] != 'u' {
						return "", false
					}
					y, ok := r.hex4(r.p + 2)
					if !ok || y < 0xDC00 || y >= 0xE000 {
						return "", false
					}
					r.p += 6
					x = 0x10000 + (x-0xD800)<<10 + (y - 0xDC00)
				}
				out = utf8Of(out, x)
			default:
				return "", false
			}
		case c < 0x20:
			if !r.lenient {
				return "", false
			}
			out = append(out, c)
			r.p++
		case c < 0x80:
			out = append(out, c)
			r.p++
		default:
			n := r.utf8Len(r.p)
			if n == 0 {
				return "", false
			}
			for i := 0; i < n; i++ {
				out = append(out, r.b[r.p+i])
			}
			r.p += n
		}
	}
	return "", false
}

// utf8Len is the length of the (valid, unless lenient) UTF-8 sequence at p, 0 if there is none.
func (r *ref) utf8Len(p int) int {
	c := r.b[p]
	if r.lenient {
		n := 0
		switch {
		case c>>5 == 6:
			n = 2
		case c>>4 == 14:
			n = 3
		case c>>3 == 30:
			n = 4
		}
		if p+n > len(r.b) {
			return 0
		}
		return n
	}
	return utf8At(r.b, p)
}

// utf8At is the length of the valid multi-byte UTF-8 sequence at p (RFC 3629), 0 if there is none.
func utf8At(b []byte, p int) int {
	c := b[p]
	lo, hi := byte(0x80), byte(0xBF)
	n := 0
	switch {
	case c >= 0xC2 && c <= 0xDF:
		n = 2
	case c == 0xE0:
		n, lo = 3, 0xA0
	case c == 0xED:
		n, hi = 3, 0x9F
	case c >= 0xE1 && c <= 0xEF:
		n = 3
	case c == 0xF0:
		n, lo = 4, 0x90
	case c >= 0xF1 && c <= 0xF3:
		n = 4
	case c == 0xF4:
		n, hi = 4, 0x8F
	default:
		return 0
	}
	if p+n > len(b) {
		return 0
	}
	if b[p+1] < lo || b[p+1] > hi {
		return 0
	}
	for i := 2; i < n; i++ {
		if b[p+i] < 0x80 || b[p+i] > 0xBF {
			return 0
		}
	}
	return n
}

// validUTF8 tells whether the whole text is valid UTF-8.
func validUTF8(b []byte) bool {
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			i++
			continue
		}
		n := utf8At(b, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}

func (r *ref) array() *N {
	r.p++
	n := &N{k: 'a'}
	if r.lenient {
		for {
			r.sep()
			if r.p >= len(r.b) {
				return r.fail()
			}
			if r.is(']') {
				r.p++
				return n
			}
			v := r.value()
			if r.bad {
				return nil
			}
			n.kids = append(n.kids, v)
		}
	}
	r.ws()
	if r.is(']') {
		r.p++
		return n
	}
	for {
		r.ws()
		v := r.value()
		if r.bad {
			return nil
		}
		n.kids = append(n.kids, v)
		r.ws()
		if r.is(']') {
			r.p++
			return n
		}
		if !r.is(',') {
			return r.fail()
		}
		r.p++
	}
}

func (r *ref) object() *N {
	r.p++
	n := &N{k: 'o'}
	if !r.lenient {
		r.ws()
		if r.is('}') {
			r.p++
			return n
		}
	}
	for {
		if r.lenient {
			r.sep()
			if r.is('}') {
				r.p++
				return n
			}
		} else {
			r.ws()
		}
		if !r.is('"') {
			return r.fail()
		}
		k, ok := r.str()
		if !ok {
			return r.fail()
		}
		r.ws()
		if !r.is(':') {
			return r.fail()
		}
		r.p++
		r.ws()
		v := r.value()
		if r.bad {
			return nil
		}
		n.set(k, v)
		if r.lenient {
			continue
		}
		r.ws()
		if r.is('}') {
			r.p++
			return n
		}
		if !r.is(',') {
			return r.fail()
		}
		r.p++
	}
}

// set adds a member; the last one of equal keys wins.
func (n *N) set(k string, v *N) {
	for i := range n.keys {
		if n.keys[i] == k {
			n.gone = append(n.gone, n.kids[i])
			n.kids[i] = v
			return
		}
	}
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, v)
}

// same tells whether v is the tree n, looking at v only through accessors; numbers by their text.
func same(v *jsonvalue.V, n *N) bool {
	if v == nil {
		return false
	}
	switch n.k {
	case 's':
		return v.IsString() && v.ValueType() == jsonvalue.String && v.String() == n.s
	case 'n':
		return v.IsNumber() && v.ValueType() == jsonvalue.Number && v.String() == n.s
	case 't':
		return v.IsBoolean() && v.Bool()
	case 'f':
		return v.IsBoolean() && !v.Bool()
	case 'z':
		return v.IsNull()
	case 'a':
		if !v.IsArray() || v.Len() != len(n.kids) {
			return false
		}
		for i, c := range n.kids {
			x, err := v.Get(i)
			if err != nil || !same(x, c) {
				return false
			}
		}
		return true
	}
	if !v.IsObject() || v.Len() != len(n.kids) {
		return false
	}
	for i, k := range n.keys {
		x, err := v.Get(k)
		if err != nil || !same(x, n.kids[i]) {
			return false
		}
	}
	return true
}

// inRange tells whether every number of the tree fits: integers int64/uint64.  (Floats short enough for the
// bounds used here never overflow unless their exponent has three digits.)
func (n *N) inRange() bool {
	if n.k == 'n' {
		return len(n.s) < 19 && !bigExp(n.s)
	}
	for _, c := range n.kids {
		if !c.inRange() {
			return false
		}
	}
	for _, c := range n.gone {
		if !c.inRange() {
			return false
		}
	}
	return true
}

func bigExp(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == 'e' || s[i] == 'E' {
			i++
			if i < len(s) && !isDigit(s[i]) {
				i++
			}
			return len(s)-i > 2
		}
	}
	return false
}

func logTree(v *jsonvalue.V) {
	if v == nil {
		sym.Log("nil")
		return
	}
	sym.Log("type", int(v.ValueType()), v.Len())
	switch v.ValueType() {
	case jsonvalue.String, jsonvalue.Number:
		sym.Log("str", v.String())
	case jsonvalue.Boolean:
		sym.Log("bool", v.Bool())
	case jsonvalue.Array:
		for i := 0; i < v.Len(); i++ {
			x, _ := v.Get(i)
			logTree(x)
		}
	}
}
