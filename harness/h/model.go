package h

import (
	"errors"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// T is a value together with what it has to be: its identity, its shape and the identities of what it contains.
type T struct {
	v    *jsonvalue.V
	k    byte // o object, a array, anything else a leaf
	keys []string
	kids []*T
}

func (t *T) at(k string) int {
	for i := range t.keys {
		if t.keys[i] == k {
			return i
		}
	}
	return -1
}

func (t *T) put(k string, c *T) {
	if i := t.at(k); i >= 0 {
		t.kids[i] = c
		return
	}
	t.keys = append(t.keys, k)
	t.kids = append(t.kids, c)
}

func (t *T) insert(i int, c *T) {
	t.kids = append(t.kids, nil)
	copy(t.kids[i+1:], t.kids[i:])
	t.kids[i] = c
}

func (t *T) remove(i int) {
	t.kids = append(t.kids[:i:i], t.kids[i+1:]...)
	if t.k == 'o' {
		t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
	}
}

// index turns an index that counts from the end into one from the start; -1 if out of range.
func (t *T) index(i int64) int {
	n := int64(len(t.kids))
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return -1
	}
	return sym.Fix(int(i))
}

// holds tells whether the value is still exactly what it has to be.
func (t *T) holds() bool {
	switch t.k {
	case 'a':
		if !t.v.IsArray() || t.v.Len() != len(t.kids) {
			return false
		}
		for i, c := range t.v.ForRangeArr() {
			if i >= len(t.kids) || c != t.kids[i].v {
				return false
			}
		}
	case 'o':
		if !t.v.IsObject() || t.v.Len() != len(t.kids) {
			return false
		}
		m := t.v.ForRangeObj()
		if len(m) != len(t.kids) {
			return false
		}
		for i, k := range t.keys {
			if c, ok := m[k]; !ok || c != t.kids[i].v {
				return false
			}
		}
	case 'n':
		return t.v.IsNumber() && t.v.Int() == 7
	case 's':
		return t.v.IsString() && t.v.String() == "str"
	case 't':
		return t.v.IsBoolean() && t.v.Bool()
	case 'z':
		return t.v.IsNull()
	case '0':
		return t.v.ValueType() == jsonvalue.NotExist && t.v.Len() == 0
	default:
		return true
	}
	for _, c := range t.kids {
		if !c.holds() {
			return false
		}
	}
	return true
}

// newT is a fresh value of the kind.
func newT(k byte) *T {
	switch k {
	case 'a':
		return &T{v: jsonvalue.NewArray(), k: k}
	case 'o':
		return &T{v: jsonvalue.NewObject(), k: k}
	case 'n':
		return &T{v: jsonvalue.NewInt(7), k: k}
	case 's':
		return &T{v: jsonvalue.NewString("str"), k: k}
	case 't':
		return &T{v: jsonvalue.NewBool(true), k: k}
	case 'z':
		return &T{v: jsonvalue.NewNull(), k: k}
	}
	return &T{v: &jsonvalue.V{}, k: '0'}
}

// grower makes small values together with their models.
type grower struct {
	left   int
	wide   int
	leaves string
	keys   []string
}

func (g *grower) grow(depth int) *T {
	g.left--
	kinds := len(g.leaves)
	if depth > 0 {
		kinds += 2
	}
	k := sym.Choose("kind", kinds)
	if k < len(g.leaves) {
		return newT(g.leaves[k])
	}
	return g.container(k-len(g.leaves) == 1, depth)
}

func (g *grower) container(obj bool, depth int) *T {
	t := newT('a')
	if obj {
		t = newT('o')
	}
	max := g.wide
	if obj && max > len(g.keys) {
		max = len(g.keys)
	}
	if max > g.left {
		max = g.left
	}
	for i, n := 0, sym.Choose("count", max+1); i < n && g.left > 0; i++ {
		c := g.grow(depth - 1)
		if obj {
			t.v.MustSet(c.v).At(g.keys[i])
			t.put(g.keys[i], c)
		} else {
			t.v.MustAppend(c.v).InTheEnd()
			t.insert(i, c)
		}
	}
	return t
}

// param is one element of a path.
type param struct {
	x     any
	isStr bool
	isInt bool
	isNil bool
	s     string
	i     int64
}

type keyName string
type slot int16
type count uint32

func strParam(x any, s string) param { return param{x: x, isStr: true, s: s} }
func intParam(x any, i int64) param  { return param{x: x, isInt: true, i: i} }

// chooseInt is an arbitrary index of an arbitrary integer type.
func chooseInt() param {
	switch sym.Choose("int type", 12) {
	case 0:
		i := sym.I64("i")
		return intParam(int(i), i)
	case 1:
		i := sym.I64("i")
		return intParam(i, i)
	case 2:
		i := sym.I32("i")
		return intParam(i, int64(i))
	case 3:
		i := int16(sym.I32("i"))
		return intParam(i, int64(i))
	case 4:
		i := int8(sym.Byte("i"))
		return intParam(i, int64(i))
	case 5:
		u := sym.U64("i")
		if u > 1<<63-1 {
			return intParam(u, 1<<63-1)
		}
		return intParam(u, int64(u))
	case 6:
		u := sym.U64("i")
		if u > 1<<63-1 {
			return intParam(uint(u), 1<<63-1)
		}
		return intParam(uint(u), int64(u))
	case 7:
		u := sym.U32("i")
		return intParam(u, int64(u))
	case 8:
		u := uint16(sym.U32("i"))
		return intParam(u, int64(u))
	case 9:
		u := sym.Byte("i")
		return intParam(u, int64(u))
	case 10:
		i := int16(sym.I32("i"))
		return intParam(slot(i), int64(i))
	}
	u := sym.U32("i")
	return intParam(count(u), int64(u))
}

// plain is an int or string parameter.
func plain(keys string) param {
	if sym.Choose("param", 2) == 0 {
		i := sym.I64("i")
		return intParam(int(i), i)
	}
	b := sym.OneOf("k", keys)
	s := string([]byte{b})
	return strParam(s, s)
}

// odd is a parameter that is neither a string nor an integer, or of a named type.
func odd(keys string) param {
	switch sym.Choose("odd", 9) {
	case 0:
		return param{x: nil, isNil: true}
	case 1:
		return param{x: true}
	case 2:
		return param{x: float64(0)}
	case 3:
		return param{x: map[string]int{"a": 1}}
	case 4:
		return param{x: struct{ A int }{0}}
	case 5:
		return param{x: jsonvalue.NewString("a")}
	case 6:
		return param{x: (*int)(nil)}
	case 7:
		return param{x: complex(1, 0)}
	}
	b := sym.OneOf("k", keys)
	s := string([]byte{b})
	return strParam(keyName(s), s)
}

// anyParam is any parameter at all.
func anyParam(keys string) param {
	switch sym.Choose("class", 3) {
	case 0:
		return plain(keys)
	case 1:
		return chooseInt()
	}
	return odd(keys)
}

// spell gives the path as first and further arguments, spelt out or in a slice or array.
func spell(ps []param) (any, []any) {
	xs := make([]any, len(ps))
	ints, strs := true, true
	for i, p := range ps {
		xs[i] = p.x
		if _, ok := p.x.(int); !ok {
			ints = false
		}
		if _, ok := p.x.(string); !ok {
			strs = false
		}
	}
	switch sym.Choose("spelling", 4) {
	case 0:
		return xs[0], xs[1:]
	case 1:
		return xs, nil
	case 2:
		switch {
		case ints:
			r := make([]int, len(ps))
			for i, p := range ps {
				r[i] = int(p.i)
			}
			return r, nil
		case strs:
			r := make([]string, len(ps))
			for i, p := range ps {
				r[i] = p.s
			}
			return r, nil
		}
	case 3:
		switch len(ps) {
		case 1:
			if ints {
				return [1]int{int(ps[0].i)}, nil
			}
			return [1]any{xs[0]}, nil
		case 2:
			if strs {
				return [2]string{ps[0].s, ps[1].s}, nil
			}
			return [2]any{xs[0], xs[1]}, nil
		}
	}
	sym.Assume(false)
	return nil, nil
}

// Classes of errors a reference operation asks for.
const (
	eNone = iota
	eAny
	eRange
	eMissing
	eParam
	eUninit
	eNotArray
	eMany
)

// failed tells whether the error is of the class.
func failed(err error, class int) bool {
	if err == nil {
		return false
	}
	switch class {
	case eRange:
		return errors.Is(err, jsonvalue.ErrOutOfRange)
	case eMissing:
		return errors.Is(err, jsonvalue.ErrNotFound)
	case eParam:
		return errors.Is(err, jsonvalue.ErrParameterError)
	case eUninit:
		return errors.Is(err, jsonvalue.ErrValueUninitialized)
	case eNotArray:
		return errors.Is(err, jsonvalue.ErrNotArrayValue)
	case eMany:
		return errors.Is(err, jsonvalue.ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven)
	}
	return class != eNone
}

func nothing(v *jsonvalue.V) bool {
	return v != nil && v.ValueType() == jsonvalue.NotExist
}

// find is the reference lookup: the element, or the class of error.
func (t *T) find(ps []param) (*T, int) {
	for _, p := range ps {
		switch t.k {
		case 'a':
			if p.isNil {
				return nil, eParam
			}
			if !p.isInt {
				return nil, eAny
			}
			i := t.index(p.i)
			if i < 0 {
				return nil, eRange
			}
			t = t.kids[i]
		case 'o':
			if !p.isStr {
				return nil, eParam
			}
			i := t.at(p.s)
			if i < 0 {
				return nil, eMissing
			}
			t = t.kids[i]
		default:
			return nil, eAny
		}
	}
	return t, eNone
}
