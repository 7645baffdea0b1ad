package h

import (
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// tree builds an arbitrary small value through the public API together with the tree it stands for.
type tree struct {
	left   int    // nodes that may still be created
	wide   int    // elements per container
	leaves string // kinds of leaves: s string, n integer, d float, t boolean, z null, N NaN, P +Inf, M -Inf
	keys   string // alphabet of the one-byte keys
}

// put sets a member like n.set, but a key that is set again moves to the end.
func (n *N) put(k string, v *N) {
	for i := range n.keys {
		if n.keys[i] == k {
			n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			break
		}
	}
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, v)
}

func (g *tree) leaf(kind byte) (*jsonvalue.V, *N) {
	switch kind {
	case 's':
		s := string([]byte{sym.OneOf("ch", "x\"\\/<\x01")})
		return jsonvalue.NewString(s), &N{k: 's', s: s}
	case 'n':
		return jsonvalue.NewInt(-42), &N{k: 'n', s: "-42"}
	case 'd':
		return jsonvalue.NewFloat64(1.5), &N{k: 'n', s: "1.5"}
	case 't':
		if sym.Bool("true") {
			return jsonvalue.NewBool(true), &N{k: 't'}
		}
		return jsonvalue.NewBool(false), &N{k: 'f'}
	case 'z':
		return jsonvalue.NewNull(), &N{k: 'z'}
	case 'N':
		return jsonvalue.NewFloat64(math.NaN()), &N{k: 'N'}
	case 'P':
		return jsonvalue.NewFloat64(math.Inf(1)), &N{k: 'P'}
	case 'M':
		return jsonvalue.NewFloat64(math.Inf(-1)), &N{k: 'M'}
	}
	panic("leaf kind")
}

func (g *tree) value(depth int) (*jsonvalue.V, *N) {
	g.left--
	kinds := len(g.leaves)
	if depth > 0 {
		kinds += 2
	}
	k := sym.Choose("kind", kinds)
	if k < len(g.leaves) {
		return g.leaf(g.leaves[k])
	}
	count := g.wide
	if count > g.left {
		count = g.left
	}
	count = sym.Choose("count", count+1)
	if k == len(g.leaves) {
		v, n := jsonvalue.NewArray(), &N{k: 'a'}
		for i := 0; i < count && g.left > 0; i++ {
			c, m := g.value(depth - 1)
			v.MustAppend(c).InTheEnd()
			n.kids = append(n.kids, m)
		}
		return v, n
	}
	v, n := jsonvalue.NewObject(), &N{k: 'o'}
	for i := 0; i < count && g.left > 0; i++ {
		key := string([]byte{sym.OneOf("key", g.keys)})
		c, m := g.value(depth - 1)
		v.MustSet(c).At(key)
		n.put(key, m)
	}
	return v, n
}

// has tells whether a node of one of the kinds occurs in the tree.
func (n *N) has(kinds string) bool {
	for i := 0; i < len(kinds); i++ {
		if n.k == kinds[i] {
			return true
		}
	}
	for _, c := range n.kids {
		if c.has(kinds) {
			return true
		}
	}
	return false
}

// sameN compares two reference trees; members of objects in any order.
func sameN(a, b *N) bool {
	if a.k != b.k || a.s != b.s || len(a.kids) != len(b.kids) || len(a.keys) != len(b.keys) {
		return false
	}
	if a.k != 'o' {
		for i := range a.kids {
			if !sameN(a.kids[i], b.kids[i]) {
				return false
			}
		}
		return true
	}
	for i, k := range a.keys {
		found := false
		for j, l := range b.keys {
			if k == l {
				found = sameN(a.kids[i], b.kids[j])
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// sameOrder is sameN with members in the given order.
func sameOrder(a, b *N) bool {
	if a.k != b.k || a.s != b.s || len(a.kids) != len(b.kids) || len(a.keys) != len(b.keys) {
		return false
	}
	for i := range a.kids {
		if a.k == 'o' && a.keys[i] != b.keys[i] {
			return false
		}
		if !sameOrder(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// noDuplicates: no key occurs twice in an object of the parsed tree.
func (n *N) noDuplicates() bool {
	if len(n.gone) > 0 {
		return false
	}
	for _, c := range n.kids {
		if !c.noDuplicates() {
			return false
		}
	}
	return true
}

// compact tells whether a JSON text has no insignificant whitespace.
func compact(b []byte) bool {
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if c == '\\' {
				i++
			} else if c == '"' {
				in = false
			}
			continue
		}
		if c == '"' {
			in = true
		} else if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			return false
		}
	}
	return true
}

// stripped is the text without insignificant whitespace.
func stripped(b []byte) []byte {
	var r []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			r = append(r, c)
			if c == '\\' && i+1 < len(b) {
				i++
				r = append(r, b[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			continue
		}
		if c == '"' {
			in = true
		}
		r = append(r, c)
	}
	return r
}

// esc is a choice of the escaping options.
type esc struct{ utf8, noHTML, noSlash bool }

func chooseEsc() (esc, []jsonvalue.Option) {
	var e esc
	var o []jsonvalue.Option
	switch sym.Choose("utf8", 2) {
	case 1:
		e.utf8 = true
		o = append(o, jsonvalue.OptUTF8())
	}
	switch sym.Choose("html", sym.Param("onoff", 2, 3)) {
	case 1:
		e.noHTML = true
		o = append(o, jsonvalue.OptEscapeHTML(false))
	case 2:
		o = append(o, jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeHTML(true))
	}
	switch sym.Choose("slash", sym.Param("onoff", 2, 3)) {
	case 1:
		e.noSlash = true
		o = append(o, jsonvalue.OptEscapeSlash(false))
	case 2:
		o = append(o, jsonvalue.OptEscapeSlash(false), jsonvalue.OptEscapeSlash(true))
	}
	return e, o
}

// chars is n arbitrary characters (not surrogates) as UTF-8, one class of length per character.
func chars(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		l := 1 + sym.Choose("class", 4)
		c := sym.Bytes("char", l)
		if l == 1 {
			sym.Assume(c[0] < 0x80)
		} else {
			sym.Assume(utf8At(c, 0) == l)
		}
		b = append(b, c...)
	}
	return b
}

// order is a choice of the key-ordering options.
func chooseOrder() []jsonvalue.Option {
	switch sym.Choose("order", 4) {
	case 1:
		return []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}
	case 2:
		return []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"b", "q"})}
	case 3:
		return []jsonvalue.Option{jsonvalue.OptSetSequence()}
	}
	return nil
}
