package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"

	"verifharness/sym"
)

// subset is the documented relation, on canonical trees.
func subset(n, sub *N) bool {
	if n.k != sub.k && !(isBool(n.k) && isBool(sub.k)) {
		return false
	}
	switch n.k {
	case 'o':
		for i, k := range sub.keys {
			found := false
			for j, l := range n.keys {
				if k == l {
					found = subset(n.kids[j], sub.kids[i])
					break
				}
			}
			if !found {
				return false
			}
		}
		return true
	case 'a':
		for from := 0; from+len(sub.kids) <= len(n.kids); from++ {
			run := true
			for i, c := range sub.kids {
				run = run && sameN(n.kids[from+i], c)
			}
			if run {
				return true
			}
		}
		return false
	}
	return sameN(n, sub)
}

func isBool(k byte) bool { return k == 't' || k == 'f' }

// contains checks Contains for v and sub, which stand for n and m.
func contains(v, sub *jsonvalue.V, n, m *N) {
	want := subset(n.canon(), m.canon())
	sym.Assert(beta.Contains(v, sub) == want, "Contains is not the subset relation")
	sym.Assert(same(v, n) && same(sub, m), "Contains changes a value")
	sym.Assert(beta.Contains(v, v) && beta.Contains(sub, sub), "a value does not contain itself")
	if want {
		sym.Reach("contained " + string(rune(n.k)))
	} else {
		sym.Reach("not contained " + string(rune(n.k)) + string(rune(m.k)))
	}
}

// C23_trees: two independent trees.
func C23_trees() {
	sym.MapOrder(sym.Choose("maporder", 2))
	left := sym.Param("nodes", 3, 4)
	v, n := plant(&left, 2, "v")
	left = sym.Param("subnodes", 2, 4)
	sub, m := plant(&left, 2, "sub")
	contains(v, sub, n, m)
}

// C23_arrays: arrays of arbitrary small numbers, every position of the run.
func C23_arrays() {
	list := func(name string, max int) (*jsonvalue.V, *N) {
		v, n := jsonvalue.NewArray(), &N{k: 'a'}
		for i, c := 0, sym.Choose(name, max+1); i < c; i++ {
			d := sym.OneOf("d", "12")
			v.MustAppendInt(int(d - '0')).InTheEnd()
			n.kids = append(n.kids, &N{k: 'n', s: string([]byte{d})})
		}
		return v, n
	}
	v, n := list("len", sym.Param("maxlen", 4, 6))
	sub, m := list("sublen", sym.Param("maxsub", 3, 4))
	if sym.Choose("wrapped", 2) == 1 {
		w := jsonvalue.NewObject()
		w.MustSet(v).At("a")
		w.MustSetInt(1).At("b")
		u := jsonvalue.NewObject()
		u.MustSet(sub).At("a")
		n = &N{k: 'o', keys: []string{"a", "b"}, kids: []*N{n, {k: 'n', s: "1"}}}
		m = &N{k: 'o', keys: []string{"a"}, kids: []*N{m}}
		v, sub = w, u
	}
	contains(v, sub, n, m)
}

// C23_derived: sub is the value itself with members left out and one leaf arbitrary.
func C23_derived() {
	sym.MapOrder(sym.Choose("maporder", 2))
	left := sym.Param("nodes", 4, 5)
	v, n := plant(&left, 3, "v")
	sub, m := thin(n)
	contains(v, sub, n, m)
	contains(sub, v, m, n)
}

// thin builds a copy that may lack members of objects and ends of arrays, with fresh leaves.
func thin(n *N) (*jsonvalue.V, *N) {
	switch n.k {
	case 'a':
		v, m := jsonvalue.NewArray(), &N{k: 'a'}
		from := sym.Choose("from", len(n.kids)+1)
		to := from + sym.Choose("to", len(n.kids)-from+1)
		for _, c := range n.kids[from:to] {
			x, y := again(c)
			v.MustAppend(x).InTheEnd()
			m.kids = append(m.kids, y)
		}
		return v, m
	case 'o':
		v, m := jsonvalue.NewObject(), &N{k: 'o'}
		for i := len(n.kids) - 1; i >= 0; i-- {
			if sym.Choose("keep", 2) == 0 {
				continue
			}
			x, y := thin(n.kids[i])
			v.MustSet(x).At(n.keys[i])
			m.put(n.keys[i], y)
		}
		return v, m
	}
	return again(n)
}

// C23_go: sub as a Go value.
func C23_go() {
	d := sym.Digits("d", 1)[0]
	i := int(d - '0')
	v := jsonvalue.NewObject()
	v.MustSetInt(int(sym.Digits("v", 1)[0] - '0')).At("i")
	v.MustAppendInt(5).InTheEnd("l")
	v.MustAppendInt(6).InTheEnd("l")
	v.MustAppendString("x").InTheEnd("l")
	v.MustSetString("s").At("o", "s")
	v.MustSetNull().At("o", "n")
	eq := v.MustGet("i").Int() == i
	switch sym.Choose("form", 12) {
	case 0:
		sym.Assert(beta.Contains(v, map[string]int{"i": i}) == eq, "a map")
	case 1:
		sym.Assert(beta.Contains(v, struct {
			I int               `json:"i"`
			O map[string]string `json:"o"`
		}{i, map[string]string{"s": "s"}}) == eq, "a struct")
	case 2:
		sym.Assert(beta.Contains(v, i, "i") == eq, "an integer at a path")
		v.MustSetInt(2).At("i")
		sym.Assert(beta.Contains(v, 2.0, "i") && !beta.Contains(v, 2.5, "i"), "a float at a path")
	case 3:
		sym.Assert(beta.Contains(v, []int{5, 6}, "l") && beta.Contains(v, []any{6, "x"}, "l"), "a slice at a path")
		sym.Assert(!beta.Contains(v, []any{5, "x"}, "l") && !beta.Contains(v, []int{6, 5}, "l"), "a slice with a gap")
	case 4:
		sym.Assert(beta.Contains(v, "x", "l", 2) && beta.Contains(v, "x", "l", -1) && !beta.Contains(v, "x", "l", 1), "an index in the path")
	case 5:
		sym.Assert(beta.Contains(v, nil, "o", "n") && !beta.Contains(v, nil, "o", "s") && !beta.Contains(v, nil, "i"), "nil")
	case 6:
		sym.Assert(!beta.Contains(v, i, "none") && !beta.Contains(v, nil, "none") && !beta.Contains(v, "x", "l", 3) && !beta.Contains(v, i, "i", "j") && !beta.Contains(v, i, true), "a path that is not there")
	case 7:
		sym.Assert(!beta.Contains(v, make(chan int)) && !beta.Contains(v, map[string]any{"i": func() {}}) && !beta.Contains(v, complex(1, 1)), "what cannot be imported")
	case 8:
		sym.Assert(!beta.Contains(nil, i) && !beta.Contains(nil, nil) && !beta.Contains(nil, (*jsonvalue.V)(nil), "a"), "a nil value")
		sym.Assert(!beta.Contains(v, (*jsonvalue.V)(nil)) && !beta.Contains(v, (*jsonvalue.V)(nil), "i"), "a nil sub")
	case 9:
		sym.Assert(!beta.Contains(v, &jsonvalue.V{}) && !beta.Contains(&jsonvalue.V{}, v) && !beta.Contains(&jsonvalue.V{}, 1), "an uninitialised value")
		sym.Assert(!beta.Contains(v, jsonvalue.NewObject(), "i") && !beta.Contains(v, jsonvalue.NewArray()), "another type")
	case 10:
		sym.Assert(beta.Contains(v, map[string]any{}) && beta.Contains(v, []int{}, "l") && beta.Contains(v, struct{}{}, "o"), "an empty container")
		sym.Assert(!beta.Contains(v, []int{}) && !beta.Contains(v, map[string]any{}, "l") && !beta.Contains(v, "", "i"), "an empty container of another type")
	case 11:
		sym.Assert(!beta.Contains(v, map[string]any{"I": i}) && !beta.Contains(v, map[string]any{"i": i, "x": nil}), "a key that is not there")
		// after Caseless lookups keys still count as written
		v.Caseless().MustGet("I")
		sym.Assert(!beta.Contains(v, map[string]any{"I": i}), "a key of another case")
	}
	sym.Assert(v.Len() == 3 && v.MustGet("l").Len() == 3 && v.MustGet("o").Len() == 2, "Contains changes a value")
	sym.Reach("go value")
}

// C23_elements: arrays of containers: an element has to be equal, a part of it is not enough.
func C23_elements() {
	element := func(name string) (*jsonvalue.V, *N) {
		d := func() (*jsonvalue.V, *N) {
			c := sym.OneOf("d", "12")
			return jsonvalue.NewInt(int(c - '0')), &N{k: 'n', s: string([]byte{c})}
		}
		k := sym.Choose(name, 6)
		switch k {
		case 0:
			return d()
		case 1, 2, 3:
			v, n := jsonvalue.NewArray(), &N{k: 'a'}
			for i := 1; i < k; i++ {
				x, m := d()
				v.MustAppend(x).InTheEnd()
				n.kids = append(n.kids, m)
			}
			return v, n
		}
		v, n := jsonvalue.NewObject(), &N{k: 'o'}
		for i := 4; i <= k; i++ {
			x, m := d()
			v.MustSet(x).At([]string{"a", "b"}[i-4])
			n.put([]string{"a", "b"}[i-4], m)
		}
		return v, n
	}
	list := func(name string, most int) (*jsonvalue.V, *N) {
		v, n := jsonvalue.NewArray(), &N{k: 'a'}
		for i, c := 0, 1+sym.Choose(name+"len", most); i < c; i++ {
			x, m := element(name)
			v.MustAppend(x).InTheEnd()
			n.kids = append(n.kids, m)
		}
		return v, n
	}
	v, n := list("v", sym.Param("elements", 3, 3))
	sub, m := list("sub", sym.Param("sub", 2, 3))
	contains(v, sub, n, m)
}
