package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

func checkGet(t *T, ps []param) {
	want, class := t.find(ps)
	first, rest := spell(ps)
	got, err := t.v.Get(first, rest...)
	if class != eNone {
		sym.Reach("absent")
		sym.Assert(failed(err, class), "a failing lookup reports the wrong error")
		sym.Assert(nothing(got), "a failing lookup returns a value")
	} else {
		sym.Reach("found")
		sym.Assert(err == nil, "Get does not find an element that exists")
		sym.Assert(got == want.v, "Get returns another element than the addressed one")
	}
	must := t.v.MustGet(first, rest...)
	if class != eNone {
		sym.Assert(nothing(must), "a failing MustGet returns a value")
	} else {
		sym.Assert(must == want.v, "MustGet returns another element than the addressed one")
	}
	sym.Assert(t.holds(), "a lookup changes the value")
	sym.Log("class", class)
}

// C11_types: every kind of parameter on every kind of value.
func C11_types() {
	var t *T
	g := &grower{left: 4, wide: sym.Param("wide", 3, 4), leaves: "n", keys: []string{"a", "b"}}
	switch k := sym.Choose("root", 7); k {
	case 0:
		t = g.container(false, 0)
	case 1:
		t = g.container(true, 0)
	case 2:
		// array of plain elements
		t = newT('a')
		for i := 0; i < 3; i++ {
			c := newT('n')
			t.v.MustAppend(c.v).InTheEnd()
			t.insert(i, c)
		}
	default:
		t = newT("nst0z"[k-3])
	}
	checkGet(t, []param{anyParam("abc")})
}

// C11_paths: paths of several parameters on arbitrary small trees.
func C11_paths() {
	g := &grower{left: sym.Param("nodes", 5, 6), wide: 2, leaves: "n", keys: []string{"a", "b"}}
	t := g.grow(3)
	n := 1 + sym.Choose("params", sym.Param("params", 3, 3))
	ps := make([]param, n)
	for i := range ps {
		ps[i] = plain("abc")
	}
	checkGet(t, ps)
}

// C11_mixed: a parameter of any type anywhere in a path.
func C11_mixed() {
	g := &grower{left: 4, wide: 2, leaves: "s", keys: []string{"a", "b"}}
	t := g.grow(2)
	ps := []param{plain("ab"), plain("ab")}
	ps[sym.Choose("odd one", 2)] = anyParam("ab")
	checkGet(t, ps)
}

// C11_keys: a member is found under its own key only, for arbitrary keys.
func C11_keys() {
	n := sym.Param("keylen", 3, 4)
	t := newT('o')
	for i, c := 0, 1+sym.Choose("members", 2); i < c; i++ {
		k := sym.Str("key", sym.Choose("len", n+1))
		m := newT('n')
		t.v.MustSet(m.v).At(k)
		t.put(k, m)
	}
	k := sym.Str("get", sym.Choose("getlen", n+1))
	checkGet(t, []param{strParam(k, k)})
}

// C11_slices: an empty path or further parameters after a slice are refused.
func C11_slices() {
	t := newT('a')
	if sym.Choose("object", 2) == 1 {
		t = newT('o')
		c := newT('n')
		t.v.MustSet(c.v).At("a")
		t.put("a", c)
	} else {
		c := newT('n')
		t.v.MustAppend(c.v).InTheEnd()
		t.insert(0, c)
	}
	var first any
	empty := false
	switch sym.Choose("slice", 5) {
	case 0:
		first = []any{"a"}
	case 1:
		first = []int{0}
	case 2:
		first = [1]string{"a"}
	case 3:
		first, empty = []any{}, true
	case 4:
		first, empty = []string(nil), true
	}
	if sym.Choose("more", 2) == 1 {
		got, err := t.v.Get(first, "a")
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
		sym.Assert(nothing(got), "a failing lookup returns a value")
	} else if empty {
		got, err := t.v.Get(first)
		sym.Assert(failed(err, eAny), "an empty path is accepted")
		sym.Assert(nothing(got), "a failing lookup returns a value")
	}
	sym.Assert(t.holds(), "a lookup changes the value")
}

// cut spells a path with the parameters from i to j in a slice; rest tells how many follow it.
func cut(ps []param) (first any, others []any, size, rest int) {
	i := sym.Choose("from", len(ps)+1)
	j := i + sym.Choose("size", len(ps)+1-i)
	in := []any{}
	for _, p := range ps[i:j] {
		in = append(in, p.x)
	}
	var all []any
	for _, p := range ps[:i] {
		all = append(all, p.x)
	}
	switch {
	case len(in) == 2 && sym.Choose("array", 2) == 1:
		all = append(all, [2]any{in[0], in[1]})
	case len(in) == 3 && sym.Choose("nested", 2) == 1:
		all = append(all, []any{in[0], in[1:]})
	default:
		all = append(all, in)
	}
	for _, p := range ps[j:] {
		all = append(all, p.x)
	}
	return all[0], all[1:], len(in), len(ps) - j
}

// C11_inner: a slice anywhere among the parameters: at the end it stands for its elements, further parameters after it are
// refused, and so is an empty one.
func C11_inner() {
	t, ps := chain(1+sym.Choose("depth", sym.Param("depth", 6, 11)), sym.Choose("pattern", 8))
	first, others, size, rest := cut(ps)
	want, _ := t.find(ps)
	class := eNone
	switch {
	case rest > 0:
		class = eMany
	case size == 0:
		class = eAny
	}
	check := func(got *jsonvalue.V, err error) {
		if class != eNone {
			sym.Assert(failed(err, class), "a misplaced slice is accepted")
			sym.Assert(nothing(got), "a failing lookup returns a value")
		} else {
			sym.Assert(err == nil && got == want.v, "a slice at the end does not stand for its elements")
		}
	}
	check(t.v.Get(first, others...))
	check(t.v.Caseless().Get(first, others...))
	i, err := t.v.GetInt(first, others...)
	if class != eNone {
		sym.Assert(failed(err, class) && i == 0, "a misplaced slice is accepted")
	} else {
		sym.Assert(err == nil && i == 7, "a slice at the end does not stand for its elements")
	}
	sym.Assert(t.holds(), "a lookup changes the value")
	sym.Reach("checked")
}

// C12_inner: a slice anywhere among the parameters: either it stands for its elements, or the value is left alone.
func C12_inner() {
	t, ps := chain(1+sym.Choose("depth", sym.Param("depth", 5, 8)), sym.Choose("pattern", 8))
	first, others, size, rest := cut(ps)
	c := newT('s')
	got, err := t.v.Set(c.v).At(first, others...)
	if err != nil {
		sym.Assert(nothing(got), "a failing Set returns a value")
		sym.Assert(t.holds(), "a failing Set changes the tree")
		sym.Assert(rest > 0 || size == 0, "a slice at the end does not stand for its elements")
		sym.Reach("refused")
		return
	}
	sym.Assert(size > 0, "an empty path is accepted")
	replace(t, ps, c)
	sym.Assert(got == c.v && t.holds(), "Set writes another place than the addressed one")
	sym.Reach("set")
}

// replace puts a value at a path of existing elements.
func replace(t *T, ps []param, c *T) {
	u, _ := t.find(ps[:len(ps)-1])
	if p := ps[len(ps)-1]; u.k == 'o' {
		u.kids[u.at(p.s)] = c
	} else {
		u.kids[0] = c
	}
}

// C13_inner: the same for deletions and insertions.
func C13_inner() {
	t, ps := chain(1+sym.Choose("depth", sym.Param("depth", 5, 8)), sym.Choose("pattern", 8))
	first, others, size, rest := cut(ps)
	u, _ := t.find(ps[:len(ps)-1])
	c := newT('s')
	var err error
	var got *jsonvalue.V
	op := sym.Choose("op", 5)
	switch op {
	case 0:
		err = t.v.Delete(first, others...)
	case 1:
		err = t.v.Caseless().Delete(first, others...)
	case 2:
		got, err = t.v.Insert(c.v).Before(first, others...)
	case 3:
		got, err = t.v.Insert(c.v).After(first, others...)
	case 4:
		// the path of the array to append to
		all := append([]any{first}, others...)
		got, err = t.v.Append(c.v).InTheBeginning(all...)
		u, _ = t.find(ps)
	}
	if err != nil {
		sym.Assert(op < 2 || nothing(got), "a failing operation returns a value")
		sym.Assert(t.holds(), "a failing operation changes the tree")
		sym.Assert(rest > 0 || size == 0 || op >= 2, "a slice at the end does not stand for its elements")
		sym.Reach("refused")
		return
	}
	sym.Assert(size > 0 || op == 4, "an empty path is accepted")
	switch op {
	case 0, 1:
		u.remove(0)
	case 2, 4:
		u.insert(0, c)
	case 3:
		u.insert(1, c)
	}
	sym.Assert(op < 2 || got == c.v, "an operation returns another value")
	sym.Assert(t.holds(), "an operation acts on another place than the addressed one")
	sym.Reach("done")
}
