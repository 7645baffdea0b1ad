package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// place is the reference for Set(c).At(ps...): it changes the model, or leaves it and returns the class of error.
func (t *T) place(ps []param, c *T) int {
	p := ps[0]
	switch t.k {
	case 'o':
		if !p.isStr {
			return eParam
		}
		i := t.at(p.s)
		if len(ps) == 1 {
			t.put(p.s, c)
			return eNone
		}
		if i >= 0 {
			return t.kids[i].place(ps[1:], c)
		}
		m, class := parent(ps[1])
		if class != eNone {
			return class
		}
		if class = m.place(ps[1:], c); class == eNone {
			t.put(p.s, m)
		}
		return class
	case 'a':
		if p.isNil {
			return eParam
		}
		if !p.isInt {
			return eAny
		}
		end := p.i == int64(len(t.kids))
		i := -1
		if !end {
			if i = t.index(p.i); i < 0 {
				return eRange
			}
		}
		if len(ps) == 1 {
			if end {
				t.insert(len(t.kids), c)
			} else {
				t.kids[i] = c
			}
			return eNone
		}
		if !end {
			return t.kids[i].place(ps[1:], c)
		}
		m, class := parent(ps[1])
		if class != eNone {
			return class
		}
		if class = m.place(ps[1:], c); class == eNone {
			t.insert(len(t.kids), m)
		}
		return class
	case '0':
		return eUninit
	}
	return eAny
}

// parent is the container that has to be created for the next parameter.
func parent(next param) (*T, int) {
	switch {
	case next.isStr:
		return &T{k: 'o'}, eNone
	case next.isInt && next.i == 0:
		return &T{k: 'a'}, eNone
	case next.isInt:
		return nil, eRange
	}
	return nil, eAny
}

// adopt fills in the identities of containers that were created on the way.
func (t *T) adopt(v *jsonvalue.V) bool {
	if t.v == nil {
		t.v = v
	}
	for i, c := range t.kids {
		var w *jsonvalue.V
		if t.k == 'o' {
			w = t.v.ForRangeObj()[t.keys[i]]
		} else if a := t.v.ForRangeArr(); i < len(a) {
			w = a[i]
		}
		if w == nil || !c.adopt(w) {
			return false
		}
	}
	return true
}

// child is an arbitrary thing to set; class says why it has to be refused.
func child(kinds string) (x any, c *T, class int) {
	switch k := kinds[sym.Choose("child", len(kinds))]; k {
	case 'a', 'o', 'n', 's', 'z':
		c = newT(k)
		return c.v, c, eNone
	case 'N':
		return nil, &T{k: 'z'}, eNone
	case 'I':
		return 7, &T{k: 'n'}, eNone
	case 'S':
		return "str", &T{k: 's'}, eNone
	case 'F':
		return func() {}, nil, eAny
	case 'C':
		return make(chan int), nil, eAny
	case '-':
		return (*jsonvalue.V)(nil), nil, eUninit
	}
	return &jsonvalue.V{}, nil, eUninit
}

func checkSet(t *T, ps []param, kinds string) {
	x, c, bad := child(kinds)
	first, rest := spell(ps)
	var got *jsonvalue.V
	var err error
	must := false
	switch sym.Choose("form", 3) {
	case 0:
		got, err = t.v.Set(x).At(first, rest...)
	case 1:
		t.v.At(first, rest...).Set(x)
		must = true
	case 2:
		t.v.MustSet(x).At(first, rest...)
		must = true
	}
	class := bad
	if class == eNone {
		class = t.place(ps, c)
	} else if (&T{k: t.k, keys: t.keys, kids: t.kids}).clone().place(ps, newT('n')) != eNone {
		class = eAny // two things are wrong: either may be reported
	}
	if class != eNone {
		sym.Reach("refused")
		sym.Assert(must || failed(err, class), "a failing Set reports the wrong error")
		sym.Assert(must || nothing(got), "a failing Set returns a value")
		sym.Assert(t.holds(), "a failing Set changes the tree")
		return
	}
	sym.Reach("set")
	sym.Assert(err == nil, "Set refuses a valid position")
	if !must {
		sym.Assert(got != nil, "Set returns nil")
		if c.v == nil {
			c.v = got
		}
		sym.Assert(got == c.v, "Set returns something else than the child")
	}
	sym.Assert(t.adopt(t.v), "Set does not build the parents")
	sym.Assert(t.holds(), "Set does something else than writing the addressed position")
}

func (t *T) clone() *T {
	c := &T{v: t.v, k: t.k, keys: append([]string(nil), t.keys...)}
	for _, x := range t.kids {
		c.kids = append(c.kids, x.clone())
	}
	return c
}

// C12_types: every kind of parameter and child on every kind of value.
func C12_types() {
	var t *T
	g := &grower{left: 4, wide: sym.Param("wide", 2, 3), leaves: "n", keys: []string{"a", "b"}}
	switch k := sym.Choose("root", 7); k {
	case 0:
		t = g.container(false, 0)
	case 1:
		t = g.container(true, 0)
	default:
		t = newT("nst0z"[k-2])
	}
	checkSet(t, []param{anyParam("abc")}, "noNISFC-0")
}

// C12_paths: paths of several parameters on arbitrary small trees.
func C12_paths() {
	g := &grower{left: sym.Param("nodes", 4, 5), wide: 2, leaves: []string{"n", "z"}[sym.Choose("leaf", 2)], keys: []string{"a", "b"}}
	t := g.grow(3)
	n := 1 + sym.Choose("params", sym.Param("params", 3, 4))
	ps := make([]param, n)
	for i := range ps {
		ps[i] = plain("abc")
	}
	checkSet(t, ps, "n")
}

// C12_leaves: paths that lead to, through and past every kind of value that is no container.
func C12_leaves() {
	g := &grower{left: 3, wide: 1, leaves: "nstz", keys: []string{[]string{"a", ""}[sym.Choose("name", 2)]}}
	t := g.container(sym.Choose("object", 2) == 1, 2)
	ps := make([]param, 1+sym.Choose("params", sym.Param("params", 3, 4)))
	for i := range ps {
		switch sym.Choose("p", 4) {
		case 0:
			ps[i] = strParam(g.keys[0], g.keys[0])
		case 1:
			ps[i] = strParam("b", "b")
		case 2:
			ps[i] = intParam(0, 0)
		case 3:
			ps[i] = intParam(-1, -1)
		}
	}
	checkSet(t, ps, "nz")
}

// C12_mixed: a parameter of any type anywhere in a path, and any child.
func C12_mixed() {
	g := &grower{left: 3, wide: 2, leaves: "s", keys: []string{"a"}}
	t := g.grow(2)
	ps := make([]param, 2+sym.Choose("params", sym.Param("params", 1, 2)))
	for i := range ps {
		ps[i] = plain("ab")
	}
	ps[sym.Choose("odd one", len(ps))] = anyParam("ab")
	checkSet(t, ps, "nC")
}

// C12_children: any child at the end of a path, for valid and invalid paths.
func C12_children() {
	g := &grower{left: 3, wide: 2, leaves: "s", keys: []string{"a"}}
	t := g.grow(2)
	ps := make([]param, 1+sym.Choose("params", 3))
	for i := range ps {
		ps[i] = plain("ab")
	}
	checkSet(t, ps, "aoNISFC-0")
}

// C12_keys: a member is stored under exactly the key given, for arbitrary keys.
func C12_keys() {
	n := sym.Param("keylen", 2, 3)
	t := newT('o')
	for i := 0; i < 3; i++ {
		k := sym.Str("key", sym.Choose("len", n+1))
		c := newT('n')
		got, err := t.v.Set(c.v).At(k)
		sym.Assert(err == nil && got == c.v, "Set refuses a key")
		t.put(k, c)
	}
	sym.Assert(t.holds(), "members are stored under other keys")
}

// C12_refused: empty paths, parameters after a slice, and roots that cannot hold anything.
func C12_refused() {
	var got *jsonvalue.V
	var err error
	t := newT('o')
	a := newT('a')
	t.v.MustSet(a.v).At("a")
	t.put("a", a)
	switch sym.Choose("case", 5) {
	case 0:
		got, err = t.v.Set(1).At([]any{})
	case 1:
		got, err = t.v.Set(1).At([]string{"a"}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
	case 2:
		got, err = t.v.Set(1).At([1]string{"a"}, 0)
		sym.Assert(failed(err, eMany), "parameters after an array are accepted")
	case 3:
		var n *jsonvalue.V
		got, err = n.Set(1).At("a")
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 4:
		n := newT('0')
		got, err = n.v.Set(1).At("a")
		sym.Assert(failed(err, eUninit), "an uninitialised value is written to")
		sym.Assert(n.holds(), "a failing Set changes the tree")
	}
	sym.Assert(err != nil, "an invalid Set succeeds")
	sym.Assert(nothing(got), "a failing Set returns a value")
	sym.Assert(t.holds(), "a failing Set changes the tree")
}
