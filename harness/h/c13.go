package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// into is the reference for Insert: before (off 0) or after (off 1) the addressed element of the addressed array.
func (t *T) into(ps []param, c *T, off int) int {
	last := ps[len(ps)-1]
	a, class := t.find(ps[:len(ps)-1])
	if class != eNone {
		return class
	}
	if a.k == '0' {
		return eUninit
	}
	if a.k != 'a' {
		if len(ps) == 1 {
			return eNotArray
		}
		return eAny
	}
	if last.isNil {
		return eParam
	}
	if !last.isInt {
		return eAny
	}
	i := a.index(last.i)
	if i < 0 {
		return eRange
	}
	a.insert(i+off, c)
	return eNone
}

// extend is the reference for Append: at the end or the beginning of the addressed array, which is created if it
// does not exist.
func (t *T) extend(ps []param, c *T, end bool) int {
	a, class := t.find(ps)
	if class == eMissing {
		a = &T{k: 'a'}
		if class = t.place(ps, a); class != eNone {
			return class
		}
	}
	if class != eNone {
		return class
	}
	if a.k == '0' {
		return eUninit
	}
	if a.k != 'a' {
		if len(ps) == 0 {
			return eNotArray
		}
		return eAny
	}
	if end {
		a.insert(len(a.kids), c)
	} else {
		a.insert(0, c)
	}
	return eNone
}

// drop is the reference for Delete.
func (t *T) drop(ps []param) int {
	c, class := t.find(ps[:len(ps)-1])
	if class != eNone {
		return class
	}
	if _, class = c.find(ps[len(ps)-1:]); class != eNone {
		return class
	}
	p := ps[len(ps)-1]
	if c.k == 'a' {
		c.remove(c.index(p.i))
	} else {
		c.remove(c.at(p.s))
	}
	return eNone
}

// change runs one operation on the value and on the model and compares.
func change(t *T, op int, ps []param, kinds string, forms int) {
	var x any
	var c *T
	bad := eNone
	if op != 4 {
		x, c, bad = child(kinds)
	}
	v := t.v
	must := sym.Choose("must", forms) == 1
	var got *jsonvalue.V
	var err error
	var class int
	model := t.clone()
	switch op {
	case 0, 1:
		first, rest := spell(ps)
		class = model.into(ps, c, op)
		switch {
		case op == 0 && must:
			v.MustInsert(x).Before(first, rest...)
		case op == 0:
			got, err = v.Insert(x).Before(first, rest...)
		case must:
			v.MustInsert(x).After(first, rest...)
		default:
			got, err = v.Insert(x).After(first, rest...)
		}
	case 2, 3:
		class = model.extend(ps, c, op == 3)
		var args []any
		if len(ps) > 0 {
			first, rest := spell(ps)
			args = append([]any{first}, rest...)
		} else if sym.Choose("empty", 2) == 1 {
			args = []any{[]any{}}
		}
		switch {
		case op == 2 && must:
			v.MustAppend(x).InTheBeginning(args...)
		case op == 2:
			got, err = v.Append(x).InTheBeginning(args...)
		case must:
			v.MustAppend(x).InTheEnd(args...)
		default:
			got, err = v.Append(x).InTheEnd(args...)
		}
	case 4:
		class = model.drop(ps)
		first, rest := spell(ps)
		if must {
			v.MustDelete(first, rest...)
		} else {
			err = v.Delete(first, rest...)
		}
	}
	if bad != eNone {
		if class != eNone {
			class = eAny // two things are wrong: either may be reported
		} else {
			class = bad
		}
	}
	if class != eNone {
		sym.Reach("refused")
		sym.Assert(must || failed(err, class), "a failing operation reports the wrong error")
		sym.Assert(must || op == 4 || nothing(got), "a failing operation returns a value")
		sym.Assert(t.holds(), "a failing operation changes the tree")
		return
	}
	sym.Reach("done")
	*t = *model
	sym.Assert(err == nil, "a valid operation is refused")
	if op != 4 && !must {
		if c.v == nil {
			c.v = got
		}
		sym.Assert(got != nil && got == c.v, "the operation returns something else than the child")
	}
	sym.Assert(t.adopt(t.v), "the operation does not build the parents")
	sym.Assert(t.holds(), "the operation does something else than the list operation it names")
}

func somewhere(op, max int, keys string) []param {
	n := 1
	if op == 2 || op == 3 {
		n = 0
	}
	n += sym.Choose("params", max+1)
	ps := make([]param, n)
	for i := range ps {
		ps[i] = plain(keys)
	}
	return ps
}

// C13_types: every kind of parameter and child on every kind of value.
func C13_types() {
	var t *T
	g := &grower{left: 4, wide: sym.Param("wide", 2, 3), leaves: "n", keys: []string{"a", "b"}}
	switch k := sym.Choose("root", 7); k {
	case 0:
		t = g.container(false, 0)
	case 1:
		t = g.container(true, 0)
	default:
		t = newT("nst0z"[k-2])
	}
	op := sym.Choose("op", 5)
	kinds := "noNISFC-0"
	if op == 2 || op == 3 {
		kinds = "oN-"
	}
	change(t, op, []param{anyParam("abc")}, kinds, 2)
}

// C13_arrays: operations on one array with an arbitrary index.
func C13_arrays() {
	t := newT('a')
	for i, n := 0, sym.Choose("len", sym.Param("len", 5, 7)); i < n; i++ {
		c := newT("ns"[i%2])
		t.v.MustAppend(c.v).InTheEnd()
		t.insert(i, c)
	}
	op := sym.Choose("op", 5)
	var ps []param
	if op != 2 && op != 3 {
		ps = []param{chooseInt()}
	}
	change(t, op, ps, "o", 1)
}

// C13_paths: operations at the end of a path on arbitrary small trees.
func C13_paths() {
	g := &grower{left: sym.Param("nodes", 4, 5), wide: 2, leaves: "n", keys: []string{"a", "b"}}
	t := g.grow(3)
	op := sym.Choose("op", 5)
	change(t, op, somewhere(op, 2, "abc"), "n", 1)
}

// C13_mixed: a parameter of any type in a path.
func C13_mixed() {
	g := &grower{left: 3, wide: 2, leaves: "s", keys: []string{"a"}}
	t := g.grow(2)
	op := sym.Choose("op", 5)
	ps := []param{plain("ab"), plain("ab")}
	ps[sym.Choose("odd one", len(ps))] = anyParam("ab")
	change(t, op, ps, "n", 1)
}

// C13_history: sequences of operations on an array, with arbitrary indexes.
func C13_history() {
	t := newT('a')
	for i, n := 0, sym.Choose("len", 3); i < n; i++ {
		c := newT('n')
		t.v.MustAppend(c.v).InTheEnd()
		t.insert(i, c)
	}
	for i := 0; i < sym.Param("steps", 3, 4); i++ {
		op := sym.Choose("op", 6)
		c := newT("nst"[i%3])
		var err error
		class := eNone
		var ps []param
		if op != 2 && op != 3 {
			x := sym.I64("i")
			ps = []param{intParam(int(x), x)}
		}
		switch op {
		case 0:
			class = t.into(ps, c, 0)
			_, err = t.v.Insert(c.v).Before(ps[0].x)
		case 1:
			class = t.into(ps, c, 1)
			_, err = t.v.Insert(c.v).After(ps[0].x)
		case 2:
			t.insert(0, c)
			_, err = t.v.Append(c.v).InTheBeginning()
		case 3:
			t.insert(len(t.kids), c)
			_, err = t.v.Append(c.v).InTheEnd()
		case 4:
			class = t.drop(ps)
			err = t.v.Delete(ps[0].x)
		case 5:
			class = t.place(ps, c)
			_, err = t.v.Set(c.v).At(ps[0].x)
		}
		sym.Assert((err == nil) == (class == eNone), "an operation of a sequence fails or succeeds wrongly")
		sym.Assert(t.holds(), "a sequence of operations does not act like on a list")
	}
}

// C13_objects: sequences of Set and Delete on an object with arbitrary keys.
func C13_objects() {
	t := newT('o')
	n := sym.Param("keylen", 1, 2)
	for i := 0; i < sym.Param("steps", 4, 4); i++ {
		k := sym.Str("key", sym.Choose("len", n+1))
		if sym.Choose("delete", 2) == 1 {
			at := t.at(k)
			err := t.v.Delete(k)
			sym.Assert((err == nil) == (at >= 0), "Delete finds a member that is not there or the reverse")
			if at >= 0 {
				t.remove(at)
			} else {
				sym.Assert(failed(err, eMissing), "Delete reports the wrong error")
			}
		} else {
			c := newT("nst"[i%3])
			_, err := t.v.Set(c.v).At(k)
			sym.Assert(err == nil, "Set refuses a key")
			t.put(k, c)
		}
		sym.Assert(t.holds(), "a sequence of operations does not act like on a map")
	}
}

// C13_refused: parameters after a slice, empty paths, roots that cannot hold anything.
func C13_refused() {
	t := newT('a')
	a := newT('a')
	t.v.MustAppend(a.v).InTheEnd()
	t.insert(0, a)
	n := newT('n')
	a.v.MustAppend(n.v).InTheEnd()
	a.insert(0, n)
	var got *jsonvalue.V
	var err error
	var none *jsonvalue.V
	switch sym.Choose("case", 18) {
	case 0:
		got, err = t.v.Insert(1).Before([]int{0}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
	case 1:
		got, err = t.v.Insert(1).After([1]int{0}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
	case 2:
		got, err = t.v.Append(1).InTheBeginning([]int{0}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
	case 3:
		got, err = t.v.Append(1).InTheEnd([]int{0}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
	case 4:
		err = t.v.Delete([]int{0}, 0)
		sym.Assert(failed(err, eMany), "parameters after a slice are accepted")
		got = &jsonvalue.V{}
	case 5:
		got, err = t.v.Insert(1).Before([]any{})
	case 6:
		got, err = t.v.Insert(1).After([]any{})
	case 7:
		err = t.v.Delete([]any{})
		got = &jsonvalue.V{}
	case 8:
		got, err = (&jsonvalue.V{}).Append(1).InTheEnd()
		sym.Assert(failed(err, eUninit), "an uninitialised value is written to")
	case 9:
		got, err = (&jsonvalue.V{}).Append(1).InTheBeginning()
		sym.Assert(failed(err, eUninit), "an uninitialised value is written to")
	case 10:
		got, err = none.Append(1).InTheEnd()
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 11:
		got, err = none.Append(1).InTheBeginning("a", 0)
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 12:
		got, err = none.Append(1).InTheEnd("a")
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 13:
		got, err = none.Insert(1).Before(0)
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 14:
		got, err = none.Insert(1).After("a", 0)
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 15:
		got, err = none.Set(1).At("a")
		sym.Assert(failed(err, eUninit), "a nil value is written to")
	case 16:
		got, err = (&jsonvalue.V{}).Insert(1).Before(0, 1)
		sym.Assert(failed(err, eUninit), "an uninitialised value is written to")
	case 17:
		got, err = (&jsonvalue.V{}).Insert(1).After(0)
		sym.Assert(failed(err, eUninit), "an uninitialised value is written to")
	}
	sym.Assert(err != nil, "an invalid operation succeeds")
	sym.Assert(nothing(got), "a failing operation returns a value")
	sym.Assert(t.holds(), "a failing operation changes the tree")
}

// C13_long: operations on arrays about as long as the capacities in use, at an arbitrary index.
func C13_long() {
	t := newT('a')
	lens := []int{31, 32, 33, 64, 127, 128}
	n := lens[sym.Choose("len", sym.Param("lens", 4, 6))]
	if sym.Choose("parsed", 2) == 1 {
		b := []byte{'['}
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, '7')
		}
		t.v = jsonvalue.MustUnmarshal(append(b, ']'))
		i := 0
		t.v.RangeArray(func(_ int, c *jsonvalue.V) bool {
			t.insert(i, &T{k: 'n', v: c})
			i++
			return true
		})
	} else {
		for i := 0; i < n; i++ {
			c := newT('n')
			t.v.MustAppend(c.v).InTheEnd()
			t.insert(i, c)
		}
	}
	for i := 0; i < sym.Param("ops", 1, 2); i++ {
		op := sym.Choose("op", 5)
		var ps []param
		if op != 2 && op != 3 {
			x := sym.I64("i")
			ps = []param{intParam(int(x), x)}
		}
		change(t, op, ps, "n", 1)
	}
}

// C13_drain: most elements of a long array are deleted again, from an end or the middle, and it goes on from there.
func C13_drain() {
	v := jsonvalue.NewArray()
	var list []int
	n := []int{40, 70, 130, 300}[sym.Choose("len", sym.Param("lens", 3, 4))]
	for i := 0; i < n; i++ {
		v.MustAppendInt(i).InTheEnd()
		list = append(list, i)
	}
	where := sym.Choose("where", 5)
	check := func() {
		sym.Assert(v.Len() == len(list), "the length of an array after a deletion")
		for i, c := range v.ForRangeArr() {
			sym.Assert(c.Int() == list[i], "an element of an array after a deletion")
		}
	}
	left := sym.Choose("left", 3) * 7
	for len(list) > left {
		i := []int{0, len(list) - 1, len(list) / 2, len(list) / 3, (len(list) & 1) * (len(list) - 1)}[where]
		at := i
		if where == 1 {
			at = -1
		}
		sym.Assert(v.Delete(at) == nil, "a deletion fails")
		list = append(list[:i:i], list[i+1:]...)
		if len(list)&(len(list)-1) == 0 || len(list) == left {
			check()
		}
		sym.Assert(v.Len() == len(list), "the length of an array after a deletion")
		if len(list) > 0 {
			sym.Assert(v.MustGet(0).Int() == list[0] && v.MustGet(-1).Int() == list[len(list)-1], "an end of an array after a deletion")
		}
	}
	i := int(sym.U64("i") % uint64(len(list)+1))
	if i < len(list) {
		v.MustInsertInt(-5).Before(i)
	} else {
		v.MustAppendInt(-5).InTheEnd()
	}
	list = append(list[:i:i], append([]int{-5}, list[i:]...)...)
	check()
	v.MustAppendInt(-6).InTheBeginning()
	list = append([]int{-6}, list...)
	check()
	sym.Reach("drained")
}
