package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// texts is what the elements hold.
func texts(es []*jsonvalue.V) []string {
	r := make([]string, len(es))
	for i, c := range es {
		r[i] = c.String()
	}
	return r
}

// sorted checks that v holds the elements of before in the order of less, and that nothing else changed.
func sorted(v *jsonvalue.V, before []*jsonvalue.V, was []string, less func(a, b *jsonvalue.V) bool) {
	for i, s := range texts(before) {
		sym.Assert(s == was[i], "sorting changes the elements")
	}
	sym.Assert(v.IsArray() && v.Len() == len(before), "sorting changes the length")
	used := make([]bool, len(before))
	after := v.ForRangeArr()
	sym.Assert(len(after) == len(before), "sorting changes the length")
	for _, c := range after {
		at := -1
		for i := range before {
			if before[i] == c && !used[i] {
				at = i
			}
		}
		sym.Assert(at >= 0, "sorting loses or repeats an element")
		used[at] = true
	}
	for i := 1; i < len(after); i++ {
		sym.Assert(!less(after[i], after[i-1]), "the array is not in order")
	}
	for i := range after {
		for j := i + 1; j < len(after); j++ {
			sym.Assert(!less(after[j], after[i]), "the array is not in order")
		}
	}
	sym.Reach("sorted")
}

// C25_numbers: arbitrary numbers (also equal ones), ascending, descending and by a part of the value.
func C25_numbers() {
	n := sym.Choose("len", sym.Param("maxlen", 5, 6)+1)
	v := jsonvalue.NewArray()
	for i := 0; i < n; i++ {
		v.MustAppendInt(int(sym.Digits("d", 1)[0] - '0')).InTheEnd()
	}
	before := v.ForRangeArr()
	var less jsonvalue.ArrayLessFunc
	switch sym.Choose("less", 4) {
	case 0:
		less = func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() }
	case 1:
		less = func(a, b *jsonvalue.V) bool { return b.Int() < a.Int() }
	case 2:
		less = func(a, b *jsonvalue.V) bool { return a.Int() < 5 && b.Int() >= 5 }
	case 3:
		less = func(a, b *jsonvalue.V) bool { return a.LessThan(b) }
		sym.Assume(n <= 4)
	}
	was := texts(before)
	v.SortArray(less)
	sorted(v, before, was, less)
}

// C25_long: the array is longer than what the library sorts by insertion; few values are out of order.
func C25_long() {
	n := []int{12, 13, 20, 50}[sym.Choose("len", sym.Param("lens", 3, 4))]
	v := jsonvalue.NewArray()
	a, b := sym.Choose("from", n), sym.Choose("shape", 3)
	odd := int(sym.OneOf("odd", "\x00\x05\x0c\x40"))
	for i := 0; i < n; i++ {
		x := i
		switch {
		case i == a:
			x = odd
		case b == 1:
			x = n - i
		case b == 2:
			x = i * 7 % n
		}
		v.MustAppendInt(x).InTheEnd()
	}
	before := v.ForRangeArr()
	was := make([]int, n)
	for i, c := range before {
		was[i] = c.Int()
	}
	less := func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() }
	v.SortArray(less)
	after := v.ForRangeArr()
	for i, c := range before {
		sym.Assert(c.Int() == was[i], "sorting changes the elements")
	}
	sym.Assert(len(after) == n, "sorting changes the length")
	sum := 0
	for i, c := range after {
		sym.Assert(i == 0 || !less(c, after[i-1]), "the array is not in order")
		sum += c.Int()
	}
	for _, c := range before {
		sum -= c.Int()
		found := 0
		for _, d := range after {
			if c == d {
				found++
			}
		}
		sym.Assert(found == 1, "sorting loses or repeats an element")
	}
	sym.Assert(sum == 0, "sorting changes elements")
	sym.Reach("long")
}

// C25_nested: the elements are containers and strings; a path into the value can be sorted; the rest stays.
func C25_nested() {
	n := sym.Choose("len", 4)
	text := []byte(`{"a":{"l":[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			text = append(text, ',')
		}
		text = append(text, `{"k":"`...)
		text = append(text, sym.OneOf("c", "xyz"), '"', '}')
	}
	v, err := jsonvalue.Unmarshal(append(text, `]},"b":[3,2,1]}`...))
	sym.Assert(err == nil, "valid text refused")
	l := v.MustGet("a", "l")
	before := l.ForRangeArr()
	less := func(a, b *jsonvalue.V) bool { return a.MustGet("k").String() < b.MustGet("k").String() }
	was := texts(before)
	l.SortArray(less)
	sorted(l, before, was, less)
	b := v.MustGet("b")
	sym.Assert(b.MustGet(0).Int() == 3 && b.MustGet(2).Int() == 1 && v.Len() == 2, "another array is changed")
	// sorted arrays can be changed afterwards
	l.MustAppendObject().InTheEnd()
	sym.Assert(l.Len() == n+1 && l.MustGet(-1).IsObject(), "append after sorting")
}

// C25_refused: a nil function and values that are not arrays.
func C25_refused() {
	v := jsonvalue.NewArray()
	x, y := sym.Digits("x", 1)[0], sym.Digits("y", 1)[0]
	v.MustAppendInt(int(x - '0')).InTheEnd()
	v.MustAppendInt(int(y - '0')).InTheEnd()
	before := v.ForRangeArr()
	v.SortArray(nil)
	after := v.ForRangeArr()
	sym.Assert(len(after) == 2 && after[0] == before[0] && after[1] == before[1], "a nil function changes the array")
	called := false
	less := func(a, b *jsonvalue.V) bool { called = true; return true }
	o := jsonvalue.NewObject()
	o.MustSet(v).At("b")
	o.MustSetInt(1).At("a")
	vs := []*jsonvalue.V{o, jsonvalue.NewString("ba"), jsonvalue.NewInt(3), jsonvalue.NewNull(), {}, jsonvalue.NewBool(false), jsonvalue.NewArray()}
	w := vs[sym.Choose("value", len(vs))]
	old, err := w.MarshalString(jsonvalue.OptSetSequence())
	w.SortArray(less)
	now, err2 := w.MarshalString(jsonvalue.OptSetSequence())
	sym.Assert(!called && old == now && (err == nil) == (err2 == nil), "a value that is no array is sorted")
	sym.Reach("refused")
}
