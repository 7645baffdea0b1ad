package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// lower is a key without case (ASCII letters, and the few other letters the harnesses use).
func lower(s string) string {
	switch s {
	case "É":
		return "é"
	case "Ж":
		return "ж"
	case "Σ":
		return "σ"
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// fits tells whether the member may be what a caseless access to the key finds.
func (t *T) fits(i int, k string) bool {
	if t.at(k) >= 0 {
		return t.keys[i] == k
	}
	return lower(t.keys[i]) == lower(k)
}

func (t *T) present(k string) bool {
	for i := range t.keys {
		if t.fits(i, k) {
			return true
		}
	}
	return false
}

func anyKey(max int) string {
	n := sym.Choose("keylen", max+1)
	b := sym.Bytes("key", n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

func letterKey(max int) string {
	n := 1 + sym.Choose("keylen", max)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.OneOf("key", "aAbB1")
	}
	return string(b)
}

func foreignKey() string {
	return []string{"é", "É", "Ж", "ж", "Σ", "σ", "a", "A"}[sym.Choose("key", 8)]
}

// step runs one operation of the history on both.
func step(t *T, i int, k string, ops int) {
	v := t.v
	switch sym.Choose("op", ops) {
	case 0:
		c := newT("nst"[i%3])
		_, err := v.Set(c.v).At(k)
		sym.Assert(err == nil, "Set refuses a key")
		t.put(k, c)
	case 1:
		at := t.at(k)
		err := v.Delete(k)
		sym.Assert((err == nil) == (at >= 0), "Delete disagrees with the members")
		if at >= 0 {
			t.remove(at)
		}
	case 2:
		got, err := v.Caseless().Get(k)
		checkCaseless(t, k, got, err)
	case 3:
		err := v.Caseless().Delete(k)
		sym.Assert((err == nil) == t.present(k), "Caseless().Delete disagrees with the members")
		if err != nil {
			sym.Assert(failed(err, eMissing), "Caseless().Delete reports the wrong error")
			return
		}
		gone := -1
		m := v.ForRangeObj()
		for j := range t.keys {
			if _, ok := m[t.keys[j]]; !ok {
				sym.Assert(gone < 0, "Caseless().Delete removes several members")
				gone = j
			}
		}
		sym.Assert(gone >= 0, "Caseless().Delete removes nothing")
		sym.Assert(t.fits(gone, k), "Caseless().Delete removes another member")
		t.remove(gone)
	case 4:
		at := t.at(k)
		got, err := v.Get(k)
		if at < 0 {
			sym.Assert(failed(err, eMissing) && nothing(got), "Get finds a member that is not there")
		} else {
			sym.Assert(err == nil && got == t.kids[at].v, "Get misses a member")
		}
	}
}

func checkCaseless(t *T, k string, got *jsonvalue.V, err error) {
	if !t.present(k) {
		sym.Reach("absent")
		sym.Assert(failed(err, eMissing) && nothing(got), "Caseless().Get finds a member that is not there")
		return
	}
	sym.Reach("present")
	sym.Assert(err == nil, "Caseless().Get misses a member")
	for j := range t.keys {
		if t.kids[j].v == got {
			sym.Assert(t.fits(j, k), "Caseless().Get returns another member")
			return
		}
	}
	sym.Assert(false, "Caseless().Get returns something that is not a member")
}

func finish(t *T, k string) {
	sym.Assert(t.holds(), "the object disagrees with a map that went through the same history")
	got, err := t.v.Caseless().Get(k)
	checkCaseless(t, k, got, err)
	sym.Assert(t.holds(), "a caseless lookup changes the object")
}

// C14_history: arbitrary sequences of operations with keys that differ in case only or more.
func C14_history() {
	sym.MapOrder(3)
	t := newT('o')
	for i, n := 0, sym.Param("steps", 4, 5); i < n; i++ {
		step(t, i, letterKey(1), 4)
	}
	finish(t, letterKey(1))
}

// C14_keys: short histories with arbitrary ASCII keys.
func C14_keys() {
	sym.MapOrder(3)
	t := newT('o')
	max := sym.Param("keylen", 2, 2)
	for i, n := 0, sym.Param("steps", 2, 3); i < n; i++ {
		step(t, i, anyKey(max), 5)
	}
	finish(t, anyKey(max))
}

// C14_foreign: the same with letters outside ASCII.
func C14_foreign() {
	sym.MapOrder(3)
	t := newT('o')
	for i, n := 0, sym.Param("steps", 2, 3); i < n; i++ {
		step(t, i, foreignKey(), 4)
	}
	finish(t, foreignKey())
}

// C14_parsed: the same on a parsed object and on an imported copy.
func C14_parsed() {
	sym.MapOrder(3)
	doc := []byte(`{"x":1,"y":"s"}`)
	doc[2] = "aAbB"[sym.Choose("key", 4)]
	doc[8] = "aAbB"[sym.Choose("key", 4)]
	v, err := jsonvalue.Unmarshal(doc)
	sym.Assert(err == nil, "valid JSON is refused")
	switch sym.Choose("copy", 3) {
	case 1:
		v, err = jsonvalue.Import(v)
		sym.Assert(err == nil, "a value cannot be imported")
	case 2:
		v.Caseless().MustGet("q")
		v, err = jsonvalue.Import(v)
		sym.Assert(err == nil, "a value cannot be imported")
	}
	t := &T{v: v, k: 'o'}
	for _, k := range []string{"a", "A", "b", "B"} {
		if c, err := v.Get(k); err == nil {
			t.put(k, &T{v: c, k: 'x'})
		}
	}
	for i, n := 0, sym.Param("steps", 1, 2); i < n; i++ {
		step(t, i, letterKey(1), 4)
	}
	finish(t, letterKey(1))
}

// C14_paths: a caseless path through nested objects, and the typed getters, agree with Caseless().Get.
func C14_paths() {
	sym.MapOrder(3)
	t, in := newT('o'), newT('o')
	k1, k2 := letterKey(1), letterKey(1)
	n, s := newT('n'), newT('s')
	in.v.MustSet(n.v).At(k2)
	in.put(k2, n)
	t.v.MustSet(in.v).At(k1)
	t.put(k1, in)
	k3 := letterKey(1)
	t.v.MustSet(s.v).At(k3)
	t.put(k3, s)
	a, b := letterKey(1), letterKey(1)
	cl := t.v.Caseless()
	get := func() (*jsonvalue.V, error) { return cl.Get(a, b) }
	getInt := func() (int, error) { return cl.GetInt(a, b) }
	del := func() error { return cl.Delete(a, b) }
	var list *jsonvalue.V
	if sym.Choose("root", 2) == 1 {
		list = jsonvalue.NewArray()
		list.MustAppendString("first").InTheEnd()
		list.MustAppend(t.v).InTheEnd()
	}
	switch {
	case list == nil:
	case sym.Choose("slice", 2) == 0:
		cl = list.Caseless()
		get = func() (*jsonvalue.V, error) { return cl.Get(-1, a, b) }
		getInt = func() (int, error) { return cl.GetInt(uint8(1), a, b) }
		del = func() error { return cl.Delete(1, a, b) }
	default:
		cl = list.Caseless()
		ps := []any{1, a, b}
		get = func() (*jsonvalue.V, error) { return cl.Get(ps) }
		getInt = func() (int, error) { return cl.GetInt(ps) }
		del = func() error { return cl.Delete(ps) }
	}
	got, err := get()
	i, ierr := getInt()
	found := false
	switch {
	case t.at(a) >= 0 && t.kids[t.at(a)] == s:
		sym.Reach("leaf")
		sym.Assert(err != nil && nothing(got) && ierr != nil && i == 0, "a path through a string finds something")
	case k3 != k1 && t.at(a) < 0 && lower(k3) == lower(a) && lower(k1) == lower(a):
		sym.Reach("ambiguous") // either of the two may be taken
		return
	case lower(k1) == lower(a) && t.fits(t.at(k1), a) && t.kids[t.at(k1)] == in && in.present(b):
		sym.Reach("found")
		sym.Assert(err == nil && got == n.v, "a caseless path misses an element")
		sym.Assert(ierr == nil && i == 7, "Caseless().GetInt disagrees with Caseless().Get")
		found = true
	default:
		sym.Reach("absent")
		sym.Assert(err != nil && nothing(got) && ierr != nil && i == 0, "a caseless path finds something that is not there")
	}
	sym.Assert(t.holds(), "a caseless lookup changes the object")
	err = del()
	sym.Assert((err == nil) == found, "Caseless().Delete and Caseless().Get disagree about a path")
	if found {
		in.remove(in.at(k2))
	}
	sym.Assert(t.holds(), "Caseless().Delete does not delete exactly what the path addresses")
	if list != nil {
		sym.Assert(list.Len() == 2 && list.MustGet(0).String() == "first" && list.MustGet(1) == t.v, "Caseless().Delete does not delete exactly what the path addresses")
	}
}
