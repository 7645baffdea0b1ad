package h

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// visited checks one complete pass of every iteration of an object with the given members, in the order set.
func visited(v *jsonvalue.V, keys []string, kids []*jsonvalue.V) {
	n := len(keys)
	sym.Assert(v.Len() == n, "Len is not the number of members")
	seen := make([]int, n)
	meet := func(k string, c *jsonvalue.V) {
		at := -1
		for i := range keys {
			if keys[i] == k {
				at = i
			}
		}
		sym.Assert(at >= 0, "a member that is not there is visited")
		sym.Assert(kids[at] == c, "a member is visited with another value")
		seen[at]++
	}
	once := func(name string) {
		for i := range seen {
			sym.Assert(seen[i] == 1, name+" does not visit every member once")
			seen[i] = 0
		}
	}
	v.RangeObjects(func(k string, c *jsonvalue.V) bool {
		meet(k, c)
		return true
	})
	once("RangeObjects")
	for it := range v.IterObjects() {
		meet(it.K, it.V)
	}
	once("IterObjects")
	m := v.ForRangeObj()
	sym.Assert(len(m) == n, "ForRangeObj has another number of members")
	for k, c := range m {
		meet(k, c)
	}
	once("ForRangeObj")
	i := 0
	v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool {
		sym.Assert(i < n && k == keys[i] && c == kids[i], "RangeObjectsBySetSequence leaves the order in which keys were set")
		i++
		return true
	})
	sym.Assert(i == n, "RangeObjectsBySetSequence does not visit every member")
	// stopping
	if n > 0 {
		stop := sym.Choose("stop", n)
		count := 0
		v.RangeObjects(func(k string, c *jsonvalue.V) bool {
			meet(k, c)
			count++
			return count <= stop
		})
		sym.Assert(count == stop+1, "RangeObjects does not stop when told")
		for i := range seen {
			sym.Assert(seen[i] <= 1, "RangeObjects visits a member twice")
		}
		count = 0
		v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool {
			sym.Assert(count < n && k == keys[count] && c == kids[count], "RangeObjectsBySetSequence visits in another order before a stop")
			count++
			return count <= stop
		})
		sym.Assert(count == stop+1, "RangeObjectsBySetSequence does not stop when told")
		sym.Reach("stopped")
	}
	// what is returned is the caller's
	m["new key"] = v
	delete(m, "a")
	sym.Assert(v.Len() == n && len(v.ForRangeObj()) == n, "the map of ForRangeObj is the object's own")
	wrongKind(v, true)
	sym.Reach("visited")
}

// wrongKind: iterating as what the value is not, or without a callback, does nothing.
func wrongKind(v *jsonvalue.V, obj bool) {
	none := func() { sym.Assert(false, "a value of another type is iterated") }
	v.RangeObjects(nil)
	v.RangeObjectsBySetSequence(nil)
	v.RangeArray(nil)
	if obj {
		v.RangeArray(func(int, *jsonvalue.V) bool { none(); return true })
		for range v.IterArray() {
			none()
		}
		sym.Assert(len(v.ForRangeArr()) == 0, "ForRangeArr of an object")
		return
	}
	v.RangeObjects(func(string, *jsonvalue.V) bool { none(); return true })
	v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { none(); return true })
	for range v.IterObjects() {
		none()
	}
	sym.Assert(len(v.ForRangeObj()) == 0, "ForRangeObj of another type")
}

// C24_objects: an arbitrary history of setting (by every way) and deleting keys, then every iteration.
func C24_objects() {
	sym.MapOrder(sym.Param("maporder", 3, 2))
	v := jsonvalue.NewObject()
	var keys []string
	var kids []*jsonvalue.V
	drop := func(k string) {
		for i := range keys {
			if keys[i] == k {
				keys = append(keys[:i:i], keys[i+1:]...)
				kids = append(kids[:i:i], kids[i+1:]...)
				return
			}
		}
	}
	for i, n := 0, sym.Choose("ops", sym.Param("ops", 3, 4)+1); i < n; i++ {
		k := string([]byte{sym.OneOf("key", "abA")})
		var c *jsonvalue.V
		switch sym.Choose("op", 4) {
		case 0:
			c, _ = v.SetInt(i).At(k)
		case 1:
			c, _ = v.SetObject().At(k)
		case 2:
			_ = v.Delete(k)
			drop(k)
			continue
		case 3: // through an intermediate level; the outer key is set again only if it had to be created
			_, err := v.SetString("x").At(k, "y")
			if err == nil {
				c, _ = v.Get(k)
				known := false
				for j := range keys {
					known = known || keys[j] == k
				}
				if known {
					continue
				}
			} else {
				continue
			}
		}
		drop(k)
		keys = append(keys, k)
		kids = append(kids, c)
	}
	visited(v, keys, kids)
}

// C24_parsed: members of parsed objects, with repeated keys, in the order of their last occurrence.
func C24_parsed() {
	sym.MapOrder(sym.Param("maporder", 3, 2))
	n := sym.Choose("members", sym.Param("members", 3, 4)+1)
	b := []byte{'{'}
	var keys []string
	for i := 0; i < n; i++ {
		k := sym.OneOf("key", "abc")
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '"', k, '"', ':', byte('0'+i))
		for j := range keys {
			if keys[j] == string(k) {
				keys = append(keys[:j:j], keys[j+1:]...)
				break
			}
		}
		keys = append(keys, string(k))
	}
	v, err := jsonvalue.Unmarshal(append(b, '}'))
	sym.Assert(err == nil, "valid text refused")
	var kids []*jsonvalue.V
	for _, k := range keys {
		c, err := v.Get(k)
		sym.Assert(err == nil, "a parsed member is missing")
		kids = append(kids, c)
	}
	visited(v, keys, kids)
}

// elements checks every iteration of an array.
func elements(v *jsonvalue.V, kids []*jsonvalue.V) {
	n := len(kids)
	sym.Assert(v.Len() == n, "Len is not the number of elements")
	i := 0
	v.RangeArray(func(j int, c *jsonvalue.V) bool {
		sym.Assert(i < n && j == i && c == kids[i], "RangeArray visits other elements")
		i++
		return true
	})
	sym.Assert(i == n, "RangeArray does not visit every element")
	i = 0
	for it := range v.IterArray() {
		sym.Assert(i < n && it.I == i && it.V == kids[i], "IterArray visits other elements")
		i++
	}
	sym.Assert(i == n, "IterArray does not visit every element")
	a := v.ForRangeArr()
	sym.Assert(len(a) == n, "ForRangeArr has another length")
	for i := range a {
		sym.Assert(a[i] == kids[i], "ForRangeArr has other elements")
		a[i] = v
	}
	_ = append(a, v)
	for i, c := range v.ForRangeArr() {
		sym.Assert(c == kids[i], "the slice of ForRangeArr is the array's own")
	}
	if n > 0 {
		stop := sym.Choose("stop", n)
		count := 0
		v.RangeArray(func(j int, c *jsonvalue.V) bool {
			sym.Assert(j == count && c == kids[count], "RangeArray visits other elements before a stop")
			count++
			return j != stop
		})
		sym.Assert(count == stop+1, "RangeArray does not stop when told")
		sym.Reach("stopped")
	}
	wrongKind(v, false)
	sym.Reach("elements")
}

// C24_arrays: arrays after an arbitrary history, and parsed ones.
func C24_arrays() {
	if sym.Choose("parsed", 2) == 1 {
		n := sym.Choose("len", sym.Param("maxlen", 18, 40))
		b := []byte{'['}
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, sym.OneOf("digit", "123"))
		}
		v, err := jsonvalue.Unmarshal(append(b, ']'))
		sym.Assert(err == nil, "valid text refused")
		var kids []*jsonvalue.V
		for i := 0; i < n; i++ {
			c, err := v.Get(i)
			sym.Assert(err == nil && c.Int() == int(b[1+2*i]-'0'), "a parsed element is wrong")
			kids = append(kids, c)
		}
		elements(v, kids)
		return
	}
	v := jsonvalue.NewArray()
	var kids []*jsonvalue.V
	put := func(i int, c *jsonvalue.V) {
		kids = append(kids, nil)
		copy(kids[i+1:], kids[i:])
		kids[i] = c
	}
	for i, n := 0, sym.Choose("ops", sym.Param("ops", 4, 5)+1); i < n; i++ {
		switch op := sym.Choose("op", 4); op {
		case 0:
			c, _ := v.AppendInt(i).InTheEnd()
			put(len(kids), c)
		case 1:
			c, _ := v.AppendNull().InTheBeginning()
			put(0, c)
		default:
			if len(kids) == 0 {
				sym.Assume(false)
			}
			p := sym.Choose("pos", len(kids))
			if op == 2 {
				_ = v.Delete(p)
				kids = append(kids[:p:p], kids[p+1:]...)
				continue
			}
			c, _ := v.InsertString("s").After(p)
			put(p+1, c)
		}
	}
	elements(v, kids)
}

// C24_others: scalars, uninitialised and nil values have nothing to visit.
func C24_others() {
	vs := []*jsonvalue.V{jsonvalue.NewNull(), jsonvalue.NewString("a"), jsonvalue.NewInt(1), jsonvalue.NewBool(true),
		jsonvalue.NewFloat64(1.5), jsonvalue.NewBytes([]byte{1}), {}, jsonvalue.MustUnmarshal([]byte("[")),
		jsonvalue.MustUnmarshalString(`"s"`), jsonvalue.NewObject().MustGet("a"), jsonvalue.New(make(chan int))}
	v := vs[sym.Choose("value", len(vs))]
	sym.Assert(v.Len() == 0, "Len of a value without elements")
	wrongKind(v, true)
	wrongKind(v, false)
	sym.Reach("nothing visited")
}

// C24_changed: callbacks that change the object (or append to the array) they iterate; members that are left alone
// are visited exactly once.
func C24_changed() {
	sym.MapOrder(sym.Param("maporder", 3, 2))
	kind := sym.Choose("iteration", 4)
	if kind == 3 {
		v := jsonvalue.NewArray()
		var kids []*jsonvalue.V
		for i, n := 0, 1+sym.Choose("len", 3); i < n; i++ {
			c, _ := v.AppendInt(i).InTheEnd()
			kids = append(kids, c)
		}
		at, how := sym.Choose("at", len(kids)), sym.Choose("how", 3)
		j := 0
		v.RangeArray(func(i int, c *jsonvalue.V) bool {
			if j >= len(kids) {
				return true // appended meanwhile
			}
			sym.Assert(i == j && (c == kids[i] || how == 1 && i == at+1), "RangeArray visits other elements of an array that grows")
			if i == at {
				switch how {
				case 0:
					v.MustAppendNull().InTheEnd()
				case 1:
					v.MustSetString("new").At((at + 1) % len(kids))
				case 2:
					c.MustSetString("new").At("a") // is a number: refused
				}
			}
			j++
			return true
		})
		sym.Assert(j == len(kids), "RangeArray does not visit every element of an array that grows")
		sym.Reach("array")
		return
	}
	v := jsonvalue.NewObject()
	all := []string{"a", "b", "c", "d"}[:2+sym.Choose("members", 3)]
	for i, k := range all {
		v.MustSetInt(i).At(k)
	}
	seen := make([]int, len(all))
	left := make([]bool, len(all))
	for i := range left {
		left[i] = true
	}
	when, count := sym.Choose("when", len(all)), 0
	touch := func() {
		k := sym.Choose("key", len(all)+1)
		if k == len(all) {
			v.MustSetNull().At("new")
			return
		}
		if sym.Choose("delete", 2) == 1 {
			left[k] = false // even if it is set again
			v.MustDelete(all[k])
		} else {
			v.MustSetString("new").At(all[k])
		}
	}
	meet := func(k string, c *jsonvalue.V) bool {
		for i := range all {
			if all[i] == k {
				seen[i]++
				sym.Assert(seen[i] == 1, "a member is visited twice")
				sym.Assert(c != nil && (c.IsString() || c.Int() == i), "a member is visited with another value")
			}
		}
		if count == when {
			touch()
			touch()
		}
		count++
		return true
	}
	switch kind {
	case 0:
		v.RangeObjects(meet)
	case 1:
		v.RangeObjectsBySetSequence(meet)
	case 2:
		for k, c := range v.ForRangeObj() {
			meet(k, c)
		}
	}
	for i := range all {
		sym.Assert(seen[i] == 1 || !left[i], "a member that stays is not visited")
	}
	sym.Reach("object")
}
