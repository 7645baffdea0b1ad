package h

import (
	"encoding"
	"encoding/json"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// fresh builds another value of the same shape.
func (t *T) fresh() *jsonvalue.V {
	c := newT(t.k)
	for i, k := range t.kids {
		if t.k == 'o' {
			c.v.MustSet(k.fresh()).At(t.keys[i])
		} else {
			c.v.MustAppend(k.fresh()).InTheEnd()
		}
	}
	return c.v
}

// alike tells whether two values have the same content, members of objects in any order.
func alike(a, b *jsonvalue.V) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.ValueType() != b.ValueType() || a.Len() != b.Len() {
		return false
	}
	switch a.ValueType() {
	case jsonvalue.Array:
		x, y := a.ForRangeArr(), b.ForRangeArr()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !alike(x[i], y[i]) {
				return false
			}
		}
	case jsonvalue.Object:
		x, y := a.ForRangeObj(), b.ForRangeObj()
		if len(x) != len(y) {
			return false
		}
		for k, c := range x {
			d, ok := y[k]
			if !ok || !alike(c, d) {
				return false
			}
		}
	case jsonvalue.String, jsonvalue.Number:
		return a.String() == b.String()
	case jsonvalue.Boolean:
		return a.Bool() == b.Bool()
	}
	return true
}

// sameSequence tells whether the members were set in the same order.
func sameSequence(a, b *jsonvalue.V) bool {
	x, _ := a.Marshal(jsonvalue.OptSetSequence())
	y, _ := b.Marshal(jsonvalue.OptSetSequence())
	return string(x) == string(y)
}

// forms26 are the spellings of one operation; the first returns the result.
func forms26(v *jsonvalue.V, op, form int, x any, first any, rest []any, all []any) (got *jsonvalue.V, err error, must bool) {
	switch op {
	case 0:
		switch form {
		case 0:
			got, err = v.Set(x).At(first, rest...)
		case 1:
			v.MustSet(x).At(first, rest...)
		case 2:
			v.At(first, rest...).Set(x)
		}
	case 1:
		switch form {
		case 0:
			got, err = v.Insert(x).Before(first, rest...)
		default:
			v.MustInsert(x).Before(first, rest...)
		}
	case 2:
		switch form {
		case 0:
			got, err = v.Insert(x).After(first, rest...)
		default:
			v.MustInsert(x).After(first, rest...)
		}
	case 3:
		switch form {
		case 0:
			got, err = v.Append(x).InTheEnd(all...)
		default:
			v.MustAppend(x).InTheEnd(all...)
		}
	case 4:
		switch form {
		case 0:
			got, err = v.Append(x).InTheBeginning(all...)
		default:
			v.MustAppend(x).InTheBeginning(all...)
		}
	case 5:
		switch form {
		case 0:
			err = v.Delete(first, rest...)
		default:
			v.MustDelete(first, rest...)
		}
	case 6:
		switch form {
		case 0:
			err = v.Caseless().Delete(first, rest...)
		default:
			v.Caseless().MustDelete(first, rest...)
		}
	case 7:
		switch form {
		case 0:
			got, err = v.Get(first, rest...)
		default:
			got = v.MustGet(first, rest...)
		}
	case 8:
		switch form {
		case 0:
			got, err = v.Caseless().Get(first, rest...)
		default:
			got = v.Caseless().MustGet(first, rest...)
		}
	}
	return got, err, form != 0
}

// C26_operations: all forms of an operation have the same effect on equal values, for arbitrary paths and children.
func C26_operations() {
	g := &grower{left: sym.Param("nodes", 4, 5), wide: 2, leaves: "nz0", keys: []string{"a", "b"}}
	t := g.grow(2)
	op := sym.Choose("operation", 9)
	kinds := "n"
	if op < 5 {
		kinds = "no-FN"
	}
	x, c, bad := child(kinds)
	ps := []param{}
	n := sym.Choose("length", 3)
	for i := 0; i < n; i++ {
		if i == 0 {
			ps = append(ps, plain("abA"))
		} else if sym.Choose("kind of param", 2) == 0 {
			k := "a"
			if op == 6 || op == 8 {
				k = "A"
			}
			ps = append(ps, strParam(k, k))
		} else {
			ps = append(ps, intParam(-1, -1))
		}
	}
	var first any
	var rest, all []any
	for i, p := range ps {
		all = append(all, p.x)
		if i > 0 {
			rest = append(rest, p.x)
		}
	}
	if n == 0 {
		if op != 3 && op != 4 {
			first, rest = nil, nil
		}
	} else {
		first = all[0]
	}
	other := x
	if bad == eNone && c.v != nil {
		other = c.fresh()
	}
	v, w := t.fresh(), t.fresh()
	a, err, _ := forms26(v, op, 0, x, first, rest, all)
	form := 1
	if op == 0 {
		form += sym.Choose("form", 2)
	}
	b, _, _ := forms26(w, op, form, other, first, rest, all)
	sym.Assert(alike(v, w), "the Must form has another effect than the original")
	if !t.hasNothing() {
		sym.Assert(sameSequence(v, w), "the Must form leads to another order of members")
	}
	if err != nil {
		sym.Assert(nothing(a) || op == 5 || op == 6, "a failing operation returns an existing value")
		sym.Assert(op < 7 || nothing(b), "a failing MustGet returns an existing value")
		sym.Assert(alike(w, t.v), "a failing operation changed the value")
		sym.Reach("failing")
	} else if op >= 7 {
		sym.Assert(alike(a, b), "MustGet returns another value than Get")
	}
	sym.Log("operation", op, err != nil)
}

func (t *T) hasNothing() bool {
	if t.k == '0' {
		return true
	}
	for _, c := range t.kids {
		if c.hasNothing() {
			return true
		}
	}
	return false
}

// C26_typed: the typed shortcuts are Set, Insert and Append of the value their constructor makes.
func C26_typed() {
	s := string([]byte{sym.Byte("s")})
	b := sym.Bool("b")
	i64 := sym.I64("i64")
	u64 := sym.U64("u64")
	f := 1.5
	if sym.Choose("float", 2) == 1 {
		f = -3e9
	}
	var want *jsonvalue.V
	k := sym.Choose("type", 14)
	switch k {
	case 0:
		want = jsonvalue.NewString(s)
	case 1:
		want = jsonvalue.NewBool(b)
	case 2:
		want = jsonvalue.NewInt(int(i64))
	case 3:
		want = jsonvalue.NewInt64(i64)
	case 4:
		want = jsonvalue.NewInt32(int32(i64))
	case 5:
		want = jsonvalue.NewUint(uint(u64))
	case 6:
		want = jsonvalue.NewUint64(u64)
	case 7:
		want = jsonvalue.NewUint32(uint32(u64))
	case 8:
		want = jsonvalue.NewFloat64(f)
	case 9:
		want = jsonvalue.NewFloat32(float32(f))
	case 10:
		want = jsonvalue.NewNull()
	case 11:
		want = jsonvalue.NewObject()
	case 12:
		want = jsonvalue.NewArray()
	case 13:
		want = jsonvalue.NewBytes([]byte(s))
	}
	const first, second = "first", "second"
	var v *jsonvalue.V
	var got *jsonvalue.V
	var err error
	pos := 1
	form := sym.Choose("form", 8)
	obj := form == 0 || form == 1
	if obj {
		v = jsonvalue.NewObject()
		v.MustSetNull().At(first)
	} else {
		v = jsonvalue.NewArray()
		v.MustAppendNull().InTheEnd()
	}
	setter := func(s jsonvalue.Setter) { got, err = s.At(second) }
	mustSetter := func(s jsonvalue.MustSetter) { s.At(second) }
	inserter := func(s jsonvalue.Inserter) { got, err = s.After(0) }
	mustInserter := func(s jsonvalue.MustInserter) { s.Before(0); pos = 0 }
	appender := func(s jsonvalue.Appender) { got, err = s.InTheEnd() }
	mustAppender := func(s jsonvalue.MustAppender) { s.InTheBeginning(); pos = 0 }
	switch form {
	case 2:
		// a typed Insert of bytes does not exist
		sym.Assume(k != 13)
	case 3:
		sym.Assume(k != 13)
	case 6, 7:
		if form == 6 {
			mustAppender = func(s jsonvalue.MustAppender) { s.InTheEnd() }
			form = 5
		} else {
			appender = func(s jsonvalue.Appender) { got, err = s.InTheBeginning(); pos = 0 }
			form = 4
		}
	}
	switch form*14 + k {
	case 0:
		setter(v.SetString(s))
	case 1:
		setter(v.SetBool(b))
	case 2:
		setter(v.SetInt(int(i64)))
	case 3:
		setter(v.SetInt64(i64))
	case 4:
		setter(v.SetInt32(int32(i64)))
	case 5:
		setter(v.SetUint(uint(u64)))
	case 6:
		setter(v.SetUint64(u64))
	case 7:
		setter(v.SetUint32(uint32(u64)))
	case 8:
		setter(v.SetFloat64(f))
	case 9:
		setter(v.SetFloat32(float32(f)))
	case 10:
		setter(v.SetNull())
	case 11:
		setter(v.SetObject())
	case 12:
		setter(v.SetArray())
	case 13:
		setter(v.SetBytes([]byte(s)))
	case 14:
		mustSetter(v.MustSetString(s))
	case 15:
		mustSetter(v.MustSetBool(b))
	case 16:
		mustSetter(v.MustSetInt(int(i64)))
	case 17:
		mustSetter(v.MustSetInt64(i64))
	case 18:
		mustSetter(v.MustSetInt32(int32(i64)))
	case 19:
		mustSetter(v.MustSetUint(uint(u64)))
	case 20:
		mustSetter(v.MustSetUint64(u64))
	case 21:
		mustSetter(v.MustSetUint32(uint32(u64)))
	case 22:
		mustSetter(v.MustSetFloat64(f))
	case 23:
		mustSetter(v.MustSetFloat32(float32(f)))
	case 24:
		mustSetter(v.MustSetNull())
	case 25:
		mustSetter(v.MustSetObject())
	case 26:
		mustSetter(v.MustSetArray())
	case 27:
		mustSetter(v.MustSetBytes([]byte(s)))
	case 28:
		inserter(v.InsertString(s))
	case 29:
		inserter(v.InsertBool(b))
	case 30:
		inserter(v.InsertInt(int(i64)))
	case 31:
		inserter(v.InsertInt64(i64))
	case 32:
		inserter(v.InsertInt32(int32(i64)))
	case 33:
		inserter(v.InsertUint(uint(u64)))
	case 34:
		inserter(v.InsertUint64(u64))
	case 35:
		inserter(v.InsertUint32(uint32(u64)))
	case 36:
		inserter(v.InsertFloat64(f))
	case 37:
		inserter(v.InsertFloat32(float32(f)))
	case 38:
		inserter(v.InsertNull())
	case 39:
		inserter(v.InsertObject())
	case 40:
		inserter(v.InsertArray())
	case 42:
		mustInserter(v.MustInsertString(s))
	case 43:
		mustInserter(v.MustInsertBool(b))
	case 44:
		mustInserter(v.MustInsertInt(int(i64)))
	case 45:
		mustInserter(v.MustInsertInt64(i64))
	case 46:
		mustInserter(v.MustInsertInt32(int32(i64)))
	case 47:
		mustInserter(v.MustInsertUint(uint(u64)))
	case 48:
		mustInserter(v.MustInsertUint64(u64))
	case 49:
		mustInserter(v.MustInsertUint32(uint32(u64)))
	case 50:
		mustInserter(v.MustInsertFloat64(f))
	case 51:
		mustInserter(v.MustInsertFloat32(float32(f)))
	case 52:
		mustInserter(v.MustInsertNull())
	case 53:
		mustInserter(v.MustInsertObject())
	case 54:
		mustInserter(v.MustInsertArray())
	case 56:
		appender(v.AppendString(s))
	case 57:
		appender(v.AppendBool(b))
	case 58:
		appender(v.AppendInt(int(i64)))
	case 59:
		appender(v.AppendInt64(i64))
	case 60:
		appender(v.AppendInt32(int32(i64)))
	case 61:
		appender(v.AppendUint(uint(u64)))
	case 62:
		appender(v.AppendUint64(u64))
	case 63:
		appender(v.AppendUint32(uint32(u64)))
	case 64:
		appender(v.AppendFloat64(f))
	case 65:
		appender(v.AppendFloat32(float32(f)))
	case 66:
		appender(v.AppendNull())
	case 67:
		appender(v.AppendObject())
	case 68:
		appender(v.AppendArray())
	case 69:
		appender(v.AppendBytes([]byte(s)))
	case 70:
		mustAppender(v.MustAppendString(s))
	case 71:
		mustAppender(v.MustAppendBool(b))
	case 72:
		mustAppender(v.MustAppendInt(int(i64)))
	case 73:
		mustAppender(v.MustAppendInt64(i64))
	case 74:
		mustAppender(v.MustAppendInt32(int32(i64)))
	case 75:
		mustAppender(v.MustAppendUint(uint(u64)))
	case 76:
		mustAppender(v.MustAppendUint64(u64))
	case 77:
		mustAppender(v.MustAppendUint32(uint32(u64)))
	case 78:
		mustAppender(v.MustAppendFloat64(f))
	case 79:
		mustAppender(v.MustAppendFloat32(float32(f)))
	case 80:
		mustAppender(v.MustAppendNull())
	case 81:
		mustAppender(v.MustAppendObject())
	case 82:
		mustAppender(v.MustAppendArray())
	case 83:
		mustAppender(v.MustAppendBytes([]byte(s)))
	default:
		panic("form")
	}
	sym.Assert(err == nil, "a typed shortcut fails")
	sym.Assert(v.Len() == 2, "a typed shortcut does not add exactly one element")
	var have *jsonvalue.V
	if obj {
		have = v.ForRangeObj()[second]
		sym.Assert(v.ForRangeObj()[first].IsNull(), "a typed shortcut changed another member")
	} else {
		have = v.ForRangeArr()[pos]
		sym.Assert(v.ForRangeArr()[1-pos].IsNull(), "a typed shortcut put the value at another place")
	}
	if form == 0 || form == 2 || form == 4 {
		sym.Assert(got == have, "a typed shortcut returns another value than the one it added")
	}
	sym.Assert(have != nil && have.ValueType() == want.ValueType(), "a typed shortcut made a value of another type")
	sym.Assert(have.IsInteger() == want.IsInteger() && have.IsFloat() == want.IsFloat() && have.IsNegative() == want.IsNegative() &&
		have.IsPositive() == want.IsPositive() && have.GreaterThanInt64Max() == want.GreaterThanInt64Max(), "a typed shortcut made another class of number")
	sym.Assert(have.Bool() == want.Bool() && have.Int64() == want.Int64() && have.Uint64() == want.Uint64() && have.Float64() == want.Float64(), "a typed shortcut made a value with another content")
	if k == 0 || k == 13 || k >= 8 {
		sym.Assert(have.String() == want.String(), "a typed shortcut made a value with another text")
	}
	sym.Log("typed", form, k)
}

// parsers26 runs one of the parsing functions.
func parsers26(form int, b []byte) (v *jsonvalue.V, err error, must bool) {
	c := append([]byte{}, b...)
	switch form {
	case 0:
		v = jsonvalue.MustUnmarshal(c)
		must = true
	case 1:
		v, err = jsonvalue.UnmarshalString(string(c))
	case 2:
		v = jsonvalue.MustUnmarshalString(string(c))
		must = true
	case 3:
		v, err = jsonvalue.UnmarshalNoCopy(c)
	case 4:
		v = jsonvalue.MustUnmarshalNoCopy(c)
		must = true
	case 5:
		v = &jsonvalue.V{}
		err = v.UnmarshalJSON(c)
	case 6:
		v = jsonvalue.NewObject()
		v.MustSetString("old").At("key")
		err = v.UnmarshalBinary(c)
		if err != nil {
			sym.Assert(v.IsObject() && v.Len() == 1 && v.MustGet("key").String() == "old", "a failing UnmarshalBinary changed the value")
			v = &jsonvalue.V{}
		}
	case 7:
		v = jsonvalue.NewArray()
		v.MustAppendString("old").InTheEnd()
		var u json.Unmarshaler = v
		err = u.UnmarshalJSON(c)
		if err != nil {
			sym.Assert(v.IsArray() && v.Len() == 1 && v.MustGet(0).String() == "old", "a failing UnmarshalJSON changed the value")
			v = &jsonvalue.V{}
		}
	case 8:
		v = jsonvalue.NewInt(12)
		var u encoding.BinaryUnmarshaler = v
		err = u.UnmarshalBinary(c)
		if err != nil {
			sym.Assert(v.IsNumber() && v.Int() == 12, "a failing UnmarshalBinary changed the value")
			v = &jsonvalue.V{}
		}
	}
	return v, err, must
}

func checkParsers(b []byte) {
	form := sym.Choose("form", 9)
	v, err := jsonvalue.Unmarshal(append([]byte{}, b...))
	w, e, must := parsers26(form, b)
	sym.Assert(v != nil && w != nil, "a parser returns nil")
	if !must {
		sym.Assert((err == nil) == (e == nil), "two parsers disagree about an error")
		sym.Assert(err == nil || err.Error() == e.Error(), "two parsers report different errors")
	}
	if err != nil {
		sym.Assert(nothing(w), "a failing parser returns an existing value")
		sym.Reach("refused")
	} else {
		sym.Assert(alike(v, w), "two parsers give different values")
		sym.Reach("accepted")
	}
	sym.Log("parsed", err == nil, form)
}

// C26_parse: all parsing functions agree on arbitrary texts.
func C26_parse() {
	checkParsers(sym.Bytes("text", sym.Choose("len", sym.Param("maxlen", 4, 5))))
}

// C26_documents: and on edited documents.
func C26_documents() {
	checkParsers(mutate(sym.Param("edits", 1, 2)))
}

// agree tells whether two texts are the same up to the order of members, which is random unless an option fixes it.
func agree(a, b string) bool {
	if a == b {
		return true
	}
	m, ok := refParse([]byte(a), false)
	n, fine := refParse([]byte(b), false)
	return ok && fine && len(a) == len(b) && sameN(m, n)
}

// C26_marshal: all marshaling functions agree, with and without options, also when marshaling fails.
func C26_marshal() {
	g := &tree{left: sym.Param("nodes", 3, 4), wide: 2, leaves: "stzNP", keys: "ab"}
	v, _ := g.value(2)
	if sym.Choose("uninitialized", 4) == 0 {
		u := &jsonvalue.V{}
		switch sym.Choose("where", 2) {
		case 0:
			v = u
		case 1:
			v = jsonvalue.NewArray()
			v.MustAppend(u).InTheEnd()
		}
	}
	var opts []jsonvalue.Option
	plainOnly := false
	switch sym.Choose("options", 5) {
	case 0:
		plainOnly = true
	case 1:
		opts = []jsonvalue.Option{jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToString("i", "j")}
	case 2:
		opts = []jsonvalue.Option{jsonvalue.OptSetSequence(), jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false)}
	case 3:
		opts = []jsonvalue.Option{jsonvalue.OptIndent("", " "), jsonvalue.OptOmitNull(true)}
	case 4:
		opts = []jsonvalue.Option{jsonvalue.Opt{OmitNull: true, MarshalLessFunc: jsonvalue.DefaultStringSequence}}
	}
	out, err := v.Marshal(opts...)
	if err != nil {
		sym.Assert(len(out) == 0, "a failing Marshal returns a text")
		sym.Assert(len(v.MustMarshal(opts...)) == 0, "MustMarshal returns a text although Marshal fails")
		sym.Assert(v.MustMarshalString(opts...) == "", "MustMarshalString returns a text although Marshal fails")
		s, e := v.MarshalString(opts...)
		sym.Assert(s == "" && e != nil, "MarshalString does not fail like Marshal")
		sym.Reach("failing")
	} else {
		s, e := v.MarshalString(opts...)
		sym.Assert(e == nil && agree(s, string(out)), "MarshalString differs from Marshal")
		sym.Assert(agree(string(v.MustMarshal(opts...)), s), "MustMarshal differs from Marshal")
		sym.Assert(agree(v.MustMarshalString(opts...), s), "MustMarshalString differs from Marshal")
	}
	if plainOnly {
		var m json.Marshaler = v
		b, e := m.MarshalJSON()
		sym.Assert((e == nil) == (err == nil) && agree(string(b), string(out)), "MarshalJSON differs from Marshal")
		var n encoding.BinaryMarshaler = v
		b, e = n.MarshalBinary()
		sym.Assert((e == nil) == (err == nil) && agree(string(b), string(out)), "MarshalBinary differs from Marshal")
	}
	sym.Log("marshaled", err == nil, len(out))
}
