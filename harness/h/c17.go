package h

import (
	"math"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// integer is an arbitrary integer of n digits that fits, with its sign and digits.
func integer(n int, neg bool, max string) (text []byte, u uint64) {
	var d []byte
	if n == len(max) {
		// the first digits are those of the limit, the next one is smaller
		k := sym.Choose("common", n+1)
		d = append(d, max[:k]...)
		if k < n {
			d = append(d, sym.Digits("d", n-k)...)
			sym.Assume(d[k] < max[k])
		}
	} else {
		d = sym.Digits("d", n)
	}
	sym.Assume(n == 1 || d[0] != '0')
	for _, c := range d {
		u = u*10 + uint64(c-'0')
	}
	if neg {
		sym.Assume(n > 1 || d[0] != '0')
		return append([]byte{'-'}, d...), u
	}
	return d, u
}

// isInteger: v is the integer ±u written text, made from a signed or unsigned one.
func isInteger(v *jsonvalue.V, text []byte, signed, neg bool, u uint64) {
	sym.Assert(v.ValueType() == jsonvalue.Number && v.IsNumber() && v.IsInteger() && !v.IsFloat(), "an integer is not one")
	sym.Assert(v.String() == string(text), "String() of an integer is not its decimal form")
	out, err := v.Marshal()
	sym.Assert(err == nil && string(out) == string(text), "an integer is not marshaled in its decimal form")
	sym.Assert(v.IsNegative() == neg && v.IsPositive() == !neg, "sign of an integer")
	if neg {
		i := -int64(u)
		sym.Assert(v.Int64() == i && v.Int() == int(i) && v.Int32() == int32(i), "Int64 of a negative integer")
		sym.Assert(v.Float64() == float64(i), "Float64 of a negative integer")
		sym.Assert(!v.GreaterThanInt64Max(), "GreaterThanInt64Max of a negative integer")
		sym.Assert(v.Uint64() == uint64(i) && v.Uint() == uint(i) && v.Uint32() == uint32(i), "Uint64 of a negative integer")
		return
	}
	sym.Assert(v.Uint64() == u && v.Uint() == uint(u) && v.Uint32() == uint32(u), "Uint64 of an integer")
	if leDigits(text, "9223372036854775807") {
		sym.Assert(v.Int64() == int64(u) && v.Int() == int(u) && v.Int32() == int32(u), "Int64 of an integer")
		sym.Assert(!v.GreaterThanInt64Max(), "GreaterThanInt64Max of a small integer")
	} else {
		sym.Assert(v.GreaterThanInt64Max(), "GreaterThanInt64Max of a large integer")
	}
	if signed {
		sym.Assert(v.Float64() == float64(int64(u)), "Float64 of an integer")
	} else {
		sym.Assert(v.Float64() == float64(u), "Float64 of an integer")
	}
}

// C17_integers: every integer through the constructors of the widest types.
func C17_integers() {
	n := sym.Choose("digits", 20) + 1
	switch k := sym.Choose("constructor", 4); k {
	case 0, 1:
		neg := k == 1
		sym.Assume(n <= 19)
		max := "9223372036854775807"
		if neg {
			max = "9223372036854775808"
		}
		text, u := integer(n, neg, max)
		i := int64(u)
		if neg {
			i = -i
		}
		v := jsonvalue.NewInt64(i)
		isInteger(v, text, true, neg, u)
		sym.Reach("int64")
	case 2:
		text, u := integer(n, false, "18446744073709551615")
		isInteger(jsonvalue.NewUint64(u), text, false, false, u)
		sym.Reach("uint64")
	case 3:
		text, u := integer(n, false, "18446744073709551615")
		v, err := jsonvalue.Import(u)
		sym.Assert(err == nil, "an integer cannot be imported")
		isInteger(v, text, false, false, u)
	}
}

// form is the ways to store a value of one Go type.
type form struct {
	ctor func() *jsonvalue.V
	set  func(v *jsonvalue.V) jsonvalue.Setter
	mset func(v *jsonvalue.V) jsonvalue.MustSetter
	app  func(v *jsonvalue.V) jsonvalue.Appender
	mapp func(v *jsonvalue.V) jsonvalue.MustAppender
	ins  func(v *jsonvalue.V) jsonvalue.Inserter
	mins func(v *jsonvalue.V) jsonvalue.MustInserter
	val  any  // the Go value
	kv   bool // may be given to NewObject
}

// stored stores the value in one of the ways and fetches it again.
func (f *form) stored() *jsonvalue.V {
	o, a := jsonvalue.NewObject(), jsonvalue.NewArray()
	a.MustAppendNull().InTheEnd()
	way := sym.Choose("way", 13)
	if f.val == nil && way >= 9 || !f.kv && way == 10 || f.set == nil && way < 9 {
		sym.Assume(false)
	}
	var got *jsonvalue.V
	var err error
	switch way {
	case 0:
		return f.ctor()
	case 1:
		got, err = f.set(o).At("k")
	case 2:
		got, err = f.set(a).At(0)
	case 3:
		f.mset(o).At("k")
	case 4:
		got, err = f.app(a).InTheEnd()
	case 5:
		f.mapp(a).InTheBeginning()
	case 6:
		got, err = f.ins(a).Before(0)
	case 7:
		got, err = f.ins(a).After(-1)
	case 8:
		f.mins(a).After(0)
	case 9:
		return jsonvalue.New(f.val)
	case 10:
		o = jsonvalue.NewObject(jsonvalue.M{"k": f.val})
	case 11:
		o.At("k").Set(f.val)
	case 12:
		a.MustAppend(f.val).InTheEnd()
	}
	var v *jsonvalue.V
	var e2 error
	switch way {
	case 1, 3, 10, 11:
		v, e2 = o.Get("k")
	case 2, 5, 6:
		v, e2 = a.Get(0)
	default:
		v, e2 = a.Get(1)
	}
	sym.Assert(err == nil && e2 == nil, "a value cannot be stored or fetched")
	sym.Assert(got == nil || got == v, "the value returned is not the stored one")
	return v
}

// C17_forms: the shortcuts for integers store what the constructor makes.
func C17_forms() {
	lens := []int{1, 3, 10, 19}
	n := lens[sym.Choose("digits", sym.Param("lengths", 3, 4)+1)]
	neg := sym.Choose("negative", 2) == 1
	kind := sym.Choose("kind", 10)
	max := "9223372036854775807"
	if neg {
		max = "9223372036854775808"
	}
	limits := []string{"", "", "2147483647", "18446744073709551615", "18446744073709551615", "4294967295", "127", "32767", "255", "65535"}
	if limits[kind] != "" {
		max = limits[kind]
		if neg {
			switch kind {
			case 2:
				max = "2147483648"
			case 6:
				max = "128"
			case 7:
				max = "32768"
			default:
				sym.Assume(false)
			}
		}
	}
	sym.Assume(n <= len(max))
	text, u := integer(n, neg, max)
	i := int64(u)
	if neg {
		i = -i
	}
	f := &form{kv: true}
	switch kind {
	case 0:
		x := int(i)
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewInt(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetInt(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetInt(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendInt(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendInt(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertInt(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertInt(x) },
			x, true,
		}
	case 1:
		x := i
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewInt64(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetInt64(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetInt64(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendInt64(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendInt64(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertInt64(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertInt64(x) },
			x, true,
		}
	case 2:
		x := int32(i)
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewInt32(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetInt32(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetInt32(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendInt32(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendInt32(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertInt32(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertInt32(x) },
			x, true,
		}
	case 3:
		x := uint(u)
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewUint(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetUint(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetUint(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendUint(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendUint(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertUint(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertUint(x) },
			x, true,
		}
	case 4:
		x := u
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewUint64(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetUint64(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetUint64(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendUint64(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendUint64(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertUint64(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertUint64(x) },
			x, true,
		}
	case 5:
		x := uint32(u)
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewUint32(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetUint32(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetUint32(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendUint32(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendUint32(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertUint32(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertUint32(x) },
			x, true,
		}
	case 6:
		f.val = int8(i)
	case 7:
		f.val = int16(i)
	case 8:
		f.val = uint8(u)
	case 9:
		f.val = uint16(u)
	}
	isInteger(f.stored(), text, kind < 3 || kind == 6 || kind == 7, neg, u)
}

// refEncode is standard base64.
func refEncode(b []byte) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var r []byte
	for len(b) > 0 {
		var x uint32
		n := 0
		for i := 0; i < 3; i++ {
			x <<= 8
			if i < len(b) {
				x |= uint32(b[i])
				n++
			}
		}
		for i := 0; i < 4; i++ {
			if i <= n {
				r = append(r, abc[x>>(18-6*i)&63])
			} else {
				r = append(r, '=')
			}
		}
		b = b[n:]
	}
	return string(r)
}

// C17_others: strings, bytes, booleans, null and the empty containers.
func C17_others() {
	kind := sym.Choose("kind", 6)
	var f *form
	switch kind {
	case 0:
		x := sym.Str("s", sym.Choose("len", sym.Param("maxlen", 3, 6)+1))
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewString(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetString(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetString(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendString(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendString(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertString(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertString(x) },
			x, true,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.String && v.IsString(), "a string is not one")
		sym.Assert(v.String() == x, "String() of a string")
	case 1:
		x := sym.Bytes("b", sym.Choose("len", sym.Param("maxlen", 3, 6)+1))
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewBytes(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetBytes(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetBytes(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendBytes(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendBytes(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.Insert(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsert(x) },
			x, false,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.String && v.IsString(), "bytes are not a string")
		sym.Assert(v.String() == refEncode(x), "bytes are not stored in base64")
		sym.Assert(string(v.Bytes()) == string(x), "Bytes() is not what was stored")
	case 2:
		x := sym.Bool("x")
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewBool(x) },
			func(v *jsonvalue.V) jsonvalue.Setter { return v.SetBool(x) },
			func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetBool(x) },
			func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendBool(x) },
			func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendBool(x) },
			func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertBool(x) },
			func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertBool(x) },
			x, true,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.Boolean && v.IsBoolean() && v.Bool() == x, "a boolean is not what was stored")
		s := "false"
		if x {
			s = "true"
		}
		sym.Assert(v.MustMarshalString() == s && v.String() == s, "a boolean is written wrongly")
	case 3:
		f = &form{
			jsonvalue.NewNull,
			(*jsonvalue.V).SetNull, (*jsonvalue.V).MustSetNull,
			(*jsonvalue.V).AppendNull, (*jsonvalue.V).MustAppendNull,
			(*jsonvalue.V).InsertNull, (*jsonvalue.V).MustInsertNull,
			nil, true,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.Null && v.IsNull() && v.MustMarshalString() == "null", "null is not null")
	case 4:
		f = &form{
			func() *jsonvalue.V { return jsonvalue.NewObject() },
			(*jsonvalue.V).SetObject, (*jsonvalue.V).MustSetObject,
			(*jsonvalue.V).AppendObject, (*jsonvalue.V).MustAppendObject,
			(*jsonvalue.V).InsertObject, (*jsonvalue.V).MustInsertObject,
			nil, false,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.Object && v.IsObject() && v.Len() == 0 && v.MustMarshalString() == "{}", "an empty object is not one")
		v.MustSetInt(1).At("x")
		sym.Assert(v.MustMarshalString() == `{"x":1}`, "a new object cannot be used")
	case 5:
		f = &form{
			jsonvalue.NewArray,
			(*jsonvalue.V).SetArray, (*jsonvalue.V).MustSetArray,
			(*jsonvalue.V).AppendArray, (*jsonvalue.V).MustAppendArray,
			(*jsonvalue.V).InsertArray, (*jsonvalue.V).MustInsertArray,
			nil, false,
		}
		v := f.stored()
		sym.Assert(v.ValueType() == jsonvalue.Array && v.IsArray() && v.Len() == 0 && v.MustMarshalString() == "[]", "an empty array is not one")
		v.MustAppendInt(1).InTheEnd()
		sym.Assert(v.MustMarshalString() == "[1]", "a new array cannot be used")
	}
}

// isFloat: v is the float f written text.
func isFloat(v *jsonvalue.V, f float64, text string) {
	sym.Assert(v.ValueType() == jsonvalue.Number && v.IsNumber(), "a float is not a number")
	out, err := v.Marshal()
	sym.Assert(err == nil && string(out) == text, "a float is not marshaled in the documented format")
	sym.Assert(v.String() == text, "String() of a float")
	sym.Assert(v.Float64() == f && v.Float32() == float32(f), "Float64() is not the stored float")
	floated := false
	for i := 0; i < len(text); i++ {
		floated = floated || text[i] == '.' || text[i] == 'e' || text[i] == 'E'
	}
	sym.Assert(v.IsFloat() == floated && v.IsInteger() == !floated, "integer/float classification of a float")
	sym.Assert(v.IsNegative() == (f < 0) && v.IsPositive() == !v.IsNegative(), "sign of a float")
	if f > -9e18 && f < 9e18 {
		sym.Assert(v.Int64() == int64(f) && v.Int() == int(f), "Int64() of a float")
	}
	if f >= 0 && f < 1.8e19 {
		sym.Assert(v.Uint64() == uint64(f), "Uint64() of a float")
	}
}

func finite(f float64) bool { return math.Float64bits(f)<<1 < 0x7FF<<53 }

// C17_float64: every finite float64 in every way.
func C17_float64() {
	x := math.Float64frombits(sym.U64("f"))
	sym.Assume(finite(x))
	f := &form{
		func() *jsonvalue.V { return jsonvalue.NewFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.Setter { return v.SetFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertFloat64(x) },
		func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertFloat64(x) },
		x, true,
	}
	v := f.stored()
	format := byte('f')
	if x != 0 && (x < 1e-6 && x > -1e-6 || x >= 1e21 || x <= -1e21) {
		format = 'e'
		sym.Reach("exponent")
	}
	isFloat(v, x, strconv.FormatFloat(x, format, -1, 64))
}

// C17_float32: every finite float32 in every way.
func C17_float32() {
	x := math.Float32frombits(sym.U32("f"))
	sym.Assume(finite(float64(x)))
	f := &form{
		func() *jsonvalue.V { return jsonvalue.NewFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.Setter { return v.SetFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.MustSetter { return v.MustSetFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.Appender { return v.AppendFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.MustAppender { return v.MustAppendFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.Inserter { return v.InsertFloat32(x) },
		func(v *jsonvalue.V) jsonvalue.MustInserter { return v.MustInsertFloat32(x) },
		x, false,
	}
	v := f.stored()
	y := float64(x)
	format := byte('f')
	if y != 0 && (y < 1e-6 && y > -1e-6 || y >= 1e21 || y <= -1e21) {
		format = 'e'
		sym.Reach("exponent")
	}
	isFloat(v, y, strconv.FormatFloat(y, format, -1, 32))
}

// C17_formats: NewFloat64f and NewFloat32f.
func C17_formats() {
	format := sym.Byte("format")
	prec := sym.Choose("precision", 4) - 1
	used := format
	if format != 'f' && format != 'e' && format != 'E' && format != 'g' && format != 'G' {
		used = 'g'
	}
	if sym.Choose("bits", 2) == 0 {
		x := math.Float64frombits(sym.U64("f"))
		sym.Assume(finite(x))
		isFloat(jsonvalue.NewFloat64f(x, format, prec), x, strconv.FormatFloat(x, used, prec, 64))
		return
	}
	x := math.Float32frombits(sym.U32("f"))
	sym.Assume(finite(float64(x)))
	v := jsonvalue.NewFloat32f(x, format, prec)
	sym.Assert(v.Float32() == x && v.Float64() == float64(x), "Float32() is not the stored float")
}

// C17_map: NewObject with several keys of several types.
func C17_map() {
	sym.MapOrder(sym.Choose("maporder", 2))
	m := jsonvalue.M{}
	want := map[string]string{}
	n := sym.Choose("keys", 4)
	for i := 0; i < n; i++ {
		k := "key" + string(rune('0'+i))
		switch i {
		case 0:
			k = sym.Str("key", 2)
		}
		var x any
		var t string
		switch sym.Choose("type", 7) {
		case 0:
			d := sym.Digits("d", 2)
			sym.Assume(d[0] != '0')
			x, t = int(d[0]-'0')*10+int(d[1]-'0'), string(d)
		case 1:
			x, t = nil, "null"
		case 2:
			x, t = true, "true"
		case 3:
			x, t = "str", `"str"`
		case 4:
			x, t = uint8(200), "200"
		case 5:
			x, t = 1.5, "1.5"
		case 6:
			x = struct{}{}
		}
		m[k] = x
		want[k] = t
	}
	v := jsonvalue.NewObject(m)
	found := 0
	for k, t := range want {
		got, err := v.Get(k)
		if t == "" {
			continue
		}
		found++
		sym.Assert(err == nil && got.MustMarshalString() == t, "NewObject stored another value")
	}
	sym.Assert(v.Len() == found, "NewObject has another number of keys")
	sym.Assert(jsonvalue.NewObject().Len() == 0 && jsonvalue.NewObject(nil).Len() == 0, "NewObject without values is not empty")
}
