package h

import (
	"math"

	"github.com/Andrew-M-C/go.jsonvalue/beta"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// parts is v and everything in it.
func parts(v *jsonvalue.V, list []*jsonvalue.V) []*jsonvalue.V {
	list = append(list, v)
	v.RangeArray(func(_ int, c *jsonvalue.V) bool {
		list = parts(c, list)
		return true
	})
	v.RangeObjectsBySetSequence(func(_ string, c *jsonvalue.V) bool {
		list = parts(c, list)
		return true
	})
	return list
}

// reader is one operation documented as read-only, with an arbitrary choice of its arguments.
func reader(v, w *jsonvalue.V, group int) (f func(), opts any) {
	key := []string{"a", "zz"}[sym.Choose("key", 2)]
	idx := sym.Choose("index", 2) - 1
	all := parts(v, nil)
	each := func(g func(v *jsonvalue.V)) func() {
		return func() {
			for _, p := range all {
				g(p)
			}
		}
	}
	switch group {
	case 0: // lookups
		switch sym.Choose("operation", 16) {
		case 0:
			return func() { _, _ = v.Get(key); _, _ = v.Get(idx); _, _ = v.Get(key, idx); _, _ = v.Get(idx, key) }, nil
		case 1:
			return func() { _ = v.MustGet([]any{key, idx}); _ = v.MustGet([]string{key}) }, nil
		case 2:
			return func() { _, _ = v.GetString(key); _, _ = v.GetString(idx) }, nil
		case 3:
			return func() { _, _ = v.GetBytes(key); _, _ = v.GetBytes(idx) }, nil
		case 4:
			return func() { _, _ = v.GetInt(key); _, _ = v.GetInt(idx) }, nil
		case 5:
			return func() { _, _ = v.GetUint(key); _, _ = v.GetUint(idx) }, nil
		case 6:
			return func() { _, _ = v.GetInt64(key); _, _ = v.GetInt64(idx) }, nil
		case 7:
			return func() { _, _ = v.GetUint64(key); _, _ = v.GetUint64(idx) }, nil
		case 8:
			return func() { _, _ = v.GetInt32(key); _, _ = v.GetInt32(idx) }, nil
		case 9:
			return func() { _, _ = v.GetUint32(key); _, _ = v.GetUint32(idx) }, nil
		case 10:
			return func() { _, _ = v.GetFloat64(key); _, _ = v.GetFloat64(idx) }, nil
		case 11:
			return func() { _, _ = v.GetFloat32(key); _, _ = v.GetFloat32(idx) }, nil
		case 12:
			return func() { _, _ = v.GetBool(key); _, _ = v.GetBool(idx) }, nil
		case 13:
			return func() { _ = v.GetNull(key); _ = v.GetNull(idx) }, nil
		case 14:
			return func() { _, _ = v.GetObject(key); _, _ = v.GetObject(idx) }, nil
		case 15:
			return func() { _, _ = v.GetArray(key); _, _ = v.GetArray(idx) }, nil
		}
	case 1: // accessors and type queries, of every part
		switch sym.Choose("operation", 6) {
		case 0:
			return each(func(v *jsonvalue.V) { _ = v.String(); _ = v.ValueType().String() }), nil
		case 1:
			return each(func(v *jsonvalue.V) { _ = v.Bytes(); _ = v.Len(); _ = v.Bool() }), nil
		case 2:
			return each(func(v *jsonvalue.V) { _, _, _, _ = v.Int(), v.Uint(), v.Int64(), v.Uint64() }), nil
		case 3:
			return each(func(v *jsonvalue.V) { _, _, _, _ = v.Int32(), v.Uint32(), v.Float64(), v.Float32() }), nil
		case 4:
			return each(func(v *jsonvalue.V) {
				_, _, _, _ = v.IsObject(), v.IsArray(), v.IsString(), v.IsNumber()
				_, _, _ = v.IsBoolean(), v.IsNull(), v.ValueType()
			}), nil
		case 5:
			return each(func(v *jsonvalue.V) {
				_, _, _, _ = v.IsFloat(), v.IsInteger(), v.IsNegative(), v.IsPositive()
				_ = v.GreaterThanInt64Max()
			}), nil
		}
	case 2: // iteration
		switch sym.Choose("operation", 6) {
		case 0:
			return func() { v.RangeObjects(func(string, *jsonvalue.V) bool { return true }) }, nil
		case 1:
			return func() { v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { return true }) }, nil
		case 2:
			return func() { v.RangeArray(func(int, *jsonvalue.V) bool { return true }) }, nil
		case 3:
			return func() {
				for range v.IterObjects() {
				}
			}, nil
		case 4:
			return func() {
				for range v.IterArray() {
				}
			}, nil
		case 5:
			return func() {
				for range v.ForRangeArr() {
				}
				for range v.ForRangeObj() {
				}
			}, nil
		}
	case 3: // marshaling
		switch sym.Choose("operation", 9) {
		case 0:
			return func() {
				_, _ = v.Marshal()
				_ = v.MustMarshalString()
				_, _ = v.MarshalJSON()
				_, _ = v.MarshalBinary()
			}, nil
		case 1:
			return func() { _, _ = v.Marshal(jsonvalue.OptDefaultStringSequence()) }, nil
		case 2:
			o := jsonvalue.OptKeySequence([]string{"b", key})
			return func() { _, _ = v.Marshal(o) }, o
		case 3:
			o := jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
				return k1 > k2
			})
			return func() { _, _ = v.Marshal(o) }, o
		case 4:
			o := jsonvalue.OptSetSequence()
			return func() { _, _ = v.Marshal(o) }, o
		case 5:
			o := []jsonvalue.Option{jsonvalue.OptIndent("", " "), jsonvalue.OptOmitNull(true), jsonvalue.OptUTF8()}
			return func() { _, _ = v.Marshal(o...) }, o
		case 6:
			o := []jsonvalue.Option{jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false), jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToNull()}
			return func() { _, _ = v.Marshal(o...) }, o
		case 7:
			o := []jsonvalue.Option{jsonvalue.OptFloatNaNToFloat(1.5), jsonvalue.OptFloatInfToFloat(2), jsonvalue.OptFloatInfToString("a", "b")}
			return func() { _, _ = v.Marshal(o...) }, o
		case 8:
			o := jsonvalue.Opt{OmitNull: true, FloatNaNHandleType: jsonvalue.FloatNaNConvertToString}
			return func() { _, _ = v.Marshal(o) }, o
		}
	case 4: // comparison and search, of every part with every part of another value
		others := parts(w, nil)
		pairs := func(g func(v, w *jsonvalue.V)) func() {
			return each(func(v *jsonvalue.V) {
				for _, w := range others {
					g(v, w)
				}
			})
		}
		switch sym.Choose("operation", 6) {
		case 0:
			return pairs(func(v, w *jsonvalue.V) { _ = v.Equal(w); _ = w.Equal(v); _ = v.Equal(v) }), nil
		case 1:
			return pairs(func(v, w *jsonvalue.V) { _ = v.GreaterThan(w); _ = v.LessThan(w) }), nil
		case 2:
			return pairs(func(v, w *jsonvalue.V) { _ = v.GreaterThanOrEqual(w); _ = w.LessThanOrEqual(v) }), nil
		case 3:
			return func() { _ = beta.Contains(v, w); _ = beta.Contains(v, w, key) }, nil
		case 4:
			return func() { _ = jsonvalue.New(v); _, _ = jsonvalue.Import([]*jsonvalue.V{v, w}) }, nil
		case 5:
			return each(func(v *jsonvalue.V) {
				var x any
				_ = v.Export(&x)
				_, _ = v.MarshalJSON()
				_, _ = v.MarshalBinary()
			}), nil
		}
	case 5: // other values that have nothing to do with v
		switch sym.Choose("operation", 6) {
		case 0:
			return func() { _, _ = jsonvalue.Unmarshal([]byte(`{"k":[1,2.5e3,"\u0041",null,true]}`)) }, nil
		case 1:
			return func() { _, _ = jsonvalue.UnmarshalString(`[`); _ = jsonvalue.MustUnmarshalString(`{"a":-1}`) }, nil
		case 2:
			return func() {
				o := jsonvalue.NewObject()
				o.MustSetString("x<").At("k", "l")
				o.MustAppendInt(3).InTheEnd("arr")
				_ = o.Caseless().MustGet("K")
				_ = o.MustMarshalString(jsonvalue.OptSetSequence())
				_ = o.Delete("k")
			}, nil
		case 3:
			return func() {
				_, _ = jsonvalue.Import(map[string]any{"a": []int{1}, "b": struct{ C float64 }{1.5}})
				_ = jsonvalue.NewFloat64(math.NaN()).MustMarshalString(jsonvalue.OptFloatNaNToNull())
			}, nil
		case 4:
			return func() {
				_ = jsonvalue.NewBytes([]byte("bytes")).Bytes()
				_, _ = jsonvalue.NewString("1.50").GetFloat64("x")
				_ = jsonvalue.NewString(" 12 ").Int()
			}, nil
		case 5:
			return func() {
				a := jsonvalue.New([]int{3, 1, 2})
				a.SortArray(func(x, y *jsonvalue.V) bool { return x.LessThan(y) })
			}, nil
		}
	}
	panic("reader")
}

// shared21 holds values of every kind; the ways of making it differ in what was computed when.
func shared21() *jsonvalue.V {
	const text = `{"a":[1,-2.50,"str",true,null,{"k":"\u0041"}],"b":{"x":1e2,"Y":18446744073709551615},"c":"MTI=","d":" 12 "}`
	switch sym.Choose("shared", 7) {
	case 0:
		return jsonvalue.MustUnmarshalString(text)
	case 1: // caseless lookups were used before
		v := jsonvalue.MustUnmarshalString(text)
		_ = v.Caseless().MustGet("B", "y")
		return v
	case 2: // built
		v := jsonvalue.NewObject()
		v.MustSet([]any{1, -2.5, "str", true, nil}).At("a")
		v.MustSetUint64(1<<63).At("b", "x")
		v.MustSetBytes([]byte("12")).At("c")
		v.MustSetNull().At("d")
		v.MustDelete("d")
		return v
	case 3: // a copy
		return jsonvalue.New(jsonvalue.MustUnmarshalString(text))
	case 4: // an array with numbers that cannot be marshaled without options
		v := jsonvalue.NewArray()
		v.MustAppendFloat64(math.NaN()).InTheEnd()
		v.MustAppendFloat64(math.Inf(-1)).InTheEnd()
		v.MustAppend(map[string]int{"a": 1}).InTheEnd()
		return v
	}
	if sym.Choose("container", 2) == 1 {
		v := []*jsonvalue.V{jsonvalue.NewObject(), jsonvalue.NewArray(), {}, jsonvalue.MustUnmarshalString("{}"), jsonvalue.MustUnmarshalString("[]")}[sym.Choose("empty", 5)]
		return v
	}
	k := newT("nsz0"[sym.Choose("leaf", 4)])
	return k.v
}

// C21_readers: any two read-only operations on one value, and on values of which it is a part.
func C21_readers() {
	v := shared21()
	w := jsonvalue.MustUnmarshalString(`{"a":[1,-2.5,"str"],"b":{"x":100}}`)
	if v.IsObject() && sym.Choose("child", 2) == 1 {
		v, w = v.MustGet("a"), w.MustGet("a")
	}
	f, o := reader(v, w, sym.Choose("group", 6))
	sym.Parallel([]any{v, w, o}, f, f)
	sym.Reach("read")
}

// C21_trees: reading arbitrary parsed values.
func C21_trees() {
	v, _ := doc20()
	w, _ := jsonvalue.UnmarshalString(`{"a":[1],"b":{}}`)
	switch sym.Choose("before", 3) {
	case 1:
		_ = v.Caseless().MustGet("a")
	case 2:
		v.MustSetNull().At("new")
		v.MustAppendNull().InTheEnd()
	}
	f := func() {
		_ = v.String()
		_, _ = v.Get("a", 0)
		_, _ = v.GetInt(0)
		v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { return true })
		_ = v.ForRangeArr()
		_ = v.Bytes()
		_, _ = v.Float64(), v.Uint64()
	}
	g := func() {
		_ = v.MustMarshal()
		_ = v.MustMarshalString(jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIndent("", " "))
		_ = v.MustMarshal(jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(true))
		_ = jsonvalue.New(v)
		_ = v.Equal(w)
		_ = w.Equal(v)
		_ = v.LessThan(w)
		_ = beta.Contains(v, w)
	}
	sym.Parallel([]any{v, w}, f, g)
	sym.Reach("read")
}

// C21_parse: parsing the same bytes at the same time.
func C21_parse() {
	text := mutate(sym.Param("edits", 1, 1))
	s := string(text)
	sym.Parallel([]any{text, s},
		func() { _, _ = jsonvalue.Unmarshal(text); _ = jsonvalue.MustUnmarshal(text) },
		func() { v, _ := jsonvalue.UnmarshalString(s); _ = v.MustMarshalString() },
		func() { _ = (&jsonvalue.V{}).UnmarshalJSON(text) })
}

// C21_strings: number and base64 readings of strings with arbitrary content.
func C21_strings() {
	s := sym.Str("s", sym.Choose("len", sym.Param("maxlen", 3, 4)+1))
	v := jsonvalue.NewObject()
	v.MustSetString(s).At("s")
	v.MustSetString(s).At(s)
	sym.Parallel([]any{v, s},
		func() { _, _ = v.GetInt("s"); _, _ = v.GetBytes("s"); _, _ = v.GetBool("s"); _, _ = v.GetFloat64("s") },
		func() { _, _ = v.Get(s); _ = v.MustMarshalString(jsonvalue.OptUTF8()); _ = v.MustGet("s").Bytes() },
		func() { _ = jsonvalue.NewString(s).MustMarshal(); _ = jsonvalue.New(s).Equal(v.MustGet("s")) })
}

type shared struct {
	A []int          `json:"a,omitempty"`
	B map[string]any `json:"b"`
	C *shared        `json:"c,omitempty"`
	D *jsonvalue.V   `json:"d"`
	E string         `json:"-"`
	F float32        `json:"f,string"`
}

// C21_import: importing one Go value at the same time.
func C21_import() {
	x := &shared{A: []int{1}, B: map[string]any{"k": []byte("b")}, D: jsonvalue.NewString("s"), F: 1.5}
	if sym.Choose("deep", 2) == 1 {
		x.C = &shared{D: jsonvalue.MustUnmarshalString(`{"Aa":[1]}`)}
	}
	sym.Parallel([]any{x},
		func() { v, _ := jsonvalue.Import(x); _ = v.MustMarshalString() },
		func() { v := jsonvalue.New(x); v.MustSetNull().At("a") },
		func() { _, _ = beta.Import(x) })
}
