package h

import (
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// value28 has something for every option to act on; valid tells whether it can be marshaled without options.
func value28(valid bool) *jsonvalue.V {
	v := jsonvalue.NewObject()
	v.MustSetString("</é").At("b")
	v.MustSetNull().At("a")
	v.MustSetInt(1).At("d", "y")
	v.MustSetBool(true).At("d", "x")
	v.MustAppendInt(3).InTheEnd("c")
	if !valid {
		v.MustAppendFloat64(math.NaN()).InTheEnd("c")
		v.MustAppendFloat64(math.Inf(-1)).InTheEnd("c")
		v.MustAppendFloat64(math.Inf(1)).InTheEnd("c")
	}
	return v
}

// option28 is one of the options together with the matter it is about.
func option28(k int) (jsonvalue.Option, string) {
	switch k {
	case 0:
		return jsonvalue.OptOmitNull(true), "null"
	case 1:
		return jsonvalue.OptUTF8(), "utf8"
	case 2:
		return jsonvalue.OptEscapeHTML(false), "html"
	case 3:
		return jsonvalue.OptEscapeSlash(false), "slash"
	case 4:
		return jsonvalue.OptFloatNaNToNull(), "nan"
	case 5:
		return jsonvalue.OptFloatInfToFloat(7), "inf"
	case 6:
		return jsonvalue.OptIndent(">", "\t"), "indent"
	case 7:
		return jsonvalue.OptDefaultStringSequence(), "order"
	case 8:
		return jsonvalue.OptKeySequence([]string{"d", "y", "c"}), "order"
	case 9:
		return jsonvalue.OptOmitNull(false), "null"
	case 10:
		return jsonvalue.OptFloatNaNToString("none"), "nan"
	case 11:
		return jsonvalue.OptFloatInfToString("most", "least"), "inf"
	case 12:
		return jsonvalue.OptEscapeHTML(true), "html"
	case 13:
		return jsonvalue.OptEscapeSlash(true), "slash"
	case 14:
		return jsonvalue.OptSetSequence(), "order"
	case 15:
		return jsonvalue.OptIndent("", ""), "indent"
	case 16:
		return jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k, l string, x, y *jsonvalue.V) bool { return bytewise(l, k) }), "order"
	case 17:
		return jsonvalue.OptFloatNaNToFloat(1.5), "nan"
	case 18:
		return jsonvalue.OptFloatInfToNull(), "inf"
	case 19:
		return jsonvalue.OptIgnoreOmitempty(), "import"
	}
	return jsonvalue.Opt{OmitNull: true, MarshalKeySequence: []string{"d", "x"}, FloatNaNHandleType: jsonvalue.FloatNaNNull, FloatInfHandleType: jsonvalue.FloatInfNull}, "all"
}

const options28 = 21

// text28 is what marshaling gives: the text, or the fact that it fails.
func text28(v *jsonvalue.V, o ...jsonvalue.Option) string {
	b, err := v.Marshal(o...)
	if err != nil {
		sym.Assert(len(b) == 0, "a text and an error")
		return "error"
	}
	return string(b)
}

// C28_calls: the options of a call have no effect on any other call, whether it succeeds or fails, and can be used
// again with the same effect.
func C28_calls() {
	order := jsonvalue.OptDefaultStringSequence()
	v := value28(sym.Choose("valid", 2) == 1)
	other := value28(true)
	o := []jsonvalue.Option{order}
	for i, c := 0, 1+sym.Choose("options", 2); i < c; i++ {
		x, _ := option28(sym.Choose("option", options28))
		o = append(o, x)
	}
	o = append(o, order)
	plain := text28(other, order)
	sym.Assert(plain == `{"a":null,"b":"\u003C\/\u00E9","c":[3],"d":{"x":true,"y":1}}`, "the text without options")
	before := text28(v, order)
	first := text28(v, o...)
	sym.Assert(text28(other, order) == plain, "an option has an effect on another call")
	sym.Assert(text28(v, order) == before, "an option has an effect on another call")
	sym.Assert(text28(v, o...) == first, "options give another text when they are used again")
	w, err := jsonvalue.Import(map[string]any{"z": []any{nil, "<"}}, o...)
	sym.Assert(err == nil && text28(w, order) == `{"z":[null,"\u003C"]}`, "options of an import")
	sym.Assert(text28(other, order) == plain, "an option has an effect on another call")
	sym.Reach("calls")
}

// C28_defaults: defaults followed by the options of a call are the same as all of them in one call, and are gone after a
// reset.
func C28_defaults() {
	order := jsonvalue.OptDefaultStringSequence()
	v := value28(sym.Choose("valid", 2) == 1)
	d := []jsonvalue.Option{order}
	for i, c := 0, sym.Choose("defaults", 2); i < c+1; i++ {
		x, _ := option28(sym.Choose("default", options28))
		d = append(d, x)
	}
	x, about := option28(sym.Choose("option", options28))
	o := []jsonvalue.Option{x}
	if about == "all" {
		o = append(o, order)
	}
	all := append(append([]jsonvalue.Option{}, d...), o...)
	last := append(append([]jsonvalue.Option{}, d...), order)
	plain := text28(v, order)
	together := text28(v, all...)
	alone, only := text28(v, last...), text28(v, d...)
	jsonvalue.SetDefaultMarshalOptions(d...)
	sym.Assert(text28(v, o...) == together, "defaults and options are not the same as both in one call")
	sym.Assert(text28(v, order) == alone, "the defaults have changed")
	bare := text28(v)
	sym.Assert(bare == only, "a call without options is not one with the defaults only")
	_ = text28(value28(false))
	sym.Assert(text28(v) == bare && text28(v, order) == alone, "a call that may have failed has changed the defaults")
	jsonvalue.SetDefaultMarshalOptions(o...)
	jsonvalue.SetDefaultMarshalOptions(d...)
	sym.Assert(text28(v, order) == alone, "defaults are added to former ones")
	jsonvalue.ResetDefaultMarshalOptions()
	sym.Assert(text28(v, order) == plain, "the defaults are in force after a reset")
	sym.Assert(text28(v, all...) == together, "options give another text when they are used again")
	sym.Reach("defaults")
}

// C28_compose: options about different matters may be given in any order; of those about the same matter the last counts.
func C28_compose() {
	order := jsonvalue.OptDefaultStringSequence()
	v := value28(sym.Choose("valid", 2) == 1)
	base := []jsonvalue.Option{order}
	if sym.Choose("base", 2) == 1 {
		base = append(base, jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToNull())
	}
	x, a := option28(sym.Choose("first", options28-1))
	y, b := option28(sym.Choose("second", options28-1))
	xy := text28(v, append(append([]jsonvalue.Option{}, base...), x, y)...)
	if a != b {
		yx := text28(v, append(append([]jsonvalue.Option{}, base...), y, x)...)
		sym.Assert(xy == yx, "the order of options about different matters counts")
		sym.Reach("different")
		return
	}
	if a != "inf" && a != "nan" {
		sym.Assert(xy == text28(v, append(append([]jsonvalue.Option{}, base...), y)...), "the last option does not count")
		sym.Reach("same")
		return
	}
	sym.Assert(xy == text28(v, order, jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToNull(), y) || len(base) == 1, "the last option does not count")
	sym.Reach("number")
}

// C28_value: marshaling changes neither the value nor what was given to the options.
func C28_value() {
	sym.MapOrder(2)
	v, n := flat(sym.Param("members", 2, 3))
	seq := []string{"zz", string([]byte{sym.OneOf("listed", "ABz")}), "b"}
	kept := append([]string{}, seq...)
	o := jsonvalue.OptKeySequence(seq)
	if sym.Choose("opt", 2) == 1 {
		o = jsonvalue.Opt{MarshalKeySequence: seq}
	}
	if sym.Choose("default", 2) == 1 {
		jsonvalue.SetDefaultMarshalOptions(o)
		checkOrder(v, sortedBy(n, listed(seq)))
		checkOrder(v, sortedBy(n, listed(seq)))
		jsonvalue.ResetDefaultMarshalOptions()
	} else {
		checkOrder(v, sortedBy(n, listed(seq)), o)
		w := jsonvalue.NewObject()
		w.MustSetInt(0).At("q")
		w.MustSetInt(1).At("b")
		checkOrder(w, &N{k: 'o', keys: []string{"b", "q"}, kids: []*N{numberN(1), numberN(0)}}, o)
		checkOrder(v, sortedBy(n, listed(seq)), o)
	}
	for i := range seq {
		sym.Assert(seq[i] == kept[i], "marshaling changes the caller's list of keys")
	}
	checkOrder(v, n, jsonvalue.OptSetSequence())
	checkOrder(v, sortedBy(n, bytewise), jsonvalue.OptDefaultStringSequence())
	sym.Assert(same(v, n), "marshaling changes the value")
	sym.Reach("value")
}

// C28_import: OptIgnoreOmitempty is for the one import it is given to; marshaling options do not change what is imported.
func C28_import() {
	type inner struct {
		S string `json:"s,omitempty"`
	}
	type outer struct {
		A int    `json:"a,omitempty"`
		B *int   `json:"b,omitempty"`
		C inner  `json:"c"`
		D []int  `json:"d,omitempty"`
		E string `json:"e"`
	}
	x := outer{A: int(sym.I32("a")), E: string([]byte{sym.OneOf("e", "xy")})}
	if sym.Choose("s", 2) == 1 {
		x.C.S = "s"
	}
	short := []string{"c", "e"}
	if x.A != 0 {
		short = []string{"a", "c", "e"}
	}
	long := []string{"a", "b", "c", "d", "e"}
	check := func(want []string, inside int, o ...jsonvalue.Option) {
		v, err := jsonvalue.Import(x, o...)
		sym.Assert(err == nil && v.Len() == len(want), "members of an imported struct")
		for _, k := range want {
			_, err := v.Get(k)
			sym.Assert(err == nil, "members of an imported struct")
		}
		sym.Assert(v.MustGet("c").Len() == inside, "members of an imported struct")
		w, err := jsonvalue.Import(&x, o...)
		sym.Assert(err == nil && w.Equal(v), "a pointer is imported differently")
	}
	in := len(x.C.S)
	check(short, in)
	check(long, 1, jsonvalue.OptIgnoreOmitempty())
	check(short, in)
	y, _ := option28(sym.Choose("option", 19))
	check(short, in, y)
	check(long, 1, y, jsonvalue.OptIgnoreOmitempty())
	check(long, 1, jsonvalue.OptIgnoreOmitempty(), y)
	check(short, in)
	sym.Reach("import")
}

// C28_concurrent: the defaults may be set and reset while others marshal.
func C28_concurrent() {
	v := value28(true)
	var o []jsonvalue.Option
	for i, c := 0, sym.Choose("options", 2); i < c; i++ {
		x, _ := option28(sym.Choose("option", options28))
		o = append(o, x)
	}
	set := func() { jsonvalue.SetDefaultMarshalOptions(o...) }
	if sym.Choose("setter", 2) == 1 {
		set = jsonvalue.ResetDefaultMarshalOptions
	}
	other := func() { _, _ = v.Marshal() }
	switch sym.Choose("other", 4) {
	case 1:
		other = func() {
			_ = jsonvalue.New(map[string]any{"a": 1.5})
			_ = v.MustMarshalString(jsonvalue.OptOmitNull(true))
		}
	case 2:
		other = set
	case 3:
		other = jsonvalue.ResetDefaultMarshalOptions
	}
	sym.Parallel([]any{v, o}, set, other)
	sym.Reach("concurrent")
}
