package h

import (
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// wellFormed marshals v and checks that the result is one well-formed text, or an error and nothing.
func wellFormed(v *jsonvalue.V, opts ...jsonvalue.Option) (*N, bool) {
	out, err := v.Marshal(opts...)
	if err != nil {
		sym.Reach("error")
		sym.Assert(len(out) == 0, "Marshal returns output together with an error")
		return nil, false
	}
	sym.Reach("text")
	n, ok := refParse(out, false)
	sym.Assert(ok, "Marshal returns a text that is not JSON")
	sym.Assert(n.noDuplicates(), "a key is written twice")
	sym.Log("out", len(out))
	return n, true
}

// forms: the other forms of Marshal also give one well-formed text for the same tree, or fail alike.
func forms(v *jsonvalue.V, n *N, ok bool, opts ...jsonvalue.Option) {
	s, serr := v.MarshalString(opts...)
	m, ms := v.MustMarshal(opts...), v.MustMarshalString(opts...)
	if !ok {
		sym.Assert(serr != nil && s == "" && len(m) == 0 && ms == "", "the Marshal forms disagree about an error")
		return
	}
	sym.Assert(serr == nil, "the Marshal forms disagree about an error")
	for _, t := range []string{s, string(m), ms} {
		ns, good := refParse([]byte(t), false)
		sym.Assert(good && sameN(n, ns), "the Marshal forms disagree")
	}
}

func place(s string) *jsonvalue.V {
	switch sym.Choose("place", 3) {
	case 1:
		v := jsonvalue.NewArray()
		v.MustAppendString(s).InTheEnd()
		v.MustAppendNull().InTheEnd()
		return v
	case 2:
		v := jsonvalue.NewObject()
		v.MustSetString(s).At(s)
		return v
	}
	return jsonvalue.NewString(s)
}

// C06_string: strings and keys of arbitrary bytes (not only valid UTF-8) under every escaping option.
func C06_string() {
	max := sym.Param("maxlen", 3, 4)
	s := sym.Str("s", sym.Choose("len", max+1))
	_, o := chooseEsc()
	v := jsonvalue.NewString(s)
	if len(s) < max {
		v = place(s)
	}
	n, ok := wellFormed(v, o...)
	if len(s) <= 1 {
		forms(v, n, ok, o...)
	}
	sym.Assert(ok, "a string cannot be marshaled")
}

// C06_tree: arbitrary small trees under ordering, omission, indentation and NaN/Inf options.
func C06_tree() {
	sym.MapOrder(3)
	g := &tree{left: sym.Param("nodes", 4, 5), wide: 3, leaves: "stzNM", keys: "ab"}
	v, n := g.value(2)
	var o []jsonvalue.Option
	nan, inf := false, false
	switch sym.Choose("options", 7) {
	case 1:
		o = append(o, jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatNaNToNull(), jsonvalue.OptOmitNull(true))
		nan = true
	case 2:
		o = append(o, jsonvalue.OptKeySequence([]string{"b", "q"}), jsonvalue.OptFloatInfToFloat(1e300), jsonvalue.OptIndent(" ", "\t"))
		inf = true
	case 3:
		o = append(o, jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(true), jsonvalue.OptFloatInfToString("+\x00", ""))
		inf = true
	case 4:
		o = append(o, jsonvalue.OptOmitNull(true), jsonvalue.OptIndent("", "  "), jsonvalue.OptFloatNaNToString("\"\\"))
		nan = true
	case 5:
		o = append(o, jsonvalue.OptOmitNull(true), jsonvalue.OptFloatNaNToFloat(0), jsonvalue.OptFloatInfToNull())
		nan, inf = true, true
	case 6:
		o = append(o, jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIndent("\r", ""), jsonvalue.OptOmitNull(false))
	}
	fails := n.has("N") && !nan || n.has("PM") && !inf
	_, ok := wellFormed(v, o...)
	sym.Assert(ok == !fails, "an unmapped NaN or infinity must fail the call, anything else must not")
}

// C06_float: NaN and infinities mapped to arbitrary floats and strings, in any position.
func C06_float() {
	f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choose("f", 3)]
	var v *jsonvalue.V
	switch sym.Choose("place", 4) {
	case 0:
		v = jsonvalue.NewFloat64(f)
	case 1:
		v = jsonvalue.NewArray()
		v.MustAppendInt(1).InTheEnd()
		v.MustAppendFloat64(f).InTheEnd()
		v.MustAppendInt(1).InTheEnd()
	case 2:
		v = jsonvalue.NewObject()
		v.MustSetFloat64(f).At("k")
	case 3:
		v = jsonvalue.NewObject()
		v.MustSetFloat64(f).At("a", 0, "b")
		v.MustSetInt(1).At("a", 1)
	}
	var o []jsonvalue.Option
	good := true
	switch sym.Choose("map", 5) {
	case 0:
		good = false
	case 1:
		fs := []float64{0, -2.5, 1e21, math.NaN(), math.Inf(1), math.Inf(-1)}
		k := sym.Choose("to", len(fs))
		good = k < 3
		o = append(o, jsonvalue.OptFloatNaNToFloat(fs[k]), jsonvalue.OptFloatInfToFloat(fs[k]))
	case 2:
		o = append(o, jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToNull())
	case 3:
		p, m := sym.Str("p", sym.Choose("np", 3)), sym.Str("m", sym.Choose("nm", 2))
		o = append(o, jsonvalue.OptFloatNaNToString(p), jsonvalue.OptFloatInfToString(p, m))
	case 4:
		o = append(o, jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToStringInf())
	}
	if sym.Choose("indent", 2) == 1 {
		o = append(o, jsonvalue.OptIndent("", ""))
	}
	n, ok := wellFormed(v, o...)
	forms(v, n, ok, o...)
	sym.Assert(ok == good, "an unmapped NaN or infinity must fail the call, anything else must not")
}

// C06_formats: finite floats made with any format and precision.
func C06_formats() {
	fs := []float64{0, math.Copysign(0, -1), 1.5, -2, 1e21, -1e-7, 5e-324, math.MaxFloat64, 0.1, 123456789}
	f := fs[sym.Choose("f", len(fs))]
	format := sym.Byte("format")
	prec := []int{-1, 0, 1, 2, 6, 17}[sym.Choose("precision", 6)]
	var v *jsonvalue.V
	if sym.Choose("bits", 2) == 0 {
		v = jsonvalue.NewFloat64f(f, format, prec)
	} else {
		sym.Assume(float64(float32(f)) == f && finite(f))
		v = jsonvalue.NewFloat32f(float32(f), format, prec)
	}
	if sym.Choose("inside", 2) == 1 {
		a := jsonvalue.NewArray()
		a.MustAppend(v).InTheEnd()
		v = a
	}
	n, ok := wellFormed(v)
	forms(v, n, ok)
	sym.Assert(ok, "a finite number has no text")
	sym.Reach("text")
}

// C06_invalid: values that are not there cannot be marshaled.
func C06_invalid() {
	var v *jsonvalue.V
	switch sym.Choose("which", 4) {
	case 0:
		v = &jsonvalue.V{}
	case 1:
		v, _ = jsonvalue.UnmarshalString("{")
	case 2:
		v = jsonvalue.NewObject().MustGet("nothing")
	case 3:
		v, _ = jsonvalue.NewArray().Get(3)
	}
	n, ok := wellFormed(v)
	forms(v, n, ok)
	sym.Assert(!ok, "a value that is not there is marshaled")
}

// C06_parsed: whatever document is accepted (including the lenient ones) marshals to a well-formed text.
func C06_parsed() {
	b := mutate(1)
	v, err := jsonvalue.Unmarshal(b)
	if err != nil {
		return
	}
	_, o := chooseEsc()
	_, ok := wellFormed(v, o...)
	sym.Assert(ok, "a parsed value cannot be marshaled")
}
