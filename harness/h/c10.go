package h

import (
	"math"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// conv is what the NaN/Inf/null options in force do, as documented.
type conv struct {
	omit           bool
	nan, inf       int // 0 error, 1 float, 2 null, 3 string
	nanF, infF     float64
	nanS, pos, neg string
}

func floatN(f float64) (*N, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	if f == 0 {
		return &N{k: 'n', s: "0"}, true // the sign of zero is not told apart
	}
	return &N{k: 'n', s: strconv.FormatFloat(f, 'f', -1, 64)}, true
}

// apply transforms the tree; false if the whole call has to fail.
func (c *conv) apply(n *N) (*N, bool) {
	switch n.k {
	case 'N':
		switch c.nan {
		case 1:
			return floatN(c.nanF)
		case 2:
			return &N{k: 'z'}, true
		case 3:
			s := c.nanS
			if s == "" {
				s = "NaN"
			}
			return &N{k: 's', s: s}, true
		}
		return nil, false
	case 'P', 'M':
		switch c.inf {
		case 1:
			if n.k == 'P' {
				return floatN(c.infF)
			}
			return floatN(-c.infF)
		case 2:
			return &N{k: 'z'}, true
		case 3:
			if n.k == 'P' {
				if c.pos == "" {
					return &N{k: 's', s: "+Inf"}, true
				}
				return &N{k: 's', s: c.pos}, true
			}
			if c.neg != "" {
				return &N{k: 's', s: c.neg}, true
			}
			if c.pos == "" {
				return &N{k: 's', s: "-Inf"}, true
			}
			p := c.pos
			for len(p) > 0 && p[0] == '+' {
				p = p[1:]
			}
			return &N{k: 's', s: "-" + p}, true
		}
		return nil, false
	}
	m := &N{k: n.k, s: n.s}
	for i, x := range n.kids {
		if n.k == 'o' && c.omit && x.k == 'z' {
			continue
		}
		y, ok := c.apply(x)
		if !ok {
			return nil, false
		}
		if n.k == 'o' {
			m.keys = append(m.keys, n.keys[i])
		}
		m.kids = append(m.kids, y)
	}
	return m, true
}

// zeroes maps the spellings of zero to one.
func (n *N) zeroes() *N {
	if n.k == 'n' && n.s == "-0" {
		n.s = "0"
	}
	for _, c := range n.kids {
		c.zeroes()
	}
	return n
}

func checkConv(v *jsonvalue.V, n *N, c *conv, o ...jsonvalue.Option) {
	want, ok := c.apply(n)
	out, err := v.Marshal(o...)
	if !ok {
		sym.Reach("refused")
		sym.Assert(err != nil, "a number that cannot be represented is marshaled")
		return
	}
	sym.Reach("converted")
	sym.Assert(err == nil, "Marshal fails without reason")
	m, ok := refParse(out, false)
	sym.Assert(ok && m.noDuplicates(), "Marshal returns a text that is not JSON")
	sym.Assert(sameN(want, m.zeroes()), "the options transform the wrong things")
	sym.Log("len", len(out))
}

// pick adds one arbitrary option to the list and says what it does to c.
func pick(c *conv, o []jsonvalue.Option, rich bool) []jsonvalue.Option {
	str := func(name string) string {
		if sym.Choose(name+" empty", 2) == 1 {
			return ""
		}
		if !rich {
			return "q"
		}
		b := sym.Byte(name)
		sym.Assume(b > 0 && b < 0x80)
		return string([]byte{b})
	}
	fs := []float64{-2.5, 0, 100, math.Inf(-1)}
	if !rich {
		fs = fs[:1]
	}
	switch sym.Choose("option", 9) {
	case 0:
		c.omit = true
		return append(o, jsonvalue.OptOmitNull(true))
	case 1:
		c.omit = false
		return append(o, jsonvalue.OptOmitNull(false))
	case 2:
		c.nan, c.nanF = 1, fs[sym.Choose("nan float", len(fs))]
		return append(o, jsonvalue.OptFloatNaNToFloat(c.nanF))
	case 3:
		c.nan = 2
		return append(o, jsonvalue.OptFloatNaNToNull())
	case 4:
		c.nan, c.nanS = 3, str("nan string")
		return append(o, jsonvalue.OptFloatNaNToString(c.nanS))
	case 5:
		c.inf, c.infF = 1, fs[sym.Choose("inf float", len(fs))]
		return append(o, jsonvalue.OptFloatInfToFloat(c.infF))
	case 6:
		c.inf = 2
		return append(o, jsonvalue.OptFloatInfToNull())
	case 7:
		c.inf, c.pos, c.neg = 3, str("+inf string"), str("-inf string")
		return append(o, jsonvalue.OptFloatInfToString(c.pos, c.neg))
	}
	if sym.Choose("defaults", 2) == 0 {
		c.nan, c.nanS = 3, "NaN"
		return append(o, jsonvalue.OptFloatNaNToStringNaN())
	}
	c.inf, c.pos, c.neg = 3, "", ""
	return append(o, jsonvalue.OptFloatInfToStringInf())
}

// C10_omit: OptOmitNull on arbitrary small trees, with every key ordering.
func C10_omit() {
	sym.MapOrder(3)
	g := &tree{left: sym.Param("nodes", 5, 5), wide: 3, leaves: "nz", keys: "ab"}
	v, n := g.value(3)
	c := &conv{omit: sym.Choose("omit", 2) == 1}
	checkConv(v, n, c, append(chooseOrder(), jsonvalue.OptOmitNull(c.omit))...)
}

// C10_options: sequences of options, the later ones overriding the earlier, on trees with NaN and infinities at
// every place.
func C10_options() {
	g := &tree{left: sym.Param("nodes", 3, 4), wide: 2, leaves: "NPM", keys: "ab"}
	v, n := g.value(2)
	c := &conv{}
	var o []jsonvalue.Option
	for i, k := 0, sym.Choose("options", 3); i < k; i++ {
		o = pick(c, o, true)
	}
	checkConv(v, n, c, o...)
}

// C10_defaults: options in a call build on the installed defaults; resetting restores the original behaviour.
func C10_defaults() {
	v := jsonvalue.NewObject()
	v.MustSetFloat64(math.NaN()).At("n")
	v.MustSetFloat64(math.Inf(1)).At("p")
	v.MustSetFloat64(math.Inf(-1)).At("m")
	v.MustSetNull().At("z")
	v.MustAppendNull().InTheEnd("a")
	n := &N{k: 'o'}
	n.put("n", &N{k: 'N'})
	n.put("p", &N{k: 'P'})
	n.put("m", &N{k: 'M'})
	n.put("z", &N{k: 'z'})
	n.put("a", &N{k: 'a', kids: []*N{{k: 'z'}}})
	plain := jsonvalue.NewArray()
	plain.MustAppendFloat64(math.NaN()).InTheEnd()
	c := &conv{}
	var o []jsonvalue.Option
	o = append(o, jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToFloat(7))
	c.nan, c.inf, c.infF = 2, 1, 7
	o = pick(c, o, false)
	jsonvalue.SetDefaultMarshalOptions(o...)
	checkConv(v, n, c)
	d := *c
	checkConv(v, n, &d, pick(&d, nil, false)...)
	checkConv(v, n, c)
	if sym.Choose("reset", 2) == 1 {
		jsonvalue.ResetDefaultMarshalOptions()
	} else {
		jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true))
	}
	_, err := v.Marshal()
	sym.Assert(err != nil, "the defaults are still in force after a reset")
	_, err = plain.Marshal()
	sym.Assert(err != nil, "the defaults are still in force after a reset")
	jsonvalue.ResetDefaultMarshalOptions()
	w := jsonvalue.NewObject()
	w.MustSetNull().At("z")
	checkConv(w, &N{k: 'o', keys: []string{"z"}, kids: []*N{{k: 'z'}}}, &conv{})
}
