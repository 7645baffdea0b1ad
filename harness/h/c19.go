package h

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"math"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

	"verifharness/sym"
)

// The executor calls the functions json... below in place of encoding/json's decoder.  They decode into the types
// the harnesses use; replayed traces compare them with the real decoder.

type decoder struct {
	r       io.Reader
	numbers bool
	strict  bool
}

var decoders = map[*json.Decoder]*decoder{}

func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders[d] = &decoder{r: r}
	return d
}

func jsonUseNumber(d *json.Decoder) { decoders[d].numbers = true }

func jsonStrict(d *json.Decoder) { decoders[d].strict = true }

func jsonDecode(d *json.Decoder, dst any) error {
	b, err := io.ReadAll(decoders[d].r)
	if err != nil {
		return err
	}
	return jsonDecodeBytes(b, dst, decoders[d])
}

func jsonUnmarshal(b []byte, dst any) error { return jsonDecodeBytes(b, dst, &decoder{}) }

var errDecode = errors.New("json: cannot decode")

func jsonDecodeBytes(b []byte, dst any, d *decoder) error {
	n, ok := refParse(b, false)
	if !ok {
		return errDecode
	}
	switch p := dst.(type) {
	case json.Unmarshaler:
		if v, ok := p.(*jsonvalue.V); ok && v == nil {
			return errDecode
		}
		return p.UnmarshalJSON(append([]byte{}, stripped(b)...))
	case **jsonvalue.V:
		if n.k == 'z' {
			*p = nil
			return nil
		}
		if *p == nil {
			*p = new(jsonvalue.V)
		}
		return (*p).UnmarshalJSON(append([]byte{}, stripped(b)...))
	}
	return d.decode(n, dst)
}

func (d *decoder) any(n *N) any {
	switch n.k {
	case 's':
		return n.s
	case 'n':
		if d.numbers {
			return json.Number(n.s)
		}
		f, _ := strconv.ParseFloat(n.s, 64)
		return f
	case 't', 'f':
		return n.k == 't'
	case 'a':
		r := []any{}
		for _, c := range n.kids {
			r = append(r, d.any(c))
		}
		return r
	case 'o':
		r := map[string]any{}
		for i, c := range n.kids {
			r[n.keys[i]] = d.any(c)
		}
		return r
	}
	return nil
}

// decode is what encoding/json does for the types used here.
func (d *decoder) decode(n *N, dst any) error {
	null := n.k == 'z'
	switch p := dst.(type) {
	case *any:
		if p == nil {
			return errDecode
		}
		*p = d.any(n)
	case *map[string]any:
		if null {
			*p = nil
			return nil
		}
		if n.k != 'o' {
			return errDecode
		}
		if *p == nil {
			*p = map[string]any{}
		}
		for i, c := range n.kids {
			(*p)[n.keys[i]] = d.any(c)
		}
	case *[]any:
		if null {
			*p = nil
			return nil
		}
		if n.k != 'a' {
			return errDecode
		}
		*p = d.any(n).([]any)
	case *string:
		if null {
			return nil
		}
		if n.k != 's' {
			return errDecode
		}
		*p = n.s
	case *int:
		if p == nil {
			return errDecode
		}
		if null {
			return nil
		}
		i, err := strconv.ParseInt(n.s, 10, 64)
		if n.k != 'n' || err != nil {
			return errDecode
		}
		*p = int(i)
	case *uint8:
		if null {
			return nil
		}
		i, err := strconv.ParseUint(n.s, 10, 8)
		if n.k != 'n' || err != nil {
			return errDecode
		}
		*p = uint8(i)
	case *float64:
		if null {
			return nil
		}
		f, err := strconv.ParseFloat(n.s, 64)
		if n.k != 'n' || err != nil {
			return errDecode
		}
		*p = f
	case *bool:
		if null {
			return nil
		}
		if n.k != 't' && n.k != 'f' {
			return errDecode
		}
		*p = n.k == 't'
	case **string:
		if null {
			*p = nil
			return nil
		}
		if *p == nil {
			*p = new(string)
		}
		return d.decode(n, *p)
	case *[]int:
		if null {
			*p = nil
			return nil
		}
		if n.k != 'a' {
			return errDecode
		}
		r := (*p)[:0]
		if r == nil {
			r = []int{}
		}
		var err error
		for i, c := range n.kids {
			var x int
			if i < cap(r) {
				x = 0
			}
			if e := d.decode(c, &x); e != nil && err == nil {
				err = e
			}
			r = append(r, x)
		}
		*p = r
		return err
	case *[2]int:
		if null {
			return nil
		}
		if n.k != 'a' {
			return errDecode
		}
		var err error
		for i := range p {
			p[i] = 0
			if i < len(n.kids) {
				if e := d.decode(n.kids[i], &p[i]); e != nil && err == nil {
					err = e
				}
			}
		}
		return err
	case *map[string]string:
		if null {
			*p = nil
			return nil
		}
		if n.k != 'o' {
			return errDecode
		}
		if *p == nil {
			*p = map[string]string{}
		}
		var err error
		for i, c := range n.kids {
			s := ""
			if e := d.decode(c, &s); e != nil && err == nil {
				err = e
			}
			(*p)[n.keys[i]] = s
		}
		return err
	case *record:
		if null {
			return nil
		}
		if n.k != 'o' {
			return errDecode
		}
		var err error
		for i, c := range n.kids {
			var e error
			switch n.keys[i] {
			case "a", "A":
				if c.k == 'z' {
					p.A = nil
				} else {
					if p.A == nil {
						p.A = new(int)
					}
					e = d.decode(c, p.A)
				}
			case "b", "B":
				e = d.decode(c, &p.B)
			case "C", "c":
				e = d.decode(c, &p.C)
			default:
				if d.strict {
					e = errDecode
				}
			}
			if e != nil && err == nil {
				err = e
			}
		}
		return err
	case *[]byte:
		if null {
			*p = nil
			return nil
		}
		if n.k != 's' {
			return errDecode
		}
		b, err := base64.StdEncoding.DecodeString(n.s)
		if err != nil {
			return err
		}
		*p = b
	case *json.Number:
		if null {
			return nil
		}
		if n.k == 'n' || n.k == 's' && refNumber([]byte(n.s)) == len(n.s) && n.s != "" {
			*p = json.Number(n.s)
			return nil
		}
		return errDecode
	case *float32:
		f, err := strconv.ParseFloat(n.s, 32)
		if !null && (n.k != 'n' || err != nil) {
			return errDecode
		}
		if !null {
			*p = float32(f)
		}
	case *int64:
		return decodeInt(n, p, 64)
	case *int32:
		return decodeInt(n, p, 32)
	case *int16:
		return decodeInt(n, p, 16)
	case *int8:
		return decodeInt(n, p, 8)
	case *uint64:
		return decodeUint(n, p, 64)
	case *uint:
		return decodeUint(n, p, 64)
	case *uint32:
		return decodeUint(n, p, 32)
	case *uint16:
		return decodeUint(n, p, 16)
	case *small19:
		return decodeInt(n, p, 8)
	default:
		return errDecode // nil and everything that is not a pointer
	}
	return nil
}

type small19 int8

func decodeInt[T signed](n *N, p *T, bits int) error {
	if n.k == 'z' {
		return nil
	}
	i, err := strconv.ParseInt(n.s, 10, bits)
	if n.k != 'n' || err != nil {
		return errDecode
	}
	*p = T(i)
	return nil
}

func decodeUint[T unsigned](n *N, p *T, bits int) error {
	if n.k == 'z' {
		return nil
	}
	i, err := strconv.ParseUint(n.s, 10, bits)
	if n.k != 'n' || err != nil {
		return errDecode
	}
	*p = T(i)
	return nil
}

type record struct {
	A *int   `json:"a"`
	B string `json:"b,omitempty"`
	C any
	d int
}

func eqAny(x, y any) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case string:
		b, ok := y.(string)
		return ok && a == b
	case float64:
		b, ok := y.(float64)
		return ok && a == b
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case json.Number:
		b, ok := y.(json.Number)
		return ok && a == b
	case []any:
		b, ok := y.([]any)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		for i := range a {
			if !eqAny(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		b, ok := y.(map[string]any)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		for k, e := range a {
			f, ok := b[k]
			if !ok || !eqAny(e, f) {
				return false
			}
		}
		return true
	}
	return false
}

const dstKinds = 21

// newDst is a destination, filled with something if old is set.
func newDst(kind int, old bool) any {
	seven := 7
	word := "word"
	switch kind {
	case 0:
		if old {
			var x any = map[string]any{"a": "old", "z": 1.0}
			return &x
		}
		return new(any)
	case 1:
		if old {
			return &map[string]any{"a": "old", "z": 1.0}
		}
		return new(map[string]any)
	case 2:
		if old {
			return &[]any{"old", 1.0}
		}
		return new([]any)
	case 3:
		if old {
			return &word
		}
		return new(string)
	case 4:
		if old {
			return &seven
		}
		return new(int)
	case 5:
		x := uint8(9)
		return &x
	case 6:
		x := 0.5
		return &x
	case 7:
		x := old
		return &x
	case 8:
		if old {
			p := &word
			return &p
		}
		return new(*string)
	case 9:
		if old {
			return &[]int{4, 5, 6}
		}
		return new([]int)
	case 10:
		return &[2]int{4, 5}
	case 11:
		if old {
			return &map[string]string{"a": "old", "z": "kept"}
		}
		return new(map[string]string)
	case 12:
		if old {
			return &record{A: &seven, B: "old", C: []any{1.0}, d: 3}
		}
		return new(record)
	case 13:
		if old {
			return &[]byte{1, 2}
		}
		return new([]byte)
	case 14:
		x := json.Number("5")
		return &x
	case 15:
		if old {
			return jsonvalue.MustUnmarshalString(`{"a":"old","z":[1]}`)
		}
		return &jsonvalue.V{}
	case 16:
		if old {
			x := jsonvalue.NewString("old")
			return &x
		}
		return new(*jsonvalue.V)
	case 17:
		return nil
	case 18:
		return (*int)(nil)
	case 19:
		return map[string]any{"z": 1.0}
	}
	return "string"
}

func sameDst(x, y any) bool {
	switch p := x.(type) {
	case *any:
		return eqAny(*p, *y.(*any))
	case *map[string]any:
		return eqAny(*p, *y.(*map[string]any))
	case *[]any:
		return eqAny(*p, *y.(*[]any))
	case *string:
		return *p == *y.(*string)
	case *int:
		q := y.(*int)
		return p == nil && q == nil || p != nil && q != nil && *p == *q
	case *uint8:
		return *p == *y.(*uint8)
	case *float64:
		return *p == *y.(*float64)
	case *bool:
		return *p == *y.(*bool)
	case **string:
		q := *y.(**string)
		return *p == nil && q == nil || *p != nil && q != nil && **p == *q
	case *[]int:
		q := *y.(*[]int)
		if len(*p) != len(q) || (*p == nil) != (q == nil) {
			return false
		}
		for i := range q {
			if q[i] != (*p)[i] {
				return false
			}
		}
		return true
	case *[2]int:
		return *p == *y.(*[2]int)
	case *map[string]string:
		q := *y.(*map[string]string)
		if len(*p) != len(q) || (*p == nil) != (q == nil) {
			return false
		}
		for k, s := range q {
			if t, ok := (*p)[k]; !ok || s != t {
				return false
			}
		}
		return true
	case *record:
		q := y.(*record)
		return sameDst(p.A, q.A) && p.B == q.B && eqAny(p.C, q.C) && p.d == q.d
	case *[]byte:
		q := *y.(*[]byte)
		return string(*p) == string(q) && (*p == nil) == (q == nil)
	case *json.Number:
		return *p == *y.(*json.Number)
	case *jsonvalue.V:
		return alike(p, y.(*jsonvalue.V))
	case **jsonvalue.V:
		return alike(*p, *y.(**jsonvalue.V))
	case nil:
		return y == nil
	case map[string]any:
		return eqAny(p, y)
	case string:
		return p == y.(string)
	}
	return false
}

// value19 is an arbitrary value, possibly one that cannot be marshaled.
func value19() *jsonvalue.V {
	g := &tree{left: sym.Param("nodes", 3, 4), wide: 2, leaves: "sntdzNP", keys: "ab"}
	switch sym.Choose("value", 4) {
	case 0:
		v, _ := g.value(2)
		return v
	case 1:
		return &jsonvalue.V{}
	case 2:
		texts := []string{`300`, `-1`, `1.0`, `1e2`, `18446744073709551615`, `"QUI="`, `"Q"`, `"5"`, `[1,null,"x",2]`, `{"a":1,"b":2,"c":[{}]}`, `{"b":"x","a":null,"C":true,"d":4,"e":0}`, `{}`, `[]`, `{"a":"x","b":"y"}`}
		return jsonvalue.MustUnmarshalString(texts[sym.Choose("text", len(texts))])
	}
	v := jsonvalue.NewArray()
	v.MustAppend(&jsonvalue.V{}).InTheEnd()
	v.MustAppendInt(1).InTheEnd()
	return v
}

func checkExport(v *jsonvalue.V, kind int) {
	old := sym.Choose("old", 2) == 1
	x, y := newDst(kind, old), newDst(kind, old)
	err := v.Export(x)
	text, e := v.Marshal()
	if e != nil {
		sym.Assert(err != nil, "a value that cannot be marshaled is exported")
		sym.Assert(sameDst(x, y), "a failing Export touches the destination")
		sym.Reach("not marshaled")
		sym.Log("export", kind)
		return
	}
	e = json.Unmarshal(text, y)
	sym.Assert((err == nil) == (e == nil), "Export and encoding/json disagree about an error")
	sym.Assert(sameDst(x, y), "Export fills the destination with something else")
	sym.Log("export", kind, err == nil)
	if s, ok := x.(*string); ok {
		sym.Log("string", *s)
	}
	if s, ok := x.(*record); ok {
		sym.Log("record", s.A == nil, s.B)
	}
	if s, ok := x.(*[]int); ok {
		sym.Log("ints", len(*s), *s == nil)
	}
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("exported")
	// what was exported is independent of the value
	if v.IsArray() {
		v.MustAppendString("later").InTheBeginning()
	} else if v.IsObject() {
		v.MustSetString("later").At("a")
		v.MustSetString("later").At("l")
	}
	for _, c := range v.ForRangeArr() {
		c.MustAppendString("later").InTheEnd()
		c.MustSetString("later").At("l")
	}
	sym.Assert(sameDst(x, y), "what was exported changes with the value")
}

// C19_export: arbitrary small values into every kind of destination.
func C19_export() {
	checkExport(value19(), sym.Choose("destination", dstKinds))
}

// C19_options: the default options apply to the text that is exported.
func C19_options() {
	defer jsonvalue.ResetDefaultMarshalOptions()
	switch sym.Choose("options", 3) {
	case 0:
		jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true), jsonvalue.OptFloatNaNToString("nan"))
	case 1:
		jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptFloatInfToFloat(1), jsonvalue.OptFloatNaNToNull())
	case 2:
		jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptIndent("", "\t"), jsonvalue.OptUTF8())
	}
	v := jsonvalue.NewObject()
	v.MustSetNull().At("b")
	v.MustSet([]any{"é\"<", nil}).At("C")
	if sym.Choose("nan", 2) == 1 {
		v.MustSetFloat64(math.NaN()).At("a")
	}
	if sym.Choose("inf", 2) == 1 {
		v.MustSetFloat64(math.Inf(1)).At("a")
	}
	checkExport(v, []int{0, 1, 12, 15}[sym.Choose("destination", 4)])
}

// C19_strings: strings arrive unchanged.
func C19_strings() {
	b := chars(sym.Choose("chars", sym.Param("maxchars", 1, 2)+1))
	v := jsonvalue.NewString(string(b))
	p := new(string)
	sym.Assert(v.Export(p) == nil && *p == string(b), "a string does not arrive unchanged")
	o := jsonvalue.NewObject()
	o.MustSet(v).At("b")
	var r record
	sym.Assert(o.Export(&r) == nil && r.B == string(b) && r.A == nil && r.C == nil, "a string does not arrive unchanged")
}

// exportNumber exports a value into a variable of type T and compares it with what decoding the text into one gives.
func exportNumber[T signed | unsigned | ~float32 | ~float64](v *jsonvalue.V, text []byte) {
	x, y := T(3), T(3)
	err := v.Export(&x)
	e := json.Unmarshal(text, &y)
	sym.Assert((err == nil) == (e == nil), "Export and encoding/json disagree about an error")
	sym.Assert(x == y, "Export gives another number")
	sym.Log("number", err == nil, x == 3)
	if err == nil {
		sym.Reach("exported")
	} else {
		sym.Reach("refused")
	}
}

// C19_numbers: numbers at the limits of every numeric type, with an arbitrary digit, into every numeric type.
func C19_numbers() {
	limits := []string{"12?", "-12?", "25?", "3276?", "-3276?", "6553?", "214748364?", "-214748364?", "429496729?", "922337203685477580?", "-922337203685477580?",
		"1844674407370955161?", "1677721?", "900719925474099?", "?", "-?"}
	floats := []string{"1e39", "3.4028235e38", "3.4028236e38", "-3.5e38", "1.00000017881393432617187499", "1e-50", "-0.0", "0.1", "1e300", "1.0", "1e2", "7.0385307e-26", "null", `"5"`, "true", "[]"}
	var text []byte
	if sym.Choose("kind", 2) == 0 {
		text = []byte(limits[sym.Choose("integer", len(limits))])
		text[len(text)-1] = sym.OneOf("digit", "0123456789")
	} else {
		text = []byte(floats[sym.Choose("other", len(floats))])
	}
	v, err := jsonvalue.Unmarshal(text)
	if err != nil {
		sym.Reach("out of range")
		return
	}
	if text, err = v.Marshal(); err != nil {
		sym.Assert(false, "Marshal fails")
	}
	switch sym.Choose("type", 13) {
	case 0:
		exportNumber[int](v, text)
	case 1:
		exportNumber[int64](v, text)
	case 2:
		exportNumber[int32](v, text)
	case 3:
		exportNumber[int16](v, text)
	case 4:
		exportNumber[int8](v, text)
	case 5:
		exportNumber[uint](v, text)
	case 6:
		exportNumber[uint64](v, text)
	case 7:
		exportNumber[uint32](v, text)
	case 8:
		exportNumber[uint16](v, text)
	case 9:
		exportNumber[uint8](v, text)
	case 10:
		exportNumber[float32](v, text)
	case 11:
		exportNumber[float64](v, text)
	case 12:
		exportNumber[small19](v, text)
	}
}
