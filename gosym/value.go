package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a runtime value of the interpreted program.  r==nil and n for concrete scalars; see the types below.
type Value struct {
	r any
	n uint64
}

// Agg is the storage (or value) of a struct or array.
type Agg struct {
	f []Value
}

// Str is a string: either a Go string or a window on a byte array (which may alias a []byte, as the package's
// unsafe conversions do).
type Str struct {
	s   string
	agg *Agg
	off int
	n   int
}

type Slice struct {
	agg      *Agg
	off      int
	len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(w *Worker, args []Value) Value // native closure
}

type Tuple []Value

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	symKeys int                  // number of live entries with symbolic keys
	epoch   uint64
	live    int
	keyT    types.Type
}

type Chan struct {
	buf    []Value
	closed bool
	cap    int
}

// SymPtr points at an element of an array selected by a symbolic index (known in range).
type SymPtr struct {
	agg *Agg
	off int
	n   int
	idx *Expr
	sub []int // field path below the element
}

// UPtr is an unsafe.Pointer remembering the static type of the object it came from.
type UPtr struct {
	p Value
	t types.Type // element type pointed to
}

// PunPtr is a *U obtained from a pointer to a T of a different shape.
type PunPtr struct {
	p    Value
	from types.Type
	to   types.Type
}

// HdrPtr points at a word of a string/slice header stored in a cell.
type HdrPtr struct {
	cell  *Value
	field int
	isStr bool
}

// DataPtr is a pointer to the first byte of string or slice data (unsafe.SliceData, header Data words).
type DataPtr struct {
	str *Str
	sl  *Slice
}

type RangeIter struct {
	str  *Str
	pos  int
	m    *Map
	keys []*mapEntry
	i    int
}

func vInt(n int) Value   { return Value{n: uint64(n)} }
func vBool(b bool) Value { return Value{n: b2u(b)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: &Str{s: s, n: len(s)}}
}

func asStr(v Value) *Str {
	if v.r == nil {
		return &emptyStr
	}
	s, ok := v.r.(*Str)
	if !ok {
		panic(unsupported(fmt.Sprintf("string expected, have %T", v.r)))
	}
	return s
}

var emptyStr Str

func (s *Str) len() int { return s.n }

func (s *Str) at(i int) Value {
	if s.agg == nil {
		return Value{n: uint64(s.s[i])}
	}
	return s.agg.f[s.off+i]
}

// concrete returns the Go string if all bytes are concrete.
func (s *Str) concrete() (string, bool) {
	if s.agg == nil {
		return s.s, true
	}
	b := make([]byte, s.n)
	for i := range b {
		v := s.agg.f[s.off+i]
		if v.r != nil {
			return "", false
		}
		b[i] = byte(v.n)
	}
	return string(b), true
}

func (s *Str) sub(lo, hi int) Value {
	if hi == lo {
		return Value{}
	}
	if s.agg == nil {
		return Value{r: &Str{s: s.s[lo:hi], n: hi - lo}}
	}
	return Value{r: &Str{agg: s.agg, off: s.off + lo, n: hi - lo}}
}

// freeze copies a string's bytes so later writes to an aliased array are not seen.
func bytesToStr(vals []Value) Value {
	if len(vals) == 0 {
		return Value{}
	}
	b := make([]byte, len(vals))
	for i, v := range vals {
		if v.r != nil {
			return Value{r: &Str{agg: &Agg{f: append([]Value(nil), vals...)}, n: len(vals)}}
		}
		b[i] = byte(v.n)
	}
	return vStr(string(b))
}

func (s *Str) bytes() []Value {
	out := make([]Value, s.n)
	for i := range out {
		out[i] = s.at(i)
	}
	return out
}

func sliceVals(s *Slice) []Value {
	if s == nil {
		return nil
	}
	return s.agg.f[s.off : s.off+s.len]
}

func asSlice(v Value) *Slice {
	if v.r == nil {
		return nil
	}
	s, ok := v.r.(*Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("slice expected, have %T", v.r)))
	}
	return s
}

func asAgg(v Value) *Agg {
	a, ok := v.r.(*Agg)
	if !ok {
		panic(unsupported(fmt.Sprintf("aggregate expected, have %T", v.r)))
	}
	return a
}

func newBytes(b []byte) Value {
	a := &Agg{f: make([]Value, len(b))}
	for i, x := range b {
		a.f[i].n = uint64(x)
	}
	return Value{r: &Slice{agg: a, len: len(b), cap: len(b)}}
}

func copyVal(v Value) Value {
	if a, ok := v.r.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i := range a.f {
			n.f[i] = copyVal(a.f[i])
		}
		return Value{r: n}
	}
	return v
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isReflectValue(t) {
			return Value{}
		}
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				a.f[i] = w.zero(u.Field(i).Type())
			}
		}
		return Value{r: a}
	case *types.Array:
		n := u.Len()
		if n > 1<<22 {
			panic(unsupported("huge array"))
		}
		a := &Agg{f: make([]Value, n)}
		w.charge(int(n) / 8)
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.f {
				a.f[i] = w.zero(u.Elem())
			}
		}
		return Value{r: a}
	}
	return Value{}
}

// ---- type classification

type tkind uint8

const (
	kOther tkind = iota
	kInt
	kUint
	kFloat
	kBool
	kString
	kPtr
	kIface
	kAgg
	kSlice
	kMap
	kFunc
	kChan
	kUnsafe
	kComplex
)

func classify(t types.Type) (tkind, uint8) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 1
		case types.Int8:
			return kInt, 8
		case types.Int16:
			return kInt, 16
		case types.Int32, types.UntypedRune:
			return kInt, 32
		case types.Int, types.Int64, types.UntypedInt:
			return kInt, 64
		case types.Uint8:
			return kUint, 8
		case types.Uint16:
			return kUint, 16
		case types.Uint32:
			return kUint, 32
		case types.Uint, types.Uint64, types.Uintptr:
			return kUint, 64
		case types.Float32:
			return kFloat, 32
		case types.Float64, types.UntypedFloat:
			return kFloat, 64
		case types.String, types.UntypedString:
			return kString, 0
		case types.UnsafePointer:
			return kUnsafe, 0
		case types.Complex64, types.Complex128:
			return kComplex, 0
		}
	case *types.Pointer:
		return kPtr, 0
	case *types.Interface:
		return kIface, 0
	case *types.Struct, *types.Array:
		return kAgg, 0
	case *types.Slice:
		return kSlice, 0
	case *types.Map:
		return kMap, 0
	case *types.Signature:
		return kFunc, 0
	case *types.Chan:
		return kChan, 0
	}
	return kOther, 0
}

// expr converts a scalar value into a term of width w.
func (w *Worker) expr(v Value, width uint8) *Expr {
	if v.r == nil {
		return w.ctx.Const(v.n, width)
	}
	e, ok := v.r.(*Expr)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, have %T", v.r)))
	}
	return e
}

func fromExpr(e *Expr) Value {
	if e.op == OConst {
		return Value{n: e.k}
	}
	return Value{r: e}
}

func isSym(v Value) bool {
	_, ok := v.r.(*Expr)
	return ok
}

// eqVal builds the term for a == b at static type t.
func (w *Worker) eqVal(t types.Type, a, b Value) *Expr {
	k, width := classify(t)
	c := w.ctx
	switch k {
	case kBool, kInt, kUint:
		ra, rb := a.r, b.r
		if dp, ok := ra.(*DataPtr); ok {
			_ = dp
			return c.Bool(ra == rb)
		}
		if ra == nil && rb == nil {
			return c.Bool(a.n == b.n)
		}
		return c.Eq(w.expr(a, width), w.expr(b, width))
	case kFloat:
		return w.ctx.F(OFEq, 1, width, w.expr(a, width), w.expr(b, width))
	case kString:
		return w.eqStr(asStr(a), asStr(b))
	case kPtr, kUnsafe, kChan, kMap, kFunc, kSlice:
		return c.Bool(ptrEq(a, b))
	case kIface:
		ia, _ := a.r.(*Iface)
		ib, _ := b.r.(*Iface)
		if ia == nil || ib == nil {
			return c.Bool(ia == nil && ib == nil)
		}
		if !types.Identical(ia.t, ib.t) {
			return c.Bool(false)
		}
		if !types.Comparable(ia.t) {
			w.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		if rt, ok := ia.v.r.(*RT); ok {
			if rt2, ok := ib.v.r.(*RT); ok {
				return c.Bool(types.Identical(rt.t, rt2.t))
			}
		}
		return w.eqVal(ia.t, ia.v, ib.v)
	case kAgg:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var cs []*Expr
			x, y := asAgg(a), asAgg(b)
			for i := range x.f {
				cs = append(cs, w.eqVal(u.Field(i).Type(), x.f[i], y.f[i]))
			}
			return c.And(cs...)
		case *types.Array:
			var cs []*Expr
			x, y := asAgg(a), asAgg(b)
			for i := range x.f {
				cs = append(cs, w.eqVal(u.Elem(), x.f[i], y.f[i]))
			}
			return c.And(cs...)
		}
	}
	panic(unsupported("== on " + t.String()))
}

func ptrEq(a, b Value) bool {
	norm := func(v Value) any {
		switch x := v.r.(type) {
		case *UPtr:
			return x.p.r
		case *PunPtr:
			return x.p.r
		case *DataPtr:
			if x.sl != nil && x.sl.off < len(x.sl.agg.f) {
				return &x.sl.agg.f[x.sl.off]
			}
		}
		return v.r
	}
	x, y := norm(a), norm(b)
	if x == nil && y == nil {
		return a.n == b.n
	}
	return x == y
}

func (w *Worker) eqStr(a, b *Str) *Expr {
	c := w.ctx
	if a.n != b.n {
		return c.Bool(false)
	}
	if a.agg == nil && b.agg == nil {
		return c.Bool(a.s == b.s)
	}
	if a.agg == b.agg && a.off == b.off {
		return c.Bool(true)
	}
	var cs []*Expr
	for i := 0; i < a.n; i++ {
		x, y := a.at(i), b.at(i)
		if x.r == nil && y.r == nil {
			if x.n != y.n {
				return c.Bool(false)
			}
			continue
		}
		e := c.Eq(w.expr(x, 8), w.expr(y, 8))
		if e.isFalse() {
			return e
		}
		cs = append(cs, e)
	}
	return c.And(cs...)
}

// ltStr builds a < b (or a <= b).
func (w *Worker) ltStr(a, b *Str, orEq bool) *Expr {
	c := w.ctx
	n := min(a.n, b.n)
	var res *Expr
	if orEq {
		res = c.Bool(a.n <= b.n)
	} else {
		res = c.Bool(a.n < b.n)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.expr(a.at(i), 8), w.expr(b.at(i), 8)
		res = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), res))
	}
	return res
}

func describe(v Value) string {
	switch x := v.r.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Str:
		if s, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", s)
		}
		return "<symbolic string>"
	case *Iface:
		return x.t.String() + ":" + describe(x.v)
	case *Expr:
		return "<sym>"
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for i, f := range x.f {
			if i > 0 {
				sb.WriteString(" ")
			}
			if i > 6 {
				sb.WriteString("...")
				break
			}
			sb.WriteString(describe(f))
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("%T", v.r)
}
