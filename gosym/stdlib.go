package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// More of the standard library, so that code that says the same thing with other functions can be followed too.

// selectStmt takes the first communication that can go ahead.
func (w *Worker) selectStmt(fr *frame, in *cins) Value {
	x := in.ins.(*ssa.Select)
	res := Tuple{Value{n: ^uint64(0)}, Value{}}
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			res = append(res, w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	ri := 2
	for i, st := range x.States {
		ch, _ := fr.get(w, &in.ops[2*i]).r.(*Chan)
		if st.Dir == types.RecvOnly {
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				res[0] = vInt(i)
				if len(ch.buf) > 0 {
					res[1], res[ri] = vBool(true), ch.buf[0]
					ch.buf = ch.buf[1:]
				}
				return Value{r: res}
			}
			ri++
			continue
		}
		if ch != nil {
			if ch.closed {
				w.rtPanic("send on closed channel")
			}
			ch.buf = append(ch.buf, fr.get(w, &in.ops[2*i+1]))
			res[0] = vInt(i)
			return Value{r: res}
		}
	}
	if x.Blocking {
		panic(&pathAbort{"deadlock"})
	}
	return Value{r: res}
}

func (w *Worker) typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sprint joins operands; ln puts a space between all of them and ends the line.
func (w *Worker) sprint(args []Value, ln bool) Value {
	var out []Value
	isStr := func(v Value) bool {
		ifc, _ := v.r.(*Iface)
		if ifc == nil {
			return false
		}
		return types.Identical(ifc.t, types.Typ[types.String])
	}
	for i := range args {
		if i > 0 && (ln || !isStr(args[i]) && !isStr(args[i-1])) {
			out = append(out, Value{n: ' '})
		}
		out = append(out, asStr(w.sprintf("%v", args[i:i+1])).bytes()...)
	}
	if ln {
		out = append(out, Value{n: '\n'})
	}
	return bytesToStr(out)
}

func (w *Worker) writeOut(wr Value, text Value) Value {
	ifc, _ := wr.r.(*Iface)
	if ifc == nil {
		w.nilDeref()
	}
	r, ok := w.callMethod(ifc.t, "Write", ifc.v, w.appendVals(nil, asStr(text).bytes()))
	if !ok {
		panic(unsupported("Write of " + ifc.t.String()))
	}
	return r
}

// padInt is a formatted integer with its width and flags.
func (w *Worker) padInt(spec string, v Value, k tkind, width uint8) []Value {
	verb := spec[len(spec)-1]
	base, name := 10, "FormatUint"
	switch verb {
	case 'x', 'X':
		base = 16
	case 'o':
		base = 8
	case 'b':
		base = 2
	}
	if k == kInt {
		name = "FormatInt"
	}
	mod := spec[1 : len(spec)-1]
	if strings.ContainsAny(mod, "+ #.") {
		panic(unsupported("Sprintf " + spec))
	}
	r := w.callFn(w.eng.fn("strconv", name), []Value{w.convInt(v, k, width, 64), vInt(base)}, nil, w.site)
	txt := append([]Value(nil), asStr(r).bytes()...)
	if verb == 'X' {
		c := w.ctx
		for i, b := range txt {
			if b.r == nil {
				txt[i] = Value{n: uint64(strings.ToUpper(string([]byte{byte(b.n)}))[0])}
				continue
			}
			e := w.expr(b, 8)
			txt[i] = fromExpr(c.Ite(c.Ult(e, c.Const('a', 8)), e, c.Sub(e, c.Const(32, 8))))
		}
	}
	left, zero := false, false
	for mod != "" && (mod[0] == '-' || mod[0] == '0') {
		left, zero = left || mod[0] == '-', zero || mod[0] == '0'
		mod = mod[1:]
	}
	n, _ := strconv.Atoi(mod)
	var pad []Value
	for i := len(txt); i < n; i++ {
		if zero && !left {
			pad = append(pad, Value{n: '0'})
		} else {
			pad = append(pad, Value{n: ' '})
		}
	}
	switch {
	case left:
		return append(txt, pad...)
	case zero && len(txt) > 0 && txt[0].r == nil && txt[0].n == '-':
		return append(append([]Value{txt[0]}, pad...), txt[1:]...)
	}
	return append(pad, txt...)
}

func errorsAs(w *Worker, _ *ssa.Function, a []Value) Value {
	target, _ := a[1].r.(*Iface)
	if target == nil {
		w.rtPanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok || target.v.r == nil {
		w.rtPanic("errors: target must be a non-nil pointer")
	}
	el := pt.Elem()
	var walk func(err Value, depth int) bool
	walk = func(err Value, depth int) bool {
		ifc, _ := err.r.(*Iface)
		if ifc == nil || depth > 50 {
			return false
		}
		if it, ok := el.Underlying().(*types.Interface); ok {
			if w.implements(ifc.t, it) {
				w.storeTo(target.v, err, w.site)
				return true
			}
		} else if types.Identical(ifc.t, el) {
			w.storeTo(target.v, ifc.v, w.site)
			return true
		}
		r, ok := w.callMethod(ifc.t, "Unwrap", ifc.v)
		if !ok || r.r == nil {
			return false
		}
		if s, ok := r.r.(*Slice); ok {
			for _, e := range sliceVals(s) {
				if walk(e, depth+1) {
					return true
				}
			}
			return false
		}
		return walk(r, depth+1)
	}
	return vBool(walk(a[0], 0))
}

// mapIter is the state of a reflect.MapIter.
type mapIter struct {
	keys, vals []Value
	i          int
}

func iterOf(v Value) *mapIter {
	if c, ok := v.r.(*Value); ok {
		if it, ok := c.r.(*mapIter); ok {
			return it
		}
	}
	panic(unsupported("reflect.MapIter expected"))
}

// fieldPath finds a field, promoted ones included.
func fieldPath(t types.Type, name string) []int {
	var pkg *types.Package
	if n, ok := t.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if pkg == nil && st.NumFields() > 0 {
		pkg = st.Field(0).Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := o.(*types.Var); !ok {
		return nil
	}
	return idx
}

// deepEq is reflect.DeepEqual of two values of the same type.
func (w *Worker) deepEq(t types.Type, a, b Value, depth int) *Expr {
	c := w.ctx
	if depth > 40 {
		panic(unsupported("reflect.DeepEqual of a deep value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := asSlice(a), asSlice(b)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x.len != y.len {
			return c.Bool(false)
		}
		var all []*Expr
		for i := 0; i < x.len; i++ {
			all = append(all, w.deepEq(u.Elem(), x.agg.f[x.off+i], y.agg.f[y.off+i], depth+1))
		}
		return c.And(all...)
	case *types.Struct:
		var all []*Expr
		for i := 0; i < u.NumFields(); i++ {
			all = append(all, w.deepEq(u.Field(i).Type(), asAgg(a).f[i], asAgg(b).f[i], depth+1))
		}
		return c.And(all...)
	case *types.Array:
		var all []*Expr
		for i := range asAgg(a).f {
			all = append(all, w.deepEq(u.Elem(), asAgg(a).f[i], asAgg(b).f[i], depth+1))
		}
		return c.And(all...)
	case *types.Pointer:
		if a.r == nil || b.r == nil || ptrEq(a, b) {
			return c.Bool(a.r == nil && b.r == nil || ptrEq(a, b))
		}
		return w.deepEq(u.Elem(), w.load(a, u.Elem(), w.site), w.load(b, u.Elem(), w.site), depth+1)
	case *types.Interface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.Bool(false)
		}
		return w.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, _ := a.r.(*Map)
		y, _ := b.r.(*Map)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x.live != y.live {
			return c.Bool(false)
		}
		var all []*Expr
		for _, e := range x.entries {
			if e.deleted {
				continue
			}
			f := w.mapFind(y, e.k, w.siteOf("DeepEqual", 0))
			if f == nil {
				return c.Bool(false)
			}
			all = append(all, w.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return c.And(all...)
	case *types.Signature:
		return c.Bool(a.r == nil && b.r == nil)
	}
	return w.eqVal(t, a, b)
}

func registerStdlib() {
	intrinsics["errors.As"] = errorsAs
	intrinsics["fmt.Sprint"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return w.sprint(sliceVals(asSlice(a[0])), false)
	}
	intrinsics["fmt.Sprintln"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return w.sprint(sliceVals(asSlice(a[0])), true)
	}
	form := func(w *Worker, f, args Value) Value {
		s, ok := asStr(f).concrete()
		if !ok {
			panic(unsupported("format with symbolic text"))
		}
		return w.sprintf(s, sliceVals(asSlice(args)))
	}
	intrinsics["fmt.Fprintf"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return w.writeOut(a[0], form(w, a[1], a[2]))
	}
	intrinsics["fmt.Fprint"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return w.writeOut(a[0], w.sprint(sliceVals(asSlice(a[1])), false))
	}
	intrinsics["fmt.Fprintln"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return w.writeOut(a[0], w.sprint(sliceVals(asSlice(a[1])), true))
	}
	grow := func(w *Worker, b, s Value) Value {
		add := asStr(s).bytes()
		if len(add) == 0 {
			return b
		}
		return w.appendVals(asSlice(b), add)
	}
	intrinsics["fmt.Appendf"] = func(w *Worker, _ *ssa.Function, a []Value) Value { return grow(w, a[0], form(w, a[1], a[2])) }
	intrinsics["fmt.Append"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return grow(w, a[0], w.sprint(sliceVals(asSlice(a[1])), false))
	}
	intrinsics["fmt.Appendln"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return grow(w, a[0], w.sprint(sliceVals(asSlice(a[1])), true))
	}
	intrinsics["internal/stringslite.Index"] = intrinsics["strings.Index"]
	intrinsics["(reflect.Kind).String"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return vStr(reflect.Kind(w.concInt(a[0], w.siteOf("Kind.String", 0), "kind")).String())
	}
	intrinsics["(*sync/atomic.Value).Swap"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		c := cell(a[0])
		old := asAgg(*c).f[0]
		w.locks++
		w.store(&asAgg(*c).f[0], a[1])
		w.locks--
		return old
	}
	intrinsics["(*sync/atomic.Value).CompareAndSwap"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		c := cell(a[0])
		e := w.eqVal(types.NewInterfaceType(nil, nil), asAgg(*c).f[0], a[1])
		eq := e.isTrue()
		if !e.isConst() {
			eq = w.path.branch(e, w.siteOf("cas", 1))
		}
		if eq {
			w.locks++
			w.store(&asAgg(*c).f[0], a[2])
			w.locks--
		}
		return vBool(eq)
	}
	last := func(a Value) *Value { ag := asAgg(*cell(a)); return &ag.f[len(ag.f)-1] }
	intrinsics["(*sync/atomic.Pointer[T]).Swap"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		p := last(a[0])
		old := *p
		w.locks++
		w.store(p, a[1])
		w.locks--
		return old
	}
	intrinsics["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		p := last(a[0])
		if !ptrEq(*p, a[1]) {
			return vBool(false)
		}
		w.locks++
		w.store(p, a[2])
		w.locks--
		return vBool(true)
	}

	// sync.Map: a map under a lock
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(name string, f func(w *Worker, m Value, a []Value) Value) {
		intrinsics["(*sync.Map)."+name] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.locks++
			ag := asAgg(*cell(a[0]))
			if _, ok := ag.f[0].r.(*Map); !ok {
				w.store(&ag.f[0], Value{r: w.mkMap(anyT)})
			}
			r := f(w, ag.f[0], a)
			w.locks--
			return r
		}
	}
	get := func(w *Worker, m, k Value) (Value, bool) {
		if e := w.mapFind(m.r.(*Map), k, w.siteOf("sync.Map", 0)); e != nil {
			return copyVal(e.v), true
		}
		return Value{}, false
	}
	put := func(w *Worker, m, k, v Value) { w.mapUpdate(m, k, v, w.siteOf("sync.Map", 1)) }
	smap("Load", func(w *Worker, m Value, a []Value) Value {
		v, ok := get(w, m, a[1])
		return tup(v, vBool(ok))
	})
	smap("Store", func(w *Worker, m Value, a []Value) Value { put(w, m, a[1], a[2]); return Value{} })
	smap("LoadOrStore", func(w *Worker, m Value, a []Value) Value {
		v, ok := get(w, m, a[1])
		if !ok {
			put(w, m, a[1], a[2])
			v = a[2]
		}
		return tup(v, vBool(ok))
	})
	smap("Swap", func(w *Worker, m Value, a []Value) Value {
		v, ok := get(w, m, a[1])
		put(w, m, a[1], a[2])
		return tup(v, vBool(ok))
	})
	smap("LoadAndDelete", func(w *Worker, m Value, a []Value) Value {
		v, ok := get(w, m, a[1])
		w.mapDelete(m, a[1], w.siteOf("sync.Map", 2))
		return tup(v, vBool(ok))
	})
	smap("Delete", func(w *Worker, m Value, a []Value) Value {
		w.mapDelete(m, a[1], w.siteOf("sync.Map", 2))
		return Value{}
	})
	intrinsics["(*sync.Map).Range"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		m, _ := asAgg(*cell(a[0])).f[0].r.(*Map)
		if m == nil {
			return Value{}
		}
		for _, e := range w.mapOrder(m, true, w.siteOf("sync.Map", 3)) {
			if r := w.callValue(a[1], []Value{e.k, e.v}, w.site); r.r == nil && r.n == 0 {
				break
			} else if r.r != nil && !w.path.branch(w.expr(r, 1), w.siteOf("sync.Map", 4)) {
				break
			}
		}
		return Value{}
	}

	reg := func(name string, f func(w *Worker, r *RV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			r := w.rvOf(a[0])
			if r == nil {
				w.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(w, r, a)
		}
	}
	method := func(name string) func(w *Worker, args ...Value) Value {
		return func(w *Worker, args ...Value) Value { return intrinsics["(reflect.Value)."+name](w, nil, args) }
	}
	field, elem := method("Field"), method("Elem")
	byIndex := func(w *Worker, v Value, idx []int) Value {
		for i, k := range idx {
			if r := w.rvOf(v); i > 0 && r != nil && rkind(r.t) == reflect.Ptr {
				if v = elem(w, v); v.r == nil {
					w.rtPanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			v = field(w, v, vInt(k))
		}
		return v
	}
	reg("FieldByName", func(w *Worker, r *RV, a []Value) Value {
		name, ok := asStr(a[1]).concrete()
		if !ok {
			panic(unsupported("FieldByName of a symbolic name"))
		}
		idx := fieldPath(r.t, name)
		if idx == nil {
			return Value{}
		}
		return byIndex(w, a[0], idx)
	})
	reg("FieldByIndex", func(w *Worker, r *RV, a []Value) Value {
		var idx []int
		for _, v := range sliceVals(asSlice(a[1])) {
			idx = append(idx, int(w.concInt(v, w.siteOf("FieldByIndex", 0), "index")))
		}
		return byIndex(w, a[0], idx)
	})
	reg("Cap", func(w *Worker, r *RV, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Slice:
			if s := asSlice(r.val()); s != nil {
				return vInt(s.cap)
			}
			return Value{}
		case reflect.Array:
			return vInt(len(asAgg(r.val()).f))
		}
		w.rtPanic("reflect: Cap of " + r.t.String())
		return Value{}
	})
	slice := func(w *Worker, r *RV, lo, hi Value) Value {
		i, j := int(w.concInt(lo, w.siteOf("rSlice", 0), "low")), int(w.concInt(hi, w.siteOf("rSlice", 1), "high"))
		switch rkind(r.t) {
		case reflect.Slice:
			s := asSlice(r.val())
			if s == nil {
				if i == 0 && j == 0 {
					return Value{r: &RV{t: r.t, stickyRO: r.stickyRO || r.embedRO}}
				}
				w.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			if i < 0 || j < i || j > s.cap {
				w.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return Value{r: &RV{t: r.t, v: Value{r: &Slice{agg: s.agg, off: s.off + i, len: j - i, cap: s.cap - i}}, stickyRO: r.stickyRO || r.embedRO}}
		case reflect.String:
			s := asStr(r.val())
			if i < 0 || j < i || j > s.n {
				w.rtPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return Value{r: &RV{t: r.t, v: s.sub(i, j), stickyRO: r.stickyRO || r.embedRO}}
		}
		panic(unsupported("reflect Slice of " + r.t.String()))
	}
	reg("Slice", func(w *Worker, r *RV, a []Value) Value { return slice(w, r, a[1], a[2]) })
	reg("SetLen", func(w *Worker, r *RV, a []Value) Value {
		if r.cell == nil || rkind(r.t) != reflect.Slice {
			w.rtPanic("reflect: SetLen")
		}
		w.store(r.cell, w.rvOf(slice(w, r, Value{}, a[1])).val())
		return Value{}
	})
	addr := func(w *Worker, r *RV, a []Value) Value {
		if r.val().r == nil {
			return Value{}
		}
		panic(unsupported("address of a value as a number"))
	}
	reg("UnsafePointer", addr)
	pointer := func(w *Worker, r *RV, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			if r.val().r == nil {
				return Value{}
			}
			return vInt(w.addrOf(r.val()))
		}
		w.rtPanic("reflect: Pointer of " + r.t.String())
		return Value{}
	}
	reg("Pointer", pointer)
	is := func(name string, f func(t types.Type) bool) {
		reg(name, func(w *Worker, r *RV, a []Value) Value { return vBool(f(r.t)) })
	}
	kindIs := func(ks ...tkind) func(types.Type) bool {
		return func(t types.Type) bool {
			k, _ := classify(t)
			for _, x := range ks {
				if x == k {
					return true
				}
			}
			return false
		}
	}
	is("CanInt", kindIs(kInt))
	is("CanUint", kindIs(kUint))
	is("CanFloat", kindIs(kFloat))
	is("CanConvert", func(types.Type) bool { panic(unsupported("reflect CanConvert")) })
	reg("Comparable", func(w *Worker, r *RV, a []Value) Value {
		if rkind(r.t) == reflect.Interface {
			ifc, _ := r.val().r.(*Iface)
			return vBool(ifc == nil || types.Comparable(ifc.t))
		}
		return vBool(types.Comparable(r.t))
	})
	reg("NumMethod", func(w *Worker, r *RV, a []Value) Value { return vInt(w.numMethods(r.t)) })
	setNum := func(name string, kinds ...tkind) {
		reg(name, func(w *Worker, r *RV, a []Value) Value {
			k, width := classify(r.t)
			if r.cell == nil || r.stickyRO || r.embedRO || !kindIs(kinds...)(r.t) {
				w.rtPanic("reflect: " + name + " using unaddressable value or on " + r.t.String())
			}
			switch k {
			case kInt, kUint:
				w.store(r.cell, w.convInt(a[1], k, 64, width))
			case kFloat:
				v := a[1]
				if width == 32 {
					v = w.convert(&cins{k1: kFloat, w1: 64, k2: kFloat, w2: 32}, v)
				}
				w.store(r.cell, v)
			default:
				w.store(r.cell, a[1])
			}
			return Value{}
		})
	}
	setNum("SetInt", kInt)
	setNum("SetUint", kUint)
	setNum("SetFloat", kFloat)
	setNum("SetBool", kBool)
	setNum("SetString", kString)
	setNum("SetBytes", kSlice)
	reg("SetZero", func(w *Worker, r *RV, a []Value) Value {
		if r.cell == nil || r.stickyRO || r.embedRO {
			w.rtPanic("reflect: SetZero using unaddressable value")
		}
		w.store(r.cell, w.zero(r.t))
		return Value{}
	})
	reg("SetMapIndex", func(w *Worker, r *RV, a []Value) Value {
		if r.stickyRO || r.embedRO {
			w.rtPanic("reflect: SetMapIndex using value obtained using unexported field")
		}
		if a[2].r == nil {
			w.mapDelete(r.val(), w.rvOf(a[1]).val(), w.siteOf("SetMapIndex", 0))
			return Value{}
		}
		x := w.rvOf(a[2])
		v := x.val()
		if el := r.t.Underlying().(*types.Map).Elem(); rkind(el) == reflect.Interface && rkind(x.t) != reflect.Interface {
			v = Value{r: &Iface{t: x.t, v: v}}
		}
		w.mapUpdate(r.val(), w.rvOf(a[1]).val(), v, w.siteOf("SetMapIndex", 1))
		return Value{}
	})
	reg("MapRange", func(w *Worker, r *RV, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			w.rtPanic("reflect: MapRange of " + r.t.String())
		}
		it := &mapIter{i: -1}
		if m, _ := r.val().r.(*Map); m != nil {
			for _, e := range w.mapOrder(m, true, w.siteOf("MapRange", 0)) {
				it.keys = append(it.keys, Value{r: &RV{t: mt.Key(), v: e.k, stickyRO: r.stickyRO || r.embedRO}})
				it.vals = append(it.vals, Value{r: &RV{t: mt.Elem(), v: copyVal(e.v), stickyRO: r.stickyRO || r.embedRO}})
			}
		}
		return Value{r: &Value{r: it}}
	})
	intrinsics["(*reflect.MapIter).Next"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		it := iterOf(a[0])
		it.i++
		return vBool(it.i < len(it.keys))
	}
	intrinsics["(*reflect.MapIter).Key"] = func(w *Worker, _ *ssa.Function, a []Value) Value { it := iterOf(a[0]); return it.keys[it.i] }
	intrinsics["(*reflect.MapIter).Value"] = func(w *Worker, _ *ssa.Function, a []Value) Value { it := iterOf(a[0]); return it.vals[it.i] }
	reg("Convert", func(w *Worker, r *RV, a []Value) Value {
		t := rtOf(a[1]).t
		w.eng.methMu.Lock()
		ok := types.ConvertibleTo(r.t, t)
		w.eng.methMu.Unlock()
		if !ok {
			w.rtPanic("reflect.Value.Convert: value of type " + r.t.String() + " cannot be converted to type " + t.String())
		}
		n := &RV{t: t, stickyRO: r.stickyRO || r.embedRO}
		switch {
		case rkind(t) == reflect.Interface && rkind(r.t) != reflect.Interface:
			n.v = Value{r: &Iface{t: r.t, v: r.val()}}
		case types.Identical(r.t.Underlying(), t.Underlying()) || rkind(t) == reflect.Interface:
			n.v = r.val()
		default:
			ci := &cins{t1: r.t, t2: t}
			ci.k1, ci.w1 = classify(r.t)
			ci.k2, ci.w2 = classify(t)
			n.v = w.convert(ci, r.val())
		}
		return Value{r: n}
	})
	intrinsics["reflect.MakeSlice"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		t := rtOf(a[0]).t
		l, c := w.concInt(a[1], w.siteOf("MakeSlice", 0), "len"), w.concInt(a[2], w.siteOf("MakeSlice", 1), "cap")
		if l < 0 || c < l {
			w.rtPanic("reflect.MakeSlice: bad len or cap")
		}
		return Value{r: &RV{t: t, v: w.makeSlice(t.Underlying().(*types.Slice).Elem(), int(l), int(c))}}
	}
	mkMap := func(w *Worker, _ *ssa.Function, a []Value) Value {
		t := rtOf(a[0]).t
		return Value{r: &RV{t: t, v: Value{r: w.mkMap(t.Underlying().(*types.Map).Key())}}}
	}
	intrinsics["reflect.MakeMap"] = mkMap
	intrinsics["reflect.MakeMapWithSize"] = mkMap
	intrinsics["reflect.Append"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		r := w.rvOf(a[0])
		el := r.t.Underlying().(*types.Slice).Elem()
		v := r.val()
		for _, x := range sliceVals(asSlice(a[1])) {
			xr := w.rvOf(x)
			y := xr.val()
			if rkind(el) == reflect.Interface && rkind(xr.t) != reflect.Interface {
				y = Value{r: &Iface{t: xr.t, v: y}}
			}
			v = w.appendVals(asSlice(v), []Value{y})
		}
		return Value{r: &RV{t: r.t, v: v}}
	}
	intrinsics["reflect.DeepEqual"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		return fromExpr(w.deepEq(types.NewInterfaceType(nil, nil), a[0], a[1], 0))
	}
	slOf := func(w *Worker, _ *ssa.Function, a []Value) Value { return w.rtVal(types.NewSlice(rtOf(a[0]).t)) }
	intrinsics["reflect.SliceOf"] = slOf
	intrinsics["reflect.VisibleFields"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		st, ok := rtOf(a[0]).t.Underlying().(*types.Struct)
		if !ok {
			w.rtPanic("reflect.VisibleFields of non-struct type")
		}
		var out []Value
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				panic(unsupported("reflect.VisibleFields of a type with embedded fields"))
			}
			out = append(out, w.structField(st, i))
		}
		return w.appendVals(nil, out)
	}
}

// addrOf numbers the objects whose address has been looked at.
func (w *Worker) addrOf(v Value) int {
	key := any(v.r)
	switch x := v.r.(type) {
	case *Slice:
		if len(x.agg.f) > x.off {
			key = &x.agg.f[x.off]
		} else {
			key = x.agg
		}
	case *SymPtr, *PunPtr, *UPtr:
		panic(unsupported(fmt.Sprintf("address of %T", x)))
	}
	p := w.needPath()
	if p.addrs == nil {
		p.addrs = map[any]int{}
	}
	if n, ok := p.addrs[key]; ok {
		return n
	}
	n := 0xc000000000 + 64*(len(p.addrs)+1)
	p.addrs[key] = n
	return n
}

func (w *Worker) numMethods(t types.Type) int {
	w.eng.methMu.Lock()
	defer w.eng.methMu.Unlock()
	if it, ok := t.Underlying().(*types.Interface); ok {
		return it.NumMethods()
	}
	ms := w.eng.prog.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}
