package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// RT is a reflect.Type; RV a reflect.Value.
type RT struct{ t types.Type }

type RV struct {
	t        types.Type
	v        Value
	cell     *Value
	stickyRO bool
	embedRO  bool
}

func (r *RV) val() Value {
	if r.cell != nil {
		return copyVal(*r.cell)
	}
	return r.v
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (w *Worker) ptrTo(t types.Type) types.Type {
	if p, ok := w.ptrTypes[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	w.ptrTypes[t] = p
	return p
}

func (w *Worker) rtVal(t types.Type) Value {
	return Value{r: &Iface{t: w.eng.rtypeT(), v: Value{r: &RT{t}}}}
}

func (e *Engine) rtypeT() types.Type { return e.errStrPtr }

func rtOf(v Value) *RT {
	if ifc, ok := v.r.(*Iface); ok {
		v = ifc.v
	}
	rt, ok := v.r.(*RT)
	if !ok {
		panic(unsupported("reflect.Type expected"))
	}
	return rt
}

func (w *Worker) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return Value{r: &Agg{f: []Value{
		vStr(f.Name()), vStr(pkg), w.rtVal(f.Type()), vStr(st.Tag(i)), {}, {r: &Slice{agg: &Agg{f: []Value{vInt(i)}}, len: 1, cap: 1}}, vBool(f.Embedded()),
	}}}
}

func (w *Worker) rtypeMethod(name string, a []Value) Value {
	rt := rtOf(a[0])
	bad := func() { w.rtPanic("reflect: " + name + " of " + rt.t.String()) }
	switch name {
	case "Kind":
		return Value{n: uint64(rkind(rt.t))}
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return w.rtVal(u.Elem())
		case *types.Slice:
			return w.rtVal(u.Elem())
		case *types.Array:
			return w.rtVal(u.Elem())
		case *types.Map:
			return w.rtVal(u.Elem())
		}
		bad()
	case "Key":
		if m, ok := rt.t.Underlying().(*types.Map); ok {
			return w.rtVal(m.Key())
		}
		bad()
	case "NumField":
		if s, ok := rt.t.Underlying().(*types.Struct); ok {
			return vInt(s.NumFields())
		}
		bad()
	case "Len":
		if s, ok := rt.t.Underlying().(*types.Array); ok {
			return vInt(int(s.Len()))
		}
		bad()
	case "Field":
		s, ok := rt.t.Underlying().(*types.Struct)
		i := int(w.concInt(a[1], w.site, "Field"))
		if !ok || i < 0 || i >= s.NumFields() {
			bad()
		}
		return w.structField(s, i)
	case "FieldByName":
		name, ok := asStr(a[1]).concrete()
		if !ok {
			panic(unsupported("FieldByName of a symbolic name"))
		}
		idx := fieldPath(rt.t, name)
		if idx == nil {
			return tup(w.zero(w.eng.typ("reflect", "StructField")), vBool(false))
		}
		t := rt.t
		for _, k := range idx[:len(idx)-1] {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			t = t.Underlying().(*types.Struct).Field(k).Type()
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		f := w.structField(t.Underlying().(*types.Struct), idx[len(idx)-1])
		var iv []Value
		for _, k := range idx {
			iv = append(iv, vInt(k))
		}
		asAgg(f).f[5] = w.appendVals(nil, iv)
		return tup(f, vBool(true))
	case "NumMethod":
		return vInt(w.numMethods(rt.t))
	case "Size", "Align", "FieldAlign":
		sz := types.SizesFor("gc", "amd64")
		if name == "Size" {
			return vInt(int(sz.Sizeof(rt.t)))
		}
		return vInt(int(sz.Alignof(rt.t)))
	case "Bits":
		_, width := classify(rt.t)
		return vInt(int(width))
	case "Implements":
		u := rtOf(a[1])
		it, ok := u.t.Underlying().(*types.Interface)
		if !ok {
			bad()
		}
		return vBool(w.implements(rt.t, it))
	case "AssignableTo":
		return vBool(types.AssignableTo(rt.t, rtOf(a[1]).t))
	case "ConvertibleTo":
		return vBool(types.ConvertibleTo(rt.t, rtOf(a[1]).t))
	case "Comparable":
		return vBool(types.Comparable(rt.t))
	case "String":
		return vStr(types.TypeString(rt.t, func(p *types.Package) string { return p.Name() }))
	case "Name":
		switch n := rt.t.(type) {
		case *types.Named:
			return vStr(n.Obj().Name())
		case *types.Basic:
			return vStr(n.Name())
		}
		return vStr("")
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return vStr(n.Obj().Pkg().Path())
		}
		return vStr("")
	}
	panic(unsupported("reflect.Type." + name))
}

func (w *Worker) rvOf(v Value) *RV {
	if v.r == nil {
		return nil
	}
	r, ok := v.r.(*RV)
	if !ok {
		panic(unsupported("reflect.Value expected"))
	}
	return r
}

func (w *Worker) rvFromIface(v Value) Value {
	ifc, _ := v.r.(*Iface)
	if ifc == nil {
		return Value{}
	}
	if _, ok := ifc.v.r.(*RT); ok {
		panic(unsupported("reflect.ValueOf(reflect.Type)"))
	}
	return Value{r: &RV{t: ifc.t, v: ifc.v}}
}

func registerReflect() {
	reg := func(name string, f func(w *Worker, r *RV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			r := w.rvOf(a[0])
			if r == nil && name != "IsValid" && name != "Kind" && name != "String" {
				w.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(w, r, a)
		}
	}
	intrinsics["reflect.ValueOf"] = func(w *Worker, _ *ssa.Function, a []Value) Value { return w.rvFromIface(a[0]) }
	intrinsics["reflect.TypeOf"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		ifc, _ := a[0].r.(*Iface)
		if ifc == nil {
			return Value{}
		}
		return w.rtVal(ifc.t)
	}
	ptr := func(w *Worker, _ *ssa.Function, a []Value) Value { return w.rtVal(w.ptrTo(rtOf(a[0]).t)) }
	intrinsics["reflect.PtrTo"] = ptr
	intrinsics["reflect.PointerTo"] = ptr
	intrinsics["reflect.New"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		t := rtOf(a[0]).t
		c := new(Value)
		*c = w.zero(t)
		return Value{r: &RV{t: w.ptrTo(t), v: Value{r: c}}}
	}
	intrinsics["reflect.Zero"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		t := rtOf(a[0]).t
		return Value{r: &RV{t: t, v: w.zero(t)}}
	}
	intrinsics["reflect.Indirect"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		r := w.rvOf(a[0])
		if r == nil || rkind(r.t) != reflect.Ptr {
			return a[0]
		}
		return intrinsics["(reflect.Value).Elem"](w, fn, a)
	}
	reg("IsValid", func(w *Worker, r *RV, a []Value) Value { return vBool(r != nil) })
	reg("Kind", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			return Value{}
		}
		return Value{n: uint64(rkind(r.t))}
	})
	reg("Type", func(w *Worker, r *RV, a []Value) Value { return w.rtVal(r.t) })
	reg("Bool", func(w *Worker, r *RV, a []Value) Value {
		if rkind(r.t) != reflect.Bool {
			w.rtPanic("reflect: Bool of non-bool")
		}
		return r.val()
	})
	reg("Int", func(w *Worker, r *RV, a []Value) Value {
		k, width := classify(r.t)
		if k != kInt {
			w.rtPanic("reflect: Int of non-int")
		}
		return w.convInt(r.val(), k, width, 64)
	})
	reg("Uint", func(w *Worker, r *RV, a []Value) Value {
		k, width := classify(r.t)
		if k != kUint {
			w.rtPanic("reflect: Uint of non-uint")
		}
		return w.convInt(r.val(), k, width, 64)
	})
	reg("Float", func(w *Worker, r *RV, a []Value) Value {
		k, width := classify(r.t)
		if k != kFloat {
			w.rtPanic("reflect: Float of non-float")
		}
		v := r.val()
		if width == 32 {
			if v.r == nil {
				return Value{n: fbits(fval(v.n, 32), 64)}
			}
			return fromExpr(w.ctx.F(OFCvt, 64, 32, w.expr(v, 32)))
		}
		return v
	})
	reg("String", func(w *Worker, r *RV, a []Value) Value {
		if r == nil {
			return vStr("<invalid Value>")
		}
		if rkind(r.t) != reflect.String {
			return vStr("<" + r.t.String() + " Value>")
		}
		return r.val()
	})
	reg("Len", func(w *Worker, r *RV, a []Value) Value {
		v := r.val()
		switch rkind(r.t) {
		case reflect.Slice:
			if s := asSlice(v); s != nil {
				return vInt(s.len)
			}
			return Value{}
		case reflect.Array:
			return vInt(len(asAgg(v).f))
		case reflect.String:
			return vInt(asStr(v).n)
		case reflect.Map:
			if m, _ := v.r.(*Map); m != nil {
				return vInt(m.live)
			}
			return Value{}
		}
		w.rtPanic("reflect: Len of " + r.t.String())
		return Value{}
	})
	reg("Index", func(w *Worker, r *RV, a []Value) Value {
		i := int(w.concInt(a[1], w.site, "Index"))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := asSlice(r.val())
			if s == nil || i < 0 || i >= s.len {
				w.rtPanic("reflect: slice index out of range")
			}
			return Value{r: &RV{t: u.Elem(), cell: &s.agg.f[s.off+i], stickyRO: r.stickyRO || r.embedRO}}
		case *types.Array:
			var ag *Agg
			if r.cell != nil {
				ag = asAgg(*r.cell)
			} else {
				ag = asAgg(r.v)
			}
			if i < 0 || i >= len(ag.f) {
				w.rtPanic("reflect: array index out of range")
			}
			if r.cell != nil {
				return Value{r: &RV{t: u.Elem(), cell: &ag.f[i], stickyRO: r.stickyRO || r.embedRO}}
			}
			return Value{r: &RV{t: u.Elem(), v: ag.f[i], stickyRO: r.stickyRO || r.embedRO}}
		case *types.Basic:
			s := asStr(r.val())
			if i < 0 || i >= s.n {
				w.rtPanic("reflect: string index out of range")
			}
			return Value{r: &RV{t: types.Typ[types.Uint8], v: s.at(i)}}
		}
		w.rtPanic("reflect: Index of " + r.t.String())
		return Value{}
	})
	reg("Bytes", func(w *Worker, r *RV, a []Value) Value {
		if u, ok := r.t.Underlying().(*types.Slice); ok && rkind(u.Elem()) == reflect.Uint8 {
			return r.val()
		}
		w.rtPanic("reflect.Value.Bytes of " + r.t.String())
		return Value{}
	})
	reg("IsNil", func(w *Worker, r *RV, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return vBool(r.val().r == nil)
		}
		w.rtPanic("reflect: IsNil of " + r.t.String())
		return Value{}
	})
	reg("IsZero", func(w *Worker, r *RV, a []Value) Value {
		return fromExpr(w.eqVal(r.t, r.val(), w.zero(r.t)))
	})
	reg("Elem", func(w *Worker, r *RV, a []Value) Value {
		v := r.val()
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			if v.r == nil {
				return Value{}
			}
			c, ok := v.r.(*Value)
			if !ok {
				panic(unsupported("reflect Elem of special pointer"))
			}
			return Value{r: &RV{t: u.Elem(), cell: c, stickyRO: r.stickyRO || r.embedRO}}
		case *types.Interface:
			x := w.rvFromIface(v)
			if rv, ok := x.r.(*RV); ok {
				rv.stickyRO = r.stickyRO || r.embedRO
			}
			return x
		}
		w.rtPanic("reflect: Elem of " + r.t.String())
		return Value{}
	})
	reg("MapKeys", func(w *Worker, r *RV, a []Value) Value {
		m, _ := r.val().r.(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		ag := &Agg{}
		if m != nil {
			for _, e := range w.mapOrder(m, true, w.siteOf("MapKeys", 0)) {
				ag.f = append(ag.f, Value{r: &RV{t: kt, v: e.k, stickyRO: r.stickyRO || r.embedRO}})
			}
		}
		return Value{r: &Slice{agg: ag, len: len(ag.f), cap: len(ag.f)}}
	})
	reg("MapIndex", func(w *Worker, r *RV, a []Value) Value {
		m, _ := r.val().r.(*Map)
		if m == nil {
			return Value{}
		}
		e := w.mapFind(m, w.rvOf(a[1]).val(), w.siteOf("MapIndex", 0))
		if e == nil {
			return Value{}
		}
		return Value{r: &RV{t: r.t.Underlying().(*types.Map).Elem(), v: copyVal(e.v), stickyRO: r.stickyRO || r.embedRO}}
	})
	reg("Interface", func(w *Worker, r *RV, a []Value) Value {
		if r.stickyRO || r.embedRO {
			w.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := r.val()
		if rkind(r.t) == reflect.Interface {
			return v
		}
		return Value{r: &Iface{t: r.t, v: v}}
	})
	reg("CanInterface", func(w *Worker, r *RV, a []Value) Value { return vBool(!(r.stickyRO || r.embedRO)) })
	reg("CanAddr", func(w *Worker, r *RV, a []Value) Value { return vBool(r.cell != nil) })
	reg("CanSet", func(w *Worker, r *RV, a []Value) Value {
		return vBool(r.cell != nil && !(r.stickyRO || r.embedRO))
	})
	reg("Addr", func(w *Worker, r *RV, a []Value) Value {
		if r.cell == nil {
			w.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return Value{r: &RV{t: w.ptrTo(r.t), v: Value{r: r.cell}, stickyRO: r.stickyRO, embedRO: r.embedRO}}
	})
	reg("NumField", func(w *Worker, r *RV, a []Value) Value {
		if s, ok := r.t.Underlying().(*types.Struct); ok {
			return vInt(s.NumFields())
		}
		w.rtPanic("reflect: NumField of " + r.t.String())
		return Value{}
	})
	reg("Field", func(w *Worker, r *RV, a []Value) Value {
		s, ok := r.t.Underlying().(*types.Struct)
		i := int(w.concInt(a[1], w.site, "Field"))
		if !ok || i < 0 || i >= s.NumFields() {
			w.rtPanic("reflect: Field")
		}
		f := s.Field(i)
		n := &RV{t: f.Type(), stickyRO: r.stickyRO}
		if !f.Exported() {
			if f.Embedded() {
				n.embedRO = true
			} else {
				n.stickyRO = true
			}
		}
		if r.cell != nil {
			n.cell = &asAgg(*r.cell).f[i]
		} else {
			n.v = asAgg(r.v).f[i]
		}
		return Value{r: n}
	})
	reg("Set", func(w *Worker, r *RV, a []Value) Value {
		x := w.rvOf(a[1])
		if r.cell == nil || r.stickyRO || r.embedRO {
			w.rtPanic("reflect.Set: using unaddressable or unexported value")
		}
		if x == nil {
			w.rtPanic("reflect.Set: zero Value")
		}
		if x.stickyRO || x.embedRO {
			w.rtPanic("reflect.Set using value obtained using unexported field")
		}
		v := x.val()
		if rkind(r.t) == reflect.Interface && rkind(x.t) != reflect.Interface {
			v = Value{r: &Iface{t: x.t, v: v}}
		}
		w.store(r.cell, v)
		return Value{}
	})
}
