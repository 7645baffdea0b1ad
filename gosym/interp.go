package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Value // interface value
	where string
	rt    bool
}

type specAbortT struct{}

var specAbort = &specAbortT{}

type frame struct {
	fn     *cfn
	regs   []Value
	env    []Value
	defers []deferred
	pan    *targetPanic // active panic while running defers
	recov  bool
	result Value
	parent *frame
}

type deferred struct {
	fn   Value
	sfn  *ssa.Function
	bi   string
	ci   *cins
	args []Value
}

func (w *Worker) rtPanic(msg string) {
	if w.spec {
		panic(specAbort)
	}
	panic(&targetPanic{v: Value{r: &Iface{t: w.eng.rtErrType, v: vStr("runtime error: " + msg)}}, where: w.where(), rt: true})
}

func (w *Worker) where() string {
	if w.cur == nil {
		return ""
	}
	s := ""
	n := 0
	for f := w.cur; f != nil && n < 6; f = f.parent {
		s += f.fn.name + " < "
		n++
	}
	return s
}

func (w *Worker) charge(n int) {
	w.budget -= int64(n)
	if w.budget < 0 {
		panic(&pathAbort{"budget"})
	}
}

func (fr *frame) get(w *Worker, o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		if z, ok := o.v.r.(zeroConst); ok {
			return w.zero(z.t)
		}
		return o.v
	case 2:
		return Value{r: w.globalAddr(o.glb)}
	case 3:
		return fr.env[o.i]
	}
	return Value{}
}

func (w *Worker) globalAddr(g *ssa.Global) *Value {
	if a, ok := w.globals[g]; ok {
		return a
	}
	if g.Pkg != nil {
		path := g.Pkg.Pkg.Path()
		if !w.inited[path] && !initDeny[path] {
			w.initPkg(path)
			if a, ok := w.globals[g]; ok {
				return a
			}
		}
		if initDeny[path] && !globalOK[g.String()] {
			panic(unsupported("variable of package that is not initialised: " + g.String()))
		}
		if m, bad := w.badPkg[path]; bad && !isModulePkg(path) {
			panic(unsupported("variable of package whose initialiser is not supported: " + g.String() + ": " + m))
		}
	}
	a := new(Value)
	*a = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = a
	if w.logging && !w.initing {
		// created during a path: must vanish afterwards
		w.undoF = append(w.undoF, func() { delete(w.globals, g) })
	}
	return a
}

// callFn invokes a function with arguments.
func (w *Worker) callFn(fn *ssa.Function, args []Value, env []Value, site uint32) Value {
	if in, ok := intrinsicFor(fn); ok {
		if w.spec && !pureIntrinsics[fn.String()] {
			panic(specAbort)
		}
		return in(w, fn, args)
	}
	c := compileFn(fn)
	if len(c.blocks) == 0 {
		panic(unsupported("no body: " + c.name))
	}
	if c.modFn {
		w.touched[c.name]++
	}
	if w.spec && !c.pure {
		panic(specAbort)
	}
	return w.run(c, args, env)
}

func (w *Worker) callValue(f Value, args []Value, site uint32) Value {
	cl, ok := f.r.(*Closure)
	if !ok || cl == nil {
		if f.r == nil {
			w.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		panic(unsupported(fmt.Sprintf("call of %T", f.r)))
	}
	if cl.nat != nil {
		return cl.nat(w, args)
	}
	return w.callFn(cl.fn, args, cl.env, site)
}

func (w *Worker) run(c *cfn, args []Value, env []Value) (ret Value) {
	fr := &frame{fn: c, env: env, parent: w.cur}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	w.depth++
	if w.depth > w.opt.maxDepth+w.deeper {
		panic(&pathAbort{"depth"})
	}
	saved := w.cur
	w.cur = fr
	defer func() { // only restores on Go panics propagating through
		w.cur = saved
		w.depth--
	}()
	if !c.hasDef {
		ret, _ = w.exec(fr, 0)
		return ret
	}
	return w.runDeferred(fr)
}

// runDeferred executes a function that has defer statements.
func (w *Worker) runDeferred(fr *frame) (ret Value) {
	blk := 0
	for {
		tp := w.try(func() { ret, _ = w.exec(fr, blk) })
		w.cur = fr
		if tp == nil {
			return ret
		}
		// panicking: run deferred calls
		fr.pan = tp
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			tp2 := w.try(func() { w.runDefer(fr, d) })
			w.cur = fr
			if tp2 != nil {
				fr.pan = tp2
			}
		}
		if fr.pan != nil {
			panic(fr.pan)
		}
		// recovered
		if fr.fn.recov < 0 {
			// no named results: zero results
			return w.zeroResults(fr.fn.resT)
		}
		blk = fr.fn.recov
	}
}

func (w *Worker) zeroResults(t *types.Tuple) Value {
	switch t.Len() {
	case 0:
		return Value{}
	case 1:
		return w.zero(t.At(0).Type())
	}
	tu := make(Tuple, t.Len())
	for i := range tu {
		tu[i] = w.zero(t.At(i).Type())
	}
	return Value{r: tu}
}

func (w *Worker) try(f func()) (tp *targetPanic) {
	depth := w.depth
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*targetPanic); ok {
				tp = t
				w.depth = depth
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (w *Worker) runDefer(fr *frame, d deferred) {
	w.curDefer = append(w.curDefer, fr)
	defer func() { w.curDefer = w.curDefer[:len(w.curDefer)-1] }()
	switch {
	case d.sfn != nil:
		w.callFn(d.sfn, d.args, nil, d.ci.site)
	case d.bi != "":
		w.builtin(fr, d.ci, d.args)
	default:
		w.callValue(d.fn, d.args, d.ci.site)
	}
}

// exec runs from block bi until return.
func (w *Worker) exec(fr *frame, bi int) (Value, int) {
	prev := -1
	c := fr.fn
	skipPhi := false
	for {
		b := c.blocks[bi]
		i := 0
		if b.nphi > 0 {
			if !skipPhi {
				w.doPhis(fr, b, prev)
			}
			i = b.nphi
		}
		skipPhi = false
		w.instrs += int64(len(b.ins))
		w.budget -= int64(len(b.ins))
		if w.budget < 0 {
			panic(&pathAbort{"budget"})
		}
		jumped := false
		for ; i < len(b.ins); i++ {
			in := &b.ins[i]
			switch in.op {
			case iJump:
				prev, bi = b.idx, b.succs[0]
				jumped = true
			case iIf:
				cv := fr.get(w, &in.ops[0])
				if cv.r == nil {
					if cv.n != 0 {
						prev, bi = b.idx, b.succs[0]
					} else {
						prev, bi = b.idx, b.succs[1]
					}
				} else {
					r := w.mergeIf(fr, b, in, cv.r.(*Expr))
					if r.ret {
						return r.val, 0
					}
					prev, bi, skipPhi = r.pred, r.block, r.phisDone
				}
				jumped = true
			case iReturn:
				switch len(in.ops) {
				case 0:
					return Value{}, 0
				case 1:
					return fr.get(w, &in.ops[0]), 0
				}
				t := make(Tuple, len(in.ops))
				for j := range in.ops {
					t[j] = fr.get(w, &in.ops[j])
				}
				return Value{r: t}, 0
			case iRunDefers:
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					w.runDefer(fr, d)
				}
			case iPanic:
				v := fr.get(w, &in.ops[0])
				panic(&targetPanic{v: v, where: w.where()})
			default:
				w.step(fr, in)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("fell off block in " + c.name))
		}
	}
}

func (w *Worker) doPhis(fr *frame, b *cblock, prev int) {
	ix, ok := b.predIx[prev]
	if !ok {
		panic("phi: bad predecessor in " + fr.fn.name)
	}
	if b.nphi == 1 {
		fr.regs[b.ins[0].dst] = fr.get(w, &b.ins[0].ops[ix])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := 0; i < b.nphi; i++ {
		vals = append(vals, fr.get(w, &b.ins[i].ops[ix]))
	}
	for i := 0; i < b.nphi; i++ {
		fr.regs[b.ins[i].dst] = vals[i]
	}
}

// step executes one non-control instruction.
func (w *Worker) step(fr *frame, in *cins) {
	switch in.op {
	case iAlloc:
		v := new(Value)
		*v = w.zero(in.t1)
		fr.regs[in.dst] = Value{r: v}
	case iBinOp:
		fr.regs[in.dst] = w.binop(in, fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]))
	case iUnOp:
		fr.regs[in.dst] = w.unop(fr, in, fr.get(w, &in.ops[0]))
	case iCall:
		v := w.call(fr, in)
		fr.regs[in.dst] = v
	case iChangeInterface, iChangeType:
		fr.regs[in.dst] = fr.get(w, &in.ops[0])
	case iConvert:
		fr.regs[in.dst] = w.convert(in, fr.get(w, &in.ops[0]))
	case iDefer:
		d := deferred{ci: in, bi: in.bi, sfn: in.fn}
		ops := in.ops
		if in.meth != nil {
			fnv, args := w.lookupInvoke(fr, in)
			d.fn = fnv
			d.args = args
			fr.defers = append(fr.defers, d)
			return
		}
		if in.flag {
			d.fn = fr.get(w, &ops[0])
			ops = ops[1:]
		}
		for i := range ops {
			d.args = append(d.args, fr.get(w, &ops[i]))
		}
		fr.defers = append(fr.defers, d)
	case iExtract:
		v := fr.get(w, &in.ops[0])
		fr.regs[in.dst] = v.r.(Tuple)[in.n]
	case iField:
		v := fr.get(w, &in.ops[0])
		fr.regs[in.dst] = asAgg(v).f[in.n]
	case iFieldAddr:
		fr.regs[in.dst] = w.fieldAddr(fr.get(w, &in.ops[0]), in.n, in.t1)
	case iGo:
		// goroutines run to completion at the point they are started (see DESIGN.md)
		w.call(fr, in)
	case iIndex:
		fr.regs[in.dst] = w.index(in, fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]))
	case iIndexAddr:
		fr.regs[in.dst] = w.indexAddr(in, fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]))
	case iLookup:
		fr.regs[in.dst] = w.lookup(in, fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]))
	case iMakeChan:
		fr.regs[in.dst] = Value{r: &Chan{}}
	case iMakeClosure:
		cl := &Closure{fn: in.fn, env: make([]Value, len(in.ops))}
		for i := range in.ops {
			cl.env[i] = fr.get(w, &in.ops[i])
		}
		fr.regs[in.dst] = Value{r: cl}
	case iMakeInterface:
		fr.regs[in.dst] = Value{r: &Iface{t: in.t1, v: fr.get(w, &in.ops[0])}}
	case iMakeMap:
		fr.regs[in.dst] = Value{r: w.mkMap(in.t1)}
	case iMakeSlice:
		l := w.concInt(fr.get(w, &in.ops[0]), in.site, "make len")
		cp := w.concInt(fr.get(w, &in.ops[1]), in.site+1<<20, "make cap")
		if l < 0 || l > 1<<40 {
			w.rtPanic("makeslice: len out of range")
		}
		if cp < l || cp > 1<<40 {
			w.rtPanic("makeslice: cap out of range")
		}
		fr.regs[in.dst] = w.makeSlice(in.t1, int(l), int(cp))
	case iMapUpdate:
		w.mapUpdate(fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]), fr.get(w, &in.ops[2]), in.site)
	case iNext:
		fr.regs[in.dst] = w.next(in, fr.get(w, &in.ops[0]))
	case iRange:
		fr.regs[in.dst] = w.rangeStart(fr, in, fr.get(w, &in.ops[0]))
	case iSend:
		ch, _ := fr.get(w, &in.ops[0]).r.(*Chan)
		if ch == nil {
			panic(unsupported("send on nil channel"))
		}
		if ch.closed {
			w.rtPanic("send on closed channel")
		}
		ch.buf = append(ch.buf, fr.get(w, &in.ops[1]))
	case iSelect:
		fr.regs[in.dst] = w.selectStmt(fr, in)
	case iSlice:
		fr.regs[in.dst] = w.slice(fr, in)
	case iStore:
		w.storeTo(fr.get(w, &in.ops[0]), fr.get(w, &in.ops[1]), in.site)
	case iTypeAssert:
		fr.regs[in.dst] = w.typeAssert(in, fr.get(w, &in.ops[0]))
	case iSliceToArrPtr:
		s := asSlice(fr.get(w, &in.ops[0]))
		n := int(in.t1.Underlying().(*types.Array).Len())
		if s == nil {
			if n != 0 {
				w.rtPanic("slice to array pointer length")
			}
			fr.regs[in.dst] = Value{}
			return
		}
		if s.len < n {
			w.rtPanic("slice to array pointer length")
		}
		panic(unsupported("SliceToArrayPointer"))
	case iNop:
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in.ins)))
	}
}

func (w *Worker) concInt(v Value, site uint32, what string) int64 {
	if v.r == nil {
		return int64(v.n)
	}
	e, ok := v.r.(*Expr)
	if !ok {
		panic(unsupported(fmt.Sprintf("integer expected, have %T", v.r)))
	}
	return sextW(w.concretize(e, site, what), e.w)
}

func (w *Worker) makeSlice(elem types.Type, l, cp int) Value {
	if cp > 1<<22 {
		panic(&pathAbort{"huge allocation"})
	}
	w.charge(cp / 8)
	a := &Agg{f: make([]Value, cp)}
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a.f {
			a.f[i] = w.zero(elem)
		}
	}
	return Value{r: &Slice{agg: a, len: l, cap: cp}}
}

func (w *Worker) call(fr *frame, in *cins) Value {
	if in.bi != "" {
		args := make([]Value, len(in.ops))
		for i := range in.ops {
			args[i] = fr.get(w, &in.ops[i])
		}
		return w.builtin(fr, in, args)
	}
	if in.meth != nil {
		fnv, args := w.lookupInvoke(fr, in)
		return w.callValue(fnv, args, in.site)
	}
	if in.fn != nil {
		args := make([]Value, len(in.ops))
		for i := range in.ops {
			args[i] = fr.get(w, &in.ops[i])
		}
		w.site = in.site
		return w.callFn(in.fn, args, nil, in.site)
	}
	f := fr.get(w, &in.ops[0])
	args := make([]Value, len(in.ops)-1)
	for i := 1; i < len(in.ops); i++ {
		args[i-1] = fr.get(w, &in.ops[i])
	}
	w.site = in.site
	return w.callValue(f, args, in.site)
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupInvoke(fr *frame, in *cins) (Value, []Value) {
	recv := fr.get(w, &in.ops[0])
	if recv.r == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	ifc, ok := recv.r.(*Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", recv.r)))
	}
	args := make([]Value, len(in.ops))
	args[0] = ifc.v
	for i := 1; i < len(in.ops); i++ {
		args[i] = fr.get(w, &in.ops[i])
	}
	w.site = in.site
	if _, ok := ifc.v.r.(*RT); ok {
		name := in.meth.Name()
		return Value{r: &Closure{nat: func(w *Worker, a []Value) Value { return w.rtypeMethod(name, a) }}}, args
	}
	fn := w.findMethod(ifc.t, in.meth)
	if fn == nil {
		panic(unsupported("no method " + in.meth.Name() + " on " + ifc.t.String()))
	}
	return Value{r: &Closure{fn: fn}}, args
}

func (w *Worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	w.eng.methMu.Lock()
	defer w.eng.methMu.Unlock()
	var fn *ssa.Function
	if sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
		fn = w.eng.prog.MethodValue(sel)
	}
	w.methods[k] = fn
	return fn
}

// ---- memory

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) fieldAddr(p Value, n int, t types.Type) Value {
	switch x := p.r.(type) {
	case nil:
		w.nilDeref()
	case *Value:
		return Value{r: &asAgg(*x).f[n]}
	case *SymPtr:
		y := *x
		y.sub = append(append([]int(nil), x.sub...), n)
		return Value{r: &y}
	case *PunPtr:
		// header structures
		if nm, ok := x.to.(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "reflect" {
			cell, ok := x.p.r.(*Value)
			if !ok {
				panic(unsupported("header pun"))
			}
			switch nm.Obj().Name() {
			case "StringHeader", "SliceHeader":
				fk, _ := classify(x.from)
				isStr := fk == kString
				if !isStr && fk != kSlice {
					panic(unsupported("header pun from " + x.from.String()))
				}
				if isStr && n == 2 {
					w.memViolation("access to the capacity word of a string header (16-byte object read or written as 24 bytes)")
				}
				return Value{r: &HdrPtr{cell: cell, field: n, isStr: isStr}}
			}
		}
		panic(unsupported("field of reinterpreted pointer " + x.to.String()))
	}
	panic(unsupported(fmt.Sprintf("fieldAddr on %T", p.r)))
}

func (w *Worker) load(p Value, t types.Type, site uint32) Value {
	switch x := p.r.(type) {
	case nil:
		w.nilDeref()
	case *Value:
		if w.path != nil && len(w.path.guarded) > 0 {
			w.checkGuarded(x)
		}
		v := *x
		switch v.r.(type) {
		case *Agg:
			return copyVal(v)
		}
		return v
	case *SymPtr:
		return w.loadSym(x, t, site)
	case *PunPtr:
		return w.loadPun(x)
	case *HdrPtr:
		v := *x.cell
		switch x.field {
		case 0:
			switch y := v.r.(type) {
			case nil:
				return Value{}
			case *Str:
				return Value{r: &DataPtr{str: y}}
			case *Slice:
				return Value{r: &DataPtr{sl: y}}
			}
		case 1:
			switch y := v.r.(type) {
			case nil:
				return Value{}
			case *Str:
				return vInt(y.n)
			case *Slice:
				return vInt(y.len)
			}
		case 2:
			switch y := v.r.(type) {
			case nil:
				return Value{}
			case *Slice:
				return vInt(y.cap)
			}
		}
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.r)))
}

func (w *Worker) loadPun(x *PunPtr) Value {
	cell, ok := x.p.r.(*Value)
	if !ok {
		panic(unsupported(fmt.Sprintf("load through reinterpreted %T", x.p.r)))
	}
	v := *cell
	tk, tw := classify(x.to)
	fk, fw := classify(x.from)
	if n, ok := x.to.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && fk == kString && n.Obj().Name() == "SliceHeader" {
		w.memViolation("a string header (16 bytes) is read as a slice header (24 bytes)")
	}
	switch {
	case tk == kString && fk == kSlice:
		s := asSlice(v)
		if s == nil || s.len == 0 {
			return Value{}
		}
		return Value{r: &Str{agg: s.agg, off: s.off, n: s.len}}
	case tk == kSlice && fk == kString:
		w.memViolation("a string header (16 bytes) is read as a slice header (24 bytes)")
		s := asStr(v)
		return w.strAlias(s, s.n)
	case tk == kString && fk == kString, tk == kSlice && fk == kSlice:
		return v
	case tk == kSlice:
		// struct{string; int} read as a slice header
		if st, ok := x.from.Underlying().(*types.Struct); ok && st.NumFields() == 2 {
			k0, _ := classify(st.Field(0).Type())
			k1, w1 := classify(st.Field(1).Type())
			if k0 == kString && (k1 == kInt || k1 == kUint) && w1 == 64 {
				f := asAgg(v).f
				str := asStr(f[0])
				cp := int(w.concInt(f[1], w.site, "header cap"))
				if cp > str.n || cp < 0 {
					w.memViolation("slice header length or capacity beyond its data")
				}
				return w.strAlias(str, cp)
			}
		}
	case (tk == kInt || tk == kUint || tk == kFloat) && (fk == kInt || fk == kUint || fk == kFloat) && tw == fw:
		return v
	}
	panic(unsupported("reinterpreting load " + x.from.String() + " as " + x.to.String()))
}

// strAlias gives a byte slice sharing the string's bytes.  Writes to a constant string's bytes are flagged by
// the read-only marker.
func (w *Worker) strAlias(s *Str, cp int) Value {
	if s.n == 0 {
		return Value{}
	}
	if s.agg == nil {
		a := &Agg{f: make([]Value, s.n)}
		for i := 0; i < s.n; i++ {
			a.f[i].n = uint64(s.s[i])
		}
		if w.path != nil {
			for i := range a.f {
				w.roCells[&a.f[i]] = true
			}
		}
		return Value{r: &Slice{agg: a, len: s.n, cap: min(cp, s.n)}}
	}
	return Value{r: &Slice{agg: s.agg, off: s.off, len: s.n, cap: min(cp, s.n)}}
}

func (w *Worker) loadSym(x *SymPtr, t types.Type, site uint32) Value {
	vals := make([]Value, x.n)
	allScalar := true
	k, width := classify(t)
	for i := range vals {
		v := x.agg.f[x.off+i]
		for _, s := range x.sub {
			v = asAgg(v).f[s]
		}
		vals[i] = v
	}
	if k != kInt && k != kUint && k != kBool {
		allScalar = false
	}
	c := w.ctx
	if allScalar {
		allConst := true
		for _, v := range vals {
			if v.r != nil {
				allConst = false
			}
		}
		if allConst {
			u := make([]uint64, len(vals))
			for i, v := range vals {
				u[i] = v.n
			}
			return fromExpr(c.TabLookup(u, width, x.idx))
		}
		res := w.expr(vals[len(vals)-1], width)
		for i := len(vals) - 2; i >= 0; i-- {
			res = c.Ite(c.Eq(x.idx, c.Const(uint64(i), x.idx.w)), w.expr(vals[i], width), res)
		}
		return fromExpr(res)
	}
	// group by identical value
	type grp struct {
		v    Value
		cond []*Expr
	}
	var gs []*grp
	for i, v := range vals {
		eqc := c.Eq(x.idx, c.Const(uint64(i), x.idx.w))
		if eqc.isFalse() {
			continue
		}
		found := false
		for _, g := range gs {
			if sameValue(g.v, v) {
				g.cond = append(g.cond, eqc)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, &grp{v, []*Expr{eqc}})
		}
	}
	if len(gs) == 0 {
		panic(&pathAbort{"infeasible"})
	}
	conds := make([]*Expr, len(gs))
	for i, g := range gs {
		conds[i] = c.Or(g.cond...)
	}
	if len(gs) == 1 {
		return copyVal(gs[0].v)
	}
	return copyVal(gs[w.path.decide(conds, site)].v)
}

func sameValue(a, b Value) bool {
	if a.r == nil && b.r == nil {
		return a.n == b.n
	}
	switch x := a.r.(type) {
	case *Closure:
		y, ok := b.r.(*Closure)
		return ok && (x == y || (x.fn == y.fn && len(x.env) == 0 && len(y.env) == 0 && x.fn != nil))
	case *Str:
		y, ok := b.r.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.agg == nil && y.agg == nil && x.s == y.s
	case *Iface:
		y, ok := b.r.(*Iface)
		return ok && (x == y || (types.Identical(x.t, y.t) && sameValue(x.v, y.v)))
	case *Agg:
		y, ok := b.r.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.r.(*Slice)
		return ok && (x == y || *x == *y)
	case Tuple:
		return false
	}
	if a.r == nil || b.r == nil {
		return false
	}
	if _, ok := b.r.(Tuple); ok {
		return false
	}
	return a.r == b.r
}

func (w *Worker) storeTo(p Value, v Value, site uint32) {
	if w.spec {
		panic(specAbort)
	}
	switch x := p.r.(type) {
	case nil:
		w.nilDeref()
	case *Value:
		w.store(x, v)
		return
	case *SymPtr:
		i := w.concretize(x.idx, site, "store index")
		cell := &x.agg.f[x.off+int(i)]
		for _, s := range x.sub {
			cell = &asAgg(*cell).f[s]
		}
		w.store(cell, v)
		return
	case *HdrPtr:
		w.storeHdr(x, v)
		return
	case *PunPtr:
		panic(unsupported("store through reinterpreted pointer"))
	}
	panic(unsupported(fmt.Sprintf("store through %T", p.r)))
}

func (w *Worker) storeHdr(x *HdrPtr, v Value) {
	if x.isStr {
		cur := *x.cell
		s, _ := cur.r.(*Str)
		n := Str{}
		if s != nil {
			n = *s
		}
		switch x.field {
		case 0:
			dp, _ := v.r.(*DataPtr)
			ln := n.n
			switch {
			case dp == nil:
				n = Str{}
			case dp.str != nil:
				n = *dp.str
				n.n = ln
			case dp.sl != nil:
				n = Str{agg: dp.sl.agg, off: dp.sl.off, n: ln}
			}
		case 1:
			ln := int(w.concInt(v, w.site, "header len"))
			if ln > 0 && n.agg != nil && n.off+ln > len(n.agg.f) || n.agg == nil && ln > len(n.s) {
				w.memViolation("string header length beyond its data")
				ln = 0
			}
			n.n = ln
			if n.agg == nil {
				n.s = n.s[:ln]
			}
		}
		w.store(x.cell, Value{r: &n})
		return
	}
	cur := *x.cell
	s, _ := cur.r.(*Slice)
	n := Slice{}
	if s != nil {
		n = *s
	}
	switch x.field {
	case 0:
		dp, _ := v.r.(*DataPtr)
		lim := 0
		switch {
		case dp == nil:
			n.agg, n.off = nil, 0
		case dp.str != nil:
			al := asSlice(w.strAlias(dp.str, dp.str.n))
			if al == nil {
				al = &Slice{agg: &Agg{}}
			}
			n.agg, n.off = al.agg, al.off
			lim = dp.str.n
		case dp.sl != nil:
			n.agg, n.off = dp.sl.agg, dp.sl.off
			lim = dp.sl.cap
		}
		if n.agg == nil {
			n.agg = &Agg{}
		}
		w.hdrLim[x.cell] = lim
		if dp != nil && (n.len > lim || n.cap > lim) {
			w.memViolation("slice header length or capacity beyond its data")
			n.len, n.cap = 0, 0
		}
	case 1, 2:
		ln := int(w.concInt(v, w.site, "header len"))
		lim, set := w.hdrLim[x.cell]
		if !set && n.agg != nil {
			lim, set = len(n.agg.f)-n.off, true
		}
		if n.agg == nil {
			n.agg = &Agg{}
		}
		if set && ln > lim || ln < 0 {
			w.memViolation("slice header length or capacity beyond its data")
			ln = 0
		}
		if x.field == 1 {
			n.len = ln
		} else {
			n.cap = ln
		}
	}
	w.store(x.cell, Value{r: &n})
}

func (w *Worker) store(x *Value, v Value) {
	if a, ok := v.r.(*Agg); ok {
		if d, ok := x.r.(*Agg); ok && len(d.f) == len(a.f) {
			for i := range a.f {
				w.store(&d.f[i], a.f[i])
			}
			return
		}
		v = copyVal(v)
	}
	if w.path != nil {
		if w.path.frozen != nil {
			w.checkFrozen(x)
		}
		if len(w.roCells) > 0 && w.roCells[x] {
			w.roViolation()
		}
	}
	if w.logging {
		w.undo = append(w.undo, undoEnt{x, *x})
	}
	*x = v
}

func (w *Worker) indexAddr(in *cins, xv, iv Value) Value {
	var agg *Agg
	var off, n int
	switch in.k1 {
	case kSlice:
		s := asSlice(xv)
		if s != nil {
			agg, off, n = s.agg, s.off, s.len
		}
	case kPtr:
		switch p := xv.r.(type) {
		case nil:
			w.nilDeref()
		case *Value:
			agg = asAgg(*p)
			n = len(agg.f)
		case *SymPtr:
			// element of array inside symbolic element: concretise
			i := w.concretize(p.idx, in.site, "nested index")
			cell := &p.agg.f[p.off+int(i)]
			for _, s := range p.sub {
				cell = &asAgg(*cell).f[s]
			}
			agg = asAgg(*cell)
			n = len(agg.f)
		default:
			panic(unsupported(fmt.Sprintf("indexAddr on %T", xv.r)))
		}
	default:
		panic(unsupported("indexAddr kind"))
	}
	i, e := w.boundsCheck(in, iv, n)
	if e == nil {
		return Value{r: &agg.f[off+i]}
	}
	return Value{r: &SymPtr{agg: agg, off: off, n: n, idx: e}}
}

// boundsCheck returns a concrete in-range index, or a term proved in range on this path.
func (w *Worker) boundsCheck(in *cins, iv Value, n int) (int, *Expr) {
	if iv.r == nil {
		i := int64(iv.n)
		if in.k2 == kInt {
			i = sextW(iv.n, in.w2)
		}
		if i < 0 || i >= int64(n) {
			if !(in.k2 == kUint && uint64(iv.n) < uint64(n)) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
			}
		}
		return int(i), nil
	}
	e, ok := iv.r.(*Expr)
	if !ok {
		panic(unsupported(fmt.Sprintf("index %T", iv.r)))
	}
	c := w.ctx
	var okc *Expr
	if n == 0 {
		w.rtPanic("index out of range with length 0")
	}
	if uint64(n-1) >= maskW(e.w) {
		okc = c.Bool(true)
	} else {
		okc = c.Ult(e, c.Const(uint64(n), e.w))
	}
	if !w.path.branch(okc, in.site) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if w.path != nil && n > 64 && !w.isTableLike(e) {
		return int(w.concretize(e, in.site+1<<21, "index")), nil
	}
	return 0, e
}

func (w *Worker) isTableLike(e *Expr) bool {
	for e.op == OZExt {
		e = e.args[0]
	}
	if e.op == OTab {
		return true
	}
	return len(e.vars) == 1 && w.path.isByteUnary(e)
}

func (w *Worker) index(in *cins, xv, iv Value) Value {
	switch in.k1 {
	case kString:
		return w.strIndex(in, xv, iv)
	case kAgg:
		a := asAgg(xv)
		i, e := w.boundsCheck(in, iv, len(a.f))
		if e == nil {
			return a.f[i]
		}
		return w.loadSym(&SymPtr{agg: a, n: len(a.f), idx: e}, in.t2, in.site)
	}
	panic(unsupported("index kind"))
}

func (w *Worker) strIndex(in *cins, xv, iv Value) Value {
	s := asStr(xv)
	if l, ok := iv.r.(*Expr); ok && len(l.vars) == 2 && s.n <= 256 {
		// a digit of a linear term, such as smalls[20*a+2*b]
		if txt, ok := s.concrete(); ok {
			if _, top := w.ctx.urange(l, 0); top < uint64(s.n) {
				vals := make([]uint64, s.n)
				for j := range vals {
					vals[j] = uint64(txt[j])
				}
				if e := w.ctx.tabOfDigit(vals, 8, l); e != nil {
					return fromExpr(e)
				}
			}
		}
	}
	i, e := w.boundsCheck(in, iv, s.n)
	if e == nil {
		return s.at(i)
	}
	a := &Agg{f: s.bytes()}
	return w.loadSym(&SymPtr{agg: a, n: s.n, idx: e}, types.Typ[types.Uint8], in.site)
}

// window is a slice of constant length at a symbolic position of a constant string: one table lookup per byte.
func (w *Worker) window(s *Str, lo, hi Value) (Value, bool) {
	l, ok := lo.r.(*Expr)
	if !ok {
		return Value{}, false
	}
	h, ok := hi.r.(*Expr)
	if !ok || l.w != 64 || h.w != 64 {
		return Value{}, false
	}
	txt, ok := s.concrete()
	if !ok || len(txt) > 256 {
		return Value{}, false
	}
	d := w.ctx.Sub(h, l)
	if !d.isConst() || d.k == 0 || d.k > 8 {
		return Value{}, false
	}
	if _, top := w.ctx.urange(l, 0); top+d.k > uint64(len(txt)) || top > uint64(len(txt)) {
		return Value{}, false
	}
	a := &Agg{}
	for i := 0; i < int(d.k); i++ {
		vals := make([]uint64, len(txt))
		for j := range vals {
			if j+i < len(txt) {
				vals[j] = uint64(txt[j+i])
			}
		}
		a.f = append(a.f, fromExpr(w.ctx.TabLookup(vals, 8, l)))
	}
	return Value{r: &Str{agg: a, n: int(d.k)}}, true
}

func (w *Worker) slice(fr *frame, in *cins) Value {
	x := fr.get(w, &in.ops[0])
	get := func(i int, def int) int {
		if in.ops[i].k == 4 {
			return def
		}
		return int(w.concInt(fr.get(w, &in.ops[i]), in.site+uint32(i)<<22, "slice bound"))
	}
	switch in.k1 {
	case kString:
		s := asStr(x)
		if in.ops[1].k != 4 && in.ops[2].k != 4 {
			if v, ok := w.window(s, fr.get(w, &in.ops[1]), fr.get(w, &in.ops[2])); ok {
				return v
			}
		}
		lo, hi := get(1, 0), get(2, s.n)
		if hi < 0 || hi > s.n || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, s.n))
		}
		return s.sub(lo, hi)
	case kSlice:
		s := asSlice(x)
		if s == nil {
			lo, hi, mx := get(1, 0), get(2, 0), get(3, 0)
			if lo != 0 || hi != 0 || mx != 0 {
				w.rtPanic("slice bounds out of range on nil slice")
			}
			return Value{}
		}
		lo, hi := get(1, 0), get(2, s.len)
		mx := get(3, s.cap)
		if mx < 0 || mx > s.cap || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, s.cap))
		}
		return Value{r: &Slice{agg: s.agg, off: s.off + lo, len: hi - lo, cap: mx - lo}}
	case kPtr:
		p, ok := x.r.(*Value)
		if !ok {
			if x.r == nil {
				w.nilDeref()
			}
			panic(unsupported(fmt.Sprintf("slice of %T", x.r)))
		}
		a := asAgg(*p)
		n := len(a.f)
		lo, hi := get(1, 0), get(2, n)
		mx := get(3, n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range on array")
		}
		return Value{r: &Slice{agg: a, off: lo, len: hi - lo, cap: mx - lo}}
	}
	panic(unsupported("slice kind"))
}

func (w *Worker) typeAssert(in *cins, v Value) Value {
	ifc, _ := v.r.(*Iface)
	ok := false
	var res Value
	if ifc != nil {
		if in.n == 1 {
			if _, isRT := ifc.v.r.(*RT); isRT {
				ok = true
			} else {
				ok = w.implements(ifc.t, in.t1.Underlying().(*types.Interface))
			}
			res = v
		} else {
			ok = types.Identical(ifc.t, in.t1)
			res = ifc.v
		}
	}
	if in.flag {
		if !ok {
			res = w.zero(in.t1)
		}
		return Value{r: Tuple{res, vBool(ok)}}
	}
	if !ok {
		w.rtPanic("interface conversion to " + in.t1.String())
	}
	return res
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := w.impls[k]; ok {
		return r
	}
	w.eng.methMu.Lock()
	r := types.Implements(t, i)
	w.eng.methMu.Unlock()
	w.impls[k] = r
	return r
}

// ---- arithmetic

func (w *Worker) binop(in *cins, a, b Value) Value {
	c := w.ctx
	switch in.tok {
	case token.EQL, token.NEQ:
		e := w.eqVal2(in, a, b)
		if in.tok == token.NEQ {
			e = c.Not(e)
		}
		return fromExpr(e)
	}
	k, width := in.k1, in.w1
	if k == kString {
		x, y := asStr(a), asStr(b)
		switch in.tok {
		case token.ADD:
			if x.n == 0 {
				return b
			}
			if y.n == 0 {
				return a
			}
			if w.spec {
				panic(specAbort)
			}
			if x.agg == nil && y.agg == nil {
				return vStr(x.s + y.s)
			}
			return bytesToStr(append(x.bytes(), y.bytes()...))
		case token.LSS:
			return fromExpr(w.ltStr(x, y, false))
		case token.LEQ:
			return fromExpr(w.ltStr(x, y, true))
		case token.GTR:
			return fromExpr(w.ltStr(y, x, false))
		case token.GEQ:
			return fromExpr(w.ltStr(y, x, true))
		}
	}
	if a.r == nil && b.r == nil {
		return w.binConc(in, k, width, a.n, b.n)
	}
	if _, ok := a.r.(*DataPtr); ok {
		panic(unsupported("pointer arithmetic"))
	}
	if k == kFloat {
		x, y := w.expr(a, width), w.expr(b, width)
		switch in.tok {
		case token.ADD:
			return fromExpr(c.F(OFAdd, width, width, x, y))
		case token.SUB:
			return fromExpr(c.F(OFSub, width, width, x, y))
		case token.MUL:
			return fromExpr(c.F(OFMul, width, width, x, y))
		case token.QUO:
			return fromExpr(c.F(OFDiv, width, width, x, y))
		case token.LSS:
			return fromExpr(c.F(OFLt, 1, width, x, y))
		case token.LEQ:
			return fromExpr(c.F(OFLe, 1, width, x, y))
		case token.GTR:
			return fromExpr(c.F(OFLt, 1, width, y, x))
		case token.GEQ:
			return fromExpr(c.F(OFLe, 1, width, y, x))
		}
		panic(unsupported("float op " + in.tok.String()))
	}
	if in.tok == token.SHL || in.tok == token.SHR {
		return w.shift(in, k, width, a, b)
	}
	x, y := w.expr(a, width), w.expr(b, width)
	sg := k == kInt
	switch in.tok {
	case token.ADD:
		return fromExpr(c.Add(x, y))
	case token.SUB:
		return fromExpr(c.Sub(x, y))
	case token.MUL:
		return fromExpr(c.Mul(x, y))
	case token.QUO, token.REM:
		z := c.Eq(y, c.Const(0, width))
		if !z.isFalse() {
			if w.path.branch(z, in.site) {
				w.rtPanic("integer divide by zero")
			}
		}
		switch {
		case in.tok == token.QUO && sg:
			return fromExpr(c.Div(OSDiv, x, y))
		case in.tok == token.QUO:
			return fromExpr(c.Div(OUDiv, x, y))
		case sg:
			return fromExpr(c.Div(OSRem, x, y))
		}
		return fromExpr(c.Div(OURem, x, y))
	case token.AND:
		if width == 1 {
			return fromExpr(c.And(x, y))
		}
		return fromExpr(c.BAnd(x, y))
	case token.OR:
		if width == 1 {
			return fromExpr(c.Or(x, y))
		}
		return fromExpr(c.BOr(x, y))
	case token.XOR:
		return fromExpr(c.BXor(x, y))
	case token.AND_NOT:
		return fromExpr(c.BAnd(x, c.BXor(y, c.Const(maskW(width), width))))
	case token.LSS:
		if sg {
			return fromExpr(c.Slt(x, y))
		}
		return fromExpr(c.Ult(x, y))
	case token.LEQ:
		if sg {
			return fromExpr(c.Sle(x, y))
		}
		return fromExpr(c.Ule(x, y))
	case token.GTR:
		if sg {
			return fromExpr(c.Slt(y, x))
		}
		return fromExpr(c.Ult(y, x))
	case token.GEQ:
		if sg {
			return fromExpr(c.Sle(y, x))
		}
		return fromExpr(c.Ule(y, x))
	}
	panic(unsupported("binop " + in.tok.String()))
}

func (w *Worker) eqVal2(in *cins, a, b Value) *Expr {
	// comparison of an interface with a concrete value is normalised by SSA through MakeInterface
	return w.eqVal(in.t1, a, b)
}

func (w *Worker) shift(in *cins, k tkind, width uint8, a, b Value) Value {
	c := w.ctx
	if in.k2 == kInt && b.r != nil {
		neg := c.Slt(w.expr(b, in.w2), c.Const(0, in.w2))
		if w.path.branch(neg, in.site) {
			w.rtPanic("negative shift amount")
		}
	}
	y := w.expr(b, in.w2)
	// bring the amount to the value's width, saturating
	if in.w2 > width {
		big := c.Not(c.Ult(y, c.Const(uint64(width), in.w2)))
		y = c.Ite(big, c.Const(uint64(width), width), c.Trunc(y, width))
	} else {
		y = c.ZExt(y, width)
	}
	x := w.expr(a, width)
	switch {
	case in.tok == token.SHL:
		return fromExpr(c.Shift(OShl, x, y))
	case k == kInt:
		return fromExpr(c.Shift(OAShr, x, y))
	}
	return fromExpr(c.Shift(OLShr, x, y))
}

func (w *Worker) binConc(in *cins, k tkind, width uint8, a, b uint64) Value {
	m := maskW(width)
	if k == kFloat {
		x, y := fval(a, width), fval(b, width)
		if width == 32 {
			x32, y32 := float32(x), float32(y)
			switch in.tok {
			case token.ADD:
				return Value{n: uint64(math.Float32bits(x32 + y32))}
			case token.SUB:
				return Value{n: uint64(math.Float32bits(x32 - y32))}
			case token.MUL:
				return Value{n: uint64(math.Float32bits(x32 * y32))}
			case token.QUO:
				return Value{n: uint64(math.Float32bits(x32 / y32))}
			}
		}
		switch in.tok {
		case token.ADD:
			return Value{n: math.Float64bits(x + y)}
		case token.SUB:
			return Value{n: math.Float64bits(x - y)}
		case token.MUL:
			return Value{n: math.Float64bits(x * y)}
		case token.QUO:
			return Value{n: math.Float64bits(x / y)}
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
		panic(unsupported("float op"))
	}
	sg := k == kInt
	switch in.tok {
	case token.ADD:
		return Value{n: (a + b) & m}
	case token.SUB:
		return Value{n: (a - b) & m}
	case token.MUL:
		return Value{n: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		switch {
		case in.tok == token.QUO && sg:
			return Value{n: evalBin(OSDiv, width, a, b)}
		case in.tok == token.QUO:
			return Value{n: a / b}
		case sg:
			return Value{n: evalBin(OSRem, width, a, b)}
		}
		return Value{n: a % b}
	case token.AND:
		return Value{n: a & b}
	case token.OR:
		return Value{n: a | b}
	case token.XOR:
		return Value{n: a ^ b}
	case token.AND_NOT:
		return Value{n: a &^ b}
	case token.SHL, token.SHR:
		if in.k2 == kInt && sextW(b, in.w2) < 0 {
			w.rtPanic("negative shift amount")
		}
		switch {
		case in.tok == token.SHL:
			return Value{n: evalBin(OShl, width, a, b)}
		case sg:
			return Value{n: evalBin(OAShr, width, a, b)}
		}
		return Value{n: evalBin(OLShr, width, a, b)}
	case token.LSS:
		if sg {
			return vBool(sextW(a, width) < sextW(b, width))
		}
		return vBool(a < b)
	case token.LEQ:
		if sg {
			return vBool(sextW(a, width) <= sextW(b, width))
		}
		return vBool(a <= b)
	case token.GTR:
		if sg {
			return vBool(sextW(a, width) > sextW(b, width))
		}
		return vBool(a > b)
	case token.GEQ:
		if sg {
			return vBool(sextW(a, width) >= sextW(b, width))
		}
		return vBool(a >= b)
	}
	panic(unsupported("binop " + in.tok.String()))
}

func (w *Worker) unop(fr *frame, in *cins, x Value) Value {
	c := w.ctx
	switch in.tok {
	case token.MUL:
		return w.load(x, in.t2, in.site)
	case token.NOT:
		if x.r == nil {
			return Value{n: 1 - x.n}
		}
		return fromExpr(c.Not(w.expr(x, 1)))
	case token.SUB:
		if in.k1 == kFloat {
			if x.r == nil {
				return Value{n: x.n ^ (uint64(1) << (in.w1 - 1))}
			}
			return fromExpr(c.F(OFNeg, in.w1, in.w1, w.expr(x, in.w1)))
		}
		if x.r == nil {
			return Value{n: (-x.n) & maskW(in.w1)}
		}
		return fromExpr(c.Neg(w.expr(x, in.w1)))
	case token.XOR:
		if x.r == nil {
			return Value{n: (^x.n) & maskW(in.w1)}
		}
		e := w.expr(x, in.w1)
		return fromExpr(c.Sub(c.Const(maskW(in.w1), in.w1), e))
	case token.ARROW:
		ch, _ := x.r.(*Chan)
		if ch == nil {
			panic(unsupported("receive on nil channel"))
		}
		var v Value
		ok := false
		if len(ch.buf) > 0 {
			v, ok = ch.buf[0], true
			ch.buf = ch.buf[1:]
		} else if ch.closed {
			v = w.zero(in.t1.Underlying().(*types.Chan).Elem())
		} else {
			panic(&pathAbort{"deadlock"})
		}
		if in.flag {
			return Value{r: Tuple{v, vBool(ok)}}
		}
		return v
	}
	panic(unsupported("unop " + in.tok.String()))
}

func (w *Worker) convert(in *cins, x Value) Value {
	c := w.ctx
	k1, w1, k2, w2 := in.k1, in.w1, in.k2, in.w2
	isI := func(k tkind) bool { return k == kInt || k == kUint }
	switch {
	case isI(k1) && isI(k2):
		if x.r == nil {
			v := x.n
			if k1 == kInt {
				v = uint64(sextW(v, w1))
			}
			return Value{n: v & maskW(w2)}
		}
		if _, ok := x.r.(*Expr); !ok {
			return x // uintptr holding a data pointer
		}
		e := w.expr(x, w1)
		switch {
		case w2 == w1:
			return x
		case w2 < w1:
			return fromExpr(c.Trunc(e, w2))
		case k1 == kInt:
			return fromExpr(c.SExt(e, w2))
		}
		return fromExpr(c.ZExt(e, w2))
	case isI(k1) && k2 == kFloat:
		if x.r == nil {
			if k1 == kInt {
				i := sextW(x.n, w1)
				if w2 == 32 {
					return Value{n: uint64(math.Float32bits(float32(i)))}
				}
				return Value{n: math.Float64bits(float64(i))}
			}
			if w2 == 32 {
				return Value{n: uint64(math.Float32bits(float32(x.n)))}
			}
			return Value{n: math.Float64bits(float64(x.n))}
		}
		op := OUToF
		if k1 == kInt {
			op = OSToF
		}
		return fromExpr(c.F(op, w2, w2, w.expr(x, w1)))
	case k1 == kFloat && isI(k2):
		if x.r == nil {
			f := fval(x.n, w1)
			if k2 == kInt {
				return Value{n: uint64(int64(f)) & maskW(w2)}
			}
			return Value{n: uint64(f) & maskW(w2)}
		}
		op := OFToU
		if k2 == kInt {
			op = OFToS
		}
		return fromExpr(c.F(op, w2, w1, w.expr(x, w1)))
	case k1 == kFloat && k2 == kFloat:
		if w1 == w2 {
			return x
		}
		if x.r == nil {
			return Value{n: fbits(fval(x.n, w1), w2)}
		}
		return fromExpr(c.F(OFCvt, w2, w1, w.expr(x, w1)))
	case k1 == kString && k2 == kSlice:
		s := asStr(x)
		if w.spec {
			panic(specAbort)
		}
		el := in.t2.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Uint8 {
			a := &Agg{f: s.bytes()}
			return Value{r: &Slice{agg: a, len: s.n, cap: s.n}}
		}
		// []rune
		var rs []Value
		for i := 0; i < s.n; {
			r, n := w.decodeRune(s, i, in.site)
			rs = append(rs, r)
			i += n
		}
		return Value{r: &Slice{agg: &Agg{f: rs}, len: len(rs), cap: len(rs)}}
	case k1 == kSlice && k2 == kString:
		s := asSlice(x)
		el := in.t1.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Uint8 {
			return bytesToStr(sliceVals(s))
		}
		var out []Value
		for _, r := range sliceVals(s) {
			out = append(out, w.encodeRune(r, in.site)...)
		}
		return bytesToStr(out)
	case isI(k1) && k2 == kString:
		return bytesToStr(w.encodeRune(w.convInt(x, k1, w1, 32), in.site))
	case k1 == kString && k2 == kString, k1 == kSlice && k2 == kSlice, k1 == kPtr && k2 == kPtr && k1 != kUnsafe:
		return x
	case k1 == kPtr && k2 == kUnsafe:
		if x.r == nil {
			return x
		}
		if pp, ok := x.r.(*PunPtr); ok {
			return Value{r: &UPtr{p: pp.p, t: pp.from}}
		}
		return Value{r: &UPtr{p: x, t: in.t1.Underlying().(*types.Pointer).Elem()}}
	case k1 == kUnsafe && k2 == kPtr:
		if x.r == nil {
			return x
		}
		to := in.t2.Underlying().(*types.Pointer).Elem()
		switch u := x.r.(type) {
		case *UPtr:
			if types.Identical(u.t, to) || types.Identical(u.t.Underlying(), to.Underlying()) {
				return u.p
			}
			return Value{r: &PunPtr{p: u.p, from: u.t, to: to}}
		case *DataPtr:
			return x
		case *Value:
			return x
		}
	case k1 == kUnsafe && k2 == kUint, k1 == kUint && k2 == kUnsafe:
		return x
	case k1 == kUnsafe && k2 == kUnsafe:
		return x
	}
	panic(unsupported("convert " + in.t1.String() + " to " + in.t2.String()))
}

func (w *Worker) convInt(x Value, k tkind, w1, w2 uint8) Value {
	if x.r == nil {
		v := x.n
		if k == kInt {
			v = uint64(sextW(v, w1))
		}
		return Value{n: v & maskW(w2)}
	}
	e := w.expr(x, w1)
	switch {
	case w2 <= w1:
		return fromExpr(w.ctx.Trunc(e, w2))
	case k == kInt:
		return fromExpr(w.ctx.SExt(e, w2))
	}
	return fromExpr(w.ctx.ZExt(e, w2))
}
