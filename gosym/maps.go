package main

import (
	"fmt"
	"go/types"
	"strconv"
	"unicode/utf8"
)

func newMap(keyT types.Type) *Map { return &Map{idx: map[string]*mapEntry{}, keyT: keyT} }

func (w *Worker) mkMap(keyT types.Type) *Map {
	m := newMap(keyT)
	m.epoch = w.epoch
	return m
}

func mapKey(v Value, keyT types.Type) (string, bool) {
	switch x := v.r.(type) {
	case nil:
		k, _ := classify(keyT)
		switch k {
		case kString:
			return "s", true
		case kInt, kUint, kBool:
			return "i" + strconv.FormatUint(v.n, 36), true
		}
	case *Str:
		if s, ok := x.concrete(); ok {
			return "s" + s, true
		}
	}
	return "", false
}

func (w *Worker) mapFind(m *Map, k Value, site uint32) *mapEntry {
	w.checkGuardedMap(m)
	key, conc := mapKey(k, m.keyT)
	if conc {
		if e, ok := m.idx[key]; ok {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	var cands []*mapEntry
	var conds []*Expr
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if conc {
			if _, ec := mapKey(e.k, m.keyT); ec {
				continue
			}
		}
		q := w.eqVal(m.keyT, e.k, k)
		if q.isFalse() {
			continue
		}
		if q.isTrue() {
			return e
		}
		cands = append(cands, e)
		conds = append(conds, q)
	}
	if len(cands) == 0 {
		return nil
	}
	none := make([]*Expr, len(conds))
	for i, q := range conds {
		none[i] = w.ctx.Not(q)
	}
	conds = append(conds, w.ctx.And(none...))
	i := w.path.decide(conds, site)
	if i == len(cands) {
		return nil
	}
	return cands[i]
}

// mapTouch prepares a map for modification: remembers its content if it predates the current path.
func (w *Worker) mapTouch(m *Map) {
	if w.spec {
		panic(specAbort)
	}
	if w.path != nil && w.path.frozenM != nil && w.path.frozenM[m] && w.once == 0 {
		if w.locks == 0 {
			w.raceViolation("map written by an operation documented as read-only")
		} else {
			if w.path.guardedM == nil {
				w.path.guardedM = map[*Map]bool{}
			}
			w.path.guardedM[m] = true
		}
	}
	if w.logging && m.epoch != w.epoch {
		old := *m
		ents := make([]*mapEntry, len(m.entries))
		for i, e := range m.entries {
			c := *e
			ents[i] = &c
		}
		w.undoF = append(w.undoF, func() {
			*m = old
			m.entries = ents
			m.idx = map[string]*mapEntry{}
			for _, e := range ents {
				if e.deleted {
					continue
				}
				if key, ok := mapKey(e.k, m.keyT); ok {
					m.idx[key] = e
				}
			}
		})
		m.epoch = w.epoch
	}
}

func (w *Worker) mapUpdate(mv, k, v Value, site uint32) {
	m, _ := mv.r.(*Map)
	if m == nil {
		w.rtPanicPlain("assignment to entry in nil map")
	}
	w.mapTouch(m)
	if ks, ok := k.r.(*Str); ok && ks.agg != nil {
		// keys are immutable unless built by an unsafe conversion; keep the view, as the real map does
		_ = ks
	}
	if e := w.mapFind(m, k, site); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: k, v: copyVal(v)}
	m.entries = append(m.entries, e)
	m.live++
	if key, ok := mapKey(k, m.keyT); ok {
		m.idx[key] = e
	} else {
		m.symKeys++
	}
}

func (w *Worker) mapDelete(mv, k Value, site uint32) {
	m, _ := mv.r.(*Map)
	if m == nil {
		return
	}
	e := w.mapFind(m, k, site)
	if e == nil {
		return
	}
	w.mapTouch(m)
	// mapTouch may only copy for undo; e is still the live entry
	e.deleted = true
	m.live--
	if key, ok := mapKey(e.k, m.keyT); ok {
		delete(m.idx, key)
	} else {
		m.symKeys--
	}
}

func (w *Worker) lookup(in *cins, xv, kv Value) Value {
	if in.k1 == kString {
		return w.strIndex(in, xv, kv)
	}
	m, _ := xv.r.(*Map)
	elemT := in.t1.Underlying().(*types.Map).Elem()
	var e *mapEntry
	if m != nil {
		e = w.mapFind(m, kv, in.site)
	}
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = w.zero(elemT)
	}
	if in.flag {
		return Value{r: Tuple{v, vBool(e != nil)}}
	}
	return v
}

// mapOrder returns the live entries in the order this path iterates them.
func (w *Worker) mapOrder(m *Map, modFn bool, site uint32) []*mapEntry {
	w.checkGuardedMap(m)
	var keys []*mapEntry
	for _, e := range m.entries {
		if !e.deleted {
			keys = append(keys, e)
		}
	}
	n := len(keys)
	if n < 2 || w.path == nil || !modFn {
		return keys
	}
	switch w.path.mapOrd {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 2:
		w.path.unordered = true
		if n <= 4 {
			// every permutation
			for i := 0; i < n-1; i++ {
				j := i + w.path.choose(n-i, site+uint32(i)<<24)
				x := keys[j]
				copy(keys[i+1:j+1], keys[i:j])
				keys[i] = x
			}
			return keys
		}
		r := w.path.choose(n, site)
		keys = append(append([]*mapEntry(nil), keys[r:]...), keys[:r]...)
	case 3:
		// rotations and reversal only
		w.path.unordered = true
		if w.path.choose(2, site) == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

func (w *Worker) rangeStart(fr *frame, in *cins, x Value) Value {
	k, _ := classify(in.t1)
	if k == kString {
		return Value{r: &RangeIter{str: asStr(x)}}
	}
	m, _ := x.r.(*Map)
	it := &RangeIter{m: m}
	if m != nil {
		it.keys = w.mapOrder(m, fr.fn.modFn, in.site)
	} else {
		it.m = newMap(nil)
	}
	return Value{r: it}
}

func (w *Worker) next(in *cins, x Value) Value {
	it := x.r.(*RangeIter)
	if it.m == nil {
		if it.pos >= it.str.n {
			return Value{r: Tuple{vBool(false), Value{}, Value{}}}
		}
		r, n := w.decodeRune(it.str, it.pos, in.site)
		p := it.pos
		it.pos += n
		return Value{r: Tuple{vBool(true), vInt(p), r}}
	}
	for it.i < len(it.keys) {
		e := it.keys[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return Value{r: Tuple{vBool(true), e.k, copyVal(e.v)}}
	}
	tt := in.t1.(*types.Tuple)
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Value{}
		}
		return w.zero(t)
	}
	return Value{r: Tuple{vBool(false), z(1), z(2)}}
}

// decodeRune decodes UTF-8 at position i, forking on symbolic bytes.
func (w *Worker) decodeRune(s *Str, i int, site uint32) (Value, int) {
	if w.spec {
		for j := i; j < s.n && j < i+4; j++ {
			if s.at(j).r != nil {
				panic(specAbort)
			}
		}
	}
	c := w.ctx
	b0 := s.at(i)
	if b0.r == nil && b0.n < 0x80 {
		return Value{n: b0.n}, 1
	}
	allConc := true
	var buf []byte
	for j := i; j < s.n && j < i+4; j++ {
		v := s.at(j)
		if v.r != nil {
			allConc = false
			break
		}
		buf = append(buf, byte(v.n))
	}
	if allConc {
		r, n := utf8.DecodeRune(buf)
		return Value{n: uint64(uint32(r))}, n
	}
	p := w.path
	e0 := w.expr(b0, 8)
	rng := func(e *Expr, lo, hi uint64) *Expr {
		return c.And(c.Ule(c.Const(lo, 8), e), c.Ule(e, c.Const(hi, 8)))
	}
	conds := []*Expr{
		c.Ult(e0, c.Const(0x80, 8)),
		rng(e0, 0xC2, 0xDF),
		rng(e0, 0xE0, 0xE0), rng(e0, 0xE1, 0xEC), rng(e0, 0xED, 0xED), rng(e0, 0xEE, 0xEF),
		rng(e0, 0xF0, 0xF0), rng(e0, 0xF1, 0xF3), rng(e0, 0xF4, 0xF4),
	}
	var any []*Expr
	for _, q := range conds {
		any = append(any, c.Not(q))
	}
	conds = append(conds, c.And(any...))
	bad := Value{n: 0xFFFD}
	k := p.decide(conds, site)
	if k == 0 {
		return fromExpr(c.ZExt(e0, 32)), 1
	}
	if k == 9 {
		return bad, 1
	}
	need := 1
	lo, hi := uint64(0x80), uint64(0xBF)
	switch k {
	case 2:
		need, lo = 2, 0xA0
	case 3, 5:
		need = 2
	case 4:
		need, hi = 2, 0x9F
	case 6:
		need, lo = 3, 0x90
	case 7:
		need = 3
	case 8:
		need, hi = 3, 0x8F
	}
	if i+need >= s.n {
		// truncated
		return bad, 1
	}
	var ok []*Expr
	es := make([]*Expr, need)
	for j := 0; j < need; j++ {
		es[j] = w.expr(s.at(i+1+j), 8)
		if j == 0 {
			ok = append(ok, rng(es[j], lo, hi))
		} else {
			ok = append(ok, rng(es[j], 0x80, 0xBF))
		}
	}
	if !p.branch(c.And(ok...), site+1<<25) {
		return bad, 1
	}
	masks := []uint64{0, 0xC0, 0xE0, 0xF0}
	z := func(e *Expr, sub uint64) *Expr { return c.Sub(c.ZExt(e, 32), c.Const(sub, 32)) }
	r := c.scale(z(e0, masks[need]), uint64(1)<<(6*need))
	for j := 0; j < need; j++ {
		r = c.Add(r, c.scale(z(es[j], 0x80), uint64(1)<<(6*(need-1-j))))
	}
	return fromExpr(r), need + 1
}

func (w *Worker) encodeRune(r Value, site uint32) []Value {
	if r.r == nil {
		var out []Value
		rr := rune(int32(r.n))
		for _, b := range []byte(string(rr)) {
			out = append(out, Value{n: uint64(b)})
		}
		return out
	}
	if w.spec {
		panic(specAbort)
	}
	c := w.ctx
	e := w.expr(r, 32)
	k := func(v uint64) *Expr { return c.Const(v, 32) }
	sur := c.And(c.Ule(k(0xD800), e), c.Ule(e, k(0xDFFF)))
	big := c.Ult(k(0x10FFFF), e)
	a := c.Ult(e, k(0x80))
	b := c.And(c.Ule(k(0x80), e), c.Ult(e, k(0x800)))
	d := c.And(c.Ule(k(0x800), e), c.Ult(e, k(0x10000)), c.Not(sur))
	f := c.And(c.Ule(k(0x10000), e), c.Not(big))
	g := c.Or(sur, big)
	by := func(x *Expr, or uint64) Value {
		return fromExpr(c.BOr(c.Trunc(x, 8), c.Const(or, 8)))
	}
	sh := func(n uint64) *Expr { return c.Shift(OLShr, e, k(n)) }
	lo := func(x *Expr) *Expr { return c.BAnd(x, k(0x3F)) }
	switch w.path.decide([]*Expr{a, b, d, f, g}, site) {
	case 0:
		return []Value{fromExpr(c.Trunc(e, 8))}
	case 1:
		return []Value{by(sh(6), 0xC0), by(lo(e), 0x80)}
	case 2:
		return []Value{by(sh(12), 0xE0), by(lo(sh(6)), 0x80), by(lo(e), 0x80)}
	case 3:
		return []Value{by(sh(18), 0xF0), by(lo(sh(12)), 0x80), by(lo(sh(6)), 0x80), by(lo(e), 0x80)}
	}
	return []Value{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
}

// ---- builtins

func (w *Worker) builtin(fr *frame, in *cins, args []Value) Value {
	switch in.bi {
	case "len", "cap":
		return w.lenOf(in, args[0], in.bi == "cap")
	case "append":
		return w.appendTo(in, args)
	case "copy":
		if w.spec {
			panic(specAbort)
		}
		dst := asSlice(args[0])
		var src []Value
		if in.k2 == kString {
			src = asStr(args[1]).bytes()
		} else {
			src = append([]Value(nil), sliceVals(asSlice(args[1]))...)
		}
		n := 0
		if dst != nil {
			n = min(dst.len, len(src))
			for i := 0; i < n; i++ {
				w.store(&dst.agg.f[dst.off+i], src[i])
			}
		}
		w.charge(n / 4)
		return vInt(n)
	case "delete":
		w.mapDelete(args[0], args[1], in.site)
		return Value{}
	case "clear":
		if in.k1 == kMap {
			m, _ := args[0].r.(*Map)
			if m != nil {
				w.mapTouch(m)
				for _, e := range m.entries {
					e.deleted = true
				}
				m.entries, m.idx, m.live, m.symKeys = nil, map[string]*mapEntry{}, 0, 0
			}
			return Value{}
		}
		s := asSlice(args[0])
		if s != nil {
			el := in.t1.Underlying().(*types.Slice).Elem()
			for i := 0; i < s.len; i++ {
				w.store(&s.agg.f[s.off+i], w.zero(el))
			}
		}
		return Value{}
	case "min", "max":
		res := args[0]
		for _, b := range args[1:] {
			lt := *in
			lt.tok = 40 // token.LSS
			lt.w1 = in.w1
			c := w.binop(&lt, b, res)
			take := c
			if in.bi == "max" {
				take = w.binop(&lt, res, b)
			}
			if take.r == nil {
				if take.n == 1 {
					res = b
				}
				continue
			}
			switch in.k1 {
			case kInt, kUint:
				res = fromExpr(w.ctx.Ite(take.r.(*Expr), w.expr(b, in.w1), w.expr(res, in.w1)))
			default:
				if w.path.branch(take.r.(*Expr), in.site) {
					res = b
				}
			}
		}
		return res
	case "close":
		ch, _ := args[0].r.(*Chan)
		if ch == nil {
			w.rtPanicPlain("close of nil channel")
		}
		if ch.closed {
			w.rtPanicPlain("close of closed channel")
		}
		ch.closed = true
		return Value{}
	case "panic":
		panic(&targetPanic{v: args[0], where: w.where()})
	case "recover":
		// valid when called by a deferred function of a panicking frame
		if n := len(w.curDefer); n > 0 {
			f := w.curDefer[n-1]
			if f.pan != nil && fr.parent == f {
				v := f.pan.v
				f.pan = nil
				if v.r == nil {
					v = Value{r: &Iface{t: w.eng.rtErrType, v: vStr("panic called with nil argument")}}
				}
				return v
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			w.nilDeref()
		}
		return args[0]
	case "String":
		n := w.concInt(args[1], in.site, "unsafe.String len")
		return w.unsafeString(args[0], int(n))
	case "StringData":
		s := asStr(args[0])
		if s.n == 0 {
			return Value{}
		}
		return Value{r: &DataPtr{str: s}}
	case "SliceData":
		s := asSlice(args[0])
		if s == nil {
			return Value{}
		}
		return Value{r: &DataPtr{sl: s}}
	case "Slice":
		n := int(w.concInt(args[1], in.site, "unsafe.Slice len"))
		switch p := args[0].r.(type) {
		case nil:
			if n == 0 {
				return Value{}
			}
			w.rtPanic("unsafe.Slice: ptr is nil and len is not zero")
		case *DataPtr:
			if p.str != nil {
				if n > p.str.n {
					w.memViolation("unsafe.Slice beyond the string's bytes")
				}
				return w.strAlias(p.str, n)
			}
			if n > p.sl.cap {
				w.memViolation("unsafe.Slice beyond the slice's capacity")
			}
			return Value{r: &Slice{agg: p.sl.agg, off: p.sl.off, len: n, cap: n}}
		}
		panic(unsupported(fmt.Sprintf("unsafe.Slice of %T", args[0].r)))
	}
	panic(unsupported("builtin " + in.bi))
}

func (w *Worker) unsafeString(p Value, n int) Value {
	if n == 0 {
		return Value{}
	}
	switch x := p.r.(type) {
	case nil:
		w.rtPanic("unsafe.String: ptr is nil and len is not zero")
	case *DataPtr:
		if x.str != nil {
			return x.str.sub(0, n)
		}
		if x.sl.off+n > len(x.sl.agg.f) {
			w.memViolation("unsafe.String beyond the slice's capacity")
			n = len(x.sl.agg.f) - x.sl.off
		}
		return Value{r: &Str{agg: x.sl.agg, off: x.sl.off, n: n}}
	case *Value:
		// &b[i]: locating the array is not supported
	}
	panic(unsupported(fmt.Sprintf("unsafe.String of %T", p.r)))
}

func (w *Worker) lenOf(in *cins, v Value, isCap bool) Value {
	switch in.k1 {
	case kString:
		return vInt(asStr(v).n)
	case kSlice:
		s := asSlice(v)
		if s == nil {
			return Value{}
		}
		if isCap {
			return vInt(s.cap)
		}
		return vInt(s.len)
	case kMap:
		m, _ := v.r.(*Map)
		if m == nil {
			return Value{}
		}
		return vInt(m.live)
	case kChan:
		ch, _ := v.r.(*Chan)
		if ch == nil {
			return Value{}
		}
		return vInt(len(ch.buf))
	case kAgg:
		return vInt(len(asAgg(v).f))
	case kPtr:
		if p, ok := v.r.(*Value); ok {
			return vInt(len(asAgg(*p).f))
		}
		if a, ok := in.t1.Underlying().(*types.Pointer); ok {
			return vInt(int(a.Elem().Underlying().(*types.Array).Len()))
		}
	}
	panic(unsupported("len of " + in.t1.String()))
}

func (w *Worker) appendTo(in *cins, args []Value) Value {
	if w.spec {
		panic(specAbort)
	}
	s := asSlice(args[0])
	if len(args) == 1 {
		return args[0]
	}
	var add []Value
	if in.k2 == kString {
		add = asStr(args[1]).bytes()
	} else {
		add = sliceVals(asSlice(args[1]))
	}
	if len(add) == 0 {
		return args[0]
	}
	return w.appendVals(s, add)
}

// appendVals follows the real growth policy closely enough for aliasing: in place when capacity allows, a fresh
// array with doubled capacity otherwise.
func (w *Worker) appendVals(s *Slice, add []Value) Value {
	n := 0
	cp := 0
	if s != nil {
		n, cp = s.len, s.cap
	}
	need := n + len(add)
	w.charge(len(add) / 4)
	if need <= cp {
		tmp := append([]Value(nil), add...)
		for i, v := range tmp {
			w.store(&s.agg.f[s.off+n+i], v)
		}
		return Value{r: &Slice{agg: s.agg, off: s.off, len: need, cap: cp}}
	}
	nc := cp * 2
	if nc < need {
		nc = need
	}
	if nc < 4 {
		nc = 4
	}
	a := &Agg{f: make([]Value, nc)}
	if s != nil {
		for i := 0; i < n; i++ {
			a.f[i] = copyVal(s.agg.f[s.off+i])
		}
	}
	for i, v := range add {
		a.f[n+i] = copyVal(v)
	}
	w.charge(nc / 8)
	// spare cells of aggregate type need their zero structure
	if len(add) > 0 {
		if z, ok := add[0].r.(*Agg); ok {
			for i := need; i < nc; i++ {
				a.f[i] = zeroLike(z)
			}
		}
	}
	return Value{r: &Slice{agg: a, len: need, cap: nc}}
}

func zeroLike(z *Agg) Value {
	a := &Agg{f: make([]Value, len(z.f))}
	for i := range z.f {
		if y, ok := z.f[i].r.(*Agg); ok {
			a.f[i] = zeroLike(y)
		}
	}
	return Value{r: a}
}
