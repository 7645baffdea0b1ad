package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Expr is a hash-consed bit-vector / boolean term.  Width 1 is the SMT sort Bool, other widths are
// (_ BitVec w).  Terms belong to one worker's Ctx and are never shared between goroutines.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool, n-ary (flattened)
	OOr
	OEq
	OIte
	OLin // sum coefs*args + k
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OUlt
	OUle
	OSlt
	OSle
	OMulHi
	OTab
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToS // float -> signed int of width w (Go amd64 semantics left unspecified out of range)
	OFToU
	OSToF
	OUToF
	OFCvt // between 32 and 64
	OFIsNaN
	OUF // uninterpreted function, name
)

type Expr struct {
	op    Op
	w     uint8
	fw    uint8 // source float width for float ops
	k     uint64
	args  []*Expr
	coefs []uint64
	tab   *Table
	name  string
	id    uint32
	vars  []int32
	bset  *[4]uint64 // cached truth table when boolean over one byte variable
	shp   [2]uint64  // structural hash with the variable's number left out
	// evaluation cache
	stamp uint64
	cval  uint64
	// smt session in which this node has been defined
	smtSess uint32
}

type Table struct {
	id   int
	w    uint8
	vals []uint64
}

type exprKey struct {
	op      Op
	w, fw   uint8
	k       uint64
	a, b, c uint32
	extra   string
}

type Ctx struct {
	tabm   map[exprKey]*Expr
	nextID uint32
	stamp  uint64
	tables map[string]*Table
	varsW  []uint8 // width per var ordinal, for current path
	path   *Path   // current path, for domain-based simplification; may be nil
}

func newCtx() *Ctx {
	return &Ctx{tabm: map[exprKey]*Expr{}, tables: map[string]*Table{}, nextID: 1}
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sextW(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func mergeVars(es []*Expr) []int32 {
	var res []int32
	for _, e := range es {
		if len(e.vars) == 0 {
			continue
		}
		if res == nil {
			res = e.vars
			continue
		}
		if sameVars(res, e.vars) {
			continue
		}
		// merge
		out := make([]int32, 0, len(res)+len(e.vars))
		i, j := 0, 0
		for i < len(res) || j < len(e.vars) {
			switch {
			case j >= len(e.vars) || (i < len(res) && res[i] < e.vars[j]):
				out = append(out, res[i])
				i++
			case i >= len(res) || res[i] > e.vars[j]:
				out = append(out, e.vars[j])
				j++
			default:
				out = append(out, res[i])
				i++
				j++
			}
		}
		res = out
	}
	return res
}

func sameVars(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Ctx) mk(op Op, w uint8, k uint64, fw uint8, name string, tab *Table, coefs []uint64, args ...*Expr) *Expr {
	key := exprKey{op: op, w: w, fw: fw, k: k}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if len(args) > 3 || coefs != nil || name != "" || tab != nil {
		var sb strings.Builder
		sb.WriteString(name)
		if tab != nil {
			sb.WriteString("T" + strconv.Itoa(tab.id))
		}
		for _, a := range args {
			sb.WriteByte(',')
			sb.WriteString(strconv.FormatUint(uint64(a.id), 36))
		}
		for _, x := range coefs {
			sb.WriteByte(';')
			sb.WriteString(strconv.FormatUint(x, 36))
		}
		key.extra = sb.String()
	}
	if e, ok := c.tabm[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, k: k, fw: fw, name: name, tab: tab, args: args, coefs: coefs, id: c.nextID}
	c.nextID++
	if op != OVar {
		e.vars = mergeVars(args)
	} else {
		e.vars = []int32{int32(k)}
	}
	c.tabm[key] = e
	return e
}

func (c *Ctx) Const(v uint64, w uint8) *Expr {
	return c.mk(OConst, w, v&maskW(w), 0, "", nil, nil)
}
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.Const(1, 1)
	}
	return c.Const(0, 1)
}
func (c *Ctx) Var(ord int, w uint8) *Expr {
	return c.mk(OVar, w, uint64(ord), 0, "", nil, nil)
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.k == 1 && e.w == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.k == 0 && e.w == 1 }

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op { // normalise negated comparisons
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(ONot, 1, 0, 0, "", nil, nil, a)
}

func (c *Ctx) nary(op Op, es []*Expr) *Expr {
	// op OAnd: identity true, absorbing false
	ident := op == OAnd
	var out []*Expr
	seen := map[uint32]bool{}
	for _, e := range es {
		if e.isConst() {
			if (e.k == 1) == ident {
				continue
			}
			return c.Bool(!ident)
		}
		if e.op == op {
			for _, s := range e.args {
				if !seen[s.id] {
					seen[s.id] = true
					out = append(out, s)
				}
			}
			continue
		}
		if !seen[e.id] {
			seen[e.id] = true
			out = append(out, e)
		}
	}
	if len(out) == 0 {
		return c.Bool(ident)
	}
	for _, e := range out {
		if e.op == ONot && seen[e.args[0].id] {
			return c.Bool(!ident)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 1, 0, 0, "", nil, nil, out...)
}
func (c *Ctx) And(es ...*Expr) *Expr { return c.nary(OAnd, es) }
func (c *Ctx) Or(es ...*Expr) *Expr  { return c.nary(OOr, es) }

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isConst() {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 1 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w > 8 && cond.op == OEq && c.equalUnder(cond, a, b) {
		return b
	}
	if a.w > 8 && cond.op == OOr {
		// x == k1 || x == k2 ...: same value under each alternative
		all := true
		for _, o := range cond.args {
			if o.op != OEq || !c.equalUnder(o, a, b) {
				all = false
				break
			}
		}
		if all {
			return b
		}
	}
	if a.w > 8 && c.path != nil && c.path.isByteUnary(cond) && !a.hasUF() && !b.hasUF() {
		// both arms agree wherever the condition holds (or does not): decided over the values the byte can have
		v := cond.vars[0]
		d := c.Sub(a, b)
		if len(d.vars) == 1 && d.vars[0] == v && d.size() < 40 {
			t := *c.path.tableOf(cond)
			dom := c.path.dom[v]
			model := make([]uint64, v+1)
			yes, no := true, true
			for x := 0; x < 256 && (yes || no); x++ {
				if dom[x>>6]&(1<<(x&63)) == 0 {
					continue
				}
				in := t[x>>6]&(1<<(x&63)) != 0
				if in && !yes || !in && !no {
					continue
				}
				model[v] = uint64(x)
				if c.Eval(d, model) != 0 {
					if in {
						yes = false
					} else {
						no = false
					}
				}
			}
			if yes {
				return b
			}
			if no {
				return a
			}
		}
	}
	return c.mk(OIte, a.w, 0, 0, "", nil, nil, cond, a, b)
}

func (e *Expr) size() int {
	n := 1
	for _, a := range e.args {
		n += a.size()
		if n > 100 {
			return n
		}
	}
	return n
}

// equalUnder tells whether a and b are the same linear form once the equation cond (linear == constant) holds:
// a - b is a multiple of its two sides' difference.
func (c *Ctx) equalUnder(cond, a, b *Expr) bool {
	l, k := cond.args[0], cond.args[1]
	if l.isConst() {
		l, k = k, l
	}
	if !k.isConst() {
		return false
	}
	if l.w != a.w {
		if l.w > a.w || l.op == OLin {
			return false
		}
		l, k = c.ZExt(l, a.w), c.Const(k.k, a.w)
	}
	e := c.Sub(l, k)
	d := c.Sub(a, b)
	te, ce, ke := c.linOf(e)
	td, cd, kd := c.linOf(d)
	if len(te) != len(td) || len(te) == 0 {
		return false
	}
	m := maskW(a.w)
	if ce[0]&1 == 0 {
		return false
	}
	// inverse of the odd leading coefficient modulo 2^w (Newton)
	inv := ce[0]
	for i := 0; i < 6; i++ {
		inv *= 2 - ce[0]*inv
	}
	f := cd[0] * inv & m
	for i := range te {
		if te[i] != td[i] || (ce[i]*f-cd[i])&m != 0 {
			return false
		}
	}
	return (ke*f-kd)&m == 0
}

// ---- linear arithmetic

func (c *Ctx) linOf(e *Expr) (terms []*Expr, coefs []uint64, k uint64) {
	switch e.op {
	case OConst:
		return nil, nil, e.k
	case OLin:
		return e.args, e.coefs, e.k
	}
	return []*Expr{e}, []uint64{1}, 0
}

func (c *Ctx) mkLin(terms []*Expr, coefs []uint64, k uint64, w uint8) *Expr {
	m := maskW(w)
	k &= m
	var t2 []*Expr
	var c2 []uint64
	for i, t := range terms {
		co := coefs[i] & m
		if co == 0 {
			continue
		}
		t2 = append(t2, t)
		c2 = append(c2, co)
	}
	if len(t2) == 0 {
		return c.Const(k, w)
	}
	if len(t2) == 1 && c2[0] == 1 && k == 0 {
		return t2[0]
	}
	return c.mk(OLin, w, k, 0, "", nil, c2, t2...)
}

func (c *Ctx) addScaled(a, b *Expr, scale uint64) *Expr {
	t1, c1, k1 := c.linOf(a)
	t2, c2, k2 := c.linOf(b)
	terms := make([]*Expr, 0, len(t1)+len(t2))
	coefs := make([]uint64, 0, len(t1)+len(t2))
	i, j := 0, 0
	for i < len(t1) || j < len(t2) {
		switch {
		case j >= len(t2) || (i < len(t1) && t1[i].id < t2[j].id):
			terms = append(terms, t1[i])
			coefs = append(coefs, c1[i])
			i++
		case i >= len(t1) || t1[i].id > t2[j].id:
			terms = append(terms, t2[j])
			coefs = append(coefs, c2[j]*scale)
			j++
		default:
			terms = append(terms, t1[i])
			coefs = append(coefs, c1[i]+c2[j]*scale)
			i++
			j++
		}
	}
	return c.mkLin(terms, coefs, k1+k2*scale, a.w)
}

func (c *Ctx) Add(a, b *Expr) *Expr { return c.addScaled(a, b, 1) }
func (c *Ctx) Sub(a, b *Expr) *Expr { return c.addScaled(a, b, ^uint64(0)) }
func (c *Ctx) Neg(a *Expr) *Expr    { return c.Sub(c.Const(0, a.w), a) }
func (c *Ctx) scale(a *Expr, k uint64) *Expr {
	t, co, kk := c.linOf(a)
	c2 := make([]uint64, len(co))
	for i := range co {
		c2[i] = co[i] * k
	}
	return c.mkLin(t, c2, kk*k, a.w)
}
func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return c.scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, 0, "", nil, nil, a, b)
}

// urange gives a context-free unsigned interval, refined by single-variable domains of the current path.
func (c *Ctx) urange(e *Expr, depth int) (lo, hi uint64) {
	m := maskW(e.w)
	if e.op == OConst {
		return e.k, e.k
	}
	if depth > 12 {
		return 0, m
	}
	switch e.op {
	case OVar:
		if c.path != nil && e.w == 8 {
			return c.path.domRange(int(e.k))
		}
	case OZExt:
		return c.urange(e.args[0], depth+1)
	case OIte:
		l1, h1 := c.urange(e.args[1], depth+1)
		l2, h2 := c.urange(e.args[2], depth+1)
		return min(l1, l2), max(h1, h2)
	case OTab:
		lo, hi = ^uint64(0), 0
		for _, v := range e.tab.vals {
			lo, hi = min(lo, v), max(hi, v)
		}
		return
	case OBAnd:
		_, h1 := c.urange(e.args[0], depth+1)
		_, h2 := c.urange(e.args[1], depth+1)
		return 0, min(h1, h2)
	case OLShr:
		if e.args[1].isConst() && e.args[1].k < 64 {
			l, h := c.urange(e.args[0], depth+1)
			return l >> e.args[1].k, h >> e.args[1].k
		}
	case OURem:
		if e.args[1].isConst() && e.args[1].k > 0 {
			return 0, e.args[1].k - 1
		}
	case OUDiv:
		if e.args[1].isConst() && e.args[1].k > 0 {
			l, h := c.urange(e.args[0], depth+1)
			return l / e.args[1].k, h / e.args[1].k
		}
	case OBOr:
		_, h1 := c.urange(e.args[0], depth+1)
		_, h2 := c.urange(e.args[1], depth+1)
		n := bits.Len64(h1 | h2)
		if n >= 64 {
			return 0, m
		}
		return 0, (uint64(1) << n) - 1
	case OTrunc:
		l, h := c.urange(e.args[0], depth+1)
		if h <= m {
			return l, h
		}
	case OLin:
		if h, l, ok := c.linRange(e, depth); ok {
			return l, h
		}
	}
	return 0, m
}

// linRange computes the range of a linear term if it provably does not wrap (coefficients read as signed).
func (c *Ctx) linRange(e *Expr, depth int) (hi, lo uint64, ok bool) {
	loS, hiS, ok := c.exactRange(e, depth)
	if ok && loS >= 0 && uint64(hiS) <= maskW(e.w) {
		return uint64(hiS), uint64(loS), true
	}
	return c.wideRange(e, depth)
}

// wideRange: e = min + Σ |co|·x with x ≥ 0 the distance of each term from the end of its range at which e is
// smallest; min is read modulo 2^w, and if the largest value is below 2^w, nothing wraps.
func (c *Ctx) wideRange(e *Expr, depth int) (hi, lo uint64, ok bool) {
	if e.op != OLin {
		l, h := c.urange(e, depth)
		return h, l, true
	}
	m := maskW(e.w)
	lo = e.k
	var span uint64
	for i, t := range e.args {
		co := sextW(e.coefs[i], e.w)
		l, h := c.urange(t, depth+1)
		abs := uint64(co)
		if co < 0 {
			abs = -abs
			lo += uint64(co) * h
		} else {
			lo += uint64(co) * l
		}
		over, d := bits.Mul64(abs, h-l)
		var carry uint64
		span, carry = bits.Add64(span, d, 0)
		if over != 0 || carry != 0 || span > m {
			return 0, 0, false
		}
	}
	lo &= m
	if span > m-lo {
		return 0, 0, false
	}
	return lo + span, lo, true
}

// diffRange is the range of a-b over the integers, if neither of the two wraps (read as unsigned or as signed).
func (c *Ctx) diffRange(a, b *Expr, signed bool) (lo, hi int64, ok bool) {
	if a.op != OLin && b.op != OLin || a.w != b.w {
		return 0, 0, false
	}
	// the difference of two coefficients or constants must not wrap either
	lim := int64(1) << (min(a.w, 63) - 2)
	for _, e := range []*Expr{a, b} {
		switch e.op {
		case OLin:
			if e.w < 64 {
				for _, co := range append([]uint64{e.k}, e.coefs...) {
					if v := sextW(co, e.w); v >= lim || v <= -lim {
						return 0, 0, false
					}
				}
			}
			l, h, ok := c.exactRange(e, 0)
			if !ok {
				return 0, 0, false
			}
			if signed && (l < -int64(1)<<(e.w-1) || h > int64(maskW(e.w)>>1)) {
				return 0, 0, false
			}
			if !signed && (l < 0 || uint64(h) > maskW(e.w)) {
				return 0, 0, false
			}
		case OConst:
			v := int64(e.k)
			if signed {
				v = sextW(e.k, e.w)
			}
			if v >= lim || v <= -lim || !signed && v < 0 {
				return 0, 0, false
			}
		default:
			if _, h := c.urange(e, 0); h >= uint64(lim) {
				return 0, 0, false
			}
		}
	}
	d := c.Sub(a, b)
	if d.isConst() {
		v := sextW(d.k, d.w)
		return v, v, true
	}
	return c.exactRange(d, 0)
}

// exactRange is the range of a linear term over the integers, its coefficients read as signed.
func (c *Ctx) exactRange(e *Expr, depth int) (loS, hiS int64, ok bool) {
	if e.op != OLin {
		l, h := c.urange(e, depth)
		if h > 1<<61 {
			return 0, 0, false
		}
		return int64(l), int64(h), true
	}
	const lim = int64(1) << 61
	k := sextW(e.k, e.w)
	if k > lim || k < -lim {
		return 0, 0, false
	}
	loS, hiS = k, k
	for i, t := range e.args {
		co := sextW(e.coefs[i], e.w)
		l, h := c.urange(t, depth+1)
		if l > uint64(lim) || h > uint64(lim) {
			return 0, 0, false
		}
		if h > 0 && (co > lim/int64(h) || co < -lim/int64(h)) {
			return 0, 0, false
		}
		a, b := co*int64(l), co*int64(h)
		if a > b {
			a, b = b, a
		}
		loS += a
		hiS += b
		if loS < -lim || hiS > lim {
			return 0, 0, false
		}
	}
	return loS, hiS, true
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	switch a.op {
	case OZExt:
		return c.ZExt(a.args[0], w)
	case OLin:
		// distribute when no wrap can happen on this path
		if _, lo, ok := c.wideRange(a, 0); ok {
			return c.widen(a, lo, w)
		}
	case OTab:
		t := c.table(w, a.tab.vals)
		return c.mk(OTab, w, 0, 0, "", t, nil, a.args[0])
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
		}
	case OTrunc:
		// zext(trunc(x)) where x fits
		_, h := c.urange(a.args[0], 0)
		if h <= maskW(a.w) {
			x := a.args[0]
			if x.w == w {
				return x
			}
			if x.w < w {
				return c.ZExt(x, w)
			}
			return c.Trunc(x, w)
		}
	}
	return c.mk(OZExt, w, 0, 0, "", nil, nil, a)
}

// widen is the linear term a, whose least value is lo and which does not wrap, at the width w.
func (c *Ctx) widen(a *Expr, lo uint64, w uint8) *Expr {
	res := c.Const(lo&maskW(w), w)
	for i, t := range a.args {
		co := sextW(a.coefs[i], a.w)
		l, h := c.urange(t, 1)
		if co < 0 {
			l = h
		}
		res = c.Add(c.addScaled(res, c.ZExt(t, w), uint64(co)), c.Const(-(uint64(co)*l)&maskW(w), w))
	}
	return res
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sextW(a.k, a.w)), w)
	}
	if _, h := c.urange(a, 0); h < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OLin {
		// shifted by half, nothing may wrap
		half := uint64(1) << (a.w - 1)
		if s := c.Add(a, c.Const(half, a.w)); s.op == OLin {
			if _, lo, ok := c.wideRange(s, 0); ok {
				return c.widen(s, lo-half, w)
			}
		}
	}
	return c.mk(OSExt, w, 0, 0, "", nil, nil, a)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	switch a.op {
	case OZExt, OSExt:
		s := a.args[0]
		if s.w == w {
			return s
		}
		if s.w > w {
			return c.Trunc(s, w)
		}
		if a.op == OZExt {
			return c.ZExt(s, w)
		}
		return c.SExt(s, w)
	case OTrunc:
		return c.Trunc(a.args[0], w)
	case OLin:
		res := c.Const(a.k, w)
		for i, t := range a.args {
			res = c.addScaled(res, c.Trunc(t, w), a.coefs[i])
		}
		return res
	case OIte:
		return c.Ite(a.args[0], c.Trunc(a.args[1], w), c.Trunc(a.args[2], w))
	case OTab:
		vals := make([]uint64, len(a.tab.vals))
		for i, v := range a.tab.vals {
			vals[i] = v & maskW(w)
		}
		return c.mk(OTab, w, 0, 0, "", c.table(w, vals), nil, a.args[0])
	case OBAnd:
		return c.BAnd(c.Trunc(a.args[0], w), c.Trunc(a.args[1], w))
	case OBOr:
		return c.BOr(c.Trunc(a.args[0], w), c.Trunc(a.args[1], w))
	}
	return c.mk(OTrunc, w, 0, 0, "", nil, nil, a)
}

func (c *Ctx) table(w uint8, vals []uint64) *Table {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(w)))
	for _, v := range vals {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatUint(v, 36))
	}
	k := sb.String()
	if t, ok := c.tables[k]; ok {
		return t
	}
	t := &Table{id: len(c.tables) + 1, w: w, vals: append([]uint64(nil), vals...)}
	c.tables[k] = t
	return t
}

// TabLookup builds vals[idx]; idx must be provably < len(vals) on this path.
func (c *Ctx) TabLookup(vals []uint64, w uint8, idx *Expr) *Expr {
	if idx.isConst() {
		return c.Const(vals[idx.k], w)
	}
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] {
			same = false
		}
	}
	if same {
		return c.Const(vals[0], w)
	}
	if e := c.tabOfDigit(vals, w, idx); e != nil {
		return e
	}
	in := idx
	for in.op == OZExt {
		in = in.args[0]
	}
	if in.op == OTab {
		comp := make([]uint64, len(in.tab.vals))
		for i, x := range in.tab.vals {
			if x < uint64(len(vals)) {
				comp[i] = vals[x]
			} else {
				comp = nil
				break
			}
		}
		if comp != nil {
			return c.TabLookup(comp, w, in.args[0])
		}
	}
	return c.mk(OTab, w, 0, 0, "", c.table(w, vals), nil, idx)
}

// tabulate writes a word that depends on one byte with few possible values on this path as a table of that byte;
// the solver has a hard time with wide multiplications.
func (c *Ctx) tabulate(e *Expr) *Expr {
	if c.path == nil || e.op == OTab || e.op == OConst || len(e.vars) != 1 || e.w < 32 || e.hasUF() {
		return e
	}
	v := e.vars[0]
	if int(v) >= len(c.path.vars) || c.path.vars[v].w != 8 {
		return e
	}
	d := c.path.dom[v]
	n := 0
	for i := 0; i < 4; i++ {
		n += bits.OnesCount64(d[i])
	}
	if n == 0 || n > 16 {
		return e
	}
	model := make([]uint64, v+1)
	vals := make([]uint64, 256)
	var last uint64
	started := false
	for x := 0; x < 256; x++ {
		if d[x>>6]>>(x&63)&1 == 1 {
			model[v] = uint64(x)
			last = c.Eval(e, model)
			if !started {
				started = true
				for y := 0; y < x; y++ {
					vals[y] = last
				}
			}
		}
		vals[x] = last
	}
	return c.TabLookup(vals, e.w, c.ZExt(c.Var(int(v), 8), 64))
}

// wrapping is a linear term of one byte that may wrap, as a table; any other term as it is.
func (c *Ctx) wrapping(e *Expr) *Expr {
	if e.op == OLin && e.w == 64 && len(e.vars) == 1 {
		if _, _, ok := c.exactRange(e, 0); !ok {
			return c.tabulate(e)
		}
	}
	return e
}

// tabOfDigit simplifies a lookup by a linear term over one or two bytes whose result, for the values these bytes
// can have on this path, depends on one of them only (the decimal digits of a number built from digits).
func (c *Ctx) tabOfDigit(vals []uint64, w uint8, idx *Expr) *Expr {
	if c.path == nil || idx.op != OLin || len(idx.vars) == 0 || len(idx.vars) > 2 {
		return nil
	}
	dom := make([][]uint64, len(idx.vars))
	max := int32(0)
	for i, v := range idx.vars {
		if int(v) >= len(c.path.vars) || c.path.vars[v].w != 8 {
			return nil
		}
		d := c.path.dom[v]
		for x := uint64(0); x < 256; x++ {
			if d[x>>6]>>(x&63)&1 == 1 {
				dom[i] = append(dom[i], x)
			}
		}
		if len(dom[i]) == 0 || len(dom[i]) > 16 {
			return nil
		}
		if v > max {
			max = v
		}
	}
	if len(dom) == 1 {
		dom = append(dom, []uint64{0})
	}
	second := -1
	if len(idx.vars) == 2 {
		second = int(idx.vars[1])
	}
	model := make([]uint64, max+1)
	f := make([][]uint64, len(dom[0]))
	for i, x := range dom[0] {
		model[idx.vars[0]] = x
		for _, y := range dom[1] {
			if second >= 0 {
				model[second] = y
			}
			k := c.Eval(idx, model)
			if k >= uint64(len(vals)) {
				return nil
			}
			f[i] = append(f[i], vals[k])
		}
	}
	try := func(which int) *Expr {
		g := make([]uint64, 256)
		id := w == 8
		for i, x := range dom[0] {
			for j, y := range dom[1] {
				a, b := x, f[i][0]
				if which == 1 {
					a, b = y, f[0][j]
				}
				if f[i][j] != b {
					return nil
				}
				g[a] = b
				id = id && a == b
			}
		}
		v := c.Var(int(idx.vars[which]), 8)
		if id {
			return v
		}
		return c.mk(OTab, w, 0, 0, "", c.table(w, g), nil, c.ZExt(v, 64))
	}
	if e := try(0); e != nil {
		return e
	}
	if second >= 0 {
		return try(1)
	}
	return nil
}

func (c *Ctx) bitop(op Op, a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return c.Const(a.k&b.k, w)
		case OBOr:
			return c.Const(a.k|b.k, w)
		default:
			return c.Const(a.k^b.k, w)
		}
	}
	if a == b {
		if op == OBXor {
			return c.Const(0, w)
		}
		return a
	}
	if b.isConst() {
		switch {
		case b.k == 0:
			if op == OBAnd {
				return b
			}
			return a
		case b.k == maskW(w):
			if op == OBAnd {
				return a
			}
			if op == OBOr {
				return b
			}
		case op == OBAnd && b.k&(b.k+1) == 0: // low mask
			if _, h := c.urange(a, 0); h <= b.k {
				return a
			}
		}
		if op == OBAnd && a.op == OBAnd && a.args[1].isConst() {
			return c.BAnd(a.args[0], c.Const(a.args[1].k&b.k, w))
		}
		if op == OBOr {
			// or with disjoint constant bits is addition
			_, h := c.urange(a, 0)
			n := bits.Len64(h)
			if n < 64 && b.k&((uint64(1)<<n)-1) == 0 {
				return c.Add(a, b)
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, w, 0, 0, "", nil, nil, a, b)
}
func (c *Ctx) BAnd(a, b *Expr) *Expr { return c.bitop(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *Expr) *Expr  { return c.bitop(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Expr) *Expr { return c.bitop(OBXor, a, b) }

// Shifts: the amount has the same width as the value here; callers handle oversize amounts.
func (c *Ctx) Shift(op Op, a, b *Expr) *Expr {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(evalBin(op, a.w, a.k, b.k), a.w)
		}
		if op == OShl {
			if b.k >= uint64(a.w) {
				return c.Const(0, a.w)
			}
			return c.scale(a, uint64(1)<<b.k)
		}
		if op == OLShr {
			if b.k >= uint64(a.w) {
				return c.Const(0, a.w)
			}
			if _, h := c.urange(a, 0); h>>b.k == 0 {
				return c.Const(0, a.w)
			}
		}
		if op == OAShr {
			if _, h := c.urange(a, 0); h < uint64(1)<<(a.w-1) {
				return c.Shift(OLShr, a, b)
			}
		}
	}
	return c.mk(op, a.w, 0, 0, "", nil, nil, a, b)
}

func (c *Ctx) Div(op Op, a, b *Expr) *Expr {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(evalBin(op, a.w, a.k, b.k), a.w)
		}
		// signed on non-negative operands is unsigned
		if op == OSDiv || op == OSRem {
			_, h := c.urange(a, 0)
			if h < uint64(1)<<(a.w-1) && b.k < uint64(1)<<(a.w-1) {
				if op == OSDiv {
					return c.Div(OUDiv, a, b)
				}
				return c.Div(OURem, a, b)
			}
		}
		if b.k == 1 {
			if op == OURem || op == OSRem {
				return c.Const(0, a.w)
			}
			return a
		}
		if op == OUDiv && b.k&(b.k-1) == 0 {
			return c.Shift(OLShr, a, c.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
		}
		if op == OURem && b.k&(b.k-1) == 0 {
			return c.BAnd(a, c.Const(b.k-1, a.w))
		}
		if op == OUDiv || op == OURem {
			if q, r, ok := c.linDivMod(a, b.k); ok {
				if op == OUDiv {
					return q
				}
				return r
			}
		}
	}
	return c.mk(op, a.w, 0, 0, "", nil, nil, a, b)
}

// linDivMod divides a non-wrapping linear term by a constant when the terms split into a multiple of d plus a
// remainder that provably lies in [0,d).
func (c *Ctx) linDivMod(a *Expr, d uint64) (q, r *Expr, ok bool) {
	if a.op != OLin {
		if _, h := c.urange(a, 0); h < d {
			return c.Const(0, a.w), a, true
		}
		return nil, nil, false
	}
	// a = min + Σ |co|·x, see wideRange
	_, least, nowrap := c.wideRange(a, 0)
	if !nowrap {
		return nil, nil, false
	}
	w := a.w
	e := least % d
	q, r = c.Const((least-e)/d, w), c.Const(e, w)
	top := e
	for i, t := range a.args {
		co := sextW(a.coefs[i], w)
		l, h := c.urange(t, 0+1)
		abs, sign, end := uint64(co), uint64(1), l
		if co < 0 {
			abs, sign, end = -abs, ^uint64(0), h
		}
		qa, ra := abs/d, abs%d
		over, x := bits.Mul64(ra, h-l)
		var carry uint64
		top, carry = bits.Add64(top, x, 0)
		if over != 0 || carry != 0 || top >= d {
			return nil, nil, false
		}
		q = c.Add(c.addScaled(q, t, sign*qa), c.Const(-(sign*qa*end), w))
		r = c.Add(c.addScaled(r, t, sign*ra), c.Const(-(sign*ra*end), w))
	}
	return q, r, true
}

func (c *Ctx) MulHi(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		h, _ := bits.Mul64(a.k, b.k)
		return c.Const(h, 64)
	}
	_, h1 := c.urange(a, 0)
	_, h2 := c.urange(b, 0)
	if hh, _ := bits.Mul64(h1, h2); hh == 0 {
		return c.Const(0, 64)
	}
	return c.tabulate(c.mk(OMulHi, 64, 0, 0, "", nil, nil, a, b))
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.Bool(true)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 1 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
	} else {
		if b.isConst() {
			switch a.op {
			case OLin:
				if len(a.args) == 1 && a.coefs[0] == 1 {
					return c.Eq(a.args[0], c.Const(b.k-a.k, a.w))
				}
				if len(a.args) == 1 && a.coefs[0] == maskW(a.w) {
					return c.Eq(a.args[0], c.Const(a.k-b.k, a.w))
				}
			case OZExt:
				if b.k > maskW(a.args[0].w) {
					return c.Bool(false)
				}
				return c.Eq(a.args[0], c.Const(b.k, a.args[0].w))
			case OIte:
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() {
					return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
				}
			}
			if lo, hi := c.urange(a, 0); b.k < lo || b.k > hi {
				return c.Bool(false)
			}
		} else {
			if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
				return c.Eq(a.args[0], b.args[0])
			}
			if a.op == OLin || b.op == OLin {
				d := c.Sub(a, b)
				if d.isConst() {
					return c.Bool(d.k == 0)
				}
				if x, y := c.wrapping(a), c.wrapping(b); x != a || y != b {
					return c.Eq(x, y)
				}
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 1, 0, 0, "", nil, nil, a, b)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a.op == OLin || b.op == OLin {
		a, b = c.wrapping(a), c.wrapping(b)
	}
	if a == b {
		return c.Bool(false)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	l1, h1 := c.urange(a, 0)
	l2, h2 := c.urange(b, 0)
	if h1 < l2 {
		return c.Bool(true)
	}
	if l1 >= h2 {
		return c.Bool(false)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OZExt && b.isConst() && b.k <= maskW(a.args[0].w) {
		return c.Ult(a.args[0], c.Const(b.k, a.args[0].w))
	}
	if b.op == OZExt && a.isConst() && a.k <= maskW(b.args[0].w) {
		return c.Ult(c.Const(a.k, b.args[0].w), b.args[0])
	}
	if l, h, ok := c.diffRange(a, b, false); ok {
		if h < 0 {
			return c.Bool(true)
		}
		if l >= 0 {
			return c.Bool(false)
		}
	}
	return c.mk(OUlt, 1, 0, 0, "", nil, nil, a, b)
}
func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a.op == OLin || b.op == OLin {
		a, b = c.wrapping(a), c.wrapping(b)
	}
	if a == b {
		return c.Bool(true)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k <= b.k)
	}
	l1, h1 := c.urange(a, 0)
	l2, h2 := c.urange(b, 0)
	if h1 <= l2 {
		return c.Bool(true)
	}
	if l1 > h2 {
		return c.Bool(false)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return c.Ule(a.args[0], b.args[0])
	}
	if a.op == OZExt && b.isConst() && b.k <= maskW(a.args[0].w) {
		return c.Ule(a.args[0], c.Const(b.k, a.args[0].w))
	}
	if b.op == OZExt && a.isConst() && a.k <= maskW(b.args[0].w) {
		return c.Ule(c.Const(a.k, b.args[0].w), b.args[0])
	}
	if l, h, ok := c.diffRange(a, b, false); ok {
		if h <= 0 {
			return c.Bool(true)
		}
		if l > 0 {
			return c.Bool(false)
		}
	}
	return c.mk(OUle, 1, 0, 0, "", nil, nil, a, b)
}

func (c *Ctx) nonNeg(a *Expr) bool {
	_, h := c.urange(a, 0)
	return h < uint64(1)<<(a.w-1)
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.Bool(false)
	}
	if b.isConst() && b.k == 0 && a.op == OLin {
		if l, h := c.urange(a, 0); l > maskW(a.w)>>1 {
			return c.Bool(true)
		} else if h <= maskW(a.w)>>1 {
			return c.Bool(false)
		}
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sextW(a.k, a.w) < sextW(b.k, b.w))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ult(a, b)
	}
	if b.isConst() && b.k == 0 && c.nonNeg(a) {
		return c.Bool(false)
	}
	if a.op == OSExt && b.isConst() {
		s := a.args[0]
		if bv := sextW(b.k, b.w); bv == sextW(uint64(bv)&maskW(s.w), s.w) {
			return c.Slt(s, c.Const(uint64(bv), s.w))
		}
	}
	if l, h, ok := c.diffRange(a, b, true); ok {
		if h < 0 {
			return c.Bool(true)
		}
		if l >= 0 {
			return c.Bool(false)
		}
	}
	return c.mk(OSlt, 1, 0, 0, "", nil, nil, a, b)
}
func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.Bool(true)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sextW(a.k, a.w) <= sextW(b.k, b.w))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ule(a, b)
	}
	if a.isConst() && a.k == 0 && c.nonNeg(b) {
		return c.Bool(true)
	}
	if l, h, ok := c.diffRange(a, b, true); ok {
		if h <= 0 {
			return c.Bool(true)
		}
		if l > 0 {
			return c.Bool(false)
		}
	}
	return c.mk(OSle, 1, 0, 0, "", nil, nil, a, b)
}

// FP helpers: values are IEEE bit patterns in BV form.
func (c *Ctx) F(op Op, w, fw uint8, args ...*Expr) *Expr {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	switch {
	case op == OFLt && args[0] == args[1]:
		return c.Bool(false)
	case (op == OFEq || op == OFLe) && args[0] == args[1] && notNaN(args[0]):
		return c.Bool(true)
	case op == OFIsNaN && notNaN(args[0]):
		return c.Bool(false)
	case op == OSToF && c.nonNeg(args[0]):
		op = OUToF
	case op == OFCvt && w == 32 && args[0].op == OFCvt && args[0].fw == 32:
		// there and back (the payload of a NaN aside)
		return args[0].args[0]
	}
	e := c.mk(op, w, 0, fw, "", nil, nil, args...)
	if all {
		return c.Const(evalNode(e, func(x *Expr) uint64 { return x.k }), w)
	}
	return e
}

// notNaN: converted integers and parsed numbers are never NaN.
func notNaN(e *Expr) bool {
	return e.op == OSToF || e.op == OUToF || (e.op == OUF && strings.HasPrefix(e.name, "atof")) ||
		(e.op == OFCvt || e.op == OFNeg) && notNaN(e.args[0])
}

func (e *Expr) hasUF() bool {
	if e.op == OUF {
		return true
	}
	for _, a := range e.args {
		if a.hasUF() {
			return true
		}
	}
	return false
}

func (c *Ctx) UF(name string, w uint8, args ...*Expr) *Expr {
	return c.mk(OUF, w, 0, 0, name, nil, nil, args...)
}

// ---- evaluation

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := maskW(w)
	switch op {
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sextW(a, w), sextW(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sextW(a, w), sextW(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sextW(a, w)>>b) & m
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fval(v uint64, fw uint8) float64 {
	if fw == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, fw uint8) uint64 {
	if fw == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalNode(e *Expr, g func(*Expr) uint64) uint64 {
	m := maskW(e.w)
	switch e.op {
	case OConst:
		return e.k
	case ONot:
		return 1 - g(e.args[0])
	case OAnd:
		for _, a := range e.args {
			if g(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range e.args {
			if g(a) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(g(e.args[0]) == g(e.args[1]))
	case OIte:
		if g(e.args[0]) == 1 {
			return g(e.args[1])
		}
		return g(e.args[2])
	case OLin:
		s := e.k
		for i, a := range e.args {
			s += e.coefs[i] * g(a)
		}
		return s & m
	case OMul:
		return (g(e.args[0]) * g(e.args[1])) & m
	case OMulHi:
		h, _ := bits.Mul64(g(e.args[0]), g(e.args[1]))
		return h
	case OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr:
		return evalBin(e.op, e.w, g(e.args[0]), g(e.args[1]))
	case OBAnd:
		return g(e.args[0]) & g(e.args[1])
	case OBOr:
		return g(e.args[0]) | g(e.args[1])
	case OBXor:
		return g(e.args[0]) ^ g(e.args[1])
	case OZExt:
		return g(e.args[0])
	case OSExt:
		return uint64(sextW(g(e.args[0]), e.args[0].w)) & m
	case OTrunc:
		return g(e.args[0]) & m
	case OUlt:
		return b2u(g(e.args[0]) < g(e.args[1]))
	case OUle:
		return b2u(g(e.args[0]) <= g(e.args[1]))
	case OSlt:
		return b2u(sextW(g(e.args[0]), e.args[0].w) < sextW(g(e.args[1]), e.args[0].w))
	case OSle:
		return b2u(sextW(g(e.args[0]), e.args[0].w) <= sextW(g(e.args[1]), e.args[0].w))
	case OTab:
		i := g(e.args[0])
		if i >= uint64(len(e.tab.vals)) {
			return e.tab.vals[len(e.tab.vals)-1] // as the SMT encoding does; never on a feasible path
		}
		return e.tab.vals[i]
	case OFAdd:
		return fbits(fval(g(e.args[0]), e.fw)+fval(g(e.args[1]), e.fw), e.fw)
	case OFSub:
		return fbits(fval(g(e.args[0]), e.fw)-fval(g(e.args[1]), e.fw), e.fw)
	case OFMul:
		return fbits(fval(g(e.args[0]), e.fw)*fval(g(e.args[1]), e.fw), e.fw)
	case OFDiv:
		return fbits(fval(g(e.args[0]), e.fw)/fval(g(e.args[1]), e.fw), e.fw)
	case OFNeg:
		return g(e.args[0]) ^ (uint64(1) << (e.fw - 1))
	case OFLt:
		return b2u(fval(g(e.args[0]), e.fw) < fval(g(e.args[1]), e.fw))
	case OFLe:
		return b2u(fval(g(e.args[0]), e.fw) <= fval(g(e.args[1]), e.fw))
	case OFEq:
		return b2u(fval(g(e.args[0]), e.fw) == fval(g(e.args[1]), e.fw))
	case OFIsNaN:
		return b2u(math.IsNaN(fval(g(e.args[0]), e.fw)))
	case OFToS:
		return uint64(int64(fval(g(e.args[0]), e.fw))) & m
	case OFToU:
		return uint64(fval(g(e.args[0]), e.fw)) & m
	case OSToF:
		return fbits(float64(sextW(g(e.args[0]), e.args[0].w)), e.fw)
	case OUToF:
		return fbits(float64(g(e.args[0])), e.fw)
	case OFCvt:
		return fbits(fval(g(e.args[0]), e.fw), e.w)
	case OUF:
		return evalUF(e, g)
	}
	panic(fmt.Sprintf("evalNode op %d", e.op))
}

// Eval evaluates e under a model (values indexed by variable ordinal).
func (c *Ctx) Eval(e *Expr, model []uint64) uint64 {
	c.stamp++
	return c.eval(e, model)
}

func (c *Ctx) eval(e *Expr, model []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		if int(e.k) < len(model) {
			return model[e.k] & maskW(e.w)
		}
		return 0
	}
	if e.stamp == c.stamp {
		return e.cval
	}
	st := c.stamp
	v := evalNode(e, func(x *Expr) uint64 { return c.eval(x, model) })
	if st == c.stamp {
		e.stamp = c.stamp
		e.cval = v
	}
	return v
}

// byteSet returns the truth table of a boolean expression over a single byte variable.
func (c *Ctx) byteSet(e *Expr) *[4]uint64 {
	if e.bset != nil {
		return e.bset
	}
	var bs [4]uint64
	ord := int(e.vars[0])
	model := make([]uint64, ord+1)
	for v := 0; v < 256; v++ {
		model[ord] = uint64(v)
		if c.Eval(e, model) == 1 {
			bs[v>>6] |= 1 << (v & 63)
		}
	}
	e.bset = &bs
	return e.bset
}

// shape is a structural hash of an expression over one variable, independent of which variable it is, of the
// worker and of the order of creation.
func (e *Expr) shape() [2]uint64 {
	if e.shp != [2]uint64{} {
		return e.shp
	}
	const m1, m2 = 0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F
	h := [2]uint64{0x243F6A8885A308D3, 0x13198A2E03707344}
	add := func(x uint64) {
		h[0] = (h[0] ^ x) * m1
		h[0] ^= h[0] >> 29
		h[1] = (h[1] + x) * m2
		h[1] ^= h[1] >> 31
	}
	add(uint64(e.op))
	add(uint64(e.w))
	add(uint64(e.fw))
	if e.op != OVar {
		add(e.k)
	}
	for _, c := range []byte(e.name) {
		add(uint64(c))
	}
	if e.tab != nil {
		add(uint64(len(e.tab.vals)))
		for _, x := range e.tab.vals {
			add(x)
		}
	}
	for _, x := range e.coefs {
		add(x)
	}
	add(uint64(len(e.args)))
	for _, a := range e.args {
		s := a.shape()
		add(s[0])
		add(s[1])
	}
	if h == [2]uint64{} {
		h[0] = 1
	}
	e.shp = h
	return h
}
