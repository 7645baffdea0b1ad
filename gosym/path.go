package main

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type unsupportedErr struct{ msg string }
type pathAbort struct{ reason string }

func unsupported(msg string) any { return &unsupportedErr{msg} }

type decision struct {
	choice uint16
	site   uint32
	val    uint64
}

type varInfo struct {
	w    uint8
	name string
}

// inputRec is one answer the harness received from the sym package, in call order.
type inputRec struct {
	Kind string   `json:"k"`
	Name string   `json:"n"`
	e    []*Expr  // symbolic parts
	Vals []uint64 `json:"v"`
	neg  bool
}

type workItem struct {
	harness int
	prefix  []decision
	model   []uint64
	noModel bool
	depth   int
}

type Path struct {
	w          *Worker
	prefix     []decision
	pos        int
	trail      []decision
	vars       []varInfo
	dom        [][4]uint64
	multi      []bool
	cons       []*Expr
	model      []uint64
	noModel    bool
	inputs     []*inputRec
	logs       []logEnt
	tainted    string // reason the path is only approximately feasible
	asserts    int
	reached    map[string]bool
	hrn        *Harness
	frozen     map[*Value]bool
	frozenM    map[*Map]bool
	guarded    map[*Value]bool // shared and written under a lock
	guardedM   map[*Map]bool
	inParallel bool
	mapOrd     int
	unordered  bool
	decVal     uint64
	addrs      map[any]int
	texts      map[string]Value // opaque texts of symbolic floats
	opaque     map[int32]bool   // the variables of these texts
}

type logEnt struct {
	label string
	parts []Value
	kinds []types2
}

type types2 struct {
	k tkind
	w uint8
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (p *Path) newVar(w uint8, name string) *Expr {
	ord := len(p.vars)
	p.vars = append(p.vars, varInfo{w, name})
	p.dom = append(p.dom, fullDom)
	p.multi = append(p.multi, false)
	if ord >= len(p.model) {
		p.model = append(p.model, 0)
	}
	return p.w.ctx.Var(ord, w)
}

func (p *Path) domRange(ord int) (uint64, uint64) {
	if ord >= len(p.dom) {
		return 0, 255
	}
	d := p.dom[ord]
	var lo, hi uint64
	lo = 255
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			lo = uint64(i*64 + bits.TrailingZeros64(d[i]))
			break
		}
	}
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			hi = uint64(i*64 + 63 - bits.LeadingZeros64(d[i]))
			break
		}
	}
	return lo, hi
}

func (p *Path) isByteUnary(c *Expr) bool {
	return len(c.vars) == 1 && int(c.vars[0]) < len(p.vars) && p.vars[c.vars[0]].w == 8
}

// tableOf is the truth table of a condition on one byte.  The first time a condition (up to the name of its
// variable) is met, the solver has to prove the condition equivalent to the table: ¬(c ⇔ v ∈ table) is unsat.
func (p *Path) tableOf(c *Expr) *[4]uint64 {
	if c.bset != nil {
		return c.bset
	}
	bs := p.w.ctx.byteSet(c)
	if p.w.solver == nil {
		return bs // only in the tests of the simplifier
	}
	h := c.shape()
	r := p.w.run_
	r.lemMu.Lock()
	_, known := r.lemmas[h]
	if !known {
		r.lemmas[h] = true
	}
	r.lemMu.Unlock()
	if known {
		return bs
	}
	if c.hasUF() {
		// the table holds the values of the real function, which the solver does not know
		p.w.stats.lemmasUF++
		return bs
	}
	cx := p.w.ctx
	set := p.rawSet(int(c.vars[0]), *bs)
	xor := cx.mk(OEq, 1, 0, 0, "", nil, nil, c, cx.mk(ONot, 1, 0, 0, "", nil, nil, set))
	res, _ := p.w.solver.Check([]*Expr{xor}, nil)
	st := &p.w.stats
	switch res {
	case Unsat:
		st.lemmas++
	case Sat:
		st.crossBad++
		debugf("table disagreement in %s: %s", p.hrn.name, describeExpr(c))
	default:
		st.lemmasOpen++
	}
	return bs
}

func inter(a, b [4]uint64) (r [4]uint64, empty bool) {
	empty = true
	for i := range a {
		r[i] = a[i] & b[i]
		if r[i] != 0 {
			empty = false
		}
	}
	return
}

func firstOf(d [4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(d[i]))
		}
	}
	return 0
}

// preferred picks a readable element of a domain.
func preferred(d [4]uint64) uint64 {
	for _, c := range []byte(`a1"0bB,:{}[]\ntu `) {
		if d[c>>6]&(1<<(c&63)) != 0 {
			return uint64(c)
		}
	}
	// printable
	for c := uint64(0x21); c < 0x7f; c++ {
		if d[c>>6]&(1<<(c&63)) != 0 {
			return c
		}
	}
	return firstOf(d)
}

// rawDomain encodes membership of the variable in the set as a constraint, bypassing simplification.
func (p *Path) rawDomain(ord int) *Expr { return p.rawSet(ord, p.dom[ord]) }

func (p *Path) rawSet(ord int, d [4]uint64) *Expr {
	c := p.w.ctx
	v := c.Var(ord, 8)
	var parts []*Expr
	i := 0
	in := func(x int) bool { return d[x>>6]&(1<<(x&63)) != 0 }
	for i < 256 {
		if !in(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && in(j+1) {
			j++
		}
		lo, hi := c.Const(uint64(i), 8), c.Const(uint64(j), 8)
		if i == j {
			parts = append(parts, c.mk(OEq, 1, 0, 0, "", nil, nil, v, lo))
		} else {
			a := c.mk(OUle, 1, 0, 0, "", nil, nil, lo, v)
			b := c.mk(OUle, 1, 0, 0, "", nil, nil, v, hi)
			parts = append(parts, c.mk(OAnd, 1, 0, 0, "", nil, nil, a, b))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return c.Bool(false)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.mk(OOr, 1, 0, 0, "", nil, nil, parts...)
}

// slice returns the constraints connected to cond's variables, and the variables involved.
func (p *Path) slice(conds ...*Expr) (cons []*Expr, vars []int32) {
	in := map[int32]bool{}
	var work []int32
	addV := func(vs []int32) {
		for _, v := range vs {
			if !in[v] {
				in[v] = true
				work = append(work, v)
			}
		}
	}
	for _, c := range conds {
		addV(c.vars)
	}
	used := make([]bool, len(p.cons))
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if !p.multi[v] {
			continue
		}
		for i, c := range p.cons {
			if used[i] {
				continue
			}
			for _, x := range c.vars {
				if x == v {
					used[i] = true
					addV(c.vars)
					break
				}
			}
		}
	}
	for i, c := range p.cons {
		if used[i] {
			cons = append(cons, c)
		}
	}
	for v := range in {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	for _, v := range vars {
		if p.vars[v].w == 8 && p.dom[v] != fullDom {
			cons = append(cons, p.rawDomain(int(v)))
		}
	}
	return
}

// solve decides PC-slice ∧ conds with the SMT solver, with a per-worker cache.
func (p *Path) solve(conds ...*Expr) (Result, []uint64) {
	cons, vars := p.slice(conds...)
	cons = append(cons, conds...)
	ids := make([]int, len(cons))
	for i, c := range cons {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, id := range ids {
		sb.WriteString(strconv.FormatUint(uint64(id), 36))
		sb.WriteByte(',')
	}
	key := sb.String()
	if r, ok := p.w.qcache[key]; ok {
		if r.res != Sat {
			return r.res, nil
		}
		m := append([]uint64(nil), p.model...)
		for i, v := range vars {
			m[v] = r.vals[i]
		}
		return Sat, m
	}
	ves := make([]*Expr, len(vars))
	for i, v := range vars {
		ves[i] = p.w.ctx.Var(int(v), p.vars[v].w)
	}
	res, vals := p.w.solver.Check(cons, ves)
	p.w.qcache[key] = qres{res, vals}
	if res != Sat {
		return res, nil
	}
	m := append([]uint64(nil), p.model...)
	for i, v := range vars {
		m[v] = vals[i]
	}
	// UF interpretations chosen by the solver may differ from the real functions
	for _, c := range cons {
		if p.w.ctx.Eval(c, m) != 1 {
			return Unknown, nil
		}
	}
	return Sat, m
}

// feasible decides PC ∧ c and returns a model extension when satisfiable.
func (p *Path) feasible(c *Expr) (Result, []uint64) {
	st := &p.w.stats
	if c.isConst() {
		if c.k == 1 {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if p.isByteUnary(c) {
		v := c.vars[0]
		d, empty := inter(p.dom[v], *p.tableOf(c))
		if empty {
			st.tableDecided++
			if p.w.crossEvery > 0 && int(st.tableDecided)%p.w.crossEvery == 0 {
				st.crossChecked++
				if r, _ := p.solve(c); r == Sat {
					st.crossBad++
					debugf("cross-check disagreement in %s: %s", p.hrn.name, describeExpr(c))
				}
			}
			return Unsat, nil
		}
		if !p.multi[v] {
			st.tableDecided++
			m := append([]uint64(nil), p.model...)
			m[v] = preferred(d)
			return Sat, m
		}
		// try a few members against the constraints mentioning v
		if m, ok := p.tryMembers(v, d); ok {
			st.modelDecided++
			return Sat, m
		}
	}
	return p.solve(c)
}

func (p *Path) tryMembers(v int32, d [4]uint64) ([]uint64, bool) {
	m := append([]uint64(nil), p.model...)
	tries := 0
	try := func(x uint64) bool {
		m[v] = x
		for _, c := range p.cons {
			has := false
			for _, y := range c.vars {
				if y == v {
					has = true
					break
				}
			}
			if has && p.w.ctx.Eval(c, m) != 1 {
				return false
			}
		}
		return true
	}
	if try(preferred(d)) {
		return m, true
	}
	for i := 0; i < 4 && tries < 6; i++ {
		x := d[i]
		for x != 0 && tries < 6 {
			b := bits.TrailingZeros64(x)
			x &= x - 1
			tries++
			if try(uint64(i*64 + b)) {
				return m, true
			}
		}
	}
	return nil, false
}

// add records c in the path condition (already known to be feasible) without checking.
func (p *Path) add(c *Expr) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p.add(a)
		}
		return
	}
	if p.isByteUnary(c) {
		v := c.vars[0]
		p.dom[v], _ = inter(p.dom[v], *p.tableOf(c))
		return
	}
	for _, o := range p.cons {
		if o == c {
			return
		}
	}
	p.cons = append(p.cons, c)
	for _, v := range c.vars {
		p.multi[v] = true
	}
}

func (p *Path) needModel() {
	if !p.noModel || p.pos < len(p.prefix) {
		return
	}
	// the item was enqueued without a model (solver gave up): try once more on the full path condition
	p.noModel = false
	var all []*Expr
	for v := range p.vars {
		if p.vars[v].w == 8 && !p.multi[v] {
			if p.dom[v] == [4]uint64{} {
				panic(&pathAbort{"infeasible"})
			}
			p.model[v] = preferred(p.dom[v])
		}
	}
	all = append(all, p.cons...)
	if len(all) == 0 {
		return
	}
	res, m := p.solve(all...)
	switch res {
	case Sat:
		p.model = m
	case Unsat:
		panic(&pathAbort{"infeasible"})
	default:
		p.tainted = "solver gave up on path condition"
		panic(&pathAbort{"unknown path condition"})
	}
}

// decide picks one of mutually exclusive, exhaustive conditions; other feasible ones are queued.
func (p *Path) decide(conds []*Expr, site uint32) int {
	if p.w.spec {
		panic(specAbort)
	}
	live := -1
	nLive := 0
	for i, c := range conds {
		if c.isTrue() {
			return i
		}
		if !c.isFalse() {
			live = i
			nLive++
		}
	}
	if nLive == 0 {
		panic(&pathAbort{"no feasible branch"})
	}
	if nLive == 1 {
		p.add(conds[live])
		return live
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.site != site {
			panic(fmt.Sprintf("replay divergence: site %d vs %d at decision %d", d.site, site, p.pos))
		}
		p.pos++
		p.trail = append(p.trail, d)
		p.add(conds[d.choice])
		return int(d.choice)
	}
	p.needModel()
	st := &p.w.stats
	m := -1
	for i, c := range conds {
		if !c.isFalse() && p.w.ctx.Eval(c, p.model) == 1 {
			m = i
			break
		}
	}
	type alt struct {
		i     int
		model []uint64
		unk   bool
	}
	var alts []alt
	for i, c := range conds {
		if i == m || c.isFalse() {
			continue
		}
		st.trivial++
		r, mod := p.feasible(c)
		switch r {
		case Sat:
			alts = append(alts, alt{i, mod, false})
		case Unknown:
			alts = append(alts, alt{i, nil, true})
		}
	}
	if m < 0 {
		// model does not satisfy any: can only happen after an unknown; take the first feasible
		if len(alts) == 0 {
			panic(&pathAbort{"no feasible branch"})
		}
		m = alts[0].i
		if alts[0].unk {
			p.noModel = true
		} else {
			p.model = alts[0].model
		}
		alts = alts[1:]
	}
	if forkProf && len(alts) > 0 {
		nm := ""
		for f, k := p.w.cur, 0; f != nil && k < 3; f, k = f.parent, k+1 {
			nm += f.fn.name + "<"
		}
		forkMu.Lock()
		forkCount[nm] += len(alts)
		if forkCount[nm] < 4 {
			for _, c := range conds {
				fmt.Fprintln(os.Stderr, "forkcond", nm, p.show(c, 6))
			}
		}
		forkMu.Unlock()
	}
	for _, a := range alts {
		pre := make([]decision, len(p.trail)+1)
		copy(pre, p.trail)
		pre[len(p.trail)] = decision{uint16(a.i), site, p.decVal}
		p.w.push(&workItem{harness: p.hrn.idx, prefix: pre, model: a.model, noModel: a.unk, depth: len(pre)})
	}
	p.trail = append(p.trail, decision{uint16(m), site, p.decVal})
	p.add(conds[m])
	return m
}

// choose is a k-way free choice.
func (p *Path) choose(n int, site uint32) int {
	if p.w.spec {
		panic(specAbort)
	}
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.site != site {
			panic(fmt.Sprintf("replay divergence: choice site %d vs %d", d.site, site))
		}
		p.pos++
		p.trail = append(p.trail, d)
		return int(d.choice)
	}
	p.needModel()
	for i := n - 1; i >= 1; i-- {
		pre := make([]decision, len(p.trail)+1)
		copy(pre, p.trail)
		pre[len(p.trail)] = decision{uint16(i), site, 0}
		p.w.push(&workItem{harness: p.hrn.idx, prefix: pre, model: append([]uint64(nil), p.model...), depth: len(pre)})
	}
	p.trail = append(p.trail, decision{0, site, 0})
	return 0
}

// branch decides a boolean.
func (p *Path) branch(c *Expr, site uint32) bool {
	if c.isConst() {
		return c.k == 1
	}
	return p.decide([]*Expr{c, p.w.ctx.Not(c)}, site) == 0
}

// assume restricts the path to c.
func (p *Path) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(&pathAbort{"assume"})
	}
	if p.pos < len(p.prefix) || p.noModel {
		p.add(c)
		return
	}
	if p.w.ctx.Eval(c, p.model) != 1 {
		r, m := p.feasible(c)
		switch r {
		case Unsat:
			panic(&pathAbort{"assume"})
		case Sat:
			p.model = m
		default:
			p.add(c)
			p.noModel = true
			p.needModel()
			return
		}
	}
	p.add(c)
}

// concretize forks over the values of e, which must be few.
func (w *Worker) concretize(e *Expr, site uint32, what string) uint64 {
	if e.isConst() {
		return e.k
	}
	if w.spec {
		panic(specAbort)
	}
	p := w.path
	c := w.ctx
	if p.isByteUnary(e) {
		v := int(e.vars[0])
		vals := map[uint64]bool{}
		var order []uint64
		model := make([]uint64, v+1)
		for x := 0; x < 256; x++ {
			if p.dom[v][x>>6]&(1<<(x&63)) == 0 {
				continue
			}
			model[v] = uint64(x)
			y := c.Eval(e, model)
			if !vals[y] {
				vals[y] = true
				order = append(order, y)
			}
		}
		conds := make([]*Expr, len(order))
		for i, y := range order {
			conds[i] = c.Eq(e, c.Const(y, e.w))
		}
		if len(order) == 0 {
			panic(&pathAbort{"infeasible"})
		}
		return order[p.decide(conds, site)]
	}
	// general: peel off one value at a time: (e == value in the current model) or not; the value travels with the
	// decision so that replays of the prefix see the same one
	for n := 0; n < 300; n++ {
		var y uint64
		if p.pos < len(p.prefix) {
			y = p.prefix[p.pos].val
		} else {
			p.needModel()
			y = c.Eval(e, p.model)
		}
		eq := c.Eq(e, c.Const(y, e.w))
		ne := c.Not(eq)
		if eq.isTrue() {
			return y
		}
		p.decVal = y
		r := p.decide([]*Expr{eq, ne}, site)
		p.decVal = 0
		if r == 0 {
			return y
		}
	}
	panic(unsupported("too many values for " + what))
}

func describeExpr(e *Expr) string {
	if e.size() > 100 {
		return "(large)"
	}
	switch e.op {
	case OConst:
		return fmt.Sprintf("%#x:%d", e.k, e.w)
	case OVar:
		return fmt.Sprintf("v%d", e.k)
	}
	s := fmt.Sprintf("(%d:%d k=%d fw=%d %s", e.op, e.w, e.k, e.fw, e.name)
	if e.tab != nil {
		s += fmt.Sprintf(" tab%d", len(e.tab.vals))
	}
	for i, a := range e.args {
		if e.coefs != nil {
			s += fmt.Sprintf(" %d*", e.coefs[i])
		}
		s += " " + describeExpr(a)
	}
	return s + ")"
}

// GOSYM_FORKS=1 counts where paths fork.
var (
	forkProf  = os.Getenv("GOSYM_FORKS") != ""
	forkMu    sync.Mutex
	forkCount = map[string]int{}
)

func printForks() {
	if !forkProf {
		return
	}
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkCount {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 25; i++ {
		fmt.Fprintf(os.Stderr, "forks %6d %s\n", l[i].n, l[i].k)
	}
}

func (p *Path) show(e *Expr, depth int) string {
	if e.op == OConst {
		return fmt.Sprint(e.k)
	}
	if e.op == OVar {
		return fmt.Sprintf("v%d", e.k)
	}
	if depth == 0 {
		return "…"
	}
	s := fmt.Sprintf("(%d/%d k=%d", e.op, e.w, e.k)
	for i, a := range e.args {
		s += " "
		if len(e.coefs) > i {
			s += fmt.Sprint(int64(e.coefs[i])) + "*"
		}
		s += p.show(a, depth-1)
	}
	return s + ")"
}
