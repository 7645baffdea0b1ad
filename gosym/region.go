package main

import "sort"

// Region merging: a branch on a symbolic condition does not fork at once.  The blocks after it that have no
// effects are evaluated speculatively with the condition under which each is reached; scalar values meeting at a
// join become if-then-else terms.  The path only forks between the distinct exits of that region.

type edge struct {
	pred int
	cond *Expr
	// values of the target block's phis when they were computed from merged edges
}

type regionExit struct {
	ret   bool
	val   Value
	pred  int
	block int
	phis  []Value
	cond  *Expr
}

type mergeResult struct {
	ret      bool
	val      Value
	pred     int
	block    int
	phisDone bool
}

const maxRegion = 48

// speculate runs f with forking and effects forbidden; false if it had to be abandoned.
func (w *Worker) speculate(f func()) (ok bool) {
	old := w.spec
	w.spec = true
	cur, depth := w.cur, w.depth
	nd := len(w.curDefer)
	defer func() {
		w.spec = old
		if r := recover(); r != nil {
			if r == specAbort {
				w.cur, w.depth = cur, depth
				w.curDefer = w.curDefer[:nd]
				ok = false
				return
			}
			if _, un := r.(*unsupportedErr); un {
				w.cur, w.depth = cur, depth
				w.curDefer = w.curDefer[:nd]
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// mergeScalars merges alternatives if they are the same or scalar; conds are exclusive and exhaustive within the
// merged set.
func (w *Worker) mergeValues(k tkind, width uint8, vals []Value, conds []*Expr) (Value, bool) {
	same := true
	for _, v := range vals[1:] {
		if !sameValue(vals[0], v) {
			same = false
			break
		}
	}
	if same {
		return vals[0], true
	}
	switch k {
	case kBool, kInt, kUint:
	default:
		return Value{}, false
	}
	anySym := false
	for _, v := range vals {
		if v.r != nil {
			if _, ok := v.r.(*Expr); !ok {
				return Value{}, false
			}
			anySym = true
		}
	}
	if width == 64 && !anySym {
		return Value{}, false // keep indexes and lengths concrete
	}
	c := w.ctx
	res := w.expr(vals[len(vals)-1], width)
	for i := len(vals) - 2; i >= 0; i-- {
		res = c.Ite(conds[i], w.expr(vals[i], width), res)
	}
	return fromExpr(res), true
}

func (w *Worker) mergeIf(fr *frame, b *cblock, in *cins, cond *Expr) mergeResult {
	c := w.ctx
	if !w.opt.merge {
		if w.path.branch(cond, in.site) {
			return mergeResult{pred: b.idx, block: b.succs[0]}
		}
		return mergeResult{pred: b.idx, block: b.succs[1]}
	}
	fn := fr.fn
	if w.path != nil && !w.spec {
		// one-sided under the byte domains: no fork, no merging
		if w.path.isByteUnary(cond) {
			v := cond.vars[0]
			bs := c.byteSet(cond)
			if _, empty := inter(w.path.dom[v], *bs); empty {
				w.path.branch(cond, in.site)
				return mergeResult{pred: b.idx, block: b.succs[1]}
			}
			neg := [4]uint64{^bs[0], ^bs[1], ^bs[2], ^bs[3]}
			if _, empty := inter(w.path.dom[v], neg); empty {
				w.path.branch(cond, in.site)
				return mergeResult{pred: b.idx, block: b.succs[0]}
			}
		}
	}
	pending := map[int][]edge{} // by target block
	var exits []regionExit
	done := map[int]bool{b.idx: true}
	addEdge := func(from *cblock, to int, cd *Expr) {
		if cd.isFalse() {
			return
		}
		if w.path != nil && w.path.isByteUnary(cd) {
			// not under the byte domains of this path
			if _, empty := inter(w.path.dom[cd.vars[0]], *w.path.tableOf(cd)); empty {
				return
			}
		}
		t := fn.blocks[to]
		if t.rpo <= from.rpo || t.rpo <= b.rpo {
			// back edge: leave the region
			exits = append(exits, regionExit{pred: from.idx, block: to, cond: cd, phis: w.phiVals(fr, t, from.idx)})
			return
		}
		pending[to] = append(pending[to], edge{pred: from.idx, cond: cd})
	}
	if b.succs[0] == b.succs[1] {
		return mergeResult{pred: b.idx, block: b.succs[0]}
	}
	addEdge(b, b.succs[0], cond)
	addEdge(b, b.succs[1], c.Not(cond))
	count := 0
	for len(pending) > 0 {
		// lowest rpo first
		best := -1
		for t := range pending {
			if best < 0 || fn.blocks[t].rpo < fn.blocks[best].rpo {
				best = t
			}
		}
		edges := pending[best]
		delete(pending, best)
		t := fn.blocks[best]
		leave := func() {
			for _, e := range edges {
				exits = append(exits, regionExit{pred: e.pred, block: best, cond: e.cond, phis: w.phiVals(fr, t, e.pred)})
			}
		}
		if !t.pure || count >= maxRegion || done[best] {
			leave()
			continue
		}
		count++
		done[best] = true
		// phis
		okPhi := true
		if t.nphi > 0 {
			all := make([][]Value, len(edges))
			conds := make([]*Expr, len(edges))
			for i, e := range edges {
				all[i] = w.phiVals(fr, t, e.pred)
				conds[i] = e.cond
			}
			merged := make([]Value, t.nphi)
			for p := 0; p < t.nphi && okPhi; p++ {
				vals := make([]Value, len(edges))
				for i := range edges {
					vals[i] = all[i][p]
				}
				merged[p], okPhi = w.mergeValues(t.ins[p].k1, t.ins[p].w1, vals, conds)
			}
			if okPhi {
				for p := range merged {
					fr.regs[t.ins[p].dst] = merged[p]
				}
			}
		}
		if !okPhi {
			leave()
			continue
		}
		conds := make([]*Expr, len(edges))
		for i, e := range edges {
			conds[i] = e.cond
		}
		bc := c.Or(conds...)
		var next [2]*Expr
		var isRet bool
		var rv Value
		ok := w.speculate(func() {
			for i := t.nphi; i < len(t.ins); i++ {
				x := &t.ins[i]
				switch x.op {
				case iJump:
					next[0] = bc
				case iIf:
					cv := fr.get(w, &x.ops[0])
					e := w.expr(cv, 1)
					next[0] = c.And(bc, e)
					next[1] = c.And(bc, c.Not(e))
				case iReturn:
					isRet = true
					switch len(x.ops) {
					case 0:
					case 1:
						rv = fr.get(w, &x.ops[0])
					default:
						tu := make(Tuple, len(x.ops))
						for j := range x.ops {
							tu[j] = fr.get(w, &x.ops[j])
						}
						rv = Value{r: tu}
					}
				default:
					w.step(fr, x)
				}
			}
			w.instrs += int64(len(t.ins))
			w.charge(len(t.ins))
		})
		if !ok {
			// enter it for real, per edge group
			leave()
			continue
		}
		if isRet {
			exits = append(exits, regionExit{ret: true, val: rv, cond: bc, block: -1})
			continue
		}
		if next[1] != nil && t.succs[0] == t.succs[1] {
			addEdge(t, t.succs[0], bc)
			continue
		}
		addEdge(t, t.succs[0], next[0])
		if next[1] != nil {
			addEdge(t, t.succs[1], next[1])
		}
	}
	// group the exits
	type grp struct {
		regionExit
		conds []*Expr
	}
	var gs []*grp
	byBlock := map[int][]regionExit{}
	var order []int
	for _, x := range exits {
		if _, ok := byBlock[x.block]; !ok {
			order = append(order, x.block)
		}
		byBlock[x.block] = append(byBlock[x.block], x)
	}
	sort.Ints(order)
	for _, bi := range order {
		xs := byBlock[bi]
		if bi < 0 {
			// returns: merge results where possible
			if len(xs) > 1 {
				if v, cs, ok := w.mergeReturns(fn, xs); ok {
					gs = append(gs, &grp{regionExit: regionExit{ret: true, val: v, block: -1}, conds: cs})
					continue
				}
			}
			for _, x := range xs {
				found := false
				for _, g := range gs {
					if g.ret && sameResult(g.val, x.val) {
						g.conds = append(g.conds, x.cond)
						found = true
						break
					}
				}
				if !found {
					gs = append(gs, &grp{regionExit: x, conds: []*Expr{x.cond}})
				}
			}
			continue
		}
		t := fn.blocks[bi]
		if len(xs) == 1 {
			gs = append(gs, &grp{regionExit: xs[0], conds: []*Expr{xs[0].cond}})
			continue
		}
		// try to merge all phis
		merged := make([]Value, t.nphi)
		ok := true
		conds := make([]*Expr, len(xs))
		for i := range xs {
			conds[i] = xs[i].cond
		}
		for p := 0; p < t.nphi && ok; p++ {
			vals := make([]Value, len(xs))
			for i := range xs {
				vals[i] = xs[i].phis[p]
			}
			merged[p], ok = w.mergeValues(t.ins[p].k1, t.ins[p].w1, vals, conds)
		}
		if ok {
			x := xs[0]
			x.phis = merged
			gs = append(gs, &grp{regionExit: x, conds: conds})
			continue
		}
		first := len(gs)
		for _, x := range xs {
			found := false
			for _, g := range gs[first:] {
				same := true
				for p := range x.phis {
					if !sameValue(g.phis[p], x.phis[p]) {
						same = false
						break
					}
				}
				if same {
					g.conds = append(g.conds, x.cond)
					found = true
					break
				}
			}
			if !found {
				gs = append(gs, &grp{regionExit: x, conds: []*Expr{x.cond}})
			}
		}
	}
	if len(gs) == 0 {
		panic(&pathAbort{"no feasible branch"})
	}
	var g *grp
	if len(gs) == 1 {
		g = gs[0]
	} else {
		conds := make([]*Expr, len(gs))
		for i, x := range gs {
			conds[i] = c.Or(x.conds...)
		}
		g = gs[w.path.decide(conds, in.site)]
	}
	if g.ret {
		return mergeResult{ret: true, val: g.val}
	}
	t := fn.blocks[g.block]
	for p := range g.phis {
		fr.regs[t.ins[p].dst] = g.phis[p]
	}
	return mergeResult{pred: g.pred, block: g.block, phisDone: true}
}

func (w *Worker) phiVals(fr *frame, t *cblock, pred int) []Value {
	if t.nphi == 0 {
		return nil
	}
	ix := t.predIx[pred]
	vals := make([]Value, t.nphi)
	for p := range vals {
		vals[p] = fr.get(w, &t.ins[p].ops[ix])
	}
	return vals
}

func sameResult(a, b Value) bool {
	x, ok := a.r.(Tuple)
	if !ok {
		return sameValue(a, b)
	}
	y, ok := b.r.(Tuple)
	if !ok {
		return false
	}
	for i := range x {
		if !sameValue(x[i], y[i]) {
			return false
		}
	}
	return true
}

func (w *Worker) mergeReturns(fn *cfn, xs []regionExit) (Value, []*Expr, bool) {
	conds := make([]*Expr, len(xs))
	for i := range xs {
		conds[i] = xs[i].cond
	}
	n := fn.resT.Len()
	if n == 0 {
		return Value{}, conds, true
	}
	one := func(i int) (Value, bool) {
		k, width := classify(fn.resT.At(i).Type())
		vals := make([]Value, len(xs))
		for j := range xs {
			if n == 1 {
				vals[j] = xs[j].val
			} else {
				vals[j] = xs[j].val.r.(Tuple)[i]
			}
		}
		return w.mergeValues(k, width, vals, conds)
	}
	if n == 1 {
		v, ok := one(0)
		return v, conds, ok
	}
	tu := make(Tuple, n)
	for i := range tu {
		v, ok := one(i)
		if !ok {
			return Value{}, nil, false
		}
		tu[i] = v
	}
	return Value{r: tu}, conds, true
}
