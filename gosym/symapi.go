package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

var symIntrinsics map[string]intrFn

func concName(v Value) string {
	s, ok := asStr(v).concrete()
	if !ok {
		return "?"
	}
	return s
}

func (p *Path) input(kind, name string, e ...*Expr) {
	p.inputs = append(p.inputs, &inputRec{Kind: kind, Name: name, e: e})
}

func (w *Worker) needPath() *Path {
	if w.path == nil {
		panic(unsupported("sym call outside a path"))
	}
	return w.path
}

func (w *Worker) symBytes(name string, n int) []Value {
	p := w.needPath()
	out := make([]Value, n)
	es := make([]*Expr, n)
	for i := range out {
		es[i] = p.newVar(8, name)
		out[i] = fromExpr(es[i])
	}
	p.input("bytes", name, es...)
	return out
}

func (w *Worker) symInt(name string, width uint8) Value {
	p := w.needPath()
	e := p.newVar(width, name)
	p.input("int", name, e)
	return fromExpr(e)
}

func init() {
	symIntrinsics = map[string]intrFn{
		"Byte": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.symBytes(concName(a[0]), 1)[0]
		},
		"Bytes": func(w *Worker, _ *ssa.Function, a []Value) Value {
			n := int(w.concInt(a[1], w.site, "Bytes"))
			f := w.symBytes(concName(a[0]), n)
			return Value{r: &Slice{agg: &Agg{f: f}, len: n, cap: n}}
		},
		"Str": func(w *Worker, _ *ssa.Function, a []Value) Value {
			n := int(w.concInt(a[1], w.site, "Str"))
			f := w.symBytes(concName(a[0]), n)
			if n == 0 {
				return Value{}
			}
			return Value{r: &Str{agg: &Agg{f: f}, n: n}}
		},
		"U64": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.symInt(concName(a[0]), 64) },
		"I64": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.symInt(concName(a[0]), 64) },
		"U32": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.symInt(concName(a[0]), 32) },
		"I32": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.symInt(concName(a[0]), 32) },
		"Bool": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			e := p.newVar(8, concName(a[0]))
			p.assume(w.ctx.Ule(e, w.ctx.Const(1, 8)))
			p.input("int", concName(a[0]), e)
			return fromExpr(w.ctx.Eq(e, w.ctx.Const(1, 8)))
		},
		"Choose": func(w *Worker, _ *ssa.Function, a []Value) Value {
			n := int(w.concInt(a[1], w.site, "Choose"))
			p := w.needPath()
			if n <= 0 {
				panic(&pathAbort{"assume"})
			}
			k := p.choose(n, w.siteOf("Choose", len(p.inputs)))
			p.input("int", concName(a[0]), w.ctx.Const(uint64(k), 64))
			return vInt(k)
		},
		"Param": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			v := a[1]
			if w.run_.tier == "thorough" {
				v = a[2]
			}
			p.hrn.setParam(concName(a[0]), int64(v.n))
			p.input("int", concName(a[0]), w.ctx.Const(v.n, 64))
			return v
		},
		"Fix": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return Value{n: uint64(w.concInt(a[0], w.siteOf("Fix", 0), "Fix"))}
		},
		"Assume": func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.needPath().assume(w.expr(a[0], 1))
			return Value{}
		},
		"Assert": func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.needPath().assert(w.expr(a[0], 1), concName(a[1]))
			return Value{}
		},
		"Reach": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			p.reached[concName(a[0])] = true
			return Value{}
		},
		"Log": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			l := logEnt{label: concName(a[0])}
			for _, x := range sliceVals(asSlice(a[1])) {
				ifc, _ := x.r.(*Iface)
				if ifc == nil {
					l.parts = append(l.parts, Value{})
					l.kinds = append(l.kinds, types2{kOther, 0})
					continue
				}
				k, width := classify(ifc.t)
				v := ifc.v
				switch k {
				case kString:
					v = bytesToStr(asStr(v).bytes())
				case kSlice:
					v = bytesToStr(sliceVals(asSlice(v)))
				}
				l.parts = append(l.parts, v)
				l.kinds = append(l.kinds, types2{k, width})
			}
			p.logs = append(p.logs, l)
			return Value{}
		},
		"MapOrder": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			p.mapOrd = int(a[0].n)
			if p.mapOrd != 0 {
				p.unordered = true
			}
			return Value{}
		},
		"Budget": func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.budget += int64(a[0].n) * 1000000
			w.deeper += int(a[0].n) * 2000
			return Value{}
		},
		"Unordered": func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.needPath().unordered = true
			return Value{}
		},
		"Parallel": func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.needPath()
			var roots []Value
			roots = append(roots, sliceVals(asSlice(a[0]))...)
			for g, c := range w.globals {
				if g.Pkg != nil && isModulePkg(g.Pkg.Pkg.Path()) {
					roots = append(roots, Value{r: c})
				}
			}
			// twice: what the first round publishes is shared in the second
			p.inParallel = true
			for round := 0; round < 2; round++ {
				p.frozen, p.frozenM = nil, nil
				w.freeze(roots)
				for _, f := range sliceVals(asSlice(a[1])) {
					w.callValue(f, nil, w.site)
				}
			}
			p.inParallel = false
			p.frozen, p.frozenM, p.guarded, p.guardedM = nil, nil, nil, nil
			return Value{}
		},
		"Symbolic": func(w *Worker, _ *ssa.Function, a []Value) Value { return vBool(true) },
	}
	symPlain["Digits"] = true
	symPlain["All"] = true
	symPlain["Range"] = true
	symPlain["OneOf"] = true
	_ = types.Typ
}

// assert discharges an assertion with the solver.
func (p *Path) assert(c *Expr, msg string) {
	st := &p.w.stats
	st.assertsTotal++
	p.asserts++
	if c.isTrue() {
		return
	}
	if p.pos < len(p.prefix) {
		// already discharged by the path that queued this one
		p.assume(c)
		return
	}
	p.needModel()
	neg := p.w.ctx.Not(c)
	if c.isFalse() {
		p.reportAll("assert", msg, neg, p.model)
		panic(&pathAbort{"assertion failed"})
	}
	st.assertsSolver++
	if usesUF(neg) {
		if ms := p.witnesses(neg, p.model, 1, 60); len(ms) > 0 {
			p.report("assert", msg, ms[0])
			p.assume(c)
			return
		}
	}
	r, m := p.solve(neg)
	if r == Unknown && time.Now().Before(p.w.run_.deadline) {
		// once more, in a fresh solver with more time
		s := p.w.solver
		old := s.timeout
		s.close()
		s.timeout = old * 8
		r, m = p.solve(neg)
		s.close()
		s.timeout = old
	}
	switch r {
	case Unsat:
		p.add(c)
		return
	case Sat:
		p.reportAll("assert", msg, neg, m)
	default:
		if p.w.ctx.Eval(c, p.model) != 1 {
			p.report("assert", msg, p.model)
		} else {
			p.hrn.note("assertion undecided by the solver: " + msg)
		}
	}
	p.assume(c)
}

// reportAll reports a violation, on paths with opaque texts with further assignments.
func (p *Path) reportAll(kind, msg string, neg *Expr, model []uint64) {
	p.report(kind, msg, model)
	if len(p.texts) > 0 {
		for _, m := range p.witnesses(neg, model, 8, 400) {
			p.report(kind, msg, m)
		}
	}
}

func renderLog(c *Ctx, l logEnt, model []uint64) string {
	s := l.label + ":"
	for i, v := range l.parts {
		switch l.kinds[i].k {
		case kString, kSlice:
			b := make([]byte, asStr(v).n)
			for j := range b {
				x := asStr(v).at(j)
				if e, ok := x.r.(*Expr); ok {
					b[j] = byte(c.Eval(e, model))
				} else {
					b[j] = byte(x.n)
				}
			}
			s += " " + hex.EncodeToString(b) + "."
		case kInt, kUint, kBool, kFloat:
			n := v.n
			if e, ok := v.r.(*Expr); ok {
				n = c.Eval(e, model)
			}
			s += " " + strconv.FormatUint(n, 10)
		case kOther:
			s += " nil"
		default:
			s += fmt.Sprintf(" ?%d", l.kinds[i].k)
		}
	}
	return s
}

func (p *Path) vector(model []uint64) []inputRec {
	out := make([]inputRec, 0, len(p.inputs))
	for _, in := range p.inputs {
		r := inputRec{Kind: in.Kind, Name: in.Name}
		for _, e := range in.e {
			r.Vals = append(r.Vals, p.w.ctx.Eval(e, model))
		}
		out = append(out, r)
	}
	return out
}
