package main

import (
	"math"
	"math/bits"
	"math/rand"
)

// The texts of symbolic floats are opaque and the rounding of symbolic texts is uninterpreted, so an assignment the
// solver finds may rest on a text or a rounding the real functions do not give.  witnesses looks for assignments of
// the same path that violate the assertion with the real functions.

// usesUF tells whether uninterpreted functions occur in the expressions.
func usesUF(es ...*Expr) bool {
	seen := map[*Expr]bool{}
	var rec func(e *Expr) bool
	rec = func(e *Expr) bool {
		if e.op == OUF {
			return true
		}
		if e.op == OVar || e.op == OConst || seen[e] {
			return false
		}
		seen[e] = true
		for _, a := range e.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, e := range es {
		if rec(e) {
			return true
		}
	}
	return false
}

func anyFloat(r *rand.Rand) float64 {
	f := 0.0
	switch r.Intn(7) {
	case 0:
		return math.Float64frombits(r.Uint64())
	case 1: // whole
		f = math.Trunc(math.Ldexp(r.Float64(), r.Intn(75)))
	case 2:
		f = float64(r.Int63n(1<<(1+r.Intn(60)))) * math.Pow(10, float64(r.Intn(30)-8))
	case 3:
		f = float64(float32(math.Ldexp(r.Float64(), r.Intn(200)-100)))
	case 4:
		f = math.Ldexp(1+r.Float64(), r.Intn(2040)-1020)
	case 5:
		f = float64(r.Intn(2000)) / float64(1+r.Intn(40))
	case 6:
		f = math.Ldexp(1, r.Intn(2040)-1020)
	}
	if r.Intn(2) == 0 {
		f = -f
	}
	return f
}

func memberOf(d [4]uint64, r *rand.Rand) uint64 {
	n := 0
	for _, x := range d {
		n += bits.OnesCount64(x)
	}
	if n == 0 {
		return 0
	}
	k := r.Intn(n)
	for i, x := range d {
		c := bits.OnesCount64(x)
		if k >= c {
			k -= c
			continue
		}
		for ; k > 0; k-- {
			x &= x - 1
		}
		return uint64(i*64 + bits.TrailingZeros64(x))
	}
	return 0
}

// witnesses returns up to max assignments.
func (p *Path) witnesses(neg *Expr, base []uint64, max, tries int) (found [][]uint64) {
	r := rand.New(rand.NewSource(int64(len(p.vars)) + 1))
	cons, vars := p.slice(neg)
	if len(p.texts) > 0 || neg.isTrue() {
		cons, vars = p.cons, nil
		for v := range p.vars {
			if !p.opaque[int32(v)] {
				vars = append(vars, int32(v))
			}
		}
	}
	for t := 0; t < tries && len(found) < max; t++ {
		m := append([]uint64(nil), base...)
		for _, v := range vars {
			if r.Intn(8) == 0 {
				continue
			}
			switch p.vars[v].w {
			case 8:
				m[v] = memberOf(p.dom[v], r)
			case 64:
				if r.Intn(8) == 0 {
					m[v] = r.Uint64() >> uint(r.Intn(64))
				} else {
					m[v] = math.Float64bits(anyFloat(r))
				}
			case 32:
				if r.Intn(8) == 0 {
					m[v] = uint64(r.Uint32() >> uint(r.Intn(32)))
				} else {
					m[v] = uint64(math.Float32bits(float32(anyFloat(r))))
				}
			default:
				m[v] = r.Uint64() & maskW(p.vars[v].w)
			}
		}
		ok := p.w.ctx.Eval(neg, m) == 1
		for _, c := range cons {
			if !ok {
				break
			}
			ok = p.w.ctx.Eval(c, m) == 1
		}
		if ok {
			found = append(found, m)
		}
	}
	return
}
