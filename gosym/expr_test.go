package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"testing"
)

// TestSimplifier compares every simplified term with the plain meaning of the operation, on random values of bytes
// with random domains.
func TestSimplifier(t *testing.T) {
	rounds := 60000
	fmt.Sscan(os.Getenv("ROUNDS"), &rounds)
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < rounds; round++ {
		c := newCtx()
		p := &Path{w: &Worker{ctx: c}}
		c.path = p
		n := 1 + rnd.Intn(4)
		type fn func(m []uint64) uint64
		type term struct {
			e *Expr
			f fn
		}
		var pool []term
		for i := 0; i < n; i++ {
			e := p.newVar(8, "b")
			lo, span := rnd.Intn(256), rnd.Intn(30)
			if rnd.Intn(2) == 0 {
				lo, span = '0', 9
			}
			hi := min(255, lo+span)
			var d [4]uint64
			for x := lo; x <= hi; x++ {
				d[x>>6] |= 1 << (x & 63)
			}
			p.dom[i] = d
			pool = append(pool, term{e, func(m []uint64) uint64 { return m[i] }})
		}
		wid := []uint8{8, 16, 32, 64}
		for k := 0; k < 7; k++ {
			a := pool[rnd.Intn(len(pool))]
			b := pool[rnd.Intn(len(pool))]
			w := a.e.w
			mk := func(e *Expr, f fn) { pool = append(pool, term{e, f}) }
			consts := []uint64{0, 1, 2, 10, 48, 100, 1000, 10000, 1e8, 1e9, 1e18, ^uint64(47), 1 << 63, rnd.Uint64()}
			kk := consts[rnd.Intn(len(consts))] & maskW(w)
			m := maskW(w)
			af := a.f
			switch rnd.Intn(16) {
			case 0:
				mk(c.Add(a.e, c.Const(kk, w)), func(x []uint64) uint64 { return (af(x) + kk) & m })
			case 1:
				if b.e.w == w {
					mk(c.Add(a.e, b.e), func(x []uint64) uint64 { return (af(x) + b.f(x)) & m })
				}
			case 2:
				if b.e.w == w {
					mk(c.Sub(a.e, b.e), func(x []uint64) uint64 { return (af(x) - b.f(x)) & m })
				}
			case 3:
				mk(c.Mul(a.e, c.Const(kk, w)), func(x []uint64) uint64 { return (af(x) * kk) & m })
			case 4:
				if kk > 0 {
					mk(c.Div(OUDiv, a.e, c.Const(kk, w)), func(x []uint64) uint64 { return af(x) / kk })
				}
			case 5:
				if kk > 0 {
					mk(c.Div(OURem, a.e, c.Const(kk, w)), func(x []uint64) uint64 { return af(x) % kk })
				}
			case 6:
				if w2 := wid[rnd.Intn(4)]; w2 > w {
					mk(c.ZExt(a.e, w2), af)
				}
			case 7:
				if w2 := wid[rnd.Intn(4)]; w2 > w {
					mk(c.SExt(a.e, w2), func(x []uint64) uint64 { return uint64(sextW(af(x), w)) & maskW(w2) })
				}
			case 8:
				if w2 := wid[rnd.Intn(4)]; w2 < w {
					mk(c.Trunc(a.e, w2), func(x []uint64) uint64 { return af(x) & maskW(w2) })
				}
			case 9:
				if w == 64 {
					mk(c.MulHi(a.e, c.Const(kk, w)), func(x []uint64) uint64 { return mulHi(af(x), kk) })
				}
			case 10:
				s := uint64(rnd.Intn(int(w)))
				op := []Op{OShl, OLShr, OAShr}[rnd.Intn(3)]
				mk(c.Shift(op, a.e, c.Const(s, w)), func(x []uint64) uint64 {
					switch op {
					case OShl:
						return af(x) << s & m
					case OLShr:
						return af(x) >> s
					}
					return uint64(sextW(af(x), w)>>s) & m
				})
			case 12, 13:
				if b.e.w == w {
					op := []Op{OBAnd, OBOr, OBXor}[rnd.Intn(3)]
					mk(c.bitop(op, a.e, b.e), func(x []uint64) uint64 {
						switch op {
						case OBAnd:
							return af(x) & b.f(x)
						case OBOr:
							return af(x) | b.f(x)
						}
						return af(x) ^ b.f(x)
					})
				}
			case 14:
				if b.e.w == w {
					mk(c.Ite(c.Ult(a.e, c.Const(kk, w)), a.e, b.e), func(x []uint64) uint64 {
						if af(x) < kk {
							return af(x)
						}
						return b.f(x)
					})
				}
			case 15:
				if kk > 0 {
					op := []Op{OSDiv, OSRem}[rnd.Intn(2)]
					if sextW(kk, w) == -1 {
						break
					}
					mk(c.Div(op, a.e, c.Const(kk, w)), func(x []uint64) uint64 {
						if op == OSDiv {
							return uint64(sextW(af(x), w)/sextW(kk, w)) & m
						}
						return uint64(sextW(af(x), w)%sextW(kk, w)) & m
					})
				}
			case 11:
				sz := 2 + rnd.Intn(220)
				vals := make([]uint64, sz)
				for i := range vals {
					vals[i] = uint64(rnd.Intn(256))
				}
				if _, h := c.urange(a.e, 0); h < uint64(sz) {
					mk(c.TabLookup(vals, 8, a.e), func(x []uint64) uint64 { return vals[af(x)] })
				}
			}
		}
		model := make([]uint64, n)
		type cmp struct {
			e    *Expr
			f    func(m []uint64) bool
			s    string
			a, b *Expr
		}
		var cs []cmp
		for k := 0; k < 6; k++ {
			a := pool[rnd.Intn(len(pool))]
			b := pool[rnd.Intn(len(pool))]
			w := a.e.w
			if b.e.w != w {
				kk := rnd.Uint64() & maskW(w)
				if rnd.Intn(2) == 0 {
					kk &= 1023 & maskW(w)
				}
				b = term{c.Const(kk, w), func([]uint64) uint64 { return kk }}
			}
			cs = append(cs,
				cmp{c.Eq(a.e, b.e), func(x []uint64) bool { return a.f(x) == b.f(x) }, "eq", a.e, b.e},
				cmp{c.Ult(a.e, b.e), func(x []uint64) bool { return a.f(x) < b.f(x) }, "ult", a.e, b.e},
				cmp{c.Ule(a.e, b.e), func(x []uint64) bool { return a.f(x) <= b.f(x) }, "ule", a.e, b.e},
				cmp{c.Slt(a.e, b.e), func(x []uint64) bool { return sextW(a.f(x), w) < sextW(b.f(x), w) }, "slt", a.e, b.e},
				cmp{c.Sle(a.e, b.e), func(x []uint64) bool { return sextW(a.f(x), w) <= sextW(b.f(x), w) }, "sle", a.e, b.e})
		}
		for try := 0; try < 12; try++ {
			for i := range model {
				l, h := p.domRange(i)
				switch try {
				case 0:
					model[i] = l
				case 1:
					model[i] = h
				default:
					model[i] = l + uint64(rnd.Intn(int(h-l+1)))
				}
			}
			for _, x := range pool {
				got, want := c.Eval(x.e, model), x.f(model)
				if got != want {
					t.Fatalf("round %d: %s is %d, want %d (model %v)", round, p.show(x.e, 8), got, want, model)
				}
				if l, h := c.urange(x.e, 0); want < l || want > h {
					t.Fatalf("round %d: range %d..%d of %s, value %d", round, l, h, p.show(x.e, 8), want)
				}
			}
			for _, x := range cs {
				if (c.Eval(x.e, model) == 1) != x.f(model) {
					t.Fatalf("round %d: %s(%s, %s) = %s (model %v)", round, x.s, p.show(x.a, 8), p.show(x.b, 8), p.show(x.e, 8), model)
				}
			}
		}
	}
}

func mulHi(a, b uint64) uint64 {
	h, _ := bits.Mul64(a, b)
	return h
}
