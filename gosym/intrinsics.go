package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(w *Worker, fn *ssa.Function, args []Value) Value

var intrCache sync.Map

type intrEnt struct{ f intrFn }

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func intrinsicFor(fn *ssa.Function) (intrFn, bool) {
	if e, ok := intrCache.Load(fn); ok {
		f := e.(intrEnt).f
		return f, f != nil
	}
	var f intrFn
	if fn.Synthetic == "package initializer" {
		f = func(*Worker, *ssa.Function, []Value) Value { return Value{} }
	} else {
		key := fnKey(fn)
		f = intrinsics[key]
		if f == nil && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/sym") && fn.Signature.Recv() == nil {
			f = symIntrinsics[fn.Name()]
			if f == nil && len(fn.Name()) > 0 && fn.Name()[0] >= 'A' && fn.Name()[0] <= 'Z' && !symPlain[fn.Name()] {
				name := fn.Name()
				f = func(*Worker, *ssa.Function, []Value) Value { panic("no intrinsic sym." + name) }
			}
		}
	}
	intrCache.Store(fn, intrEnt{f})
	return f, f != nil
}

var symPlain = map[string]bool{}

// globals that may be used without running their package's initialiser
var globalOK = map[string]bool{
	"os.Stdout": true, "internal/bytealg.MaxLen": true,
}

var pureIntrinsics = map[string]bool{
	"math.Float64bits": true, "math.Float64frombits": true, "math.Float32bits": true, "math.Float32frombits": true,
	"math/bits.Mul64": true, "math/bits.Add64": true, "math/bits.Sub64": true,
	"math.Abs": true, "math.IsNaN": true, "math.IsInf": true, "math.Signbit": true,
	"math/bits.Len64": true, "math/bits.Len": true, "math/bits.Len32": true, "math/bits.TrailingZeros64": true,
	"math/bits.TrailingZeros": true, "math/bits.LeadingZeros64": true,
	"internal/abi.NoEscape": true,
}

func noop(*Worker, *ssa.Function, []Value) Value        { return Value{} }
func ident(_ *Worker, _ *ssa.Function, a []Value) Value { return a[0] }

func cell(v Value) *Value {
	c, ok := v.r.(*Value)
	if !ok {
		panic(unsupported(fmt.Sprintf("atomic access through %T", v.r)))
	}
	return c
}

var intrinsics map[string]intrFn

func tup(vs ...Value) Value { return Value{r: Tuple(vs)} }

func init() {
	intrinsics = map[string]intrFn{
		"math.Float64bits":      ident,
		"math.Float64frombits":  ident,
		"math.Float32bits":      ident,
		"math.Float32frombits":  ident,
		"internal/abi.NoEscape": ident,
		"internal/abi.Escape":   ident,
		"math.Abs": func(w *Worker, _ *ssa.Function, a []Value) Value {
			if a[0].r == nil {
				return Value{n: a[0].n &^ (1 << 63)}
			}
			return fromExpr(w.ctx.BAnd(w.expr(a[0], 64), w.ctx.Const(1<<63-1, 64)))
		},
		"math.IsNaN": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return fromExpr(w.ctx.F(OFIsNaN, 1, 64, w.expr(a[0], 64)))
		},
		"math.IsInf": func(w *Worker, _ *ssa.Function, a []Value) Value {
			c := w.ctx
			f := w.expr(a[0], 64)
			pos, neg := c.Eq(f, c.Const(0x7FF0000000000000, 64)), c.Eq(f, c.Const(0xFFF0000000000000, 64))
			s := w.expr(a[1], 64)
			ge := c.Sle(c.Const(0, 64), s)
			le := c.Sle(s, c.Const(0, 64))
			return fromExpr(c.Or(c.And(ge, pos), c.And(le, neg)))
		},
		"math/bits.Mul64": func(w *Worker, _ *ssa.Function, a []Value) Value {
			if a[0].r == nil && a[1].r == nil {
				h, l := bits.Mul64(a[0].n, a[1].n)
				return tup(Value{n: h}, Value{n: l})
			}
			x, y := w.expr(a[0], 64), w.expr(a[1], 64)
			return tup(fromExpr(w.ctx.MulHi(x, y)), fromExpr(w.ctx.Mul(x, y)))
		},
		"math/bits.Add64": func(w *Worker, _ *ssa.Function, a []Value) Value {
			if a[0].r == nil && a[1].r == nil && a[2].r == nil {
				s, c := bits.Add64(a[0].n, a[1].n, a[2].n)
				return tup(Value{n: s}, Value{n: c})
			}
			c := w.ctx
			x, y, cr := w.expr(a[0], 64), w.expr(a[1], 64), w.expr(a[2], 64)
			s1 := c.Add(x, y)
			c1 := c.Ult(s1, x)
			s := c.Add(s1, cr)
			c2 := c.Ult(s, s1)
			return tup(fromExpr(s), fromExpr(c.ZExt(c.Or(c1, c2), 64)))
		},
		"math/bits.Sub64": func(w *Worker, _ *ssa.Function, a []Value) Value {
			if a[0].r == nil && a[1].r == nil && a[2].r == nil {
				s, c := bits.Sub64(a[0].n, a[1].n, a[2].n)
				return tup(Value{n: s}, Value{n: c})
			}
			c := w.ctx
			x, y, br := w.expr(a[0], 64), w.expr(a[1], 64), w.expr(a[2], 64)
			d1 := c.Sub(x, y)
			b1 := c.Ult(x, y)
			d := c.Sub(d1, br)
			b2 := c.Ult(d1, br)
			return tup(fromExpr(d), fromExpr(c.ZExt(c.Or(b1, b2), 64)))
		},
		"internal/bytealg.IndexByte":       func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexByte(sliceVals(asSlice(a[0])), a[1]) },
		"internal/bytealg.IndexByteString": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexByte(asStr(a[0]).bytes(), a[1]) },
		"internal/bytealg.LastIndexByte": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.lastIndexByte(sliceVals(asSlice(a[0])), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.lastIndexByte(asStr(a[0]).bytes(), a[1]) },
		"internal/bytealg.Count":               func(w *Worker, _ *ssa.Function, a []Value) Value { return w.countByte(sliceVals(asSlice(a[0])), a[1]) },
		"internal/bytealg.CountString":         func(w *Worker, _ *ssa.Function, a []Value) Value { return w.countByte(asStr(a[0]).bytes(), a[1]) },
		"internal/bytealg.Equal": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return fromExpr(w.eqStr(sliceStr(a[0]), sliceStr(a[1])))
		},
		"bytes.Equal": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return fromExpr(w.eqStr(sliceStr(a[0]), sliceStr(a[1])))
		},
		"internal/bytealg.Compare": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.compareStr(sliceStr(a[0]), sliceStr(a[1]))
		},
		"bytes.Compare": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.compareStr(sliceStr(a[0]), sliceStr(a[1]))
		},
		"internal/bytealg.CompareString": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.compareStr(asStr(a[0]), asStr(a[1]))
		},
		"strings.Compare": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return w.compareStr(asStr(a[0]), asStr(a[1]))
		},
		"internal/bytealg.Index":       func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexStr(sliceStr(a[0]), sliceStr(a[1])) },
		"internal/bytealg.IndexString": func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexStr(asStr(a[0]), asStr(a[1])) },
		"strings.Index":                func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexStr(asStr(a[0]), asStr(a[1])) },
		"bytes.Index":                  func(w *Worker, _ *ssa.Function, a []Value) Value { return w.indexStr(sliceStr(a[0]), sliceStr(a[1])) },
		"internal/bytealg.MakeNoZero": func(w *Worker, _ *ssa.Function, a []Value) Value {
			n := int(w.concInt(a[0], w.site, "MakeNoZero"))
			return w.makeSlice(types.Typ[types.Uint8], n, n)
		},
		"internal/stringslite.Clone": ident,
		"strings.Clone":              func(w *Worker, _ *ssa.Function, a []Value) Value { return bytesToStr(asStr(a[0]).bytes()) },

		"(*sync.Mutex).Lock":      func(w *Worker, _ *ssa.Function, a []Value) Value { w.locks++; return Value{} },
		"(*sync.Mutex).Unlock":    func(w *Worker, _ *ssa.Function, a []Value) Value { w.locks--; return Value{} },
		"(*sync.RWMutex).Lock":    func(w *Worker, _ *ssa.Function, a []Value) Value { w.locks++; return Value{} },
		"(*sync.RWMutex).Unlock":  func(w *Worker, _ *ssa.Function, a []Value) Value { w.locks--; return Value{} },
		"(*sync.RWMutex).RLock":   func(w *Worker, _ *ssa.Function, a []Value) Value { w.rlocks++; return Value{} },
		"(*sync.RWMutex).RUnlock": func(w *Worker, _ *ssa.Function, a []Value) Value { w.rlocks--; return Value{} },
		"(*sync.Mutex).TryLock":   func(w *Worker, _ *ssa.Function, a []Value) Value { w.locks++; return vBool(true) },
		"(*sync.WaitGroup).Add":   noop,
		"(*sync.WaitGroup).Done":  noop,
		"(*sync.WaitGroup).Wait":  noop,
		"(*sync.WaitGroup).Go": func(w *Worker, _ *ssa.Function, a []Value) Value {
			w.callValue(a[1], nil, w.site)
			return Value{}
		},
		"(*sync.Once).Do": func(w *Worker, _ *ssa.Function, a []Value) Value {
			c := cell(a[0])
			if w.onceDone(c) {
				return Value{}
			}
			w.setOnce(c)
			w.once++
			w.callValue(a[1], nil, w.site)
			w.once--
			return Value{}
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": poolPut,

		// the number of decimal digits, by comparison with powers of ten (the library goes by the bit length)
		"strconv.numDigits":          numDigits,
		"internal/strconv.numDigits": numDigits,

		// one digit after the other, without tables
		"internal/strconv.formatBase10": func(w *Worker, _ *ssa.Function, a []Value) Value {
			s, x, c := asSlice(a[0]), w.expr(a[1], 64), w.ctx
			if s == nil {
				return Value{}
			}
			if w.spec {
				panic(specAbort)
			}
			for i := s.len - 1; i >= 0; i-- {
				r := x
				if i > 0 {
					r = c.Div(OURem, x, c.Const(10, 64))
					x = c.Div(OUDiv, x, c.Const(10, 64))
				}
				w.store(&s.agg.f[s.off+i], fromExpr(c.Trunc(c.Add(r, c.Const('0', 64)), 8)))
			}
			return Value{}
		},
		"internal/strconv.small": func(w *Worker, _ *ssa.Function, a []Value) Value {
			x, c := w.expr(a[0], 64), w.ctx
			lt := c.Ult(x, c.Const(10, 64))
			if !lt.isConst() && w.spec {
				panic(specAbort)
			}
			digit := func(e *Expr) Value { return fromExpr(c.Trunc(c.Add(e, c.Const('0', 64)), 8)) }
			if lt.isTrue() || !lt.isConst() && w.path.branch(lt, w.siteOf("small", 0)) {
				return bytesToStr([]Value{digit(x)})
			}
			ten := c.Const(10, 64)
			return bytesToStr([]Value{digit(c.Div(OUDiv, x, ten)), digit(c.Div(OURem, x, ten))})
		},

		"errors.Is": errorsIs,
		"fmt.Errorf": func(w *Worker, _ *ssa.Function, a []Value) Value {
			msg := asStr(a[0])
			f, _ := msg.concrete()
			var wrapped Value
			args := sliceVals(asSlice(a[1]))
			for i, n := 0, 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				if f[i] == '%' {
					continue
				}
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == 'w' && n < len(args) {
					if ifc, ok := args[n].r.(*Iface); ok && w.isError(ifc.t) {
						if wrapped.r != nil {
							panic(unsupported("fmt.Errorf wrapping several errors"))
						}
						wrapped = args[n]
					}
				}
				n++
			}
			if wrapped.r != nil {
				c := new(Value)
				*c = Value{r: &Agg{f: []Value{a[0], wrapped}}}
				return Value{r: &Iface{t: types.NewPointer(w.eng.typ("fmt", "wrapError")), v: Value{r: c}}}
			}
			c := new(Value)
			*c = Value{r: &Agg{f: []Value{a[0]}}}
			return Value{r: &Iface{t: w.eng.errStrPtr, v: Value{r: c}}}
		},
		"fmt.Sprintf": func(w *Worker, _ *ssa.Function, a []Value) Value {
			f, ok := asStr(a[0]).concrete()
			if !ok {
				panic(unsupported("Sprintf with symbolic format"))
			}
			return w.sprintf(f, sliceVals(asSlice(a[1])))
		},
		"fmt.Println": noop,
		"fmt.Printf":  noop,

		// the environment: only for concrete numbers
		"encoding/json.Marshal": func(w *Worker, _ *ssa.Function, a []Value) Value {
			i, _ := a[0].r.(*Iface)
			if i != nil {
				if b, ok := i.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					return tup(w.appendVals(nil, w.quoteJSON(asStr(i.v))), Value{})
				}
			}
			if i != nil && i.v.r == nil {
				if b, ok := i.t.Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
					txt, err := json.Marshal(math.Float64frombits(i.v.n))
					if err == nil {
						return tup(w.appendVals(nil, asStr(vStr(string(txt))).bytes()), Value{})
					}
				}
			}
			panic(&unsupportedErr{"json.Marshal of anything but a finite concrete float64"})
		},
		"strconv.ParseFloat": parseFloat,
		"strconv.FormatFloat": func(w *Worker, _ *ssa.Function, a []Value) Value {
			for _, x := range a {
				if x.r != nil {
					return w.formatFloatSym(a)
				}
			}
			return vStr(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
		},
		"strconv.AppendFloat": func(w *Worker, _ *ssa.Function, a []Value) Value {
			var s Value
			if a[1].r != nil || a[2].r != nil || a[3].r != nil || a[4].r != nil {
				s = w.formatFloatSym(a[1:])
			} else {
				s = vStr(strconv.FormatFloat(math.Float64frombits(a[1].n), byte(a[2].n), int(int64(a[3].n)), int(a[4].n)))
			}
			add := asStr(s).bytes()
			if len(add) == 0 {
				return a[0]
			}
			return w.appendVals(asSlice(a[0]), add)
		},
		"strconv.Quote": func(w *Worker, _ *ssa.Function, a []Value) Value {
			s, ok := asStr(a[0]).concrete()
			if !ok {
				return vStr("<quoted>")
			}
			return vStr(strconv.Quote(s))
		},
		"math.Floor": floatModel("floatFloor", math.Floor),
		"math.Ceil":  floatModel("floatCeil", math.Ceil),
		"math.Trunc": floatModel("floatTrunc", math.Trunc),
		"math.Max":   floatModel2("floatMax", math.Max),
		"math.Min":   floatModel2("floatMin", math.Min),
		"math.Sqrt":  floatNative(math.Sqrt),
		"math.Log10": floatNative(math.Log10),
		"math.Log2":  floatNative(math.Log2),
		"math.Log":   floatNative(math.Log),
		"math.Pow": func(w *Worker, _ *ssa.Function, a []Value) Value {
			if a[0].r != nil || a[1].r != nil {
				panic(unsupported("math.Pow symbolic"))
			}
			return Value{n: math.Float64bits(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
		},

		"math.Pow10": func(w *Worker, _ *ssa.Function, a []Value) Value {
			return Value{n: math.Float64bits(math.Pow10(int(w.concInt(a[0], w.siteOf("pow10", 0), "power of ten"))))}
		},

		"sort.Slice":         sortSlice,
		"sort.SliceStable":   sortSlice,
		"sort.SliceIsSorted": sliceIsSorted,

		"runtime.KeepAlive": noop, "runtime.GC": noop, "runtime.Gosched": noop,
		"runtime.SetFinalizer":                      noop,
		"runtime.NumGoroutine":                      func(w *Worker, _ *ssa.Function, a []Value) Value { return vInt(1) },
		"(*internal/godebug.Setting).Value":         func(w *Worker, _ *ssa.Function, a []Value) Value { return Value{} },
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"internal/godebug.New": func(w *Worker, _ *ssa.Function, a []Value) Value {
			c := new(Value)
			return Value{r: c}
		},
		"internal/race.Acquire": noop, "internal/race.Release": noop, "internal/race.ReadRange": noop, "internal/race.WriteRange": noop,
		"internal/asan.Read": noop, "internal/asan.Write": noop, "internal/msan.Read": noop, "internal/msan.Write": noop,

		"(*sync/atomic.Value).Load": func(w *Worker, _ *ssa.Function, a []Value) Value {
			c := cell(a[0])
			return asAgg(*c).f[0]
		},
		"(*sync/atomic.Value).Store": func(w *Worker, _ *ssa.Function, a []Value) Value {
			c := cell(a[0])
			w.locks++
			w.store(&asAgg(*c).f[0], a[1])
			w.locks--
			return Value{}
		},
	}
	// plain atomics
	ld := func(w *Worker, _ *ssa.Function, a []Value) Value {
		if a[0].r == nil {
			w.nilDeref()
		}
		return *cell(a[0])
	}
	st := func(w *Worker, _ *ssa.Function, a []Value) Value {
		if a[0].r == nil {
			w.nilDeref()
		}
		w.locks++
		w.store(cell(a[0]), a[1])
		w.locks--
		return Value{}
	}
	swap := func(w *Worker, _ *ssa.Function, a []Value) Value {
		old := *cell(a[0])
		w.locks++
		w.store(cell(a[0]), a[1])
		w.locks--
		return old
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		width := uint8(64)
		if strings.HasSuffix(t, "32") {
			width = 32
		}
		k := kUint
		if t[0] == 'I' {
			k = kInt
		}
		intrinsics["sync/atomic.Load"+t] = ld
		intrinsics["sync/atomic.Store"+t] = st
		intrinsics["sync/atomic.Swap"+t] = swap
		intrinsics["sync/atomic.CompareAndSwap"+t] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			cur := *cell(a[0])
			var eq bool
			if k == kOther || t == "Pointer" {
				eq = ptrEq(cur, a[1])
			} else {
				eq = w.path.branch(w.ctx.Eq(w.expr(cur, width), w.expr(a[1], width)), w.siteOf("cas", 0))
			}
			if eq {
				w.locks++
				w.store(cell(a[0]), a[2])
				w.locks--
			}
			return vBool(eq)
		}
		intrinsics["sync/atomic.Add"+t] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			cur := *cell(a[0])
			n := fromExpr(w.ctx.Add(w.expr(cur, width), w.expr(a[1], width)))
			w.locks++
			w.store(cell(a[0]), n)
			w.locks--
			return n
		}
	}
	intrinsics["(*sync/atomic.Pointer[T]).Load"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		ag := asAgg(*cell(a[0]))
		return ag.f[len(ag.f)-1]
	}
	intrinsics["(*sync/atomic.Pointer[T]).Store"] = func(w *Worker, _ *ssa.Function, a []Value) Value {
		ag := asAgg(*cell(a[0]))
		w.locks++
		w.store(&ag.f[len(ag.f)-1], a[1])
		w.locks--
		return Value{}
	}
	// the decoder of encoding/json is replaced by a model that lives with the harnesses
	for name, model := range map[string]string{
		"encoding/json.Unmarshal":                        "jsonUnmarshal",
		"encoding/json.NewDecoder":                       "jsonNewDecoder",
		"(*encoding/json.Decoder).Decode":                "jsonDecode",
		"(*encoding/json.Decoder).UseNumber":             "jsonUseNumber",
		"(*encoding/json.Decoder).DisallowUnknownFields": "jsonStrict",
	} {
		intrinsics[name] = func(w *Worker, _ *ssa.Function, a []Value) Value {
			p := w.eng.pkgs["verifharness/h"]
			if p == nil || p.Func(model) == nil {
				panic(unsupported("encoding/json decoder"))
			}
			return w.callFn(p.Func(model), a, nil, w.site)
		}
	}
	registerReflect()
	registerStdlib()
}

func floatNative(f func(float64) float64) intrFn {
	return func(w *Worker, _ *ssa.Function, a []Value) Value {
		if a[0].r != nil {
			panic(unsupported("float function of a symbolic value"))
		}
		return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
	}
}

// floatModel: the native function for constants, its model (Go source that lives with the harnesses) otherwise.
func floatModel(model string, f func(float64) float64) intrFn {
	return func(w *Worker, _ *ssa.Function, a []Value) Value {
		if a[0].r == nil {
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		}
		p := w.eng.pkgs["verifharness/h"]
		if p == nil || p.Func(model) == nil {
			panic(unsupported("float function of a symbolic value"))
		}
		return w.callFn(p.Func(model), a, nil, w.site)
	}
}

func floatModel2(model string, f func(x, y float64) float64) intrFn {
	return func(w *Worker, _ *ssa.Function, a []Value) Value {
		if a[0].r == nil && a[1].r == nil {
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
		}
		p := w.eng.pkgs["verifharness/h"]
		if p == nil || p.Func(model) == nil {
			panic(unsupported("float function of a symbolic value"))
		}
		return w.callFn(p.Func(model), a, nil, w.site)
	}
}

// siteOf gives a stable site id for decisions taken inside intrinsics.
func (w *Worker) siteOf(name string, k int) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint32(name[i])) * 16777619
	}
	return (h ^ uint32(k)*2654435761) | 1<<31
}

func sliceStr(v Value) *Str {
	s := asSlice(v)
	if s == nil || s.len == 0 {
		return &emptyStr
	}
	return &Str{agg: s.agg, off: s.off, n: s.len}
}

func (w *Worker) indexByte(vals []Value, b Value) Value {
	c := w.ctx
	for i, v := range vals {
		if v.r == nil && b.r == nil {
			if v.n == b.n {
				return vInt(i)
			}
			continue
		}
		if w.path.branch(c.Eq(w.expr(v, 8), w.expr(b, 8)), w.siteOf("IndexByte", i)) {
			return vInt(i)
		}
	}
	return Value{n: ^uint64(0)}
}

func (w *Worker) lastIndexByte(vals []Value, b Value) Value {
	c := w.ctx
	for i := len(vals) - 1; i >= 0; i-- {
		if w.path == nil {
			if vals[i].n == b.n {
				return vInt(i)
			}
			continue
		}
		if w.path.branch(c.Eq(w.expr(vals[i], 8), w.expr(b, 8)), w.siteOf("LastIndexByte", i)) {
			return vInt(i)
		}
	}
	return Value{n: ^uint64(0)}
}

func (w *Worker) countByte(vals []Value, b Value) Value {
	n := 0
	c := w.ctx
	for i, v := range vals {
		if v.r == nil && b.r == nil {
			if v.n == b.n {
				n++
			}
			continue
		}
		if w.path.branch(c.Eq(w.expr(v, 8), w.expr(b, 8)), w.siteOf("Count", i)) {
			n++
		}
	}
	return vInt(n)
}

func (w *Worker) compareStr(a, b *Str) Value {
	c := w.ctx
	lt := w.ltStr(a, b, false)
	eq := w.eqStr(a, b)
	return fromExpr(c.Ite(eq, c.Const(0, 64), c.Ite(lt, c.Const(^uint64(0), 64), c.Const(1, 64))))
}

func (w *Worker) indexStr(s, sub *Str) Value {
	for i := 0; i+sub.n <= s.n; i++ {
		win := &Str{}
		if sub.n > 0 {
			win = asStr(s.sub(i, i+sub.n))
		}
		e := w.eqStr(win, sub)
		if e.isFalse() {
			continue
		}
		if e.isTrue() || w.path.branch(e, w.siteOf("IndexString", i)) {
			return vInt(i)
		}
	}
	return Value{n: ^uint64(0)}
}

// ---- sync.Pool: single-threaded LIFO so that reuse of buffers is visible; under Parallel every Get is private.

func poolGet(w *Worker, fn *ssa.Function, a []Value) Value {
	c := cell(a[0])
	st := w.pools[c]
	if n := len(st); n > 0 {
		v := st[n-1]
		w.pools[c] = st[: n-1 : n-1]
		return v
	}
	// field New
	ag := asAgg(*c)
	nf := ag.f[len(ag.f)-1]
	if nf.r == nil {
		return Value{}
	}
	return w.callValue(nf, nil, w.site)
}

func poolPut(w *Worker, fn *ssa.Function, a []Value) Value {
	c := cell(a[0])
	if a[1].r == nil || (w.path != nil && w.path.inParallel) {
		return Value{}
	}
	w.pools[c] = append(w.pools[c][:len(w.pools[c]):len(w.pools[c])], a[1])
	return Value{}
}

func (w *Worker) onceDone(c *Value) bool { return w.onces[c] }
func (w *Worker) setOnce(c *Value) {
	w.onces[c] = true
	if w.logging {
		w.undoF = append(w.undoF, func() { delete(w.onces, c) })
	}
}

// ---- errors

func (w *Worker) isError(t types.Type) bool {
	return w.implements(t, w.eng.errIface)
}

func (w *Worker) callMethod(t types.Type, name string, recv Value, args ...Value) (Value, bool) {
	w.eng.methMu.Lock()
	ms := w.eng.prog.MethodSets.MethodSet(t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn = w.eng.prog.MethodValue(ms.At(i))
			break
		}
	}
	w.eng.methMu.Unlock()
	if fn == nil {
		return Value{}, false
	}
	return w.callFn(fn, append([]Value{recv}, args...), nil, w.site), true
}

func errorsIs(w *Worker, _ *ssa.Function, a []Value) Value {
	err, target := a[0], a[1]
	if err.r == nil || target.r == nil {
		return vBool(err.r == nil && target.r == nil)
	}
	tgt := target.r.(*Iface)
	for n := 0; n < 50; n++ {
		ifc, ok := err.r.(*Iface)
		if !ok {
			return vBool(false)
		}
		if types.Identical(ifc.t, tgt.t) && types.Comparable(tgt.t) {
			e := w.eqVal(tgt.t, ifc.v, tgt.v)
			if e.isTrue() {
				return vBool(true)
			}
			if !e.isFalse() {
				panic(unsupported("errors.Is on symbolic errors"))
			}
		}
		r, ok := w.callMethod(ifc.t, "Unwrap", ifc.v)
		if !ok || r.r == nil {
			return vBool(false)
		}
		if s, ok := r.r.(*Slice); ok {
			for _, e := range sliceVals(s) {
				if x := errorsIs(w, nil, []Value{e, target}); x.n == 1 {
					return x
				}
			}
			return vBool(false)
		}
		err = r
	}
	return vBool(false)
}

// ---- formatting

func (w *Worker) nativeScalar(v Value, t types.Type) (any, bool) {
	if v.r != nil {
		if s, ok := v.r.(*Str); ok {
			c, ok := s.concrete()
			return c, ok
		}
		return nil, false
	}
	k, width := classify(t)
	switch k {
	case kInt:
		return sextW(v.n, width), true
	case kUint:
		return v.n, true
	case kBool:
		return v.n == 1, true
	case kString:
		return "", true
	case kFloat:
		return fval(v.n, width), true
	}
	return nil, false
}

func (w *Worker) sprintf(f string, args []Value) Value {
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, Value{n: uint64(s[i])})
		}
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			panic(unsupported("Sprintf format " + f))
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			panic(unsupported("Sprintf: missing argument"))
		}
		ifc, _ := args[ai].r.(*Iface)
		ai++
		if ifc == nil {
			lit("<nil>")
			continue
		}
		nt, named := ifc.t.(*types.Named)
		k, width := classify(ifc.t)
		if (verb == 's' || verb == 'v') && (named || k == kPtr) {
			if w.isError(ifc.t) {
				if r, ok := w.callMethod(ifc.t, "Error", ifc.v); ok {
					out = append(out, asStr(r).bytes()...)
					continue
				}
			}
			if r, ok := w.callMethod(ifc.t, "String", ifc.v); ok {
				out = append(out, asStr(r).bytes()...)
				continue
			}
		}
		_ = nt
		if nv, ok := w.nativeScalar(ifc.v, ifc.t); ok {
			lit(fmt.Sprintf(spec, nv))
			continue
		}
		switch {
		case k == kString && (verb == 's' || verb == 'v') && len(spec) == 2:
			out = append(out, asStr(ifc.v).bytes()...)
			continue
		case k == kSlice && verb == 's' && len(spec) == 2:
			out = append(out, sliceVals(asSlice(ifc.v))...)
			continue
		case (verb == 'x' || verb == 'X') && (k == kInt || k == kUint) && len(spec) == 4 && spec[1] == '0':
			n := int(spec[2] - '0')
			e := w.expr(ifc.v, width)
			c := w.ctx
			// must fit in n nibbles for the width not to grow
			if 4*n < int(width) {
				if !w.path.branch(c.Ult(e, c.Const(uint64(1)<<(4*n), width)), w.siteOf("Sprintf", n)) {
					out = append(out, w.padInt(spec, ifc.v, k, width)...)
					continue
				}
			}
			tab := make([]uint64, 16)
			for d := range tab {
				if verb == 'x' {
					tab[d] = uint64("0123456789abcdef"[d])
				} else {
					tab[d] = uint64("0123456789ABCDEF"[d])
				}
			}
			for d := n - 1; d >= 0; d-- {
				nib := c.BAnd(c.Shift(OLShr, e, c.Const(uint64(4*d), width)), c.Const(15, width))
				nib = c.ZExt(c.Trunc(nib, 8), 64)
				if width < 8 {
					panic(unsupported("narrow"))
				}
				out = append(out, fromExpr(c.TabLookup(tab, 8, nib)))
			}
			continue
		case k == kBool && (verb == 'v' || verb == 't') && len(spec) == 2:
			if w.path.branch(w.expr(ifc.v, 1), w.siteOf("Sprintf", 0)) {
				lit("true")
			} else {
				lit("false")
			}
			continue
		case verb == 'd' && (k == kInt || k == kUint) && len(spec) == 2, verb == 'v' && (k == kInt || k == kUint):
			r := w.formatInt(ifc.v, k, width)
			out = append(out, asStr(r).bytes()...)
			continue
		case verb == 'c' && (k == kInt || k == kUint) && len(spec) == 2:
			out = append(out, w.encodeRune(w.convInt(ifc.v, k, width, 32), w.siteOf("Sprintf", 1))...)
			continue
		case strings.IndexByte("dxXob", verb) >= 0 && (k == kInt || k == kUint):
			out = append(out, w.padInt(spec, ifc.v, k, width)...)
			continue
		case verb == 'T':
			lit(w.typeText(ifc.t))
			continue
		case verb == 'p' || verb == 'v' || verb == 'q':
			// opaque: only messages are made this way
			lit("<" + ifc.t.String() + ">")
			continue
		}
		panic(unsupported("Sprintf " + spec))
	}
	return bytesToStr(out)
}

// quoteJSON is encoding/json's form of a string; characters that are not plain ASCII have to be concrete.
func (w *Worker) quoteJSON(s *Str) []Value {
	c := w.ctx
	out := []Value{{n: '"'}}
	for i := 0; i < s.n; {
		b := s.at(i)
		if b.r != nil {
			e := w.expr(b, 8)
			plain := c.Not(c.Ult(e, c.Const(' ', 8)))
			plain = c.And(plain, c.Ult(e, c.Const(0x7f, 8)))
			for _, x := range []uint64{'"', '\\', '<', '>', '&'} {
				plain = c.And(plain, c.Not(c.Eq(e, c.Const(x, 8))))
			}
			if !plain.isConst() && w.spec {
				panic(specAbort)
			}
			if plain.isTrue() || !plain.isConst() && w.path.branch(plain, w.siteOf("quoteJSON", 0)) {
				out = append(out, b)
				i++
				continue
			}
			if w.path.branch(c.Ult(e, c.Const(0x80, 8)), w.siteOf("quoteJSON", 2)) {
				b = Value{n: w.concretize(e, w.siteOf("quoteJSON", 1), "json.Marshal")}
			}
		}
		if b.r == nil && b.n < 0x80 {
			x, _ := json.Marshal(string([]byte{byte(b.n)}))
			out = append(out, asStr(vStr(string(x[1:len(x)-1]))).bytes()...)
			i++
			continue
		}
		r, n := w.decodeRune(s, i, w.siteOf("quoteJSON", 3))
		is := func(x uint64, k int) bool {
			q := c.Eq(w.expr(r, 32), c.Const(x, 32))
			return q.isTrue() || !q.isConst() && w.path.branch(q, w.siteOf("quoteJSON", k))
		}
		switch {
		case n == 1 && is(0xFFFD, 4):
			out = append(out, asStr(vStr(`\ufffd`)).bytes()...)
		case n == 3 && is(0x2028, 5):
			out = append(out, asStr(vStr(`\u2028`)).bytes()...)
		case n == 3 && is(0x2029, 6):
			out = append(out, asStr(vStr(`\u2029`)).bytes()...)
		default:
			for j := 0; j < n; j++ {
				out = append(out, s.at(i+j))
			}
		}
		i += n
	}
	return append(out, Value{n: '"'})
}

func (w *Worker) formatInt(v Value, k tkind, width uint8) Value {
	name := "FormatUint"
	if k == kInt {
		name = "FormatInt"
	}
	fn := w.eng.fn("strconv", name)
	return w.callFn(fn, []Value{w.convInt(v, k, width, 64), vInt(10)}, nil, w.site)
}

// ---- floats as text

func floatText(e *Expr, g func(*Expr) uint64) string {
	b := make([]byte, len(e.args))
	for i, a := range e.args {
		b[i] = byte(g(a))
	}
	return string(b)
}

func evalUF(e *Expr, g func(*Expr) uint64) uint64 {
	switch e.name {
	case "atof64":
		f, _ := strconv.ParseFloat(floatText(e, g), 64)
		return math.Float64bits(f)
	case "atof32":
		f, _ := strconv.ParseFloat(floatText(e, g), 32)
		return math.Float64bits(f)
	case "atoferr64":
		_, err := strconv.ParseFloat(floatText(e, g), 64)
		return b2u(err != nil)
	case "atoferr32":
		_, err := strconv.ParseFloat(floatText(e, g), 32)
		return b2u(err != nil)
	}
	panic("evalUF " + e.name)
}

// parseFloat: the syntax is decided by the real strconv.readFloat executed symbolically; the correctly rounded
// value of the digits is the uninterpreted function atof of the text (evaluated by the real strconv in models).
func parseFloat(w *Worker, fn *ssa.Function, a []Value) Value {
	s := asStr(a[0])
	bs := int(w.concInt(a[1], w.site, "bitSize"))
	mkErr := func(rng bool) Value {
		name := "ErrSyntax"
		if rng {
			name = "ErrRange"
		}
		g := w.eng.glob("strconv", name)
		inner := *w.globalAddr(g)
		c := new(Value)
		*c = Value{r: &Agg{f: []Value{vStr("ParseFloat"), a[0], inner}}}
		return Value{r: &Iface{t: types.NewPointer(w.eng.typ("strconv", "NumError")), v: Value{r: c}}}
	}
	if txt, ok := s.concrete(); ok {
		f, err := strconv.ParseFloat(txt, bs)
		if err != nil {
			ne := err.(*strconv.NumError)
			return tup(Value{n: math.Float64bits(f)}, mkErr(ne.Err == strconv.ErrRange))
		}
		return tup(Value{n: math.Float64bits(f)}, Value{})
	}
	if w.spec {
		panic(specAbort)
	}
	// special values first
	sp := w.callFn(w.eng.fnAny("special", "strconv", "internal/strconv"), []Value{a[0]}, nil, w.site).r.(Tuple)
	isSp := sp[2]
	if isSp.r != nil {
		isSp = vBool(w.path.branch(isSp.r.(*Expr), w.siteOf("special", 0)))
	}
	if isSp.n == 1 {
		n := int(w.concInt(sp[1], w.siteOf("special", 1), "special"))
		if n == s.n {
			return tup(sp[0], Value{})
		}
		return tup(Value{}, mkErr(false))
	}
	rf := w.callFn(w.eng.fnAny("readFloat", "strconv", "internal/strconv"), []Value{a[0]}, nil, w.site).r.(Tuple)
	// mantissa, exp, neg, trunc, hex, i, ok
	ok := rf[6]
	if ok.r != nil {
		ok = vBool(w.path.branch(ok.r.(*Expr), w.siteOf("readFloat", 0)))
	}
	n := int(w.concInt(rf[5], w.siteOf("readFloat", 1), "readFloat"))
	if ok.n != 1 || n != s.n {
		return tup(Value{}, mkErr(false))
	}
	c := w.ctx
	args := make([]*Expr, s.n)
	for i := range args {
		args[i] = w.expr(s.at(i), 8)
	}
	sfx := strconv.Itoa(bs)
	val := c.UF("atof"+sfx, 64, args...)
	// out of range is only possible with a large exponent
	lim := int64(300)
	if bs == 32 {
		lim = 30
	}
	exp := rf[1]
	inRange := false
	if exp.r == nil {
		e := sextW(exp.n, 64)
		inRange = e+20 < lim && s.n < 200
	} else {
		e := w.expr(exp, 64)
		r := c.Slt(e, c.Const(uint64(lim-20), 64))
		inRange = w.path.branch(r, w.siteOf("atofrange", 0))
	}
	if !inRange {
		// concretise the text so that the real conversion decides
		txt := make([]byte, s.n)
		for i := range txt {
			txt[i] = byte(w.concretize(args[i], w.siteOf("atoftext", i), "float text"))
		}
		f, err := strconv.ParseFloat(string(txt), bs)
		if err != nil {
			return tup(Value{n: math.Float64bits(f)}, mkErr(true))
		}
		return tup(Value{n: math.Float64bits(f)}, Value{})
	}
	return tup(fromExpr(val), Value{})
}

// formatFloatSym: the text of a symbolic float is opaque: some text of the right sign in one of the shapes the
// format allows, the same for the same arguments.  Paths with such a text are not replayed as traces (the text does
// not have to be the one of the float in the model), their counterexamples are.
func (w *Worker) formatFloatSym(a []Value) Value {
	if w.spec {
		panic(specAbort)
	}
	p := w.needPath()
	format := byte(w.concInt(a[1], w.siteOf("formatfloat", 1), "float format"))
	prec := int(int64(w.concInt(a[2], w.siteOf("formatfloat", 2), "float precision")))
	bits := int(w.concInt(a[3], w.siteOf("formatfloat", 3), "float size"))
	c := w.ctx
	f := w.expr(a[0], 64)
	if f.isConst() {
		return vStr(strconv.FormatFloat(math.Float64frombits(f.k), format, prec, bits))
	}
	key := fmt.Sprint(f.id, format, prec, bits)
	if t, ok := p.texts[key]; ok {
		return t
	}
	abs := c.BAnd(f, c.Const(1<<63-1, 64))
	if !p.branch(c.Ult(abs, c.Const(0x7FF<<52, 64)), w.siteOf("formatfloat", 4)) {
		panic(unsupported("formatting NaN or an infinity"))
	}
	neg := p.branch(c.Ule(c.Const(1<<63, 64), f), w.siteOf("formatfloat", 5))
	shapes := []string{"d", "dd", "d.d"}
	switch format {
	case 'e', 'E':
		shapes = []string{"de-dd", "d.de+dd"}
	case 'g', 'G':
		shapes = []string{"d", "dd", "d.d", "de-dd", "d.de+dd"}
	case 'f':
	default:
		panic(unsupported("float format"))
	}
	sh := shapes[p.choose(len(shapes), w.siteOf("formatfloat", 6))]
	if neg {
		sh = "-" + sh
	}
	var txt []Value
	for i := 0; i < len(sh); i++ {
		switch ch := sh[i]; {
		case ch == 'd':
			v := p.newVar(8, "digit")
			if p.opaque == nil {
				p.opaque = map[int32]bool{}
			}
			p.opaque[v.vars[0]] = true
			lo := uint64('0')
			if i+1 < len(sh) && sh[i+1] == 'd' && (i == 0 || i == 1 && neg) {
				lo = '1'
			}
			p.assume(c.Ule(c.Const(lo, 8), v))
			p.assume(c.Ule(v, c.Const('9', 8)))
			txt = append(txt, fromExpr(v))
		case ch == 'e' && (format == 'E' || format == 'G'):
			txt = append(txt, Value{n: 'E'})
		default:
			txt = append(txt, Value{n: uint64(ch)})
		}
	}
	t := bytesToStr(txt)
	if p.texts == nil {
		p.texts = map[string]Value{}
	}
	p.texts[key] = t
	return t
}

func numDigits(w *Worker, _ *ssa.Function, a []Value) Value {
	x := w.expr(a[0], 64)
	n, pow := 1, uint64(10)
	for n < 20 {
		lt := w.ctx.Ult(x, w.ctx.Const(pow, 64))
		if !lt.isConst() && w.spec {
			panic(specAbort)
		}
		if lt.isTrue() || !lt.isConst() && w.path.branch(lt, w.siteOf("numDigits", n)) {
			break
		}
		n++
		pow *= 10
	}
	return vInt(n)
}

// sortSlice sorts the way package sort does for short slices (insertion, which is stable).
func sortSlice(w *Worker, f *ssa.Function, a []Value) Value {
	ifc, _ := a[0].r.(*Iface)
	if ifc == nil {
		w.rtPanic("sort.Slice of nil")
	}
	s := asSlice(ifc.v)
	if s == nil {
		return Value{}
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !w.lessAt(a[1], j, j-1) {
				break
			}
			x, y := s.agg.f[s.off+j], s.agg.f[s.off+j-1]
			if xa, ok := x.r.(*Agg); ok {
				x = copyVal(Value{r: xa})
				y = copyVal(y)
			}
			w.store(&s.agg.f[s.off+j], y)
			w.store(&s.agg.f[s.off+j-1], x)
		}
	}
	return Value{}
}

func sliceIsSorted(w *Worker, f *ssa.Function, a []Value) Value {
	ifc, _ := a[0].r.(*Iface)
	if ifc == nil {
		w.rtPanic("sort.SliceIsSorted of nil")
	}
	if s := asSlice(ifc.v); s != nil {
		for i := s.len - 1; i > 0; i-- {
			if w.lessAt(a[1], i, i-1) {
				return Value{}
			}
		}
	}
	return Value{n: 1}
}

func (w *Worker) lessAt(less Value, i, j int) bool {
	r := w.callValue(less, []Value{vInt(i), vInt(j)}, w.site)
	if r.r != nil {
		return w.path.branch(r.r.(*Expr), w.siteOf("sort.Slice", i))
	}
	return r.n == 1
}
