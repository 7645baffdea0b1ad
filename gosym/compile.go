package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k   uint8 // 0 reg, 1 const, 2 global, 3 free var, 4 none, 5 builtin, 6 function
	i   int32
	v   Value
	glb *ssa.Global
	t   types.Type
}

type cins struct {
	op   uint8
	dst  int32
	ops  []opnd
	ins  ssa.Instruction
	site uint32
	// cached type information
	k1, k2 tkind
	w1, w2 uint8
	t1, t2 types.Type
	tok    token.Token
	n      int
	flag   bool
	fn     *ssa.Function // static callee
	bi     string        // builtin name
	meth   *types.Func
}

const (
	iAlloc uint8 = iota
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iUnOp
	iSliceToArrPtr
	iNop
	iBad
)

type cblock struct {
	idx    int
	ins    []cins
	nphi   int
	preds  []int
	succs  []int
	rpo    int
	pure   bool
	predIx map[int]int // pred block index -> position (first)
}

type cfn struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	blocks  []*cblock
	recov   int // recover block or -1
	pure    bool
	resT    *types.Tuple
	modFn   bool // belongs to the module under test
	hasDef  bool
	depth   int32
}

var cfnCache sync.Map // *ssa.Function -> *cfn
var siteCounter uint32
var compileMu sync.Mutex

var pureMu sync.Mutex
var pureMemo = map[*ssa.Function]int{}

func compileFn(fn *ssa.Function) *cfn {
	if c, ok := cfnCache.Load(fn); ok {
		return c.(*cfn)
	}
	compileMu.Lock()
	defer compileMu.Unlock()
	if c, ok := cfnCache.Load(fn); ok {
		return c.(*cfn)
	}
	buildPkgOf(fn)
	c := doCompile(fn)
	cfnCache.Store(fn, c)
	return c
}

func doCompile(fn *ssa.Function) *cfn {
	c := &cfn{fn: fn, name: fn.String(), recov: -1, resT: fn.Signature.Results()}
	c.modFn = fn.Pkg != nil && isModulePkg(fn.Pkg.Pkg.Path())
	if fn.Pkg == nil && fn.Parent() != nil && fn.Parent().Pkg != nil {
		c.modFn = isModulePkg(fn.Parent().Pkg.Pkg.Path())
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	c.nparams = int(n)
	fv := map[ssa.Value]int32{}
	for i, f := range fn.FreeVars {
		fv[f] = int32(i)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 4}
		case *ssa.Const:
			return opnd{k: 1, v: constVal(x), t: x.Type()}
		case *ssa.Global:
			return opnd{k: 2, glb: x, t: x.Type()}
		case *ssa.Function:
			return opnd{k: 1, v: Value{r: &Closure{fn: x}}, t: x.Type()}
		case *ssa.FreeVar:
			return opnd{k: 3, i: fv[x], t: x.Type()}
		case *ssa.Builtin:
			return opnd{k: 5, t: x.Type()}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return opnd{k: 0, i: r, t: v.Type()}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index, predIx: map[int]int{}}
		for i, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
			if _, ok := cb.predIx[p.Index]; !ok {
				cb.predIx[p.Index] = i
			}
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{ins: in, dst: -1, site: atomic.AddUint32(&siteCounter, 1)}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			set := func(vs ...ssa.Value) {
				for _, v := range vs {
					ci.ops = append(ci.ops, mk(v))
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.t1 = x.Type().Underlying().(*types.Pointer).Elem()
				ci.flag = x.Heap
			case *ssa.BinOp:
				ci.op = iBinOp
				set(x.X, x.Y)
				ci.tok = x.Op
				ci.t1 = x.X.Type()
				ci.k1, ci.w1 = classify(x.X.Type())
				ci.k2, ci.w2 = classify(x.Y.Type())
			case *ssa.Call:
				ci.op = iCall
				setCall(&ci, x.Common(), mk)
			case *ssa.Go:
				ci.op = iGo
				setCall(&ci, x.Common(), mk)
			case *ssa.Defer:
				ci.op = iDefer
				c.hasDef = true
				setCall(&ci, x.Common(), mk)
			case *ssa.ChangeInterface:
				ci.op = iChangeInterface
				set(x.X)
			case *ssa.ChangeType:
				ci.op = iChangeType
				set(x.X)
				ci.t1, ci.t2 = x.X.Type(), x.Type()
			case *ssa.Convert:
				ci.op = iConvert
				set(x.X)
				ci.t1, ci.t2 = x.X.Type(), x.Type()
				ci.k1, ci.w1 = classify(ci.t1)
				ci.k2, ci.w2 = classify(ci.t2)
			case *ssa.MultiConvert:
				ci.op = iConvert
				set(x.X)
				ci.t1, ci.t2 = x.X.Type(), x.Type()
				ci.k1, ci.w1 = classify(ci.t1)
				ci.k2, ci.w2 = classify(ci.t2)
			case *ssa.Extract:
				ci.op = iExtract
				set(x.Tuple)
				ci.n = x.Index
			case *ssa.Field:
				ci.op = iField
				set(x.X)
				ci.n = x.Field
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				set(x.X)
				ci.n = x.Field
				ci.t1 = x.X.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.If:
				ci.op = iIf
				set(x.Cond)
			case *ssa.Index:
				ci.op = iIndex
				set(x.X, x.Index)
				ci.t1 = x.X.Type()
				ci.k1, _ = classify(ci.t1)
				ci.k2, ci.w2 = classify(x.Index.Type())
				ci.t2 = x.Type()
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				set(x.X, x.Index)
				ci.t1 = x.X.Type()
				ci.k1, _ = classify(ci.t1)
				ci.k2, ci.w2 = classify(x.Index.Type())
				ci.t2 = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Jump:
				ci.op = iJump
			case *ssa.Lookup:
				ci.op = iLookup
				set(x.X, x.Index)
				ci.flag = x.CommaOk
				ci.t1 = x.X.Type()
				ci.k1, _ = classify(ci.t1)
				ci.k2, ci.w2 = classify(x.Index.Type())
			case *ssa.MakeChan:
				ci.op = iMakeChan
				set(x.Size)
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				ci.fn = x.Fn.(*ssa.Function)
				set(x.Bindings...)
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				set(x.X)
				ci.t1 = x.X.Type()
			case *ssa.MakeMap:
				ci.op = iMakeMap
				ci.t1 = x.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				set(x.Len, x.Cap)
				ci.t1 = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				set(x.Map, x.Key, x.Value)
				ci.t1 = x.Map.Type().Underlying().(*types.Map).Key()
			case *ssa.Next:
				ci.op = iNext
				set(x.Iter)
				ci.flag = x.IsString
				ci.t1 = x.Type()
			case *ssa.Panic:
				ci.op = iPanic
				set(x.X)
			case *ssa.Phi:
				ci.op = iPhi
				set(x.Edges...)
				ci.k1, ci.w1 = classify(x.Type())
				cb.nphi++
			case *ssa.Range:
				ci.op = iRange
				set(x.X)
				ci.t1 = x.X.Type()
			case *ssa.Return:
				ci.op = iReturn
				set(x.Results...)
			case *ssa.RunDefers:
				ci.op = iRunDefers
			case *ssa.Select:
				ci.op = iSelect
				var ops2 []ssa.Value
				for _, st := range x.States {
					ops2 = append(ops2, st.Chan, st.Send)
				}
				set(ops2...)
			case *ssa.Send:
				ci.op = iSend
				set(x.Chan, x.X)
			case *ssa.Slice:
				ci.op = iSlice
				set(x.X, x.Low, x.High, x.Max)
				ci.t1 = x.X.Type()
				ci.k1, _ = classify(ci.t1)
			case *ssa.SliceToArrayPointer:
				ci.op = iSliceToArrPtr
				set(x.X)
				ci.t1 = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Store:
				ci.op = iStore
				set(x.Addr, x.Val)
				ci.t1 = x.Val.Type()
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				set(x.X)
				ci.t1 = x.AssertedType
				ci.flag = x.CommaOk
				_, isIf := x.AssertedType.Underlying().(*types.Interface)
				ci.n = int(b2u(isIf))
			case *ssa.UnOp:
				ci.op = iUnOp
				set(x.X)
				ci.tok = x.Op
				ci.t1 = x.X.Type()
				ci.t2 = x.Type()
				ci.k1, ci.w1 = classify(x.X.Type())
				ci.flag = x.CommaOk
			default:
				ci.op = iBad
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	// reverse postorder
	seen := make([]bool, len(c.blocks))
	var post []int
	var dfs func(int)
	dfs = func(b int) {
		seen[b] = true
		for _, s := range c.blocks[b].succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(c.blocks) > 0 {
		dfs(0)
	}
	for i := range post {
		c.blocks[post[len(post)-1-i]].rpo = i
	}
	for _, b := range c.blocks {
		b.pure = blockPure(b)
	}
	c.pure = fnPure(c)
	return c
}

func setCall(ci *cins, cc *ssa.CallCommon, mk func(ssa.Value) opnd) {
	if cc.IsInvoke() {
		ci.meth = cc.Method
		ci.ops = append(ci.ops, mk(cc.Value))
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Function:
			ci.fn = f
		case *ssa.Builtin:
			ci.bi = f.Name()
		}
		if ci.fn == nil && ci.bi == "" {
			ci.ops = append(ci.ops, mk(cc.Value))
			ci.flag = true // dynamic
		}
	}
	for _, a := range cc.Args {
		ci.ops = append(ci.ops, mk(a))
	}
	if ci.bi != "" && len(cc.Args) > 0 {
		ci.t1 = cc.Args[0].Type()
		ci.k1, ci.w1 = classify(ci.t1)
		if len(cc.Args) > 1 {
			ci.t2 = cc.Args[1].Type()
			ci.k2, ci.w2 = classify(ci.t2)
		}
	}
}

// blockPure: every instruction can be evaluated speculatively (it either has no effect or aborts speculation).
func blockPure(b *cblock) bool {
	for i := range b.ins {
		in := &b.ins[i]
		switch in.op {
		case iBinOp, iChangeType, iConvert, iExtract, iField, iFieldAddr, iIndex, iIndexAddr, iPhi, iIf, iJump, iReturn, iNop, iMakeInterface, iChangeInterface:
		case iLookup:
			if in.k1 != kString {
				return false
			}
		case iUnOp:
			if in.tok == token.ARROW {
				return false
			}
		case iSlice:
			if in.k1 != kString && in.k1 != kSlice {
				return false
			}
		case iCall:
			switch {
			case in.bi == "len" || in.bi == "cap" || in.bi == "min" || in.bi == "max":
			case in.fn != nil && pureStatic(in.fn):
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// pureStatic: small, loop-free, effect-free function.
func pureStatic(fn *ssa.Function) bool {
	if st, ok := pureMemo[fn]; ok {
		return st == 1
	}
	pureMemo[fn] = 0 // recursion guard
	if _, isIntr := intrinsicFor(fn); isIntr {
		if pureIntrinsics[fn.String()] {
			pureMemo[fn] = 1
			return true
		}
		return false
	}
	buildPkgOf(fn)
	if len(fn.Blocks) == 0 || len(fn.Blocks) > 40 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	if n > 160 {
		return false
	}
	c := (*cfn)(nil)
	if x, ok := cfnCache.Load(fn); ok {
		c = x.(*cfn)
	} else {
		c = doCompile(fn)
		cfnCache.Store(fn, c)
	}
	if c.pure {
		pureMemo[fn] = 1
	}
	return c.pure
}

func fnPure(c *cfn) bool {
	if len(c.blocks) == 0 || len(c.blocks) > 40 {
		return false
	}
	for _, b := range c.blocks {
		if !b.pure {
			return false
		}
		for _, s := range b.succs {
			if c.blocks[s].rpo <= b.rpo {
				return false // loop
			}
		}
	}
	return true
}

func constVal(x *ssa.Const) Value {
	if x.Value == nil {
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return Value{r: zeroConst{x.Type()}}
		case *types.TypeParam:
			return Value{r: zeroConst{x.Type()}}
		}
		return Value{}
	}
	k, w := classify(x.Type())
	switch k {
	case kBool:
		return vBool(constant.BoolVal(x.Value))
	case kInt, kUint:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & maskW(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & maskW(w)}
	case kFloat:
		f, _ := constant.Float64Val(x.Value)
		return Value{n: fbits(f, w)}
	case kString:
		return vStr(constant.StringVal(x.Value))
	case kComplex:
		return Value{}
	}
	panic("constVal: " + x.String())
}

// zeroConst marks an aggregate zero constant; materialised on read.
type zeroConst struct{ t types.Type }
