package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	methMu    sync.Mutex
	rtErrType types.Type
	errIface  *types.Interface
	errStrPtr types.Type
	modPath   string
}

var theEngine *Engine

func isModulePkg(path string) bool {
	return path == theEngine.modPath || strings.HasPrefix(path, theEngine.modPath+"/")
}

func buildPkgOf(fn *ssa.Function) {}

func (e *Engine) typ(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	return p.Type(name).Type()
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		panic(unsupported("function not found: " + pkg + "." + name))
	}
	return p.Func(name)
}

// fnAny finds the function in the first of the packages that has it (the standard library moves internals).
func (e *Engine) fnAny(name string, pkgs ...string) *ssa.Function {
	for _, k := range pkgs {
		if p := e.pkgs[k]; p != nil && p.Func(name) != nil {
			return p.Func(name)
		}
	}
	panic(unsupported("function not found: " + name))
}

func (e *Engine) glob(pkg, name string) *ssa.Global {
	p := e.pkgs[pkg]
	if p == nil || p.Var(name) == nil {
		panic(unsupported("variable not found: " + pkg + "." + name))
	}
	return p.Var(name)
}

type undoEnt struct {
	c *Value
	v Value
}

type qres struct {
	res  Result
	vals []uint64
}

type options struct {
	merge    bool
	maxDepth int
}

type Worker struct {
	id         int
	eng        *Engine
	ctx        *Ctx
	path       *Path
	solver     *Solver
	stats      Stats
	opt        options
	spec       bool
	cur        *frame
	depth      int
	curDefer   []*frame
	budget     int64
	deeper     int // levels of calls allowed beyond the usual, see sym.Budget
	instrs     int64
	site       uint32
	globals    map[*ssa.Global]*Value
	inited     map[string]bool
	badPkg     map[string]string
	initing    bool
	logging    bool
	undo       []undoEnt
	undoF      []func()
	touched    map[string]int
	methods    map[methKey]*ssa.Function
	impls      map[implKey]bool
	roCells    map[*Value]bool // bytes of constant strings aliased by slices
	hdrLim     map[*Value]int  // bytes behind the data word of slice headers being written
	qcache     map[string]qres
	item       *workItem
	crossEvery int
	epoch      uint64
	locks      int // mutexes held
	rlocks     int // read locks held
	once       int // depth of sync.Once.Do
	pools      map[*Value][]Value
	onces      map[*Value]bool
	run_       *Run
	ptrTypes   map[types.Type]types.Type
}

var initDeny = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true, "fmt": true, "testing": true,
	"encoding/json": true, "log": true, "net": true, "internal/poll": true, "internal/godebug": true,
	"sync": true, "internal/reflectlite": true, "io/fs": true, "flag": true, "context": true,
	"internal/cpu": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "internal/bytealg": true,
	"encoding/json/v2": true, "encoding/json/jsontext": true,
}

// initPkg runs a package initialiser (concretely) the first time one of its variables is needed.
func (w *Worker) initPkg(path string) {
	if w.inited[path] {
		return
	}
	w.inited[path] = true
	p := w.eng.pkgs[path]
	if p == nil {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	sp, sb, sl, si, ss, sc, sd := w.path, w.budget, w.logging, w.initing, w.spec, w.cur, w.curDefer
	cp := w.ctx.path
	w.path, w.budget, w.logging, w.initing, w.spec, w.cur, w.curDefer = nil, 1<<40, false, true, false, nil, nil
	w.ctx.path = nil
	ep := w.epoch
	w.epoch = 0
	instr := w.instrs
	defer func() {
		w.path, w.budget, w.logging, w.initing, w.spec, w.cur, w.curDefer = sp, sb, sl, si, ss, sc, sd
		w.ctx.path = cp
		w.epoch = ep
		w.instrs = instr
		if r := recover(); r != nil {
			if u, ok := r.(*unsupportedErr); ok {
				w.badPkg[path] = u.msg
				debugf("init of %s failed: %s", path, u.msg)
				return
			}
			if t, ok := r.(*targetPanic); ok {
				w.badPkg[path] = "panic " + describe(t.v)
				debugf("init of %s panicked: %s at %s", path, describe(t.v), t.where)
				return
			}
			panic(r)
		}
	}()
	w.run(compileFn(fn), nil, nil)
}

// memViolation reports an out-of-bounds access by an unsafe conversion.
func (w *Worker) memViolation(msg string) {
	if w.spec {
		panic(specAbort)
	}
	if w.path == nil {
		return
	}
	w.path.report("memory", "memory safety: "+msg+" in "+w.curName(), w.path.model)
}

// roViolation reports a write to the bytes of a constant string.
func (w *Worker) roViolation() {
	if w.spec {
		panic(specAbort)
	}
	w.path.report("readonly", "memory safety: a string is written to in "+w.curName(), w.path.model)
}

func (w *Worker) raceViolation(msg string) {
	w.path.report("race", "data race: "+msg+" in "+w.curName(), w.path.model)
}

func (w *Worker) curName() string {
	for f := w.cur; f != nil; f = f.parent {
		if f.fn.modFn {
			return f.fn.name
		}
	}
	return "?"
}

func (w *Worker) checkFrozen(x *Value) {
	if w.once > 0 || !w.path.frozen[x] {
		return
	}
	if w.locks == 0 {
		w.raceViolation("shared memory written by an operation documented as read-only")
		return
	}
	if w.path.guarded == nil {
		w.path.guarded = map[*Value]bool{}
	}
	w.path.guarded[x] = true
}

// checkGuarded reports a plain read of memory that is written under a lock or atomically elsewhere.
func (w *Worker) checkGuarded(x *Value) {
	if w.locks+w.rlocks+w.once > 0 {
		return
	}
	if w.path.guarded[x] {
		w.raceViolation("shared memory written under a lock is read without")
		return
	}
	if a, ok := x.r.(*Agg); ok {
		for i := range a.f {
			w.checkGuarded(&a.f[i])
		}
	}
}

func (w *Worker) checkGuardedMap(m *Map) {
	if w.path != nil && w.path.guardedM[m] && w.locks+w.rlocks+w.once == 0 {
		w.raceViolation("a shared map written under a lock is read without")
	}
}

func (w *Worker) rtPanicPlain(msg string) { w.rtPanic(msg) }

// freeze marks everything reachable from the roots.
func (w *Worker) freeze(roots []Value) {
	p := w.path
	if p.frozen == nil {
		p.frozen = map[*Value]bool{}
		p.frozenM = map[*Map]bool{}
	}
	seenAgg := map[*Agg]bool{}
	seenIdx := map[*Iface]bool{}
	var visit func(v Value)
	var visitCell func(c *Value)
	visitCell = func(c *Value) {
		if p.frozen[c] {
			return
		}
		p.frozen[c] = true
		visit(*c)
	}
	visit = func(v Value) {
		switch x := v.r.(type) {
		case *Value:
			visitCell(x)
		case *Agg:
			if seenAgg[x] {
				return
			}
			seenAgg[x] = true
			for i := range x.f {
				visitCell(&x.f[i])
			}
		case *Slice:
			visit(Value{r: x.agg})
		case *Str:
			if x.agg != nil {
				visit(Value{r: x.agg})
			}
		case *Iface:
			if seenIdx[x] {
				return
			}
			seenIdx[x] = true
			visit(x.v)
		case *Map:
			if p.frozenM[x] {
				return
			}
			p.frozenM[x] = true
			for _, e := range x.entries {
				visit(e.k)
				visit(e.v)
				p.frozen[&e.v] = true
			}
		case *Closure:
			for _, e := range x.env {
				visit(e)
			}
		case *UPtr:
			visit(x.p)
		case *PunPtr:
			visit(x.p)
		}
	}
	for _, r := range roots {
		visit(r)
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		*w.undo[i].c = w.undo[i].v
	}
	w.undo = w.undo[:0]
	for i := len(w.undoF) - 1; i >= 0; i-- {
		w.undoF[i]()
	}
	w.undoF = w.undoF[:0]
}
