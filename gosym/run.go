package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	idx     int
	name    string
	prop    string
	fn      *ssa.Function
	mu      sync.Mutex
	params  map[string]int64
	notes   map[string]int
	reach   map[string]int
	cands   map[string][]*candidate
	candN   map[string]int
	stack   []*workItem
	paths   int64
	aborts  map[string]int64
	active  int
	samples []*vectorRec
	seen    int64
	lost    []*vectorRec // of paths that could not be followed to the end
	lostN   int
}

type candidate struct {
	Kind      string     `json:"kind"`
	Msg       string     `json:"msg"`
	Inputs    []inputRec `json:"inputs"`
	Unordered bool       `json:"unordered"`
}

type vectorRec struct {
	Harness   string     `json:"harness"`
	Tier      string     `json:"tier"`
	Inputs    []inputRec `json:"inputs"`
	Logs      []string   `json:"logs,omitempty"`
	Unordered bool       `json:"unordered"`
	Kind      string     `json:"kind,omitempty"`
	Msg       string     `json:"msg,omitempty"`
	Tail      uint64     `json:"tail,omitempty"`
}

func (h *Harness) setParam(n string, v int64) {
	h.mu.Lock()
	h.params[n] = v
	h.mu.Unlock()
}

func (h *Harness) note(s string) {
	h.mu.Lock()
	h.notes[s]++
	h.mu.Unlock()
}

type Run struct {
	tier     string
	hs       []*Harness
	mu       sync.Mutex
	cond     *sync.Cond
	next     int
	busy     int
	stopped  bool
	deadline time.Time
	first    bool
	expired  int32
	maxPaths int64
	sampleN  int
	start    time.Time
	budget   int64
	lemMu    sync.Mutex
	lemmas   map[[2]uint64]bool
}

func (r *Run) push(it *workItem) {
	r.mu.Lock()
	h := r.hs[it.harness]
	h.stack = append(h.stack, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (w *Worker) push(it *workItem) { w.run_.push(it) }

func (r *Run) pop() *workItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return nil
		}
		if time.Now().After(r.deadline) {
			atomic.StoreInt32(&r.expired, 1)
			r.stopped = true
			r.cond.Broadcast()
			return nil
		}
		n := len(r.hs)
		for i := 0; i < n; i++ {
			h := r.hs[(r.next+i)%n]
			if k := len(h.stack); k > 0 {
				it := h.stack[k-1]
				h.stack = h.stack[:k-1]
				r.next = (r.next + i + 1) % n
				r.busy++
				return it
			}
		}
		if r.busy == 0 {
			r.stopped = true
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (p *Path) report(kind, msg string, model []uint64) {
	h := p.hrn
	h.mu.Lock()
	defer h.mu.Unlock()
	key := kind + "|" + msg
	h.candN[key]++
	if r := p.w.run_; r.first && h.candN[key] == 4 && h.name != "C07_large" && h.name != "C15_tiny" {
		go func() {
			r.mu.Lock()
			if d := time.Now().Add(time.Second); d.Before(r.deadline) {
				r.deadline = d
			}
			r.mu.Unlock()
		}()
	}
	lim := 4
	if p.unordered {
		lim = 8
	}
	if len(p.texts) > 0 {
		lim = 60
	}
	if len(h.cands[key]) >= lim {
		return
	}
	c := &candidate{Kind: kind, Msg: msg, Inputs: p.vector(model), Unordered: p.unordered}
	if len(p.texts) > 0 {
		for _, o := range h.cands[key] {
			if reflect.DeepEqual(o.Inputs, c.Inputs) {
				return
			}
		}
	}
	h.cands[key] = append(h.cands[key], c)
}

func newWorker(id int, eng *Engine, r *Run, timeoutMs int) *Worker {
	w := &Worker{id: id, eng: eng, run_: r}
	w.opt = options{merge: true, maxDepth: 400}
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[string]bool{}
	w.badPkg = map[string]string{}
	w.touched = map[string]int{}
	w.methods = map[methKey]*ssa.Function{}
	w.impls = map[implKey]bool{}
	w.onces = map[*Value]bool{}
	w.ptrTypes = map[typesType]typesType{}
	w.crossEvery = 64
	if r.tier == "thorough" {
		w.crossEvery = 16
	}
	w.resetCtx(timeoutMs)
	return w
}

func (w *Worker) resetCtx(timeoutMs int) {
	if w.solver != nil {
		w.solver.close()
	}
	w.ctx = newCtx()
	w.solver = newSolver(w.ctx, &w.stats, timeoutMs)
	w.qcache = map[string]qres{}
}

func (w *Worker) loop(timeoutMs int) {
	r := w.run_
	for {
		it := r.pop()
		if it == nil {
			break
		}
		w.runItem(it)
		if len(w.ctx.tabm) > 1500000 {
			w.resetCtx(timeoutMs)
		}
		r.done()
	}
	w.solver.close()
}

func (w *Worker) runItem(it *workItem) {
	r := w.run_
	h := r.hs[it.harness]
	p := &Path{w: w, prefix: it.prefix, noModel: it.noModel, hrn: h, reached: map[string]bool{}}
	p.model = append([]uint64(nil), it.model...)
	w.item = it
	w.path = p
	w.ctx.path = p
	w.epoch++
	w.pools = map[*Value][]Value{}
	w.roCells = map[*Value]bool{}
	w.hdrLim = map[*Value]int{}
	w.locks, w.rlocks, w.once = 0, 0, 0
	w.spec = false
	w.cur, w.depth, w.curDefer = nil, 0, nil
	w.budget = r.budget
	w.deeper = 0
	outcome := "completed"
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch e := x.(type) {
			case *pathAbort:
				outcome = e.reason
				if e.reason == "budget" {
					p.report("hang", "no termination within the instruction budget, in "+w.where(), p.model)
				}
				if e.reason == "deadlock" {
					p.report("hang", "blocked forever on a channel", p.model)
				}
				if e.reason == "depth" {
					p.report("hang", "unbounded recursion", p.model)
				}
			case *targetPanic:
				outcome = "panic"
				p.needModelQuiet()
				p.reportAll("panic", "panic: "+describe(e.v)+" at "+firstFrames(e.where), p.w.ctx.Bool(true), p.model)
			case *unsupportedErr:
				outcome = "unsupported: " + e.msg + " in " + w.where()
			case *specAbortT:
				outcome = "internal: speculation escaped"
			default:
				outcome = fmt.Sprintf("internal: %v", x)
				if debugOn {
					panic(x)
				}
			}
		}()
		w.initPkg(w.eng.modPath)
		w.logging = true
		w.run(compileFn(h.fn), nil, nil)
	}()
	w.logging = false
	// sampling of completed paths for replay against the real build
	h.mu.Lock()
	h.paths++
	h.aborts[outcome]++
	if outcome == "completed" || outcome == "panic" {
		for l := range p.reached {
			h.reach[l]++
		}
	}
	take := false
	if outcome == "completed" && !p.noModel && len(p.texts) == 0 {
		h.seen++
		if len(h.samples) < r.sampleN {
			take = true
		} else if h.seen%97 == 0 {
			take = true
		}
	}
	h.mu.Unlock()
	if take {
		v := &vectorRec{Harness: h.name, Tier: r.tier, Inputs: p.vector(p.model), Unordered: p.unordered}
		for _, l := range p.logs {
			v.Logs = append(v.Logs, renderLog(w.ctx, l, p.model))
		}
		h.mu.Lock()
		if len(h.samples) < r.sampleN {
			h.samples = append(h.samples, v)
		} else {
			h.samples[int(h.seen/97)%len(h.samples)] = v
		}
		h.mu.Unlock()
	}
	if strings.HasPrefix(outcome, "unsupported") || strings.HasPrefix(outcome, "internal") {
		p.keepLost()
	}
	w.path = nil
	w.ctx.path = nil
	w.rollback()
}

// keepLost records what is known of a path that cannot be followed, so that the real build at least runs it for some
// assignments.
func (p *Path) keepLost() {
	h := p.hrn
	h.mu.Lock()
	h.lostN++
	n := h.lostN
	h.mu.Unlock()
	if n > 100 && n%50 != 0 {
		return
	}
	p.needModelQuiet()
	if p.noModel {
		return
	}
	models := append(p.witnesses(p.w.ctx.Bool(true), p.model, 3, 60), p.model)
	h.mu.Lock()
	defer h.mu.Unlock()
	for i, m := range models {
		if len(h.lost) < 800 {
			h.lost = append(h.lost, &vectorRec{Harness: h.name, Tier: p.w.run_.tier, Inputs: p.vector(m), Unordered: p.unordered, Tail: uint64(n*4 + i + 1)})
		}
	}
}

func (p *Path) needModelQuiet() {
	defer func() { recover() }()
	p.needModel()
}

func firstFrames(s string) string {
	n := 0
	for i := 0; i+3 <= len(s); i++ {
		if s[i:i+3] == " < " {
			n++
			if n == 3 {
				return s[:i]
			}
		}
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
