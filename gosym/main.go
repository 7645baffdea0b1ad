package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type typesType = types.Type

const modPath = "github.com/Andrew-M-C/go.jsonvalue"

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func load(dir string) (*Engine, *ssa.Package) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-tags=math_big_pure_go,purego,verif", "-mod=mod"},
		Env:        append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(pkgs) > 0 {
		fatal("the code does not type-check")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, modPath: modPath}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	theEngine = e
	e.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	e.errStrPtr = types.NewPointer(e.typ("errors", "errorString"))
	e.rtErrType = e.typ("runtime", "plainError")
	return e, spkgs[0]
}

func main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		hdir     = flag.String("harness", "/verif/harness", "harness module")
		only     = flag.String("only", "", "regexp of harness names")
		evid     = flag.String("evidence", "", "evidence file")
		limit    = flag.Duration("limit", 0, "time limit for exploration")
		workers  = flag.Int("j", runtime.NumCPU(), "workers")
		timeout  = flag.Int("solver-timeout", 4000, "ms per query")
		noreplay = flag.Bool("noreplay", false, "skip native replay")
		replayB  = flag.String("replay", "", "native replay binary (built when missing)")
		outDir   = flag.String("out", "/verif/out", "directory for counterexamples")
		verbose  = flag.Bool("v", false, "verbose")
		budget   = flag.Int64("budget", 4000000, "instructions per path")
		dump     = flag.String("dump", "", "dump SSA of function")
		first    = flag.Bool("first", false, "stop soon after the first candidate (screening of mutants)")
		nomerge  = flag.Bool("nomerge", false, "disable merging")
	)
	flag.StringVar(&solverBin, "solver", solverBin, "SMT solver")
	flag.IntVar(&maxDefs, "maxdefs", maxDefs, "definitions per solver session")
	flag.Parse()
	debug.SetGCPercent(200)
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetMemoryLimit(20 << 30)
	defer printForks()
	t0 := time.Now()
	eng, hp := load(*hdir)
	tLoad := time.Since(t0)
	if *dump != "" {
		for fn := range ssautil.AllFunctions(eng.prog) {
			if fn.String() == *dump {
				fn.WriteTo(os.Stdout)
			}
		}
		return
	}
	re := regexp.MustCompile(*only)
	knownFile = filepath.Join(filepath.Dir(filepath.Clean(*hdir)), "KNOWN_FINDINGS.txt")
	var hs []*Harness
	names := []string{}
	for n := range hp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := hp.Members[n].(*ssa.Function)
		if !ok || !strings.HasPrefix(n, *prop+"_") || !re.MatchString(n) {
			continue
		}
		hs = append(hs, &Harness{idx: len(hs), name: n, prop: *prop, fn: fn, params: map[string]int64{}, notes: map[string]int{},
			reach: map[string]int{}, cands: map[string][]*candidate{}, candN: map[string]int{}, aborts: map[string]int64{}})
	}
	if len(hs) == 0 {
		fatal("no harness for %s", *prop)
	}
	if *limit == 0 {
		*limit = 100 * time.Second
		if *tier == "thorough" {
			*limit = 700 * time.Second
		}
	}
	r := &Run{tier: *tier, hs: hs, start: time.Now(), sampleN: 60, budget: *budget, lemmas: map[[2]uint64]bool{}}
	if *tier == "thorough" {
		r.sampleN = 300
	}
	r.deadline = time.Now().Add(*limit)
	r.first = *first
	r.cond = sync.NewCond(&r.mu)
	for i := len(hs) - 1; i >= 0; i-- {
		hs[i].stack = append(hs[i].stack, &workItem{harness: i})
	}
	// native replay binary is built while exploring
	var rep *Replayer
	if !*noreplay {
		rep = newReplayer(*hdir, *replayB)
	}
	var wg sync.WaitGroup
	ws := make([]*Worker, *workers)
	for i := range ws {
		ws[i] = newWorker(i, eng, r, *timeout)
		ws[i].opt.merge = !*nomerge
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop(*timeout)
		}(ws[i])
	}
	// wake up sleepers at the deadline
	go func() {
		time.Sleep(*limit + time.Second)
		r.cond.Broadcast()
	}()
	wg.Wait()
	explore := time.Since(r.start)

	var st Stats
	touched := map[string]int{}
	var instrs int64
	for _, w := range ws {
		st.add(&w.stats)
		instrs += w.instrs
		for k, v := range w.touched {
			touched[k] += v
		}
	}
	res := summarize(&st, hs, r, rep, *outDir, *prop, *tier)
	wall := time.Since(t0)
	if *verbose {
		for _, h := range hs {
			fmt.Printf("%-32s paths=%d left=%d params=%v reach=%v\n", h.name, h.paths, len(h.stack), h.params, h.reach)
			for _, k := range sortedKeys(h.aborts) {
				fmt.Printf("    %6d %s\n", h.aborts[k], k)
			}
			for _, k := range sortedKeys(h.notes) {
				fmt.Printf("    note %d %s\n", h.notes[k], k)
			}
			for _, k := range sortedKeys(h.candN) {
				fmt.Printf("    cand %d %s\n", h.candN[k], k)
			}
		}
	}
	fmt.Printf("%s %s: load %.1fs explore %.1fs total %.1fs; paths %d, instructions %d, solver queries %d (sat %d, unsat %d, unknown %d, errors %d) in %.1fs, table-decided %d (tables proved %d, open %d; re-checked by solver %d, disagreements %d), assertions %d (%d needing the solver), replayed %d traces (%d mismatches), complete=%v\n",
		*prop, *tier, tLoad.Seconds(), explore.Seconds(), wall.Seconds(), res.paths, instrs, st.queries, st.sat, st.unsat, st.unknown, st.errors,
		float64(st.solverNs)/1e9, st.tableDecided, st.lemmas, st.lemmasOpen, st.crossChecked, st.crossBad, st.assertsTotal, st.assertsSolver, res.replayed, res.mismatch, res.complete)
	for _, m := range res.mismatchMsgs {
		fmt.Println("  trace mismatch:", m)
	}
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, hs, r, res, &st, touched, instrs, wall, tLoad)
	}
	if rep != nil {
		rep.close()
	}
	for _, k := range sortedKeys(res.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if len(res.violations) > 0 {
		for _, v := range res.violations {
			fmt.Printf("counterexample in %s: %s\n", v.harness, v.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.path)
		}
		os.Exit(1)
	}
}

var knownFile string

type violation struct {
	path, harness, msg string
}

type result struct {
	paths        int64
	replayed     int
	mismatch     int
	mismatchMsgs []string
	violations   []violation
	unconfirmed  []string
	complete     bool
	incomplete   []string
	known        map[string]int
	samples      []any
}

func (res *result) add(outDir, prop string, v *vectorRec, what string) {
	os.MkdirAll(outDir, 0o755)
	path := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", prop, v.Harness, len(res.violations)))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	res.violations = append(res.violations, violation{path, v.Harness, what})
}

func summarize(st *Stats, hs []*Harness, r *Run, rep *Replayer, outDir, prop, tier string) *result {
	res := &result{complete: true, known: map[string]int{}}
	if st.crossBad > 0 {
		res.complete = false
		res.incomplete = append(res.incomplete, fmt.Sprintf("%d disagreements between byte tables and the solver", st.crossBad))
	}
	known := loadKnown(knownFile, prop)
	for _, h := range hs {
		res.paths += h.paths
		if len(h.stack) > 0 {
			res.complete = false
			res.incomplete = append(res.incomplete, fmt.Sprintf("%s: %d branches left unexplored at the time limit", h.name, len(h.stack)))
		}
		for _, k := range sortedKeys(h.aborts) {
			switch {
			case k == "completed" || k == "assume" || k == "infeasible" || k == "panic" || k == "assertion failed":
			default:
				res.complete = false
				res.incomplete = append(res.incomplete, fmt.Sprintf("%s: %d paths not followed: %s", h.name, h.aborts[k], k))
			}
		}
		for _, k := range sortedKeys(h.notes) {
			res.complete = false
			res.incomplete = append(res.incomplete, fmt.Sprintf("%s: %d x %s", h.name, h.notes[k], k))
		}
	}
	if rep == nil {
		return res
	}
	// candidates first
	for _, h := range hs {
		for _, k := range sortedKeys(h.cands) {
			ok := false
			for i, c := range h.cands[k] {
				v := &vectorRec{Harness: h.name, Tier: tier, Inputs: c.Inputs, Unordered: c.Unordered, Kind: c.Kind, Msg: c.Msg}
				got, why := rep.confirm(v)
				if got {
					if what, ok := known[h.name+"|"+c.Msg]; ok {
						res.known[what]++
						ok = true
						break
					}
					res.add(outDir, prop, v, c.Msg+" ["+why+"] "+renderInputs(c.Inputs))
					ok = true
					break
				}
				if i == len(h.cands[k])-1 && !ok {
					res.unconfirmed = append(res.unconfirmed, fmt.Sprintf("%s: %s: not reproduced by the real build (%s) %s", h.name, c.Msg, why, renderInputs(c.Inputs)))
				}
			}
		}
	}
	for _, u := range res.unconfirmed {
		fmt.Println("  not reproduced:", u)
	}
	// paths that could not be followed: not decided, but what the real build does wrong there is wrong
	for _, h := range hs {
		found := map[string]bool{}
		for len(h.lost) > 0 {
			outs, _ := rep.batch(h.lost, "")
			for i, o := range outs {
				v := h.lost[i]
				if o.Status != "assert" && o.Status != "panic" || found[o.Msg] {
					continue
				}
				if what, ok := known[v.Harness+"|"+o.Msg]; ok {
					res.known[what]++
					continue
				}
				found[o.Msg] = true
				v.Kind, v.Msg = o.Status, o.Msg
				res.add(outDir, prop, v, o.Msg+" [reproduced: found by running the real build along a path that could not be followed] "+renderInputs(v.Inputs))
			}
			if len(outs) == 0 {
				break
			}
			h.lost = h.lost[len(outs):] // a hanging run ends the batch
		}
	}
	// traces
	var vecs []*vectorRec
	for _, h := range hs {
		vecs = append(vecs, h.samples...)
	}
	if len(vecs) > 0 {
		outs, err := rep.batch(vecs, "")
		if err != nil {
			fmt.Println("  replay failed:", err)
		}
		for i, o := range outs {
			res.replayed++
			v := vecs[i]
			bad := ""
			if o.Status != "ok" {
				bad = "status " + o.Status + " " + o.Msg
				if _, ok := known[v.Harness+"|"+o.Msg]; (o.Status == "assert" || o.Status == "panic") && !ok {
					// a concrete run of the real build that breaks the harness' assertion
					v.Kind, v.Msg = o.Status, o.Msg
					res.add(outDir, prop, v, "replayed trace: "+o.Msg+" "+renderInputs(v.Inputs))
				}
			} else if !v.Unordered && strings.Join(o.Logs, "\n") != strings.Join(v.Logs, "\n") {
				bad = fmt.Sprintf("logs differ: engine %v real %v", v.Logs, o.Logs)
			}
			if bad != "" {
				res.mismatch++
				if len(res.mismatchMsgs) < 12 {
					res.mismatchMsgs = append(res.mismatchMsgs, v.Harness+" "+renderInputs(v.Inputs)+": "+bad)
				}
			}
		}
		per := map[string]int{}
		for i, v := range vecs {
			if per[v.Harness] < 2 && len(res.samples) < 24 && i%7 == 0 {
				per[v.Harness]++
				res.samples = append(res.samples, map[string]any{"harness": v.Harness, "inputs": renderInputs(v.Inputs), "observed": v.Logs})
			}
		}
	}
	return res
}

// loadKnown reads the committed list of findings: lines
// known: property=ID harness=NAME assert="MESSAGE" WHAT FAILS
// A listed finding is identified by the harness, whose inputs are exactly the failing ones, and the assertion.
func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) assert="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]+"|"+m[3]] = m[4]
		}
	}
	return out
}

func renderInputs(in []inputRec) string {
	var sb strings.Builder
	for i, r := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if r.Kind == "bytes" {
			b := make([]byte, len(r.Vals))
			for j, x := range r.Vals {
				b[j] = byte(x)
			}
			fmt.Fprintf(&sb, "%s=%q", r.Name, b)
		} else {
			fmt.Fprintf(&sb, "%s=%d", r.Name, r.Vals[0])
		}
	}
	return sb.String()
}

func writeEvidence(path, prop, tier string, hs []*Harness, r *Run, res *result, st *Stats, touched map[string]int, instrs int64, wall, tLoad time.Duration) {
	bounds := map[string]any{}
	reach := map[string]any{}
	vac := []string{}
	perH := map[string]any{}
	for _, h := range hs {
		bounds[h.name] = h.params
		reach[h.name] = h.reach
		if len(h.reach) == 0 {
			vac = append(vac, h.name)
		}
		perH[h.name] = map[string]any{"paths": h.paths, "outcomes": h.aborts}
	}
	fns := sortedKeys(touched)
	cov := map[string]any{
		"states":                        res.paths,
		"transitions":                   instrs,
		"traces_validated_against_impl": res.replayed,
		"samples":                       res.samples,
		"what_states_are":               "feasible symbolic paths through the real code (each covers all inputs satisfying its path condition); transitions are SSA instructions executed symbolically",
		"exhaustive":                    res.complete,
		"incomplete":                    res.incomplete,
		"bounds":                        bounds,
		"per_harness":                   perH,
		"reachability_witnesses":        reach,
		"harnesses_without_witness":     vac,
		"functions_encoded":             fns,
		"functions_encoded_count":       len(fns),
		"solver": map[string]any{
			"name": solverName(), "queries": st.queries, "sat": st.sat, "unsat": st.unsat, "unknown": st.unknown, "errors": st.errors,
			"seconds": float64(st.solverNs) / 1e9,
		},
		"branch_verdicts_from_byte_tables":              st.tableDecided,
		"byte_tables_proved_equivalent_by_solver":       st.lemmas,
		"byte_tables_of_real_ParseFloat":                st.lemmasUF,
		"byte_tables_solver_gave_up":                    st.lemmasOpen,
		"byte_table_unsat_verdicts_confirmed_by_solver": st.crossChecked,
		"byte_table_disagreements":                      st.crossBad,
		"assertions_evaluated":                          st.assertsTotal,
		"assertions_decided_by_solver":                  st.assertsSolver,
		"trace_mismatches":                              res.mismatch,
		"known_findings_reproduced":                     sortedKeys(res.known),
		"counterexamples_not_reproduced":                res.unconfirmed,
		"load_seconds":                                  tLoad.Seconds(),
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptionsFor(prop),
		"wall_s":      wall.Seconds(), "violations": len(res.violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}

func assumptionsFor(prop string) []string {
	return []string{
		"bounds: only inputs within the sizes listed under coverage.bounds",
		"goroutines run to completion where they are started; channels are unbounded",
		"strconv.FormatFloat of a symbolic float is an opaque text in one of seven shapes, the same for the same arguments",
		"strconv.ParseFloat's rounding is an uninterpreted function of the text, its syntax is executed; fmt and sync are modelled",
		"map iteration order is permuted only where the harness asks for it",
	}
}

func solverName() string {
	out, err := exec.Command(solverBin, "--version").Output()
	if err != nil {
		return solverBin
	}
	return strings.TrimSpace(string(out))
}
