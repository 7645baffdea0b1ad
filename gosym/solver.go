package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives one SMT-LIB process (z3) incrementally.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inw     io.WriteCloser
	out     *bufio.Reader
	sess    uint32
	defs    int
	ctx     *Ctx
	sb      strings.Builder
	declV   map[int]bool
	declUF  map[string]bool
	fpEqs   map[uint32]string
	timeout int // ms
	stats   *Stats
	log     io.Writer
}

type Stats struct {
	queries, sat, unsat, unknown, errors int64
	solverNs                             int64
	tableDecided                         int64
	modelDecided                         int64
	trivial                              int64
	assertsTotal, assertsSolver          int64
	crossChecked, crossBad               int64
	xsolver, xsolverBad                  int64
	lemmas, lemmasOpen, lemmasUF         int64
}

func (s *Stats) add(o *Stats) {
	s.queries += o.queries
	s.sat += o.sat
	s.unsat += o.unsat
	s.unknown += o.unknown
	s.errors += o.errors
	s.solverNs += o.solverNs
	s.tableDecided += o.tableDecided
	s.modelDecided += o.modelDecided
	s.trivial += o.trivial
	s.assertsTotal += o.assertsTotal
	s.assertsSolver += o.assertsSolver
	s.crossChecked += o.crossChecked
	s.crossBad += o.crossBad
	s.xsolver += o.xsolver
	s.xsolverBad += o.xsolverBad
	s.lemmas += o.lemmas
	s.lemmasUF += o.lemmasUF
	s.lemmasOpen += o.lemmasOpen
}

var sessCounter uint32

// solverBin is the SMT solver; sessions are restarted after maxDefs definitions, they get slower as they grow.
var solverBin, maxDefs = "z3-new", 4000

func newSolver(ctx *Ctx, stats *Stats, timeoutMs int) *Solver {
	return &Solver{bin: solverBin, args: []string{"-in", "-smt2"}, ctx: ctx, stats: stats, timeout: timeoutMs}
}

func (s *Solver) start() error {
	s.close()
	s.cmd = exec.Command(s.bin, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.sess = atomic.AddUint32(&sessCounter, 1)
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s/sess%d.smt2", d, s.sess))
	}
	s.defs = 0
	s.declV = map[int]bool{}
	s.declUF = map[string]bool{}
	s.fpEqs = map[uint32]string{}
	if strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-logic ALL)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 1 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(v uint64, w uint8) string {
	if w == 1 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		h := strconv.FormatUint(v, 16)
		return "#x" + strings.Repeat("0", int(w)/4-len(h)) + h
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (s *Solver) varName(e *Expr) string { return fmt.Sprintf("v%d_%d", e.k, e.w) }

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constStr(e.k, e.w)
	case OVar:
		key := int(e.k)<<8 | int(e.w)
		if !s.declV[key] {
			s.declV[key] = true
			fmt.Fprintf(&s.sb, "(declare-const %s %s)\n", s.varName(e), sortName(e.w))
		}
		return s.varName(e)
	}
	if e.smtSess != s.sess {
		s.define(e)
	}
	return "n" + strconv.FormatUint(uint64(e.id), 10)
}

func fpOf(ref string, fw uint8) string {
	if fw == 32 {
		return "((_ to_fp 8 24) " + ref + ")"
	}
	return "((_ to_fp 11 53) " + ref + ")"
}

func (s *Solver) define(e *Expr) {
	refs := make([]string, len(e.args))
	for i, a := range e.args {
		refs[i] = s.ref(a)
	}
	var body string
	app := func(f string) string { return "(" + f + " " + strings.Join(refs, " ") + ")" }
	switch e.op {
	case ONot:
		body = app("not")
	case OAnd:
		body = app("and")
	case OOr:
		body = app("or")
	case OEq:
		body = app("=")
	case OIte:
		body = app("ite")
	case OLin:
		var parts []string
		for i, r := range refs {
			switch {
			case e.coefs[i] == 1:
				parts = append(parts, r)
			case e.coefs[i] == maskW(e.w):
				parts = append(parts, "(bvneg "+r+")")
			default:
				parts = append(parts, "(bvmul "+constStr(e.coefs[i], e.w)+" "+r+")")
			}
		}
		if e.k != 0 {
			parts = append(parts, constStr(e.k, e.w))
		}
		if len(parts) == 1 {
			body = parts[0]
		} else {
			body = parts[0]
			for _, p := range parts[1:] {
				body = "(bvadd " + body + " " + p + ")"
			}
		}
	case OMul:
		body = app("bvmul")
	case OMulHi:
		body = "((_ extract 127 64) (bvmul ((_ zero_extend 64) " + refs[0] + ") ((_ zero_extend 64) " + refs[1] + ")))"
	case OUDiv:
		body = app("bvudiv")
	case OSDiv:
		body = app("bvsdiv")
	case OURem:
		body = app("bvurem")
	case OSRem:
		body = app("bvsrem")
	case OBAnd:
		body = app("bvand")
	case OBOr:
		body = app("bvor")
	case OBXor:
		body = app("bvxor")
	case OShl:
		body = app("bvshl")
	case OLShr:
		body = app("bvlshr")
	case OAShr:
		body = app("bvashr")
	case OZExt:
		if e.args[0].w == 1 {
			body = "(ite " + refs[0] + " " + constStr(1, e.w) + " " + constStr(0, e.w) + ")"
		} else {
			body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.args[0].w, refs[0])
		}
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.args[0].w, refs[0])
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, refs[0])
	case OUlt:
		body = app("bvult")
	case OUle:
		body = app("bvule")
	case OSlt:
		body = app("bvslt")
	case OSle:
		body = app("bvsle")
	case OTab:
		// run-length ite over the index
		idx := refs[0]
		iw := e.args[0].w
		body = constStr(e.tab.vals[len(e.tab.vals)-1], e.w)
		for i := len(e.tab.vals) - 2; i >= 0; i-- {
			if e.tab.vals[i] != e.tab.vals[i+1] {
				if iw < 64 && uint64(i) > maskW(iw) {
					continue
				}
				body = "(ite (bvule " + idx + " " + constStr(uint64(i), iw) + ") " + constStr(e.tab.vals[i], e.w) + " " + body + ")"
			}
		}
	case OUF:
		key := e.name
		for _, a := range e.args {
			key += "_" + strconv.Itoa(int(a.w))
		}
		if !s.declUF[key] {
			s.declUF[key] = true
			var ss []string
			for _, a := range e.args {
				ss = append(ss, sortName(a.w))
			}
			fmt.Fprintf(&s.sb, "(declare-fun uf_%s (%s) %s)\n", key, strings.Join(ss, " "), sortName(e.w))
		}
		body = app("uf_" + key)
		if len(refs) == 0 {
			body = "uf_" + key
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		// result as a bit pattern needs an axiomatised variable; encode by fresh constant constrained via to_fp
		op := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[e.op]
		s.fpDef(e, "("+op+" RNE "+fpOf(refs[0], e.fw)+" "+fpOf(refs[1], e.fw)+")", e.fw)
		return
	case OFNeg:
		body = "(bvxor " + refs[0] + " " + constStr(uint64(1)<<(e.fw-1), e.w) + ")"
	case OFLt:
		body = "(fp.lt " + fpOf(refs[0], e.fw) + " " + fpOf(refs[1], e.fw) + ")"
	case OFLe:
		body = "(fp.leq " + fpOf(refs[0], e.fw) + " " + fpOf(refs[1], e.fw) + ")"
	case OFEq:
		body = "(fp.eq " + fpOf(refs[0], e.fw) + " " + fpOf(refs[1], e.fw) + ")"
	case OFIsNaN:
		body = "(fp.isNaN " + fpOf(refs[0], e.fw) + ")"
	case OFToS:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", e.w, fpOf(refs[0], e.fw))
	case OFToU:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", e.w, fpOf(refs[0], e.fw))
	case OSToF:
		f := "((_ to_fp 11 53) RNE "
		if e.fw == 32 {
			f = "((_ to_fp 8 24) RNE "
		}
		s.fpDef(e, f+refs[0]+")", e.fw)
		return
	case OUToF:
		f := "((_ to_fp_unsigned 11 53) RNE "
		if e.fw == 32 {
			f = "((_ to_fp_unsigned 8 24) RNE "
		}
		s.fpDef(e, f+refs[0]+")", e.fw)
		return
	case OFCvt:
		f := "((_ to_fp 11 53) RNE "
		if e.w == 32 {
			f = "((_ to_fp 8 24) RNE "
		}
		s.fpDef(e, f+fpOf(refs[0], e.fw)+")", e.w)
		return
	default:
		panic(fmt.Sprintf("smt: op %d", e.op))
	}
	fmt.Fprintf(&s.sb, "(define-fun n%d () %s %s)\n", e.id, sortName(e.w), body)
	e.smtSess = s.sess
	s.defs++
}

// fpDef introduces a bit-vector constant whose floating-point reading equals body.  The defining equation is
// asserted in every query the constant takes part in; it is total (every float has a bit pattern), hence it never
// constrains other variables.
func (s *Solver) fpDef(e *Expr, body string, fw uint8) {
	fmt.Fprintf(&s.sb, "(declare-const n%d (_ BitVec %d))\n", e.id, fw)
	s.fpEqs[e.id] = fmt.Sprintf("(assert (= %s %s))\n", fpOf(fmt.Sprintf("n%d", e.id), fw), body)
	e.smtSess = s.sess
	s.defs++
}

var debugSlow = os.Getenv("GOSYM_SLOW") != ""

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "....." + s[len(s)-n/2:]
	}
	return s
}

// fpDeps asserts the defining equations of the floating-point constants e depends on.
func (s *Solver) fpDeps(e *Expr, seen map[uint32]bool) {
	if len(e.args) == 0 || seen[e.id] {
		return
	}
	seen[e.id] = true
	if t, ok := s.fpEqs[e.id]; ok {
		s.sb.WriteString(t)
	}
	for _, a := range e.args {
		s.fpDeps(a, seen)
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides the conjunction of the constraints; on Sat the values of vars are returned.
func (s *Solver) Check(cons []*Expr, vars []*Expr) (Result, []uint64) {
	if s.cmd == nil || s.defs > maxDefs {
		if err := s.start(); err != nil {
			s.stats.errors++
			return Unknown, nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.stats.solverNs += d.Nanoseconds()
		if debugSlow && d > 50*time.Millisecond {
			fmt.Printf("SLOW %v defs=%d len=%d %s\n", d, s.defs, s.sb.Len(), trunc(s.sb.String(), 1500))
		}
	}()
	s.stats.queries++
	s.sb.Reset()
	refs := make([]string, len(cons))
	for i, c := range cons {
		refs[i] = s.ref(c)
	}
	vrefs := make([]string, len(vars))
	for i, v := range vars {
		vrefs[i] = s.ref(v)
	}
	s.sb.WriteString("(push)\n")
	if len(s.fpEqs) > 0 {
		seen := map[uint32]bool{}
		for _, c := range cons {
			s.fpDeps(c, seen)
		}
	}
	for _, r := range refs {
		s.sb.WriteString("(assert " + r + ")\n")
	}
	s.sb.WriteString("(check-sat)\n")
	if s.log != nil {
		io.WriteString(s.log, s.sb.String())
	}
	s.in.WriteString(s.sb.String())
	if err := s.in.Flush(); err != nil {
		s.stats.errors++
		s.close()
		return Unknown, nil
	}
	res := Unknown
	line, ok := s.readLine(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second)
	if !ok {
		s.stats.errors++
		s.close()
		return Unknown, nil
	}
	bad := false
	for strings.HasPrefix(line, "(error") || strings.HasPrefix(line, "WARNING") {
		bad = true
		debugf("solver error: %s", line)
		line, ok = s.readLine(5 * time.Second)
		if !ok {
			s.stats.errors++
			s.close()
			return Unknown, nil
		}
	}
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	if bad {
		s.stats.errors++
		s.close()
		return Unknown, nil
	}
	var model []uint64
	if res == Sat && len(vars) > 0 {
		fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(vrefs, " "))
		s.in.Flush()
		if s.log != nil {
			fmt.Fprintf(s.log, "(get-value (%s))\n", strings.Join(vrefs, " "))
		}
		txt, ok := s.readSexp()
		if !ok {
			s.stats.errors++
			s.close()
			return Unknown, nil
		}
		model = parseValues(txt, len(vars))
		if model == nil {
			s.stats.errors++
			s.close()
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop)\n")
	if s.log != nil {
		io.WriteString(s.log, "(pop)\n")
	}
	switch res {
	case Sat:
		s.stats.sat++
	case Unsat:
		s.stats.unsat++
	default:
		s.stats.unknown++
	}
	return res, model
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	type rl struct {
		s   string
		err error
	}
	timer := time.AfterFunc(d, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	line, err := s.out.ReadString('\n')
	timer.Stop()
	if err != nil {
		return "", false
	}
	return strings.TrimSpace(line), true
}

func (s *Solver) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	for {
		line, ok := s.readLine(10 * time.Second)
		if !ok {
			return "", false
		}
		sb.WriteString(line)
		sb.WriteByte(' ')
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 {
			return sb.String(), true
		}
	}
}

func parseValues(txt string, n int) []uint64 {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	var out []uint64
	// ((name value) (name value) ...) where value may be (_ bvN w)
	i := 1
	for i < len(toks) && toks[i] == "(" {
		i += 2
		if i >= len(toks) {
			return nil
		}
		v := toks[i]
		switch {
		case v == "true":
			out = append(out, 1)
			i++
		case v == "false":
			out = append(out, 0)
			i++
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
			i++
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
			i++
		case v == "(":
			if i+3 < len(toks) && strings.HasPrefix(toks[i+2], "bv") {
				x, err := strconv.ParseUint(toks[i+2][2:], 10, 64)
				if err != nil {
					return nil
				}
				out = append(out, x)
				i += 5
			} else {
				return nil
			}
		default:
			return nil
		}
		if i >= len(toks) || toks[i] != ")" {
			return nil
		}
		i++
	}
	if len(out) != n {
		return nil
	}
	return out
}
