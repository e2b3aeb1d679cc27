package main

import (
	"fmt"
	"go/token"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type witIn struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

// cex is a candidate counterexample; it becomes a violation when the native run fails as well.
type cex struct {
	Msg    string
	Origin string // assertion, panic, race, sample ...
	Inputs []witIn
	Native *replayResp
	Race   bool
}

type Explorer struct {
	P          *Program
	prop       string
	entry      *ssa.Function
	thorough   bool
	solverBin  string
	solverArgs []string
	maxSteps   int
	deadline   time.Time
	branchMs   int
	assertMs   int
	rep        *Replayer
	workers    int
	sampleEach int

	mu       sync.Mutex
	cond     *sync.Cond
	work     [][]int32
	busy     int
	stop     bool
	known    map[string]bool
	rng      uint64
	viol     []*cex
	knownHit map[string]*cex
	tried    map[string]int

	// statistics
	paths, completed, infeasible, assumed int
	unsup, aborted, inconcl, panics       map[string]int
	unconf                                map[string]int
	samples                               [][]witIn
	validated, mismatches                 int
	mismatchEx                            []string
	queries, unknowns                     int
	solverTime                            time.Duration
	folded, discharged, realDischarged    int
	crossed, crossDisagree                int
	reach                                 map[string]int
	covered                               map[string]bool
	steps                                 int64
	notes                                 map[string]int
	pathDecs                              int64
	sampleCount                           int
}

func newExplorer(P *Program, prop string, entry *ssa.Function) *Explorer {
	ex := &Explorer{P: P, prop: prop, entry: entry, workers: 8, solverBin: "z3", solverArgs: []string{"-in"},
		maxSteps: 3000000, branchMs: 3000, assertMs: 10000, sampleEach: 40,
		known: map[string]bool{}, knownHit: map[string]*cex{}, tried: map[string]int{},
		unsup: map[string]int{}, aborted: map[string]int{}, inconcl: map[string]int{}, panics: map[string]int{}, unconf: map[string]int{},
		reach: map[string]int{}, covered: map[string]bool{}, notes: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(prefix []int32) {
	ex.mu.Lock()
	ex.work = append(ex.work, prefix)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) absorb(s *Solver) {
	ex.mu.Lock()
	ex.queries += s.queries
	ex.unknowns += s.unknowns
	ex.solverTime += s.time
	ex.mu.Unlock()
}

func (ex *Explorer) run() {
	ex.work = [][]int32{nil}
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rng := uint64(i)*0x9e3779b97f4a7c15 + 1
			in := newInterp(ex.P, ex)
			defer func() {
				ex.absorb(in.sol)
				in.sol.close()
				if in.sol2 != nil {
					ex.absorb(in.sol2)
					in.sol2.close()
				}
				ex.mu.Lock()
				for k := range in.covered {
					ex.covered[k] = true
				}
				ex.mu.Unlock()
			}()
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.busy > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.work) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				if time.Now().After(ex.deadline) {
					ex.aborted["time budget"] += len(ex.work)
					ex.work = nil
					ex.mu.Unlock()
					ex.cond.Broadcast()
					continue
				}
				// most workers go deep; two take other scenarios early, so that none waits for a hard one to end
				n := len(ex.work) - 1
				j := n
				switch i {
				case 0:
					j = 0
				case 1:
					rng ^= rng << 13
					rng ^= rng >> 7
					rng ^= rng << 17
					j = int(rng>>1) % (n + 1)
				}
				p := ex.work[j]
				if j == 0 {
					ex.work = ex.work[1:]
				} else {
					ex.work[j] = ex.work[n]
					ex.work = ex.work[:n]
				}
				ex.busy++
				ex.mu.Unlock()
				if in.tt.n > 400000 {
					in.fresh()
				}
				in.path(p)
				ex.mu.Lock()
				ex.busy--
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
}

type inconclusive struct{ why string }

func (in *Interp) path(prefix []int32) {
	ex := in.ex
	in.reset(prefix)
	kind, why := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case unsupported:
				kind, why = "unsupported", x.why
				if in.curFrame != nil {
					why += " at " + in.where(in.curFrame)
				}
			case abortPath:
				kind, why = "abort", x.why
			case targetPanic:
				kind, why = "panic", in.panicText(x.v)
			case pathFailed:
				kind, why = "failed", x.msg
			default:
				kind, why = "unsupported", fmt.Sprintf("engine: %v", r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, why)
					debug.PrintStack()
					for f := in.curFrame; f != nil; f = f.caller {
						fmt.Fprintln(os.Stderr, "   in", f.fn, in.P.prog.Fset.Position(f.pos))
					}
				}
			}
		}()
		in.call(nil, ex.entry, nil, nil)
	}()
	ex.mu.Lock()
	ex.paths++
	n := ex.paths
	ex.steps += int64(in.steps)
	ex.pathDecs += int64(len(in.dec))
	switch kind {
	case "ok":
		ex.completed++
	case "abort":
		switch why {
		case "infeasible":
			ex.infeasible++
		case "assume":
			ex.assumed++
		default:
			ex.aborted[why]++
		}
	case "unsupported":
		ex.unsup[why]++
	case "panic":
		ex.panics[why]++
	}
	for _, r := range in.reached {
		if kind == "ok" {
			ex.reach[r]++
		}
	}
	for _, r := range in.inconcl {
		ex.inconcl[r]++
	}
	for _, r := range in.pathNote {
		ex.notes[r]++
	}
	firstUns := ex.unsup[why] <= 20
	sample := kind == "ok" && (ex.sampleCount < 24 || n%ex.sampleEach == 0)
	if sample {
		ex.sampleCount++
	}
	ex.mu.Unlock()

	switch {
	case kind == "panic":
		in.candidate("panic: "+why, "panic", nil)
	case kind == "unsupported" && firstUns:
		// outside the encoding: the path's own model is run natively
		in.candidate("on a path outside the encoding ("+why+")", "fallback", nil)
	case kind == "abort" && (why == "step bound" || why == "recursion depth bound") && firstUns:
		in.candidate("on a path beyond the bound ("+why+")", "fallback", nil)
	case sample:
		in.sample()
	}
}

func (in *Interp) panicText(v value) string {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	s := i.t.String()
	if x, ok := i.v.(Str); ok {
		s = x.dbg()
	}
	return s
}

// witness returns concrete inputs for the current path condition and an extra condition.
func (in *Interp) witness(extra *Term, ms int) ([]witIn, map[*Term]uint64) {
	if extra == nil && in.model != nil && !in.approx {
		return in.inputsOf(in.model), in.model
	}
	pc := append([]*Term{}, in.pc...)
	tt := in.tt
	for iter := 0; iter < 12; iter++ {
		r, m := in.sol.check(pc, extra, ms, in.pathVars)
		if r == unknown {
			c := extra
			if c == nil {
				c = tt.T
			}
			if m := in.guess(c); m != nil {
				return in.inputsOf(m), m
			}
		}
		if r != sat {
			return nil, nil
		}
		uf := in.approx || (extra != nil && extra.uf)
		if !uf {
			return in.inputsOf(m), m
		}
		// refine the uninterpreted functions at the points of this model
		memo := map[*Term]uint64{}
		ok := true
		all := append([]*Term{}, in.pc...)
		if extra != nil {
			all = append(all, extra)
		}
		for _, c := range all {
			if evalTerm(c, m, memo, tt) == 0 {
				ok = false
			}
		}
		if ok {
			return in.inputsOf(m), m
		}
		seen := map[*Term]bool{}
		n := 0
		for _, c := range all {
			n += in.ufPoints(c, m, memo, seen, &pc)
		}
		if n == 0 {
			return nil, nil
		}
	}
	return nil, nil
}

func (in *Interp) ufPoints(x *Term, m map[*Term]uint64, memo map[*Term]uint64, seen map[*Term]bool, pc *[]*Term) int {
	if !x.uf || seen[x] {
		return 0
	}
	seen[x] = true
	n := 0
	for _, a := range x.args {
		n += in.ufPoints(a, m, memo, seen, pc)
	}
	if x.op == OUF {
		tt := in.tt
		c := tt.T
		for _, a := range x.args {
			c = tt.And(c, tt.Eq(a, tt.mk(OConst, a.sort, evalTerm(a, m, memo, tt), "")))
		}
		v := tt.mk(OConst, x.sort, evalTerm(x, m, memo, tt), "")
		*pc = append(*pc, tt.Or(tt.Not(c), tt.Eq(x, v)))
		n++
	}
	return n
}

func (in *Interp) inputsOf(m map[*Term]uint64) []witIn {
	var r []witIn
	for _, i := range in.inputs {
		v := uint64(i.c)
		if i.t != nil {
			v = m[i.t]
		}
		r = append(r, witIn{i.Name, i.Kind, "0x" + strconv.FormatUint(v, 16)})
	}
	return r
}

type pathFailed struct{ msg string }

// candidate asks the solver for inputs of the current path (and extra) and replays them natively.
// It reports whether a violation was confirmed.
func (in *Interp) candidate(msg, origin string, extra *Term) bool {
	w, m := in.witness(extra, in.ex.assertMs)
	if w == nil {
		if origin == "assert" {
			in.ex.note(in.ex.unconf, msg+" (no concrete inputs found)")
		}
		return false
	}
	_ = m
	return in.ex.try(msg, origin, w)
}

func (ex *Explorer) note(m map[string]int, s string) {
	ex.mu.Lock()
	m[s]++
	ex.mu.Unlock()
}

// try replays inputs natively; a native failure is a violation (or a listed known finding).
func (ex *Explorer) try(msg, origin string, w []witIn) bool {
	ex.mu.Lock()
	if ex.stop {
		ex.mu.Unlock()
		return true
	}
	ex.tried[origin+msg]++
	n := ex.tried[origin+msg]
	ex.mu.Unlock()
	if n > 200 {
		return false
	}
	rs := ex.rep.run(ex.prop, ex.thorough, w, origin == "race" || origin == "perm")
	if rs == nil {
		ex.note(ex.unconf, msg+" (native run unavailable)")
		return false
	}
	if rs.Status == "fail" || rs.Status == "panic" || rs.Status == "hang" || rs.Status == "race" || rs.Status == "crash" {
		key := rs.Msg
		if rs.Status == "panic" {
			key = "panic: " + rs.Msg
		}
		c := &cex{Msg: key, Origin: origin + ": " + msg, Inputs: w, Native: rs}
		ex.mu.Lock()
		defer ex.mu.Unlock()
		for k := range ex.known {
			if strings.HasPrefix(key, k) {
				if ex.knownHit[k] == nil {
					ex.knownHit[k] = c
				}
				return true
			}
		}
		ex.viol = append(ex.viol, c)
		ex.stop = true
		ex.cond.Broadcast()
		return true
	}
	if origin != "fallback" {
		ex.note(ex.unconf, msg+" (native run: "+rs.Status+")")
	}
	return false
}

// report is a violation detected by the engine itself (a race).
func (in *Interp) report(kind, msg string) {
	w, _ := in.witness(nil, in.ex.assertMs)
	if w == nil {
		in.ex.note(in.ex.unconf, msg+" (no concrete inputs found)")
		panic(abortPath{"unconfirmed " + kind})
	}
	if in.ex.try(msg, kind, w) {
		panic(pathFailed{msg})
	}
	panic(abortPath{"unconfirmed " + kind})
}

func (in *Interp) assertTerm(t *Term, msg string) {
	ex := in.ex
	in.asserts++
	c := in.simp(t)
	if c.isTrue() {
		ex.mu.Lock()
		ex.folded++
		ex.mu.Unlock()
		return
	}
	if c.isFalse() {
		if in.failAt(msg, nil) {
			panic(pathFailed{msg})
		}
		in.inconcl = append(in.inconcl, msg)
		panic(abortPath{"assertion false but not confirmed natively"})
	}
	neg := in.tt.Not(c)
	r := unsat
	if !in.refuted(neg) {
		r, _ = in.sol.check(in.pc, neg, ex.assertMs, nil)
	}
	switch r {
	case unsat:
		ex.mu.Lock()
		ex.discharged++
		cross := ex.thorough && ex.crossed < 60
		ex.mu.Unlock()
		if cross {
			in.crossCheck(neg)
		}
		in.addLit(c, true)
		return
	case sat:
		if in.failAt(msg, neg) {
			panic(pathFailed{msg})
		}
	default:
		if m := in.guess(neg); m != nil && ex.try(msg, "assert", in.inputsOf(m)) {
			panic(pathFailed{msg})
		}
	}
	in.inconcl = append(in.inconcl, msg)
	in.assume(c, true)
}

func (in *Interp) failAt(msg string, extra *Term) bool {
	o := "assert"
	if in.permute {
		o = "perm"
	}
	return in.candidate(msg, o, extra)
}

// crossCheck asks a second solver about a discharged query.
func (in *Interp) crossCheck(neg *Term) {
	s := newSolver("cvc5", "--incremental", "--lang=smt2", "--fp-exp")
	defer s.close()
	r, _ := s.check(in.pc, neg, 20000, nil)
	ex := in.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch r {
	case unsat:
		ex.crossed++
	case sat:
		ex.crossDisagree++
	}
}

func (in *Interp) assertClose(a, b *Term, msg string) {
	ex := in.ex
	in.asserts++
	if a == b {
		ex.mu.Lock()
		ex.folded++
		ex.mu.Unlock()
		return
	}
	tt := in.tt
	a, b = tt.noZero(a), tt.noZero(b)
	if a == b {
		ex.mu.Lock()
		ex.folded++
		ex.mu.Unlock()
		return
	}
	if a.isConst() && b.isConst() {
		x, y := a.f(), b.f()
		if close64(x, y) {
			ex.mu.Lock()
			ex.folded++
			ex.mu.Unlock()
			return
		}
		if in.failAt(msg, nil) {
			panic(pathFailed{msg})
		}
		in.inconcl = append(in.inconcl, msg)
		return
	}
	same := tt.Or(tt.FCmp(OFEq, a, b), tt.And(tt.FIsNaN(a), tt.FIsNaN(b)))
	neg := tt.Not(in.simp(same))
	if neg.isFalse() {
		ex.mu.Lock()
		ex.folded++
		ex.mu.Unlock()
		return
	}
	if in.normEqual(a, b) {
		ex.mu.Lock()
		ex.realDischarged++
		ex.mu.Unlock()
		return
	}
	quick := fpCost(a, map[*Term]bool{})+fpCost(b, map[*Term]bool{}) <= 2
	ms := 1500
	if quick {
		ms = ex.assertMs
	} else {
		// over the reals: equal up to rounding for every input
		rr, ms2 := in.realCheck(a, b)
		if rr == unsat {
			ex.mu.Lock()
			ex.realDischarged++
			ex.mu.Unlock()
			return
		}
		for _, m := range ms2 {
			if w := in.closeWitness(m, a, b); w != nil {
				if ex.try(msg, "assert", w) {
					panic(pathFailed{msg})
				}
			}
		}
	}
	r, m := in.sol.check(in.pc, neg, ms, in.pathVars)
	if r == unsat {
		ex.mu.Lock()
		ex.discharged++
		ex.mu.Unlock()
		return
	}
	if r == sat && m != nil {
		if w := in.closeWitness(m, a, b); w != nil {
			if ex.try(msg, "assert", w) {
				panic(pathFailed{msg})
			}
		}
	}
	if quick {
		rr, ms2 := in.realCheck(a, b)
		if rr == unsat {
			ex.mu.Lock()
			ex.realDischarged++
			ex.mu.Unlock()
			return
		}
		for _, m := range ms2 {
			if w := in.closeWitness(m, a, b); w != nil {
				if ex.try(msg, "assert", w) {
					panic(pathFailed{msg})
				}
			}
		}
	}
	// bit-precise search for a gross difference, and models of the path
	gross := tt.Or(tt.Not(tt.FCmp(OFLe, tt.FAbs(tt.FOp(OFSub, a, b)), tt.F64(0.25))), tt.F)
	if w, m := in.witness(gross, ex.assertMs); w != nil {
		_ = m
		if ex.try(msg, "assert", w) {
			panic(pathFailed{msg})
		}
	}
	// and of a smaller one at inputs of moderate size, where rounding cannot explain it
	diff := tt.Not(tt.FCmp(OFLe, tt.FAbs(tt.FOp(OFSub, a, b)), tt.FOp(OFAdd, tt.F64(1e-3), tt.FOp(OFMul, tt.F64(1e-3), tt.FOp(OFAdd, tt.FAbs(a), tt.FAbs(b))))))
	for _, v := range in.pathVars {
		if v.sort.k == KF64 {
			diff = tt.And(diff, tt.FCmp(OFLe, tt.FAbs(v), tt.F64(1e5)))
		}
	}
	if m := in.guess(diff); m != nil {
		if ex.try(msg, "assert", in.inputsOf(m)) {
			panic(pathFailed{msg})
		}
	}
	in.inconcl = append(in.inconcl, msg)
}

func close64(x, y float64) bool {
	if x == y || (x != x && y != y) {
		return true
	}
	return !(math.IsInf(x, 0) || math.IsInf(y, 0) || x != x || y != y || math.Abs(x-y) > 1e-9*(math.Abs(x)+math.Abs(y))+1e-9)
}

// closeWitness checks a model natively on the terms: the path condition holds and a, b differ by more than rounding.
func (in *Interp) closeWitness(m map[*Term]uint64, a, b *Term) []witIn {
	memo := map[*Term]uint64{}
	for _, c := range in.pc {
		if evalTerm(c, m, memo, in.tt) == 0 {
			return nil
		}
	}
	x := in.tt.mk(OConst, a.sort, evalTerm(a, m, memo, in.tt), "").f()
	y := in.tt.mk(OConst, b.sort, evalTerm(b, m, memo, in.tt), "").f()
	if close64(x, y) {
		return nil
	}
	return in.inputsOf(m)
}

func fpCost(x *Term, seen map[*Term]bool) int {
	if seen[x] {
		return 0
	}
	seen[x] = true
	n := 0
	switch x.op {
	case OFAdd, OFSub:
		n = 1
	case OFMul:
		n = 2
	case OFDiv, OFSqrt:
		n = 4
	}
	for _, a := range x.args {
		n += fpCost(a, seen)
	}
	return n
}

// sample runs a completed path's model natively and compares the observed values (validation of the encoding).
func (in *Interp) sample() {
	ex := in.ex
	w, m := in.witness(nil, ex.branchMs)
	if w == nil {
		return
	}
	rs := ex.rep.run(ex.prop, ex.thorough, w, false)
	if rs == nil {
		return
	}
	if rs.Status != "ok" && rs.Status != "assume" {
		if in.permute && rs.Status == "fail" {
			ex.try(rs.Msg, "perm", w)
			return
		}
		if in.approx {
			// the model of an uninterpreted function is not the real one
		}
		if ex.try(rs.Msg, "sample", w) {
			return
		}
	}
	if in.permute || in.approx || rs.Status != "ok" {
		return
	}
	memo := map[*Term]uint64{}
	ok := len(rs.Obs) == len(in.obs) && rs.Missing == 0
	why := ""
	if !ok {
		why = fmt.Sprintf("native run observed %d values (%d inputs missing), encoding %d", len(rs.Obs), rs.Missing, len(in.obs))
	}
	for i, o := range in.obs {
		if !ok {
			break
		}
		s := o.name + "=" + in.obsText(o.v, m, memo)
		if s != rs.Obs[i] {
			ok = false
			why = "encoding " + s + ", native " + rs.Obs[i]
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ok {
		ex.validated++
		if len(ex.samples) < 5 {
			ex.samples = append(ex.samples, w)
		}
	} else {
		ex.mismatches++
		if len(ex.mismatchEx) < 5 {
			ex.mismatchEx = append(ex.mismatchEx, fmt.Sprintf("%s on %v", why, w))
		}
	}
}

func (in *Interp) obsText(v value, m, memo map[*Term]uint64) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		u := evalTerm(x, m, memo, in.tt)
		switch x.sort.k {
		case KBool:
			return fmt.Sprintf("b:%v", u == 1)
		case KF64:
			f := math.Float64frombits(u)
			if f != f {
				return "f:nan"
			}
			return fmt.Sprintf("f:%x", u)
		case KF32:
			f := math.Float32frombits(uint32(u))
			if f != f {
				return "f:nan"
			}
			return fmt.Sprintf("g:%x", u)
		}
		c := in.tt.mk(OConst, x.sort, u, "")
		return fmt.Sprintf("i:%d", c.sval())
	case Str:
		return "s:" + in.strText(x, m, memo)
	case iface:
		if x.t == nil {
			return "nil"
		}
		return in.obsText(x.v, m, memo)
	case *value:
		return "error"
	}
	return "?"
}

func (in *Interp) strText(x Str, m, memo map[*Term]uint64) string {
	if x.conc() {
		return x.s
	}
	var sb strings.Builder
	for _, g := range x.segs {
		if g.o != nil {
			c := in.tt.mk(OConst, g.o.t.sort, evalTerm(g.o.t, m, memo, in.tt), "")
			sb.WriteString(opqConst(g.o.kind, c))
		} else {
			sb.WriteByte(byte(evalTerm(g.b, m, memo, in.tt)))
		}
	}
	return sb.String()
}

// ---- relaxation to real arithmetic ----

type realEnc struct {
	defs  strings.Builder
	names map[*Term]string
	vars  []*Term
	ok    bool
	uf    map[string]bool
	extra []string
}

func (e *realEnc) ratConst(f float64) string {
	if math.IsInf(f, 0) || f != f {
		e.ok = false
		return "0.0"
	}
	s := strconv.FormatFloat(math.Abs(f), 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	if f < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (e *realEnc) enc(x *Term) string {
	if s, ok := e.names[x]; ok {
		return s
	}
	if x.op == OConst {
		switch x.sort.k {
		case KBool:
			return smtConst(x)
		case KF64, KF32:
			return e.ratConst(x.f())
		}
		if v := x.sval(); v < 0 {
			return strings.Replace(fmt.Sprintf("(- %d)", v), "(- -", "(- ", 1)
		}
		return fmt.Sprintf("%d", x.sval())
	}
	a := make([]string, len(x.args))
	for i, y := range x.args {
		a[i] = e.enc(y)
	}
	srt := map[Kind]string{KBool: "Bool", KF64: "Real", KF32: "Real", KBV: "Int"}[x.sort.k]
	name := "r" + strconv.Itoa(x.id)
	body := ""
	un := func(f string) { body = "(" + f + " " + strings.Join(a, " ") + ")" }
	switch x.op {
	case OVar:
		e.vars = append(e.vars, x)
		fmt.Fprintf(&e.defs, "(declare-const %s %s)\n", name, srt)
		if x.sort.k == KBV {
			lim := "9223372036854775808"
			if x.sort.w < 64 {
				e.ok = false
			}
			fmt.Fprintf(&e.defs, "(assert (and (<= (- %s) %s) (< %s %s)))\n", lim, name, name, lim)
		}
		e.names[x] = name
		return name
	case ONot:
		un("not")
	case OAnd:
		un("and")
	case OOr:
		un("or")
	case OIte:
		un("ite")
	case OEq, OFEq:
		un("=")
	case OFAdd:
		un("+")
	case OFSub:
		un("-")
	case OFMul:
		un("*")
	case OFDiv:
		un("/")
		e.extra = append(e.extra, "(not (= "+a[1]+" 0.0))")
	case OFNeg:
		un("-")
	case OFAbs:
		body = "(ite (< " + a[0] + " 0.0) (- " + a[0] + ") " + a[0] + ")"
	case OFLt:
		un("<")
	case OFLe:
		un("<=")
	case OFIsNaN, OFIsInf:
		body = "false"
	case OFtoF:
		body = a[0]
		if x.sort.k == KF32 {
			body = e.narrow(a[0])
		}
	case OStoF:
		body = "(to_real " + a[0] + ")"
	case OSlt:
		un("<")
	case OAdd:
		un("+")
	case OSub:
		un("-")
	case OFRound:
		switch x.val {
		case 3:
			body = "(to_real (to_int " + a[0] + "))"
		case 2:
			body = "(- (to_real (to_int (- " + a[0] + "))))"
		case 4:
			body = "(ite (< " + a[0] + " 0.0) (- (to_real (to_int (- " + a[0] + ")))) (to_real (to_int " + a[0] + ")))"
		default:
			e.ok = false
			body = a[0]
		}
	case OFSqrt:
		fmt.Fprintf(&e.defs, "(declare-const %s Real)\n(assert (and (>= %s 0.0) (= (* %s %s) %s)))\n", name, name, name, name, a[0])
		e.names[x] = name
		return name
	case OUF:
		if !e.uf[x.name] {
			e.uf[x.name] = true
			fmt.Fprintf(&e.defs, "(declare-fun uf_%s (%s) Real)\n", x.name, strings.TrimSpace(strings.Repeat("Real ", len(a))))
		}
		un("uf_" + x.name)
		if x.name == "exp" {
			e.extra = append(e.extra, "(> "+body+" 0.0)")
		}
	default:
		e.ok = false
		switch x.sort.k {
		case KBool:
			body = "true"
		case KBV:
			body = "0"
		default:
			body = "0.0"
		}
	}
	if x.sort.k == KF32 {
		switch x.op {
		case OFAdd, OFSub, OFMul, OFDiv, OStoF:
			body = e.narrow(body)
		}
	}
	fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", name, srt, body)
	e.names[x] = name
	return name
}

// narrow is rounding to single precision: some function that stays close to its argument.
func (e *realEnc) narrow(x string) string {
	if !e.uf["narrow"] {
		e.uf["narrow"] = true
		e.defs.WriteString("(declare-fun uf_narrow (Real) Real)\n")
	}
	r := "(uf_narrow " + x + ")"
	abs := "(ite (< " + x + " 0.0) (- " + x + ") " + x + ")"
	e.extra = append(e.extra, "(<= (- "+r+" "+x+") (+ (* 0.0000001 "+abs+") 0.0000001))", "(<= (- "+x+" "+r+") (+ (* 0.0000001 "+abs+") 0.0000001))")
	return r
}

func (in *Interp) realCheck(a, b *Term) (satRes, []map[*Term]uint64) {
	e := &realEnc{names: map[*Term]string{}, ok: true, uf: map[string]bool{}}
	var asserts []string
	for _, c := range in.pc {
		save := e.ok
		s := e.enc(c)
		if !e.ok && save { // a conjunct outside the fragment is dropped (sound for unsat)
			e.ok = true
			continue
		}
		asserts = append(asserts, s)
	}
	x, y := e.enc(a), e.enc(b)
	if !e.ok {
		return unknown, nil
	}
	asserts = append(asserts, e.extra...)
	base := e.defs.String()
	for _, s := range asserts {
		base += "(assert " + s + ")\n"
	}
	diff := func(tol, scale string) string {
		return fmt.Sprintf("(let ((d (- %s %s))) (or (> d %s) (< d (- %s))))", x, y, tol, tol)
	}
	s := newSolver("z3", "-in")
	defer func() { in.ex.absorb(s); s.close() }()
	var models []map[*Term]uint64
	res := unknown
	for i, tol := range []string{"0.0", "0.5", "0.01"} {
		s.send("(push 1)")
		s.send(base)
		s.send("(assert " + diff(tol, "") + ")")
		ms := 4000
		if in.ex.thorough {
			ms = 20000
		}
		s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
		s.send("(set-option :pp.decimal true)")
		s.send("(set-option :pp.decimal_precision 17)")
		s.send("(check-sat)")
		s.in.Flush()
		s.queries++
		t0 := time.Now()
		l, err := s.readLine(time.Duration(ms)*time.Millisecond*3/2 + 5*time.Second)
		s.time += time.Since(t0)
		if err != nil {
			s.dead = true
			break
		}
		if i == 0 {
			switch l {
			case "unsat":
				return unsat, nil
			case "sat":
				res = sat
			}
		}
		if l == "sat" && len(e.vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range e.vars {
				sb.WriteString(e.names[v] + " ")
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			if txt, err := s.readSexp(); err == nil {
				m := map[*Term]uint64{}
				for k, v := range in.model {
					m[k] = v
				}
				j := 0
				sx := parseSexp(txt, &j)
				for k, p := range sx.list {
					if k < len(e.vars) && len(p.list) == 2 {
						v := e.vars[k]
						f, isB, bv := realVal(p.list[1])
						switch v.sort.k {
						case KBool:
							if isB {
								m[v] = bv
							}
						case KF64:
							m[v] = canonF64(f)
						case KF32:
							m[v] = canonF32(float32(f))
						case KBV:
							m[v] = uint64(int64(f)) & mask(v.sort.w)
						}
					}
				}
				models = append(models, m)
				res = sat
			}
		}
		s.send("(pop 1)")
		s.sentSet = map[*Term]bool{}
		// global declarations survive pop: restart with a clean process
		s.restart()
	}
	return res, models
}

func realVal(e *sexp) (float64, bool, uint64) {
	if e.list == nil {
		switch e.atom {
		case "true":
			return 0, true, 1
		case "false":
			return 0, true, 0
		}
		f, _ := strconv.ParseFloat(strings.TrimSuffix(e.atom, "?"), 64)
		return f, false, 0
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		f, _, _ := realVal(e.list[1])
		return -f, false, 0
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		f, _, _ := realVal(e.list[1])
		g, _, _ := realVal(e.list[2])
		return f / g, false, 0
	}
	return 0, false, 0
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = token.NoPos
