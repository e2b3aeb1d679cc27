package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

// Solver is one incremental SMT process. Terms are defined once (global declarations) and assertions are pushed per path literal.
type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	stack    []*Term
	sentSet  map[*Term]bool
	ufDecl   map[string]bool
	timeout  int // current ms
	queries  int
	unknowns int
	time     time.Duration
	dead     bool
	log      *os.File
}

func newSolver(bin string, args ...string) *Solver {
	s := &Solver{bin: bin, args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inc = w
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.stack = nil
	s.sentSet = map[*Term]bool{}
	s.ufDecl = map[string]bool{}
	s.timeout = -1
	s.dead = false
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.CreateTemp(p, "log*.smt2")
	}
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if strings.Contains(s.bin, "cvc5") {
		s.send("(set-logic ALL)")
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(l + "\n")
	}
}

func (s *Solver) define(x *Term) {
	if x.op == OConst || s.sentSet[x] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{x, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if s.sentSet[top.t] || top.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if top.i < len(top.t.args) {
			a := top.t.args[top.i]
			top.i++
			if a.op != OConst && !s.sentSet[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		t := top.t
		st = st[:len(st)-1]
		s.sentSet[t] = true
		if t.op == OVar {
			s.send("(declare-const " + t.ref() + " " + t.sort.String() + ")")
			continue
		}
		if t.op == OUF && !s.ufDecl[t.name] {
			s.ufDecl[t.name] = true
			var as []string
			for _, a := range t.args {
				as = append(as, a.sort.String())
			}
			s.send("(declare-fun |uf:" + t.name + "| (" + strings.Join(as, " ") + ") " + t.sort.String() + ")")
		}
		s.send("(define-fun " + t.ref() + " () " + t.sort.String() + " " + t.body() + ")")
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)", d))
		s.stack = s.stack[:n]
	}
	for _, c := range pc[n:] {
		s.define(c)
		s.send("(push 1)")
		s.send("(assert " + c.ref() + ")")
		s.stack = append(s.stack, c)
	}
}

func (s *Solver) readLine(deadline time.Duration) (string, error) {
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- res{strings.TrimSpace(l), e}
	}()
	select {
	case r := <-ch:
		return r.l, r.e
	case <-time.After(deadline):
		s.cmd.Process.Kill()
		r := <-ch
		_ = r
		return "", fmt.Errorf("timeout")
	}
}

// check decides pc ∧ extra. On sat the model of vars is returned.
func (s *Solver) check(pc []*Term, extra *Term, ms int, vars []*Term) (satRes, map[*Term]uint64) {
	if s.dead {
		s.restart()
	}
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + extra.ref() + ")")
	}
	if s.timeout != ms {
		s.timeout = ms
		if strings.Contains(s.bin, "cvc5") {
			s.send(fmt.Sprintf("(set-option :tlimit-per %d)", ms))
		} else {
			s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
		}
	}
	s.send("(check-sat)")
	s.in.Flush()
	r := unknown
	l, err := s.readLine(time.Duration(ms)*time.Millisecond*3/2 + 5*time.Second)
	if err != nil {
		s.dead = true
		s.unknowns++
		return unknown, nil
	}
	var m map[*Term]uint64
	switch l {
	case "sat":
		r = sat
		m = map[*Term]uint64{}
		var vs []*Term
		for _, v := range vars {
			if s.sentSet[v] {
				vs = append(vs, v)
			}
		}
		if len(vs) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vs {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.dead = true
				return unknown, nil
			}
			parseModel(txt, vs, m)
		}
	case "unsat":
		r = unsat
	default:
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			s.dead = true
		}
		s.unknowns++
	}
	if extra != nil && !s.dead {
		s.send("(pop 1)")
	}
	return r, m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadByte() // newline
				return sb.String(), nil
			}
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string, i *int) *sexp {
	for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
		*i++
	}
	if *i >= len(s) {
		return nil
	}
	if s[*i] == '(' {
		*i++
		r := &sexp{list: []*sexp{}}
		for {
			for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
				*i++
			}
			if *i >= len(s) {
				return r
			}
			if s[*i] == ')' {
				*i++
				return r
			}
			r.list = append(r.list, parseSexp(s, i))
		}
	}
	st := *i
	if s[*i] == '|' {
		*i++
		for s[*i] != '|' {
			*i++
		}
		*i++
		return &sexp{atom: s[st:*i]}
	}
	for *i < len(s) && !strings.ContainsRune(" ()\n\t\r", rune(s[*i])) {
		*i++
	}
	return &sexp{atom: s[st:*i]}
}

func bitsOf(a string) uint64 {
	if strings.HasPrefix(a, "#x") {
		v, _ := strconv.ParseUint(a[2:], 16, 64)
		return v
	}
	v, _ := strconv.ParseUint(a[2:], 2, 64)
	return v
}

func parseVal(e *sexp, so Sort) uint64 {
	switch so.k {
	case KBool:
		if e.atom == "true" {
			return 1
		}
		return 0
	case KBV:
		if e.list != nil && len(e.list) == 3 { // (_ bvN w)
			v, _ := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
			return v
		}
		return bitsOf(e.atom)
	}
	mk := func(f float64) uint64 {
		if so.k == KF32 {
			return canonF32(float32(f))
		}
		return canonF64(f)
	}
	if len(e.list) >= 2 && e.list[0].atom == "_" {
		switch e.list[1].atom {
		case "NaN":
			return mk(math.NaN())
		case "+oo":
			return mk(math.Inf(1))
		case "-oo":
			return mk(math.Inf(-1))
		case "+zero":
			return mk(0)
		case "-zero":
			return mk(math.Copysign(0, -1))
		}
	}
	if len(e.list) == 4 && e.list[0].atom == "fp" {
		sg, ex, ma := bitsOf(e.list[1].atom), bitsOf(e.list[2].atom), bitsOf(e.list[3].atom)
		if so.k == KF32 {
			return sg<<31 | ex<<23 | ma
		}
		v := sg<<63 | ex<<52 | ma
		return canonF64(math.Float64frombits(v))
	}
	return 0
}

func parseModel(txt string, vs []*Term, m map[*Term]uint64) {
	i := 0
	e := parseSexp(txt, &i)
	for j, p := range e.list {
		if j < len(vs) && len(p.list) == 2 {
			m[vs[j]] = parseVal(p.list[1], vs[j].sort)
		}
	}
}
