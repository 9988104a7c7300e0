package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Stats shared by all workers.
type Stats struct {
	Queries, Sat, Unsat, Unknown int64
	SolverNs                     int64
	Fallback                     int64
	Hits                         int64 // answered by the cache of earlier queries
}

// GOSYM_SLOW names a directory that slow queries are written to.
var slowDir = os.Getenv("GOSYM_SLOW")
var slowN int64

// An incremental z3 answers most queries at once, but does without the preprocessing that makes
// some harder ones easy: after incMs they go to a second z3 that is given one query at a time.
const incMs = 60

type Solver struct {
	direct  bool    // this run goes to the second z3
	one     *Solver // the second z3
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	defined map[*Term]bool
	vars    []*Term
	tmoMs   int
	st      *Stats
	script  strings.Builder // assertions of this run, for the fallback solver
	errs    string
}

func NewSolver(st *Stats, tmoMs int) (*Solver, error) {
	s := &Solver{st: st, tmoMs: tmoMs}
	return s, s.start()
}

func (s *Solver) start() error {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	if t := os.Getenv("GOSYM_TRANSCRIPT"); t != "" {
		f, _ := os.Create(fmt.Sprintf("%s/%d.smt2", t, cmd.Process.Pid))
		in = teeCloser{io.MultiWriter(in, f), in}
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.Reset()
	return nil
}

func (s *Solver) Close() {
	if s.one != nil {
		s.one.Close()
		s.one = nil
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset starts a new run.
func (s *Solver) Reset() {
	s.buf.Reset()
	s.script.Reset()
	s.buf.WriteString("(reset)\n(set-option :print-success false)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", incMs)
	s.direct = false
	s.buf.WriteString("(set-logic QF_BV)\n")
	s.defined = map[*Term]bool{}
	s.vars = s.vars[:0]
}

func (s *Solver) emit(str string) {
	s.buf.WriteString(str)
	s.script.WriteString(str)
}

// define emits declarations and definitions needed by x (iteratively).
func (s *Solver) define(x *Term) {
	if x.isConst() || s.defined[x] {
		return
	}
	stack := []*Term{x}
	for len(stack) > 0 {
		y := stack[len(stack)-1]
		if y.isConst() || s.defined[y] {
			stack = stack[:len(stack)-1]
			continue
		}
		pend := false
		for i := 0; i < y.n; i++ {
			if !y.a[i].isConst() && !s.defined[y.a[i]] {
				stack = append(stack, y.a[i])
				pend = true
			}
		}
		if pend {
			continue
		}
		stack = stack[:len(stack)-1]
		s.defined[y] = true
		if y.op == OVar {
			s.vars = append(s.vars, y)
			s.emit(fmt.Sprintf("(declare-const |%s| %s)\n", y.name, sortOf(y.w)))
		} else {
			s.emit(fmt.Sprintf("(define-fun t%d () %s %s)\n", y.id, sortOf(y.w), body(y)))
		}
	}
}

func (s *Solver) Assert(x *Term) {
	s.define(x)
	s.emit(fmt.Sprintf("(assert %s)\n", ref(x)))
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Check asks PC ∧ extra; with a model if sat.
func (s *Solver) Check(extra *Term) (Res, Model) {
	atomic.AddInt64(&s.st.Queries, 1)
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&s.st.SolverNs, int64(d))
		if slowDir != "" && d > 200*time.Millisecond {
			n := atomic.AddInt64(&slowN, 1)
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", slowDir, n), []byte(fmt.Sprintf("; %v\n", d)+"(set-logic QF_BV)\n"+s.script.String()+"(assert "+ref(extra)+")\n(check-sat)\n"), 0o644)
		}
	}()
	s.define(extra)
	if s.direct {
		return s.fallback(extra)
	}
	s.buf.WriteString("(push 1)\n(assert " + ref(extra) + ")\n(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.errs = err.Error()
		return s.fail(extra)
	}
	s.buf.Reset()
	line, ok := s.readLine(time.Duration(s.tmoMs)*time.Millisecond + 20*time.Second)
	if !ok {
		s.errs = "no answer"
		return s.fail(extra)
	}
	switch line {
	case "sat":
		atomic.AddInt64(&s.st.Sat, 1)
		m, err := s.model()
		if err != nil {
			s.errs = err.Error()
			return s.fail(extra)
		}
		s.buf.WriteString("(pop 1)\n")
		return Sat, m
	case "unsat":
		atomic.AddInt64(&s.st.Unsat, 1)
		s.buf.WriteString("(pop 1)\n")
		return Unsat, nil
	case "unknown", "timeout":
		s.buf.WriteString("(pop 1)\n")
		s.direct = true
		return s.fallback(extra)
	}
	s.errs = line
	return s.fail(extra)
}

// fail restarts z3 and asks the fallback solver.
func (s *Solver) fail(extra *Term) (Res, Model) {
	sc := s.script.String()
	s.Close()
	defined, vars := s.defined, s.vars
	if err := s.start(); err != nil {
		return Unknown, nil
	}
	s.defined, s.vars = defined, vars
	s.buf.WriteString(sc)
	s.script.WriteString(sc)
	return s.fallback(extra)
}

// fallback runs the same query once, from scratch, on other solvers.
func (s *Solver) fallback(extra *Term) (Res, Model) {
	if res, m := s.oneShot(extra); res != Unknown {
		return res, m
	}
	atomic.AddInt64(&s.st.Fallback, 1)
	q := "(set-option :produce-models true)\n(set-logic QF_BV)\n" + s.script.String() + "(assert " + ref(extra) + ")\n(check-sat)\n"
	for _, argv := range [][]string{
		{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", s.tmoMs/1000*3+1)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.tmoMs*3)},
	} {
		text := q
		if len(s.vars) > 0 {
			text += s.getValue()
		}
		cmd := exec.Command(argv[0], argv[1:]...)
		cmd.Stdin = strings.NewReader(text)
		out, _ := cmd.Output()
		o := string(out)
		if strings.HasPrefix(o, "unsat") {
			atomic.AddInt64(&s.st.Unsat, 1)
			return Unsat, nil
		}
		if strings.HasPrefix(o, "sat") {
			m, err := parseModel(o[3:], s.vars)
			if err == nil {
				atomic.AddInt64(&s.st.Sat, 1)
				return Sat, m
			}
		}
	}
	atomic.AddInt64(&s.st.Unknown, 1)
	return Unknown, nil
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	type r struct {
		l string
		e error
	}
	ch := make(chan r, 1)
	out := s.out
	go func() {
		l, e := out.ReadString('\n')
		ch <- r{l, e}
	}()
	select {
	case x := <-ch:
		return strings.TrimSpace(x.l), x.e == nil
	case <-time.After(d):
		return "", false
	}
}

func (s *Solver) getValue() string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	return sb.String()
}

func (s *Solver) model() (Model, error) {
	if len(s.vars) == 0 {
		return Model{}, nil
	}
	if _, err := io.WriteString(s.in, s.getValue()); err != nil {
		return nil, err
	}
	// read a balanced s-expression
	var sb strings.Builder
	depth, inBar, started := 0, false, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	return parseModel(sb.String(), s.vars)
}

func parseModel(txt string, vars []*Term) (Model, error) {
	m := Model{}
	if strings.Contains(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	// tokens of the form (|name| value)
	i := 0
	for _, v := range vars {
		key := "|" + v.name + "|"
		j := strings.Index(txt[i:], key)
		if j < 0 {
			// z3 may print simple symbols without bars
			key = "(" + v.name + " "
			j = strings.Index(txt[i:], key)
			if j < 0 {
				return nil, fmt.Errorf("no value for %s", v.name)
			}
		}
		i += j + len(key)
		rest := strings.TrimLeft(txt[i:], " \n\t")
		val := new(big.Int)
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexAny(rest, ") \n")
			val.SetString(rest[2:e], 16)
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexAny(rest, ") \n")
			val.SetString(rest[2:e], 2)
		case strings.HasPrefix(rest, "(_ bv"):
			e := strings.IndexAny(rest[5:], " ")
			val.SetString(rest[5:5+e], 10)
		case strings.HasPrefix(rest, "true"):
			val.SetInt64(1)
		case strings.HasPrefix(rest, "false"):
		default:
			return nil, fmt.Errorf("cannot parse value %.40q", rest)
		}
		m[v.name] = val
	}
	return m, nil
}

// teeCloser copies what a solver is told into a file (GOSYM_TRANSCRIPT).
type teeCloser struct {
	io.Writer
	c io.Closer
}

func (t teeCloser) Close() error { return t.c.Close() }

// oneShot asks the second z3.
func (s *Solver) oneShot(extra *Term) (Res, Model) {
	if s.one == nil {
		s.one = &Solver{st: &Stats{}, tmoMs: s.tmoMs}
		if err := s.one.start(); err != nil {
			s.one = nil
			return Unknown, nil
		}
	}
	o := s.one
	q := fmt.Sprintf("(reset)\n(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmoMs) +
		s.script.String() + "(assert " + ref(extra) + ")\n(check-sat)\n"
	give := func() (Res, Model) {
		o.Close()
		s.one = nil
		return Unknown, nil
	}
	if _, err := io.WriteString(o.in, q); err != nil {
		return give()
	}
	line, ok := o.readLine(time.Duration(s.tmoMs)*time.Millisecond + 20*time.Second)
	if !ok {
		return give()
	}
	switch line {
	case "unsat":
		atomic.AddInt64(&s.st.Unsat, 1)
		return Unsat, nil
	case "sat":
		o.vars = s.vars
		m, err := o.model()
		if err != nil {
			return give()
		}
		atomic.AddInt64(&s.st.Sat, 1)
		return Sat, m
	case "unknown", "timeout":
		return Unknown, nil
	}
	return give()
}
