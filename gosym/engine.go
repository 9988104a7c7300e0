package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	terms []*Term
	w     int
	conc  string // concrete choice
	Val   string `json:"val"`
}

type Violation struct {
	Harness string
	Label   string
	Kind    string
	Inputs  []Input
	Trace   []int
	Detail  string
	Sched   []int
}

type PathRec struct {
	Inputs []Input
	Obs    []string
	Sched  []int
}

// Harness-level result.
type Result struct {
	Harness     string
	Paths       int64
	Aborted     int64 // assumption-infeasible
	Steps       int64
	Forks       int64
	Obligations int64
	ObConst     int64
	Discharged  int64
	Unknown     int64
	Unsupported map[string]int
	Covers      map[string]int
	Labels      map[string]int
	Violations  []Violation
	Samples     []PathRec
	Truncated   string
	WallS       float64
	St          Stats
	Funcs       map[string]bool
	Bounds      map[string]string
	Intr        map[string]bool
}

type work struct {
	prefix []int
	model  Model
}

type Engine struct {
	l        *Loader
	prog     *ssa.Program
	entry    *ssa.Function
	stubs    map[string]*ssa.Function
	tier     string
	res      *Result
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []work
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64
	maxSteps int64
	tmoMs    int
	workers  int
	preempt  int
	verbose  bool
	msets    sync.Map
	infos    sync.Map
	maxViol  int
	nSamples int
	mapOrder bool
	known    map[string]bool
	qc       *queryCache
}

type Worker struct {
	eng        *Engine
	tt         *TT
	sol        *Solver
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]bool
	consts     map[*ssa.Const]Value
}

type decision struct {
	v, n int
}

// Run is one path execution.
type Run struct {
	eng        *Engine
	w          *Worker
	tt         *TT
	prefix     []int
	pos        int
	trace      []int
	pcN        int // constraints sent to solver
	wide       map[*Term][]*Term // constraints kept from the solver, see wide.go
	wideOrder  []*Term
	wideUsed   map[*Term]bool
	pc         []*Term
	model      Model
	memo       map[*Term]*big.Int
	globals    map[*ssa.Global]*Value
	inited     map[*ssa.Package]bool
	inputs     []Input
	names      map[string]int
	steps      int64
	inInit     int
	obs        []string
	threads    []*Thread
	cur        *Thread
	preempts   int
	mapOrder   bool
	fresh      int
	oneDraw    bool // random bytes are one concrete draw
	hashes     []*hashApp
	docs       []*Doc
	docBytes   map[*Term]docByte
	times      []TimeVal
	dead       bool
	abortCh    chan interface{}
	sched      []int
	side       map[interface{}]interface{}
	merges     int
	raceS      *raceState
	depth      int
	preLimit   int
	threadsOn  bool
	allocLimit int
	allocLabel string
	obsV       []obsRec
	nmsigs     []*sigApp
	smalls     []*hashApp // digests of other sizes
	pubs       []*pubApp
	keyN       int
	vars       []string // variables created so far
	sl         *slices
}

// control-flow signals
type pathAbort struct{ why string }
type unsupportedErr struct{ msg string }
type targetPanic struct {
	v   Value // Iface
	msg string
}
type threadExit struct{}

func (r *Run) unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

func (r *Run) abort(why string) { panic(pathAbort{why}) }

func (r *Run) assertPC(c *Term) {
	if c.isTrue() {
		return
	}
	r.pc = append(r.pc, c)
}

func (r *Run) check(c *Term) (Res, Model) { return r.checkCached(c) }

func (r *Run) checkSolver(c *Term) (Res, Model) {
	r.flushPC()
	if time.Now().After(r.eng.deadline) {
		panic(pathAbort{"deadline"})
	}
	q, in := r.withWide(c)
	res, m := r.w.sol.Check(q)
	if res == Sat {
		r.fillWide(m, in)
		// variables the solver has not seen are unconstrained: keep their old values
		for k, v := range r.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	return res, m
}

// addFact asserts a constraint that is satisfiable together with the path condition by construction.
func (r *Run) addFact(c *Term) {
	if c.isTrue() {
		return
	}
	r.assertPC(c)
	if !r.replaying() && r.model != nil && !r.evalBool(c) {
		r.model, r.memo = nil, nil
	}
}

func (r *Run) setModel(m Model) {
	c := make(Model, len(m)+4)
	for k, v := range m {
		c[k] = v
	}
	// variables the solver has not seen are zero from here on
	for _, k := range r.vars {
		if _, ok := c[k]; !ok {
			c[k] = zeroInt
		}
	}
	r.model = c
	r.memo = map[*Term]*big.Int{}
}

// freshVar makes a new variable; hint gives a value for it in the current model.
func (r *Run) freshVar(w int, name string, hint *big.Int) *Term {
	v := r.tt.Var(w, name)
	r.vars = append(r.vars, name)
	if r.model != nil && hint != nil {
		if _, ok := r.model[name]; !ok {
			r.model[name] = hint
			// terms over v cannot have been evaluated before v existed on this path,
			// but hash-consing may have: drop the memo entry
			r.memo = map[*Term]*big.Int{}
		}
	}
	return v
}

func (r *Run) evalBool(c *Term) bool { return Eval(c, r.model, r.memo).Sign() != 0 }

// replaying reports whether decisions are still taken from the prefix.
func (r *Run) replaying() bool { return r.pos < len(r.prefix) }

func (r *Run) push(alt int, m Model) {
	p := make([]int, len(r.trace)+1)
	copy(p, r.trace)
	p[len(r.trace)] = alt
	r.eng.enqueue(work{p, m})
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (r *Run) branch(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if r.inInit > 0 {
		r.unsupported("symbolic branch in init")
	}
	if r.replaying() {
		d := r.prefix[r.pos]
		r.pos++
		r.trace = append(r.trace, d)
		switch d {
		case 0:
			r.assertPC(r.tt.Not(c))
			return false
		case 1:
			r.assertPC(c)
			return true
		case 2:
			return false
		default:
			return true
		}
	}
	r.needModel()
	v := r.evalBool(c)
	if debugPC {
		for i, p := range r.pc {
			if !r.evalBool(p) || Eval(p, r.model, map[*Term]*big.Int{}).Sign() == 0 {
				fmt.Fprintln(os.Stderr, "MODEL BREAKS PC", i, r.evalBool(p), Eval(p, r.model, map[*Term]*big.Int{}), r.trace, r.prefix, r.model, show(p, 10))
			}
		}
	}
	other := c
	if v {
		other = r.tt.Not(c)
	}
	res, m := r.check(other)
	if res == Unknown {
		atomic.AddInt64(&r.eng.res.Unknown, 1)
	}
	alt := 1
	if v {
		alt = 0
	}
	if res == Sat {
		atomic.AddInt64(&r.eng.res.Forks, 1)
		r.push(alt, m)
		r.trace = append(r.trace, 1-alt)
		if v {
			r.assertPC(c)
		} else {
			r.assertPC(r.tt.Not(c))
		}
	} else {
		// forced
		r.trace = append(r.trace, 3-alt)
		if res == Unknown {
			if v {
				r.assertPC(c)
			} else {
				r.assertPC(r.tt.Not(c))
			}
		}
	}
	return v
}

// needModel ensures a model of the current path condition.
func (r *Run) needModel() {
	if r.model != nil {
		return
	}
	res, m := r.check(r.tt.tru)
	switch res {
	case Sat:
		r.setModel(m)
	case Unsat:
		r.abort("infeasible")
	default:
		atomic.AddInt64(&r.eng.res.Unknown, 1)
		r.abort("unknown")
	}
}

// choose forks over n alternatives without constraint.
func (r *Run) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r.replaying() {
		d := r.prefix[r.pos]
		r.pos++
		r.trace = append(r.trace, d)
		return d
	}
	var m Model
	if r.model != nil {
		m = make(Model, len(r.model))
		for k, v := range r.model {
			m[k] = v
		}
	}
	for i := n - 1; i >= 1; i-- {
		r.push(i, m)
	}
	atomic.AddInt64(&r.eng.res.Forks, int64(n-1))
	r.trace = append(r.trace, 0)
	return 0
}

// concretize forks over all feasible values of t.
func (r *Run) concretize(t *Term) *big.Int {
	for !t.isConst() {
		var v *big.Int
		if r.replaying() {
			// value must be reproduced: record as decision pair (index in list)
			v = r.replayVal(t)
		} else {
			r.needModel()
			v = Eval(t, r.model, r.memo)
		}
		r.recordVal(v)
		c := r.tt.Eq(t, r.constOf(t.w, v))
		if r.branch(c) {
			return v
		}
	}
	return t.big()
}

func (r *Run) constOf(w int, v *big.Int) *Term {
	if w == 0 {
		return r.tt.Bool(v.Sign() != 0)
	}
	return r.tt.ConstBig(w, v)
}

// values of concretised terms are carried in the trace as small ints.
func (r *Run) replayVal(t *Term) *big.Int {
	d := r.prefix[r.pos]
	return big.NewInt(int64(d))
}
func (r *Run) recordVal(v *big.Int) {
	if !v.IsInt64() || v.Int64() > 1<<40 {
		r.unsupported("concretisation of a large value")
	}
	if r.replaying() {
		r.pos++
	}
	r.trace = append(r.trace, int(v.Int64()))
}

func (r *Run) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		r.abort("assume")
	}
	if r.replaying() {
		r.assertPC(c)
		return
	}
	if r.model != nil && r.evalBool(c) {
		r.assertPC(c)
		return
	}
	res, m := r.check(c)
	switch res {
	case Unsat:
		r.abort("assume")
	case Unknown:
		atomic.AddInt64(&r.eng.res.Unknown, 1)
		r.abort("unknown")
	}
	r.assertPC(c)
	r.setModel(m)
}

// obligation decides an assertion for every value on this path.
func (r *Run) obligation(c *Term, label string) {
	e := r.eng
	if r.replaying() {
		if c.isFalse() {
			r.abort("violated")
		}
		r.assertPC(c)
		return
	}
	e.mu.Lock()
	e.res.Labels[label]++
	e.mu.Unlock()
	atomic.AddInt64(&e.res.Obligations, 1)
	if c.isTrue() {
		atomic.AddInt64(&e.res.ObConst, 1)
		atomic.AddInt64(&e.res.Discharged, 1)
		return
	}
	var m Model
	if c.isFalse() {
		r.needModel()
		m = r.model
	} else if r.model != nil && !r.evalBool(c) {
		m = r.model
	} else {
		res, mm := r.check(r.tt.Not(c))
		switch res {
		case Unsat:
			atomic.AddInt64(&e.res.Discharged, 1)
			return
		case Unknown:
			atomic.AddInt64(&e.res.Unknown, 1)
			return
		}
		m = mm
	}
	r.violation(label, "assert", "", m)
	if c.isFalse() {
		r.abort("violated")
	}
	r.assume(c)
}

func (r *Run) renderInputs(m Model) []Input {
	out := make([]Input, len(r.inputs))
	memo := map[*Term]*big.Int{}
	for i, in := range r.inputs {
		o := in
		o.terms = nil
		if in.terms == nil {
			o.Val = in.conc
		} else {
			var sb strings.Builder
			for j, t := range in.terms {
				v := Eval(t, m, memo)
				if in.Kind == "bytes" {
					fmt.Fprintf(&sb, "%02x", v.Uint64())
				} else {
					if j > 0 {
						sb.WriteByte(',')
					}
					if in.Kind == "int" && t.w > 0 {
						sb.WriteString(bigSigned(v, t.w).String())
					} else {
						sb.WriteString(v.String())
					}
				}
			}
			o.Val = sb.String()
		}
		out[i] = o
	}
	return out
}

func (r *Run) violation(label, kind, detail string, m Model) {
	e := r.eng
	if debugPC {
		for _, c := range r.pc {
			fmt.Fprintln(os.Stderr, "pc", show(c, 12))
		}
		fmt.Fprintln(os.Stderr, "trace", r.trace, "prefix", r.prefix, label)
	}
	v := Violation{Harness: e.res.Harness, Label: label, Kind: kind, Detail: detail,
		Inputs: r.renderInputs(m), Trace: append([]int{}, r.trace...), Sched: append([]int{}, r.sched...)}
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, x := range e.res.Violations {
		if x.Label == label {
			n++
		}
	}
	if n < e.maxViol {
		e.res.Violations = append(e.res.Violations, v)
	}
	if n+1 >= 40 && !e.known[label] {
		e.res.Truncated = "stopped after repeated violations of " + label
		e.stop = true
		e.cond.Broadcast()
	}
}

// ---- exploration ----

func (e *Engine) enqueue(w work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) next() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return work{}, false
		}
		if time.Now().After(e.deadline) {
			if len(e.queue) > 0 || e.active > 0 {
				e.res.Truncated = "time limit"
			}
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		if n := len(e.queue); n > 0 {
			if e.res.Paths >= e.maxPaths {
				e.res.Truncated = "path limit"
				e.stop = true
				e.cond.Broadcast()
				return work{}, false
			}
			w := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) doneOne() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Engine) newWorker() (*Worker, error) {
	sol, err := NewSolver(&e.res.St, e.tmoMs)
	if err != nil {
		return nil, err
	}
	w := &Worker{eng: e, sol: sol}
	w.resetTT()
	return w, nil
}

func (w *Worker) resetTT() {
	w.tt = NewTT()
	w.stdGlobals = map[*ssa.Global]*Value{}
	w.stdInit = map[*ssa.Package]bool{}
	w.consts = map[*ssa.Const]Value{}
}

// Explore runs the entry over all paths.
func (e *Engine) Explore(entry *ssa.Function) *Result {
	t0 := time.Now()
	e.entry = entry
	e.qc = newQueryCache()
	e.cond = sync.NewCond(&e.mu)
	e.queue = []work{{}}
	e.stop, e.active = false, 0
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := e.newWorker()
			if err != nil {
				fmt.Fprintln(os.Stderr, "solver:", err)
				return
			}
			defer w.sol.Close()
			for {
				it, ok := e.next()
				if !ok {
					return
				}
				w.runPath(it)
				e.doneOne()
				if w.tt.n > 1500000 {
					w.resetTT()
				}
			}
		}()
	}
	go func() { // wake waiters at the deadline
		time.Sleep(time.Until(e.deadline))
		e.mu.Lock()
		if e.cond != nil {
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}()
	wg.Wait()
	e.res.WallS = time.Since(t0).Seconds()
	return e.res
}

func (w *Worker) runPath(it work) {
	e := w.eng
	w.sol.Reset()
	r := &Run{eng: e, w: w, tt: w.tt, prefix: it.prefix, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, names: map[string]int{}, abortCh: make(chan interface{}, 1),
		side: map[interface{}]interface{}{}, wide: map[*Term][]*Term{}, wideUsed: map[*Term]bool{}, sl: newSlices(), docBytes: map[*Term]docByte{}, mapOrder: e.mapOrder}
	if it.model != nil {
		r.setModel(it.model)
	}
	outcome := r.runMain()
	atomic.AddInt64(&e.res.Steps, r.steps)
	switch x := outcome.(type) {
	case nil:
		atomic.AddInt64(&e.res.Paths, 1)
		r.sample()
	case pathAbort:
		switch x.why {
		case "deadline":
			e.mu.Lock()
			e.res.Truncated = "time limit"
			e.mu.Unlock()
		case "violated":
			atomic.AddInt64(&e.res.Paths, 1)
		case "unknown":
		default:
			atomic.AddInt64(&e.res.Aborted, 1)
		}
	case unsupportedErr:
		atomic.AddInt64(&e.res.Paths, 1)
		e.mu.Lock()
		e.res.Unsupported[x.msg]++
		e.mu.Unlock()
		if e.verbose {
			fmt.Fprintln(os.Stderr, "unsupported:", x.msg)
		}
	case targetPanic:
		atomic.AddInt64(&e.res.Paths, 1)
		if e.verbose {
			fmt.Fprintln(os.Stderr, "panic:", x.msg)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					e.mu.Lock()
					e.res.Unsupported[fmt.Sprint("panic path without model: ", p)]++
					e.mu.Unlock()
				}
			}()
			if r.model == nil {
				r.needModel()
			}
			r.violation("panic", "panic", x.msg, r.model)
		}()
	default:
		e.mu.Lock()
		e.res.Unsupported[fmt.Sprint("engine: ", x)]++
		e.mu.Unlock()
	}
}

func (r *Run) sample() {
	e := r.eng
	e.mu.Lock()
	n := len(e.res.Samples)
	e.mu.Unlock()
	if n >= e.nSamples {
		return
	}
	defer func() { recover() }()
	if r.model == nil {
		r.needModel()
	}
	rec := PathRec{Inputs: r.renderInputs(r.model), Sched: append([]int{}, r.sched...)}
	for _, o := range r.obs {
		rec.Obs = append(rec.Obs, o)
	}
	for _, o := range r.obsTerms() {
		rec.Obs = append(rec.Obs, o)
	}
	e.mu.Lock()
	if len(e.res.Samples) < e.nSamples {
		e.res.Samples = append(e.res.Samples, rec)
	}
	e.mu.Unlock()
}

func (r *Run) runMain() (outcome interface{}) {
	main := &Thread{r: r, id: 0, wake: make(chan bool, 1)}
	r.threads = []*Thread{main}
	r.cur = main
	doneCh := make(chan interface{}, 1)
	go func() {
		defer func() {
			p := recover()
			if p != nil {
				switch p.(type) {
				case pathAbort, unsupportedErr, targetPanic, threadExit:
				default:
					if r.eng.verbose || os.Getenv("GOSYM_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", p, debug.Stack())
					}
				}
			}
			doneCh <- p
		}()
		r.callFn(nil, r.eng.entry, nil, nil)
	}()
	select {
	case outcome = <-doneCh:
	case outcome = <-r.abortCh:
	}
	r.dead = true
	for _, t := range r.threads {
		if t != main || outcome != nil {
			select {
			case t.wake <- true:
			default:
			}
		}
	}
	return outcome
}

func newResult(name string) *Result {
	return &Result{Harness: name, Unsupported: map[string]int{}, Covers: map[string]int{}, Labels: map[string]int{}, Funcs: map[string]bool{}, Bounds: map[string]string{}, Intr: map[string]bool{}}
}

func sortViol(v []Violation) {
	sort.SliceStable(v, func(i, j int) bool { return v[i].Label < v[j].Label })
}

var _ = types.Identical

// show renders a term for debugging.
func show(x *Term, d int) string {
	if x.n == 0 || d == 0 {
		return ref(x)
	}
	o := "(" + fmt.Sprint(x.op)
	for i := 0; i < x.n; i++ {
		o += " " + show(x.a[i], d-1)
	}
	return o + ")"
}

var zeroInt = new(big.Int)

var debugPC = os.Getenv("GOSYM_PC") != ""
