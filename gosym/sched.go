package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var regMu sync.Mutex

// Thread is an interpreted goroutine. Exactly one runs at a time.
type Thread struct {
	r    *Run
	id   int
	wake chan bool
	done bool
	// waits until all other threads are blocked or done
	settling bool
	ready    func() bool // nil: runnable
	vc       []int
	why      string
}

func (r *Run) runnable() []*Thread {
	var out []*Thread
	for _, t := range r.threads {
		if t.done {
			continue
		}
		if t.ready == nil || t.ready() {
			out = append(out, t)
		}
	}
	return out
}

func (r *Run) spawn(fv Value, args []Value) {
	if r.inInit > 0 {
		return
	}
	t := &Thread{r: r, id: len(r.threads), wake: make(chan bool, 1)}
	r.threads = append(r.threads, t)
	r.raceFork(t)
	c := fv.(*Closure)
	go func() {
		<-t.wake
		if r.dead {
			return
		}
		var p interface{}
		func() {
			defer func() { p = recover() }()
			if c.B != nil {
				r.unsupported("go builtin")
			}
			r.depth = 0
			r.call(nil, fv, args)
		}()
		if r.dead {
			return
		}
		t.done = true
		if p != nil {
			if _, ok := p.(threadExit); ok {
				return
			}
			r.abortCh <- p
			return
		}
		p = nil
		func() {
			defer func() { p = recover() }()
			r.switchAway(t)
		}()
		if p != nil && !r.dead {
			if _, ok := p.(threadExit); !ok {
				r.abortCh <- p
			}
		}
	}()
}

// switchTo hands the baton to t; the caller must then wait unless finished.
func (r *Run) switchTo(t *Thread) {
	r.cur = t
	t.wake <- true
}

// switchAway is called by a finished thread.
func (r *Run) switchAway(t *Thread) {
	rs := r.runnable()
	if len(rs) == 0 {
		r.deadlock()
	}
	n := r.schedPick(rs)
	n.ready = nil
	r.switchTo(n)
}

// schedPick chooses the next thread; choices among several are recorded for the native replay.
func (r *Run) schedPick(rs []*Thread) *Thread {
	if len(rs) == 1 || !r.threadsOn {
		return rs[0] // schedules are explored only for harnesses that ask for it
	}
	t := rs[r.choose(len(rs))]
	r.sched = append(r.sched, t.id)
	return t
}

// block suspends the current thread until ready() holds.
func (r *Run) block(why string, ready func() bool) {
	t := r.cur
	if ready() {
		return
	}
	t.ready = ready
	t.why = why
	rs := r.runnable()
	if len(rs) == 0 {
		r.deadlock()
	}
	n := r.schedPick(rs)
	n.ready = nil
	if n == t {
		return
	}
	d := r.depth
	r.switchTo(n)
	<-t.wake
	if r.dead {
		panic(threadExit{})
	}
	r.depth = d
	t.ready = nil
	r.cur = t
}

// yield is a preemption point.
func (r *Run) yield(why string) {
	if r.preLimit == 0 || r.inInit > 0 || len(r.threads) == 1 {
		return
	}
	t := r.cur
	rs := r.runnable()
	if len(rs) <= 1 {
		return
	}
	if r.preempts >= r.preLimit {
		return
	}
	// put the current thread first: choice 0 means no switch
	ord := []*Thread{t}
	for _, x := range rs {
		if x != t {
			ord = append(ord, x)
		}
	}
	k := r.choose(len(ord))
	r.sched = append(r.sched, ord[k].id)
	if k == 0 {
		return
	}
	r.preempts++
	n := ord[k]
	n.ready = nil
	d := r.depth
	r.switchTo(n)
	<-t.wake
	if r.dead {
		panic(threadExit{})
	}
	r.depth = d
	r.cur = t
}

func (r *Run) deadlock() {
	var why string
	for _, t := range r.threads {
		if !t.done {
			why += t.why + "; "
		}
	}
	panic(targetPanic{v: Iface{T: r.eng.rtErrType(), V: Str{s: "deadlock"}}, msg: "all goroutines are asleep - deadlock: " + why})
}

// ---- channels ----

func (r *Run) chanSend(c *Chan, v Value) {
	if c == nil {
		r.block("send on nil channel", func() bool { return false })
	}
	if c.closed {
		r.rtPanic("send on closed channel")
	}
	if c.cap == 0 {
		// rendezvous: allow one pending element, then wait for it to be taken
		r.block("send", func() bool { return c.closed || len(c.buf) == 0 })
		if c.closed {
			r.rtPanic("send on closed channel")
		}
		r.raceRelease(c)
		c.buf = append(c.buf, copyVal(v))
		c.sent++
		mine := c.sent
		r.block("send", func() bool { return c.taken >= mine || c.closed })
		r.raceAcquire(c)
		return
	}
	r.block("send", func() bool { return c.closed || len(c.buf) < c.cap })
	if c.closed {
		r.rtPanic("send on closed channel")
	}
	r.raceRelease(c)
	c.buf = append(c.buf, copyVal(v))
	c.sent++
}

func (r *Run) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		r.block("receive on nil channel", func() bool { return false })
	}
	c.recvq++
	r.block("receive", func() bool { return len(c.buf) > 0 || c.closed })
	c.recvq--
	r.raceAcquire(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.taken++
		r.raceRelease(c)
		return v, true
	}
	return r.zero(et), false
}

func (r *Run) selectStmt(fr *Frame, x *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		q := st{c: fr.get(s.Chan).(*Chan), send: s.Dir == types.SendOnly, et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if s.Send != nil {
			q.v = fr.get(s.Send)
		}
		sts = append(sts, q)
	}
	readyIdx := func() []int {
		var out []int
		for i, s := range sts {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || s.c.cap > 0 && len(s.c.buf) < s.c.cap || s.c.cap == 0 && s.c.recvq > 0 && len(s.c.buf) == 0 {
					out = append(out, i)
				}
			} else if len(s.c.buf) > 0 || s.c.closed {
				out = append(out, i)
			}
		}
		return out
	}
	rd := readyIdx()
	k := -1
	if len(rd) == 0 {
		if x.Blocking {
			for _, s := range sts {
				if s.c != nil && !s.send {
					s.c.recvq++
				}
			}
			r.block("select", func() bool { return len(readyIdx()) > 0 })
			for _, s := range sts {
				if s.c != nil && !s.send {
					s.c.recvq--
				}
			}
			rd = readyIdx()
		}
	}
	if len(rd) > 0 {
		k = rd[0]
		if len(rd) > 1 && r.threadsOn {
			k = rd[r.choose(len(rd))]
			r.sched = append(r.sched, k)
		}
		if !sts[k].send {
			r.raceAcquire(sts[k].c)
		}
		r.raceRelease(sts[k].c)
	}
	res := Tuple{r.tt.Const(64, uint64(int64(k))), r.tt.fls}
	for i, s := range sts {
		if s.send {
			if i == k {
				if s.c.closed {
					r.rtPanic("send on closed channel")
				}
				s.c.buf = append(s.c.buf, s.v)
				s.c.sent++
			}
			continue
		}
		v := r.zero(s.et)
		if i == k {
			if len(s.c.buf) > 0 {
				v = s.c.buf[0]
				s.c.buf = s.c.buf[1:]
				s.c.taken++
				res[1] = r.tt.tru
			}
		}
		res = append(res, v)
	}
	return res
}

// ---- sync ----

func (r *Run) syncObj(p Value) *SyncObj {
	x := r.deref(p)
	o, ok := (*x).(*SyncObj)
	if !ok {
		r.unsupported("sync object is %T", *x)
	}
	return o
}

func (r *Run) lock(o *SyncObj, fr *Frame) {
	if fr != nil && (fr.info.track || fr.info.harness) {
		r.yield("lock")
	}
	o.writers++
	r.block("Lock", func() bool { return !o.locked && o.readers == 0 })
	o.writers--
	o.locked, o.owner = true, r.cur.id
	r.raceAcquire(o)
	r.raceAcquire(readersOf{o})
}
func (r *Run) unlock(o *SyncObj, fr *Frame) {
	if !o.locked {
		panic(targetPanic{v: Iface{T: r.eng.rtErrType(), V: Str{s: "fatal"}}, msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	r.raceRelease(o)
	o.locked = false
	if fr != nil && (fr.info.track || fr.info.harness) {
		r.yield("unlock")
	}
}
// readersOf is what a reader's unlock releases: only a writer's lock acquires it, readers do not wait for each other
type readersOf struct{ o *SyncObj }

func (r *Run) rlock(o *SyncObj, fr *Frame) {
	if fr != nil && (fr.info.track || fr.info.harness) {
		r.yield("rlock")
	}
	// a waiting writer goes before new readers
	r.block("RLock", func() bool { return !o.locked && o.writers == 0 })
	o.readers++
	r.raceAcquire(o)
}
func (r *Run) runlock(o *SyncObj, fr *Frame) {
	if o.readers == 0 {
		panic(targetPanic{v: Iface{T: r.eng.rtErrType(), V: Str{s: "fatal"}}, msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	r.raceRelease(readersOf{o})
	o.readers--
	if fr != nil && (fr.info.track || fr.info.harness) {
		r.yield("runlock")
	}
}

// ---- happens-before race detection (enabled by harness) ----

type access struct {
	tid, clk int
}
type shadow struct {
	w  access
	rd map[int]int
	hw bool
}

type raceState struct {
	vc    map[int][]int
	locks map[interface{}][]int
	sh    map[interface{}]*shadow
}

func (r *Run) race() *raceState { return r.raceS }

func (r *Run) enableRace() {
	r.raceS = &raceState{vc: map[int][]int{0: {1}}, locks: map[interface{}][]int{}, sh: map[interface{}]*shadow{}}
}

func vcGet(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcJoin(a, b []int) []int {
	n := max(len(a), len(b))
	out := make([]int, n)
	for i := range out {
		out[i] = max(vcGet(a, i), vcGet(b, i))
	}
	return out
}

func vcInc(v []int, i int) []int {
	out := make([]int, max(len(v), i+1))
	copy(out, v)
	out[i]++
	return out
}

func (r *Run) raceFork(t *Thread) {
	s := r.race()
	if s == nil {
		return
	}
	p := r.cur.id
	s.vc[t.id] = vcInc(vcJoin(s.vc[p], nil), t.id)
	s.vc[p] = vcInc(s.vc[p], p)
}

func (r *Run) raceAcquire(o interface{}) {
	if s := r.race(); s != nil {
		s.vc[r.cur.id] = vcJoin(s.vc[r.cur.id], s.locks[o])
	}
}

func (r *Run) raceRelease(o interface{}) {
	if s := r.race(); s != nil {
		s.locks[o] = vcJoin(s.locks[o], s.vc[r.cur.id])
		s.vc[r.cur.id] = vcInc(s.vc[r.cur.id], r.cur.id)
	}
}

func (r *Run) raceRead(p interface{}) {
	s := r.raceS
	if s == nil || r.inInit > 0 || len(r.threads) < 2 {
		return
	}
	if v, ok := p.(*Value); ok {
		if _, isSync := (*v).(*SyncObj); isSync {
			return
		}
	}
	sh := s.sh[p]
	if sh == nil {
		sh = &shadow{rd: map[int]int{}}
		s.sh[p] = sh
	}
	me := r.cur.id
	if sh.hw && sh.w.tid != me && sh.w.clk > vcGet(s.vc[me], sh.w.tid) {
		r.raceFound()
	}
	sh.rd[me] = vcGet(s.vc[me], me)
}

func (r *Run) raceWrite(p interface{}) {
	s := r.race()
	if s == nil || r.inInit > 0 || len(r.threads) < 2 {
		return
	}
	sh := s.sh[p]
	if sh == nil {
		sh = &shadow{rd: map[int]int{}}
		s.sh[p] = sh
	}
	me := r.cur.id
	if sh.hw && sh.w.tid != me && sh.w.clk > vcGet(s.vc[me], sh.w.tid) {
		r.raceFound()
	}
	for t, c := range sh.rd {
		if t != me && c > vcGet(s.vc[me], t) {
			r.raceFound()
		}
	}
	sh.hw, sh.w = true, access{me, vcGet(s.vc[me], me)}
}

func (r *Run) raceFound() {
	r.obligation(r.tt.fls, "data-race")
}
