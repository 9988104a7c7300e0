package verifsym

import (
	"reflect"
	"strconv"
	"sync"
	"time"
)

// A cooperative scheduler that mirrors the one of gosym, used to replay recorded schedules.
// Exactly one thread runs at a time; points: lock, unlock, rlock, runlock, Yield, blocking.

type thread struct {
	id       int
	wake     chan bool
	done     bool
	settling bool
	ready    func() bool
}

type sched struct {
	on      bool
	explore bool // Threads was called
	threads []*thread
	cur     *thread
	limit   int
	used    int
	trace   []int
	pos     int
}

var sc sched

func initSched(c Case) {
	sc = sched{}
	channels = map[uintptr]*channel{}
	sc.cur = &thread{id: 0, wake: make(chan bool, 1)}
	sc.threads = []*thread{sc.cur}
	sc.trace = c.Sched
	for _, i := range c.Inputs {
		if i.Name == "preempt" {
			sc.limit, _ = strconv.Atoi(i.Val)
		}
	}
	sc.on = len(c.Sched) > 0
}

// Threads declares how many preemptions are explored.
func Threads(preempt int) { sc.explore = true }

// Scheduled reports whether a recorded schedule is being replayed.
func Scheduled() bool { return sc.on }

func runnable() []*thread {
	var out []*thread
	for _, t := range sc.threads {
		if !t.done && (t.ready == nil || t.ready()) {
			out = append(out, t)
		}
	}
	return out
}

func pick(rs []*thread) *thread {
	if len(rs) == 1 || !sc.explore {
		return rs[0]
	}
	if sc.pos < len(sc.trace) {
		id := sc.trace[sc.pos]
		sc.pos++
		for _, t := range rs {
			if t.id == id {
				return t
			}
		}
	}
	return rs[0]
}

func switchTo(n *thread) {
	sc.cur = n
	n.wake <- true
}

// Block suspends the current thread until ready.
func Block(ready func() bool) {
	if ready() {
		return
	}
	t := sc.cur
	t.ready = ready
	rs := runnable()
	if len(rs) == 0 {
		panic("deadlock")
	}
	n := pick(rs)
	n.ready = nil
	if n == t {
		return
	}
	switchTo(n)
	<-t.wake
	t.ready = nil
	sc.cur = t
}

// Yield is a preemption point.
func Yield() {
	if !sc.on || !sc.explore || sc.limit == 0 || len(sc.threads) == 1 {
		return
	}
	t := sc.cur
	rs := runnable()
	if len(rs) <= 1 || sc.used >= sc.limit {
		return
	}
	ord := []*thread{t}
	for _, x := range rs {
		if x != t {
			ord = append(ord, x)
		}
	}
	n := pick(ord)
	if n == t {
		return
	}
	sc.used++
	n.ready = nil
	switchTo(n)
	<-t.wake
	sc.cur = t
}

// Settle waits until all other threads are blocked or done.
func Settle() {
	if !sc.on {
		time.Sleep(300 * time.Millisecond)
		return
	}
	t := sc.cur
	t.settling = true
	Block(func() bool {
		for _, o := range sc.threads {
			if o != t && !o.done && !o.settling && (o.ready == nil || o.ready()) {
				return false
			}
		}
		return true
	})
	t.settling = false
}

// Par runs the functions as concurrent threads and waits for all.
func Par(fs ...func()) {
	if !sc.on {
		var wg sync.WaitGroup
		var pm sync.Mutex
		var pv interface{}
		for _, f := range fs {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						pm.Lock()
						pv = p
						pm.Unlock()
					}
				}()
				f()
			}(f)
		}
		wg.Wait()
		if pv != nil {
			panic(pv)
		}
		return
	}
	var mine []*thread
	var pv interface{}
	for _, f := range fs {
		t := &thread{id: len(sc.threads), wake: make(chan bool, 1)}
		sc.threads = append(sc.threads, t)
		mine = append(mine, t)
		go func(f func()) {
			<-t.wake
			func() {
				defer func() {
					if p := recover(); p != nil {
						pv = p
					}
				}()
				f()
			}()
			t.done = true
			rs := runnable()
			if len(rs) == 0 {
				return
			}
			n := pick(rs)
			n.ready = nil
			switchTo(n)
		}(f)
	}
	Block(func() bool {
		for _, t := range mine {
			if !t.done {
				return false
			}
		}
		return true
	})
	if pv != nil {
		panic(pv)
	}
}

// Go is a go statement.
func Go(f func()) {
	if !sc.on {
		go f()
		return
	}
	t := &thread{id: len(sc.threads), wake: make(chan bool, 1)}
	sc.threads = append(sc.threads, t)
	go func() {
		<-t.wake
		f()
		t.done = true
		rs := runnable()
		if len(rs) == 0 {
			return
		}
		n := pick(rs)
		n.ready = nil
		switchTo(n)
	}()
}

// GoCall is a go statement with arguments.
func GoCall(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	var in []reflect.Value
	for i, a := range args {
		if a == nil {
			k := i
			if v.Type().IsVariadic() && k >= v.Type().NumIn()-1 {
				in = append(in, reflect.Zero(v.Type().In(v.Type().NumIn()-1).Elem()))
				continue
			}
			in = append(in, reflect.Zero(v.Type().In(k)))
			continue
		}
		in = append(in, reflect.ValueOf(a))
	}
	Go(func() { v.Call(in) })
}

type channel struct {
	buf         []interface{}
	sent, taken int
}

var channels = map[uintptr]*channel{}

func chanOf(c interface{}) (*channel, int) {
	v := reflect.ValueOf(c)
	if v.IsNil() {
		return &channel{}, 0
	}
	p := v.Pointer()
	if channels[p] == nil {
		channels[p] = &channel{}
	}
	return channels[p], v.Cap()
}

// Send is a send statement.
func Send(c, v interface{}) {
	if !sc.on {
		reflect.ValueOf(c).Send(reflect.ValueOf(v))
		return
	}
	ch, n := chanOf(c)
	if n == 0 {
		Block(func() bool { return len(ch.buf) == 0 })
		ch.buf = append(ch.buf, v)
		ch.sent++
		mine := ch.sent
		Block(func() bool { return ch.taken >= mine })
		return
	}
	Block(func() bool { return len(ch.buf) < n })
	ch.buf = append(ch.buf, v)
	ch.sent++
}

// Recv is a receive statement.
func Recv(c interface{}) {
	if !sc.on {
		reflect.ValueOf(c).Recv()
		return
	}
	ch, _ := chanOf(c)
	Block(func() bool { return len(ch.buf) > 0 })
	ch.buf = ch.buf[1:]
	ch.taken++
}

// Select is a select statement of receive cases.
func Select(cs ...interface{}) int {
	if !sc.on {
		var l []reflect.SelectCase
		for _, c := range cs {
			l = append(l, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)})
		}
		k, _, _ := reflect.Select(l)
		return k
	}
	ready := func() (out []int) {
		for i, c := range cs {
			if ch, _ := chanOf(c); len(ch.buf) > 0 {
				out = append(out, i)
			}
		}
		return
	}
	Block(func() bool { return len(ready()) > 0 })
	rd := ready()
	k := rd[0]
	if len(rd) > 1 && sc.explore && sc.pos < len(sc.trace) {
		k = sc.trace[sc.pos]
		sc.pos++
	}
	ch, _ := chanOf(cs[k])
	ch.buf = ch.buf[1:]
	ch.taken++
	return k
}
