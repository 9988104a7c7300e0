package main

import (
	"fmt"
	"math/big"
	"time"
)

// maxReadings is the number of different readings of the clock on a path
const maxReadings = 60

func (r *Run) timeNow(fr *Frame) TimeVal {
	tt := r.tt
	k := len(r.times)
	if k >= maxReadings {
		// The clock stands still from here on: long chains of readings cost the solver minutes
		v := r.times[k-1]
		if fr != nil && (fr.info.track || fr.info.harness) {
			r.addInput(Input{Name: r.uniq("now"), Kind: "int", terms: []*Term{v.sec, v.nsec}})
		}
		return v
	}
	base := int64(1600000000 + k)
	s := r.freshVar(33, fmt.Sprintf("now.sec %d", k), big.NewInt(base))
	n := r.freshVar(30, fmt.Sprintf("now.nsec %d", k), big.NewInt(0))
	v := TimeVal{sec: tt.ZExt(s, 64), nsec: tt.ZExt(n, 64)}
	r.addFact(tt.Ule(tt.Const(64, 1500000000), v.sec))
	r.addFact(tt.Ult(v.nsec, tt.Const(64, 1000000000)))
	if k > 0 {
		r.addFact(tt.Not(r.timeLt(v, r.times[k-1])))
	}
	r.times = append(r.times, v)
	if fr != nil && (fr.info.track || fr.info.harness) {
		r.addInput(Input{Name: r.uniq("now"), Kind: "int", terms: []*Term{v.sec, v.nsec}})
	}
	return v
}

func (r *Run) timeLt(a, b TimeVal) *Term {
	tt := r.tt
	return tt.Or(tt.Slt(a.sec, b.sec), tt.And(tt.Eq(a.sec, b.sec), tt.Slt(a.nsec, b.nsec)))
}

func (r *Run) timeArg(v Value) TimeVal {
	if p, ok := v.(*Value); ok {
		v = *r.deref(p)
	}
	t, ok := v.(TimeVal)
	if !ok {
		r.unsupported("time value %T", v)
	}
	if t.zero {
		// 0001-01-01 relative to the epoch
		return TimeVal{sec: r.tt.Const(64, uint64(time.Time{}.Unix())&^0), nsec: r.tt.Const(64, 0), zero: true}
	}
	return t
}

func (r *Run) timeAdd(t TimeVal, d *Term) TimeVal {
	tt := r.tt
	e9 := tt.Const(64, 1000000000)
	ds, dn := tt.bin(OSDiv, d, e9), tt.bin(OSRem, d, e9)
	sec := tt.Add(t.sec, ds)
	ns := tt.Add(t.nsec, dn)
	ge := tt.Sle(e9, ns)
	lt := tt.Slt(ns, tt.Const(64, 0))
	sec = tt.Ite(ge, tt.Add(sec, tt.Const(64, 1)), tt.Ite(lt, tt.Sub(sec, tt.Const(64, 1)), sec))
	ns = tt.Ite(ge, tt.Sub(ns, e9), tt.Ite(lt, tt.Add(ns, e9), ns))
	return TimeVal{sec: sec, nsec: ns}
}

func (r *Run) timeSub(a, b TimeVal) *Term {
	tt := r.tt
	return tt.Add(tt.Mul(tt.Sub(a.sec, b.sec), tt.Const(64, 1000000000)), tt.Sub(a.nsec, b.nsec))
}

func regTime() {
	reg("time.Now", func(r *Run, fr *Frame, a []Value) Value { return r.timeNow(fr) })
	reg("time.Since", func(r *Run, fr *Frame, a []Value) Value { return r.timeSub(r.timeNow(fr), r.timeArg(a[0])) })
	reg("time.Until", func(r *Run, fr *Frame, a []Value) Value { return r.timeSub(r.timeArg(a[0]), r.timeNow(fr)) })
	reg("time.Unix", func(r *Run, fr *Frame, a []Value) Value {
		t := TimeVal{sec: a[0].(*Term), nsec: r.tt.Const(64, 0)}
		n := a[1].(*Term)
		if n.isConst() && n.u == 0 {
			return t
		}
		return r.timeAdd(t, n)
	})
	reg("(time.Time).Unix", func(r *Run, fr *Frame, a []Value) Value { return r.timeArg(a[0]).sec })
	reg("(time.Time).UnixNano", func(r *Run, fr *Frame, a []Value) Value {
		t := r.timeArg(a[0])
		return r.tt.Add(r.tt.Mul(t.sec, r.tt.Const(64, 1000000000)), t.nsec)
	})
	reg("(time.Time).Nanosecond", func(r *Run, fr *Frame, a []Value) Value { return r.timeArg(a[0]).nsec })
	reg("(time.Time).Before", func(r *Run, fr *Frame, a []Value) Value { return r.timeLt(r.timeArg(a[0]), r.timeArg(a[1])) })
	reg("(time.Time).After", func(r *Run, fr *Frame, a []Value) Value { return r.timeLt(r.timeArg(a[1]), r.timeArg(a[0])) })
	reg("(time.Time).Equal", func(r *Run, fr *Frame, a []Value) Value {
		x, y := r.timeArg(a[0]), r.timeArg(a[1])
		return r.tt.And(r.tt.Eq(x.sec, y.sec), r.tt.Eq(x.nsec, y.nsec))
	})
	reg("(time.Time).Compare", func(r *Run, fr *Frame, a []Value) Value {
		x, y := r.timeArg(a[0]), r.timeArg(a[1])
		return r.tt.Ite(r.timeLt(x, y), i64(r, -1), r.tt.Ite(r.timeLt(y, x), i64(r, 1), i64(r, 0)))
	})
	reg("(time.Time).IsZero", func(r *Run, fr *Frame, a []Value) Value { return r.tt.Bool(r.timeArg(a[0]).zero) })
	reg("(time.Time).Add", func(r *Run, fr *Frame, a []Value) Value { return r.timeAdd(r.timeArg(a[0]), a[1].(*Term)) })
	reg("(time.Time).Sub", func(r *Run, fr *Frame, a []Value) Value { return r.timeSub(r.timeArg(a[0]), r.timeArg(a[1])) })
	reg("(time.Time).UTC|(time.Time).Local|(time.Time).In|(time.Time).Round|(time.Time).Truncate", func(r *Run, fr *Frame, a []Value) Value { return r.timeArg(a[0]) })
	reg("(time.Time).String|(time.Time).Format|(time.Duration).String", func(r *Run, fr *Frame, a []Value) Value { return Str{s: "<time>"} })
	reg("time.Sleep", func(r *Run, fr *Frame, a []Value) Value { return nil })
	reg("time.After|time.Tick", func(r *Run, fr *Frame, a []Value) Value {
		return &Chan{buf: []Value{r.timeNow(nil)}, cap: 1}
	})
}
