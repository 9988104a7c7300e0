package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func regSync() {
	reg("(*sync.Mutex).Lock|(*sync.RWMutex).Lock", func(r *Run, fr *Frame, a []Value) Value { r.lock(r.syncObj(a[0]), fr); return nil })
	reg("(*sync.Mutex).Unlock|(*sync.RWMutex).Unlock", func(r *Run, fr *Frame, a []Value) Value { r.unlock(r.syncObj(a[0]), fr); return nil })
	reg("(*sync.RWMutex).RLock", func(r *Run, fr *Frame, a []Value) Value { r.rlock(r.syncObj(a[0]), fr); return nil })
	reg("(*sync.RWMutex).RUnlock", func(r *Run, fr *Frame, a []Value) Value { r.runlock(r.syncObj(a[0]), fr); return nil })
	reg("(*sync.Mutex).TryLock|(*sync.RWMutex).TryLock", func(r *Run, fr *Frame, a []Value) Value {
		o := r.syncObj(a[0])
		if o.locked || o.readers > 0 {
			return r.tt.fls
		}
		r.lock(o, nil)
		return r.tt.tru
	})
	reg("(*sync.Once).Do", func(r *Run, fr *Frame, a []Value) Value {
		o := r.syncObj(a[0])
		if !o.done {
			if o.locked {
				r.block("Once", func() bool { return o.done })
				r.raceAcquire(o)
				return nil
			}
			o.locked = true
			r.call(fr, a[1], nil)
			o.done = true
			r.raceRelease(o)
		} else {
			r.raceAcquire(o)
		}
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(r *Run, fr *Frame, a []Value) Value {
		o := r.syncObj(a[0])
		o.count += cint(r, a[1])
		if o.count < 0 {
			r.rtPanic("sync: negative WaitGroup counter")
		}
		r.raceRelease(o)
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(r *Run, fr *Frame, a []Value) Value {
		o := r.syncObj(a[0])
		o.count--
		if o.count < 0 {
			r.rtPanic("sync: negative WaitGroup counter")
		}
		r.raceRelease(o)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(r *Run, fr *Frame, a []Value) Value {
		o := r.syncObj(a[0])
		r.block("WaitGroup", func() bool { return o.count == 0 })
		r.raceAcquire(o)
		return nil
	})
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(r *Run, p Value) *SyncObj {
		o := r.syncObj(p)
		if o.m == nil {
			o.m = NewMap()
		}
		r.raceAcquire(o)
		r.raceRelease(o)
		return o
	}
	reg("(*sync.Map).Store", func(r *Run, fr *Frame, a []Value) Value {
		r.mapSet(anyT, smap(r, a[0]).m, a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Load", func(r *Run, fr *Frame, a []Value) Value {
		if e := r.mapFind(anyT, smap(r, a[0]).m, a[1]); e != nil {
			return Tuple{e.v, r.tt.tru}
		}
		return Tuple{Iface{}, r.tt.fls}
	})
	reg("(*sync.Map).LoadOrStore", func(r *Run, fr *Frame, a []Value) Value {
		o := smap(r, a[0])
		if e := r.mapFind(anyT, o.m, a[1]); e != nil {
			return Tuple{e.v, r.tt.tru}
		}
		r.mapSet(anyT, o.m, a[1], a[2])
		return Tuple{a[2], r.tt.fls}
	})
	reg("(*sync.Map).Delete", func(r *Run, fr *Frame, a []Value) Value {
		r.mapDelete(anyT, smap(r, a[0]).m, a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(r *Run, fr *Frame, a []Value) Value {
		for _, e := range append([]*mapEntry{}, smap(r, a[0]).m.ents...) {
			if !r.branch(r.call(fr, a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(r *Run, fr *Frame, a []Value) Value {
		x := r.deref(a[0])
		if o, ok := (*x).(*SyncObj); ok {
			if c, ok := o.v.(*Closure); ok && c != nil {
				return r.call(fr, c, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", noop)
	// atomics on plain cells
	regPrefix("sync/atomic.", func(fn *ssa.Function) Intrinsic {
		n := fn.Name()
		recv := fn.Signature.Recv()
		if recv != nil {
			// methods of atomic.Int64 and friends
			return func(r *Run, fr *Frame, a []Value) Value {
				o := r.syncObj(a[0])
				r.raceAcquire(o)
				defer r.raceRelease(o)
				if o.v == nil {
					res := fn.Signature.Results()
					switch {
					case n == "Load" || n == "Swap" || n == "Add":
						o.v = r.zero(res.At(0).Type())
					case n == "CompareAndSwap":
						o.v = r.zero(fn.Signature.Params().At(0).Type())
					}
				}
				switch n {
				case "Load":
					return o.v
				case "Store":
					o.v = a[1]
					return nil
				case "Swap":
					old := o.v
					o.v = a[1]
					return old
				case "Add":
					o.v = r.tt.Add(o.v.(*Term), a[1].(*Term))
					return o.v
				case "CompareAndSwap":
					if r.branch(r.eq(fn.Signature.Params().At(0).Type(), o.v, a[1])) {
						o.v = a[2]
						return r.tt.tru
					}
					return r.tt.fls
				}
				r.unsupported("atomic method %s", n)
				return nil
			}
		}
		return func(r *Run, fr *Frame, a []Value) Value {
			p := r.deref(a[0])
			r.raceAcquire(p)
			defer r.raceRelease(p)
			switch {
			case strings.HasPrefix(n, "Load"):
				return *p
			case strings.HasPrefix(n, "Store"):
				*p = a[1]
				return nil
			case strings.HasPrefix(n, "Add"):
				*p = r.tt.Add((*p).(*Term), a[1].(*Term))
				return *p
			case strings.HasPrefix(n, "Swap"):
				old := *p
				*p = a[1]
				return old
			case strings.HasPrefix(n, "CompareAndSwap"):
				if r.branch(r.eq(fn.Signature.Params().At(1).Type(), *p, a[1])) {
					*p = a[2]
					return r.tt.tru
				}
				return r.tt.fls
			}
			r.unsupported("atomic %s", n)
			return nil
		}
	})
}
