package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type obsRec struct {
	name string
	T    types.Type
	v    Value
}

func (r *Run) uniq(name string) string {
	k := r.names[name]
	r.names[name]++
	return fmt.Sprintf("%s#%d", name, k)
}

func (r *Run) addInput(in Input) { r.inputs = append(r.inputs, in) }

// obsTerms renders observed values under the path's model.
func (r *Run) obsTerms() []string {
	var out []string
	for _, o := range r.obsV {
		out = append(out, o.name+"="+r.renderVal(o.T, o.v))
	}
	return out
}

func (r *Run) renderVal(t types.Type, v Value) string {
	memo := r.memo
	ev := func(x *Term) *big.Int { return Eval(x, r.model, memo) }
	bs := func(b []*Term) []byte {
		out := make([]byte, len(b))
		for i, x := range b {
			out[i] = byte(ev(x).Uint64())
		}
		return out
	}
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return strconv.FormatBool(ev(x).Sign() != 0)
		}
		if signed(t) {
			return bigSigned(ev(x), x.w).String()
		}
		return ev(x).String()
	case Str:
		return fmt.Sprintf("%q", string(bs(r.strTerms(x))))
	case Slice:
		if st, ok := under(t).(*types.Slice); ok && width(st.Elem()) == 8 {
			return fmt.Sprintf("%x", bs(sliceTerms(x)))
		}
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += r.renderVal(under(t).(*types.Slice).Elem(), e)
		}
		return s + "]"
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if b, ok := (*x).(BigVal); ok {
			return bigSigned(ev(b.t), b.t.w).String()
		}
	case Iface:
		if x.T == nil {
			return "<nil>"
		}
		if r.hasMethod(x.T, "Error") != nil {
			return "error"
		}
	}
	return fmt.Sprintf("<%s>", t)
}

func regSym() {
	regSymAt(symPath + ".")
	regSymAt(symOf("register/") + ".")
}

func regSymAt(S string) {
	num := func(w int) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			n := r.uniq(cstr(r, a[0]))
			v := r.freshVar(w, "in "+n, big.NewInt(0))
			kind := "uint"
			r.addInput(Input{Name: n, Kind: kind, terms: []*Term{v}})
			return v
		}
	}
	reg(S+"Byte", num(8))
	reg(S+"Uint16", num(16))
	reg(S+"Uint32", num(32))
	reg(S+"Uint64", num(64))
	snum := func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		v := r.freshVar(64, "in "+n, big.NewInt(0))
		r.addInput(Input{Name: n, Kind: "int", terms: []*Term{v}})
		return v
	}
	reg(S+"Int64", snum)
	reg(S+"Int", snum)
	reg(S+"Bool", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		v := r.freshVar(0, "in "+n, big.NewInt(0))
		r.addInput(Input{Name: n, Kind: "uint", terms: []*Term{v}})
		return v
	})
	reg(S+"IntRange", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		lo, hi := cint(r, a[1]), cint(r, a[2])
		if hi < lo {
			r.abort("empty range")
		}
		var t *Term
		if lo == hi {
			t = i64(r, lo)
		} else {
			w := big.NewInt(int64(hi - lo)).BitLen()
			v := r.freshVar(w, "in "+n, big.NewInt(0))
			r.addFact(r.tt.Ule(v, r.tt.Const(w, uint64(hi-lo))))
			t = r.tt.Add(r.tt.ZExt(v, 64), i64(r, lo))
		}
		r.addInput(Input{Name: n, Kind: "int", terms: []*Term{t}})
		return t
	})
	reg(S+"Choose", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		k := r.choose(cint(r, a[1]))
		r.addInput(Input{Name: n, Kind: "conc", conc: strconv.Itoa(k)})
		return i64(r, k)
	})
	reg(S+"Bytes", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		l := cint(r, a[1])
		var out []*Term
		if l > 0 {
			v := r.freshVar(8*l, "in "+n, big.NewInt(0))
			for i := 0; i < l; i++ {
				out = append(out, r.tt.Extract(v, 8*(l-1-i), 8))
			}
		}
		r.addInput(Input{Name: n, Kind: "bytes", terms: append([]*Term{}, out...)})
		return termSlice(out)
	})
	reg(S+"String", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		l := cint(r, a[1])
		var out []*Term
		for i := 0; i < l; i++ {
			v := r.freshVar(7, fmt.Sprintf("in %s.%d", n, i), big.NewInt('a'))
			out = append(out, r.tt.ZExt(v, 8))
		}
		r.addInput(Input{Name: n, Kind: "bytes", terms: append([]*Term{}, out...)})
		if l == 0 {
			return Str{}
		}
		return mkStr(out)
	})
	reg(S+"Assign", func(r *Run, fr *Frame, a []Value) Value {
		d, s := a[0].(Iface), a[1].(Iface)
		if d.T == nil || s.T == nil || !types.Identical(d.T, s.T) {
			return r.tt.fls
		}
		*r.deref(d.V) = copyVal(*r.deref(s.V))
		return r.tt.tru
	})
	reg(S+"BigInt", func(r *Run, fr *Frame, a []Value) Value {
		n := r.uniq(cstr(r, a[0]))
		w := cint(r, a[1])
		v := r.freshVar(w, "in "+n, big.NewInt(0))
		r.addInput(Input{Name: n, Kind: "uint", terms: []*Term{v}})
		return r.newBig(r.bigNorm(r.tt.ZExt(v, w+1)))
	})
	reg(S+"Assume", func(r *Run, fr *Frame, a []Value) Value { r.assume(a[0].(*Term)); return nil })
	reg(S+"Assert", func(r *Run, fr *Frame, a []Value) Value {
		r.obligation(a[0].(*Term), cstr(r, a[1]))
		return nil
	})
	reg(S+"Fail", func(r *Run, fr *Frame, a []Value) Value {
		r.obligation(r.tt.fls, cstr(r, a[0]))
		return nil
	})
	reg(S+"Cover", func(r *Run, fr *Frame, a []Value) Value {
		if r.replaying() {
			return nil
		}
		r.eng.mu.Lock()
		r.eng.res.Covers[cstr(r, a[0])]++
		r.eng.mu.Unlock()
		return nil
	})
	reg(S+"Observe", func(r *Run, fr *Frame, a []Value) Value {
		i := a[1].(Iface)
		r.obsV = append(r.obsV, obsRec{cstr(r, a[0]), i.T, i.V})
		if s, ok := i.V.(Slice); ok {
			r.obsV[len(r.obsV)-1].v = copyVal(append(Slice{}, s...))
		}
		if p, ok := i.V.(*Value); ok && p != nil {
			q := new(Value)
			*q = copyVal(*p)
			r.obsV[len(r.obsV)-1].v = q
		}
		return nil
	})
	reg(S+"Try", func(r *Run, fr *Frame, a []Value) (res Value) {
		d := r.depth
		cur := r.cur
		defer func() {
			if p := recover(); p != nil {
				if tp, ok := p.(targetPanic); ok && r.cur == cur {
					if r.eng.verbose {
						fmt.Println("Try caught:", tp.msg)
					}
					r.depth = d
					res = r.tt.tru
					return
				}
				panic(p)
			}
		}()
		r.call(fr, a[0], nil)
		return r.tt.fls
	})
	reg(S+"Allocates", func(r *Run, fr *Frame, a []Value) Value {
		r.allocLimit, r.allocLabel = cint(r, a[0]), cstr(r, a[1])
		r.call(fr, a[2], nil)
		r.allocLimit = 0
		return nil
	})
	reg(S+"Bound", func(r *Run, fr *Frame, a []Value) Value {
		n := cstr(r, a[0])
		v := cint(r, a[1])
		if r.eng.tier == "thorough" {
			v = cint(r, a[2])
		}
		r.eng.mu.Lock()
		r.eng.res.Bounds[n] = strconv.Itoa(v)
		r.eng.mu.Unlock()
		return i64(r, v)
	})
	reg(S+"Threads", func(r *Run, fr *Frame, a []Value) Value {
		r.preLimit, r.threadsOn = cint(r, a[0]), true
		r.addInput(Input{Name: "preempt", Kind: "conc", conc: strconv.Itoa(r.preLimit)})
		return nil
	})
	reg(S+"Race", func(r *Run, fr *Frame, a []Value) Value { r.enableRace(); return nil })
	reg(S+"MapOrder", func(r *Run, fr *Frame, a []Value) Value { r.mapOrder = a[0].(*Term).isTrue(); return nil })
	reg(S+"OneDraw", func(r *Run, fr *Frame, a []Value) Value { r.oneDraw = true; return nil })
	reg(S+"Yield", func(r *Run, fr *Frame, a []Value) Value { r.yield("yield"); return nil })
	reg(S+"Settle", func(r *Run, fr *Frame, a []Value) Value {
		t := r.cur
		t.settling = true
		r.block("settle", func() bool {
			for _, o := range r.threads {
				if o != t && !o.done && !o.settling && (o.ready == nil || o.ready()) {
					return false
				}
			}
			return true
		})
		t.settling = false
		return nil
	})
	reg(S+"Par", func(r *Run, fr *Frame, a []Value) Value {
		var ts []*Thread
		for _, f := range a[0].(Slice) {
			n := len(r.threads)
			r.spawn(f, nil)
			ts = append(ts, r.threads[n])
		}
		r.block("join", func() bool {
			for _, t := range ts {
				if !t.done {
					return false
				}
			}
			return true
		})
		if r.raceS != nil {
			for _, t := range ts {
				r.raceS.vc[r.cur.id] = vcJoin(r.raceS.vc[r.cur.id], r.raceS.vc[t.id])
			}
		}
		return nil
	})
	reg(S+"Symbolic", func(r *Run, fr *Frame, a []Value) Value { return r.tt.tru })
	reg(S+"Key", func(r *Run, fr *Frame, a []Value) Value {
		// the k-th concrete test private key (same bytes natively)
		k := cint(r, a[0])
		return Str{s: testKey(k)}
	})
	reg(S+"TimeNow", func(r *Run, fr *Frame, a []Value) Value { return r.timeNow(fr) })
	_ = ssa.InstantiateGenerics
}

// testKey is a deterministic 32-byte private key in raw hex.
func testKey(k int) string {
	return fmt.Sprintf("%x", pseudo(fmt.Sprintf("verif key %d", k), 32))
}

func regEnv() {}
