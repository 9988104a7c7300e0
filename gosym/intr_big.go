package main

import (
	"fmt"
	"math/big"
	"strings"
)

func (r *Run) bigAt(p Value) BigVal {
	x := r.deref(p)
	b, ok := (*x).(BigVal)
	if !ok {
		r.unsupported("big.Int cell holds %T", *x)
	}
	r.raceRead(x)
	return b
}

func (r *Run) bigSet(p Value, b BigVal) Value {
	x := r.deref(p)
	r.raceWrite(x)
	*x = b
	return p
}

func (r *Run) newBig(b BigVal) *Value {
	p := new(Value)
	*p = b
	return p
}

// bigBytes gives the minimal big-endian bytes of |b|, forking on the length.
func (r *Run) bigBytes(b BigVal) []*Term {
	tt := r.tt
	m := r.bigAbs(b).t // w bits, top bit zero
	w := m.w
	nb := (w - 1 + 7) / 8
	if nb == 0 {
		return nil
	}
	full := tt.ZExt(m, nb*8+1)
	full = tt.Extract(full, 0, nb*8)
	// find length
	for k := nb; k > 0; k-- {
		top := tt.Extract(full, 8*(k-1), 8)
		if !r.branch(tt.Eq(top, tt.Const(8, 0))) {
			out := make([]*Term, k)
			for i := 0; i < k; i++ {
				out[i] = tt.Extract(full, 8*(k-1-i), 8)
			}
			return out
		}
	}
	return nil
}

func (r *Run) bigAbs(b BigVal) BigVal {
	if b.nonneg() {
		return b
	}
	w := b.t.w + 1
	x := r.tt.SExt(b.t, w)
	return r.bigNorm(r.tt.Ite(r.tt.Slt(x, r.tt.Const(w, 0)), r.tt.Neg(x), x))
}

// bigFromBytes makes a non-negative integer from big-endian bytes.
func (r *Run) bigFromBytes(b []*Term) BigVal {
	if len(b) == 0 {
		return r.bigConst(new(big.Int))
	}
	return r.bigNorm(r.tt.ZExt(r.tt.Concats(b), 8*len(b)+1))
}

// bigText renders a big.Int in decimal or hex.
func (r *Run) bigText(b BigVal, base int) Str {
	if v, ok := b.val(); ok {
		return Str{s: v.Text(base)}
	}
	if base == 10 {
		return mkStr(r.newDoc(&JNode{k: jNum, t: b.t}, true))
	}
	if base == 16 && b.nonneg() {
		bs := r.bigBytes(b)
		var out []*Term
		for _, t := range bs {
			out = append(out, r.tt.Hex(r.tt.Extract(t, 4, 4)), r.tt.Hex(r.tt.Extract(t, 0, 4)))
		}
		// strip one leading zero nibble
		if len(out) > 0 && r.branch(r.tt.Eq(r.tt.Extract(bs[0], 4, 4), r.tt.Const(4, 0))) {
			out = out[1:]
		}
		if len(out) == 0 {
			return Str{s: "0"}
		}
		return mkStr(out)
	}
	r.unsupported("text base %d of symbolic big.Int", base)
	return Str{}
}

func (r *Run) bigParse(s Str, base int) (BigVal, bool) {
	if s.b == nil {
		v, ok := new(big.Int).SetString(s.s, base)
		if !ok {
			return BigVal{}, false
		}
		return r.bigConst(v), true
	}
	if d := r.wholeDoc(s.b); d != nil && d.text && d.n.k == jNum && (base == 10 || base == 0) {
		return r.bigNorm(d.n.t), true
	}
	tt := r.tt
	if base == 16 {
		ok := tt.Bool(len(s.b) > 0)
		var ns []*Term
		for _, c := range s.b {
			n, o := tt.Unhex(c)
			ok = tt.And(ok, o)
			ns = append(ns, n)
		}
		if !r.branch(ok) {
			// a sign or underscore may still be accepted by SetString; treat as outside the model
			first := s.b[0]
			if r.branch(tt.Or(tt.Eq(first, tt.Const(8, '-')), tt.Eq(first, tt.Const(8, '+')))) {
				r.unsupported("signed symbolic hex number")
			}
			return BigVal{}, false
		}
		x := tt.Concats(ns)
		return r.bigNorm(tt.ZExt(x, x.w+1)), true
	}
	if base == 10 || base == 0 {
		if len(s.b) > 40 {
			r.unsupported("long symbolic decimal")
		}
		ok := tt.tru
		w := len(s.b)*4 + 2
		v := tt.Const(w, 0)
		for _, c := range s.b {
			d := tt.Sub(c, tt.Const(8, '0'))
			ok = tt.And(ok, tt.Ult(d, tt.Const(8, 10)))
			var dz *Term
			if w >= 8 {
				dz = tt.ZExt(d, w)
			} else {
				dz = tt.Extract(d, 0, w)
			}
			v = tt.Add(tt.Mul(v, tt.Const(w, 10)), dz)
		}
		if !r.branch(ok) {
			return BigVal{}, false
		}
		return r.bigNorm(v), true
	}
	r.unsupported("big parse base %d", base)
	return BigVal{}, false
}

func regBig() {
	p := "(*math/big.Int)."
	reg("math/big.NewInt", func(r *Run, fr *Frame, a []Value) Value {
		return r.newBig(r.bigNorm(a[0].(*Term)))
	})
	bin := func(f func(r *Run, x, y BigVal) BigVal) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			return r.bigSet(a[0], f(r, r.bigAt(a[1]), r.bigAt(a[2])))
		}
	}
	reg(p+"Add", bin(func(r *Run, x, y BigVal) BigVal {
		if x.nonneg() && y.nonneg() && !x.t.isConst() {
			w := max(x.t.w, y.t.w) // values < 2^(w-1)
			a := r.tt.ZExt(r.tt.Extract(x.t, 0, x.t.w-1+b2i(x.t.w == 1)), w)
			b := r.tt.ZExt(r.tt.Extract(y.t, 0, y.t.w-1+b2i(y.t.w == 1)), w)
			return r.bigNorm(r.tt.ZExt(r.tt.Add(a, b), w+1))
		}
		a, b := r.bigExt2(x, y, 1)
		return r.bigNorm(r.tt.Add(a, b))
	}))
	reg(p+"Sub", bin(func(r *Run, x, y BigVal) BigVal {
		a, b := r.bigExt2(x, y, 1)
		return r.bigNorm(r.tt.Sub(a, b))
	}))
	reg(p+"Mul", bin(func(r *Run, x, y BigVal) BigVal {
		w := x.t.w + y.t.w
		if x.nonneg() && y.nonneg() {
			if w < 2 {
				w = 2
			}
			m := r.tt.Mul(r.tt.ZExt(x.t, w), r.tt.ZExt(y.t, w))
			return r.bigNorm(r.tt.ZExt(r.tt.Extract(m, 0, w-1), w))
		}
		return r.bigNorm(r.tt.Mul(r.tt.SExt(x.t, w), r.tt.SExt(y.t, w)))
	}))
	div := func(op Op, eu bool) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			x, y := r.bigAt(a[1]), r.bigAt(a[2])
			p, q := r.bigExt2(x, y, 1)
			if r.branch(r.tt.Eq(q, r.tt.Const(q.w, 0))) {
				r.rtPanic("division by zero")
			}
			z := r.tt.Const(q.w, 0)
			if !eu {
				return r.bigSet(a[0], r.bigNorm(r.tt.bin(op, p, q)))
			}
			quo, rem := r.tt.bin(OSDiv, p, q), r.tt.bin(OSRem, p, q)
			neg := r.tt.Slt(rem, z)
			qneg := r.tt.Slt(q, z)
			one := r.tt.Const(q.w, 1)
			if op == OSDiv {
				return r.bigSet(a[0], r.bigNorm(r.tt.Ite(neg, r.tt.Ite(qneg, r.tt.Add(quo, one), r.tt.Sub(quo, one)), quo)))
			}
			return r.bigSet(a[0], r.bigNorm(r.tt.Ite(neg, r.tt.Ite(qneg, r.tt.Sub(rem, q), r.tt.Add(rem, q)), rem)))
		}
	}
	reg(p+"Quo", div(OSDiv, false))
	reg(p+"Rem", div(OSRem, false))
	reg(p+"Div", div(OSDiv, true))
	reg(p+"Mod", div(OSRem, true))
	reg(p+"Neg", func(r *Run, fr *Frame, a []Value) Value {
		b := r.bigAt(a[1])
		return r.bigSet(a[0], r.bigNorm(r.tt.Neg(r.tt.SExt(b.t, b.t.w+1))))
	})
	reg(p+"Abs", func(r *Run, fr *Frame, a []Value) Value { return r.bigSet(a[0], r.bigAbs(r.bigAt(a[1]))) })
	reg(p+"Set", func(r *Run, fr *Frame, a []Value) Value { return r.bigSet(a[0], r.bigAt(a[1])) })
	reg(p+"SetInt64", func(r *Run, fr *Frame, a []Value) Value { return r.bigSet(a[0], r.bigNorm(a[1].(*Term))) })
	reg(p+"SetUint64", func(r *Run, fr *Frame, a []Value) Value {
		return r.bigSet(a[0], r.bigNorm(r.tt.ZExt(a[1].(*Term), 65)))
	})
	reg(p+"SetBytes", func(r *Run, fr *Frame, a []Value) Value {
		return r.bigSet(a[0], r.bigFromBytes(sliceTerms(a[1].(Slice))))
	})
	reg(p+"Bytes", func(r *Run, fr *Frame, a []Value) Value {
		s := termSlice(r.bigBytes(r.bigAt(a[0])))
		return s
	})
	reg(p+"FillBytes", func(r *Run, fr *Frame, a []Value) Value {
		b := r.bigAbs(r.bigAt(a[0]))
		buf := a[1].(Slice)
		n := len(buf) * 8
		t := b.t
		if t.w > n {
			if n == 0 || !r.branch(r.tt.Eq(r.tt.Extract(t, n, t.w-n), r.tt.Const(t.w-n, 0))) {
				r.rtPanic("math/big: buffer too small to fit value")
			}
			t = r.tt.Extract(t, 0, n)
		} else {
			t = r.tt.ZExt(t, n)
		}
		for i := range buf {
			buf[i] = r.tt.Extract(t, 8*(len(buf)-1-i), 8)
		}
		return buf
	})
	reg(p+"Cmp", func(r *Run, fr *Frame, a []Value) Value { return r.bigCmp(r.bigAt(a[0]), r.bigAt(a[1])) })
	reg(p+"CmpAbs", func(r *Run, fr *Frame, a []Value) Value {
		return r.bigCmp(r.bigAbs(r.bigAt(a[0])), r.bigAbs(r.bigAt(a[1])))
	})
	reg(p+"Sign", func(r *Run, fr *Frame, a []Value) Value { return r.bigCmp(r.bigAt(a[0]), r.bigConst(new(big.Int))) })
	reg(p+"Int64", func(r *Run, fr *Frame, a []Value) Value {
		t := r.bigAt(a[0]).t
		if t.w >= 64 {
			return r.tt.Extract(t, 0, 64)
		}
		return r.tt.SExt(t, 64)
	})
	reg(p+"Uint64", func(r *Run, fr *Frame, a []Value) Value {
		t := r.bigAt(a[0]).t
		if t.w >= 64 {
			return r.tt.Extract(t, 0, 64)
		}
		return r.tt.SExt(t, 64)
	})
	reg(p+"IsInt64", func(r *Run, fr *Frame, a []Value) Value {
		_, ok := r.fitInt(r.bigAt(a[0]).t, 64, true)
		return ok
	})
	reg(p+"IsUint64", func(r *Run, fr *Frame, a []Value) Value {
		_, ok := r.fitInt(r.bigAt(a[0]).t, 64, false)
		return ok
	})
	reg(p+"BitLen", func(r *Run, fr *Frame, a []Value) Value {
		t := r.bigAbs(r.bigAt(a[0])).t
		res := i64(r, 0)
		for i := 0; i < t.w; i++ {
			res = r.tt.Ite(r.tt.Eq(r.tt.Extract(t, i, 1), r.tt.Const(1, 1)), i64(r, i+1), res)
		}
		return res
	})
	reg(p+"Lsh", func(r *Run, fr *Frame, a []Value) Value {
		b := r.bigAt(a[1])
		n := cint(r, a[2])
		return r.bigSet(a[0], r.bigNorm(r.tt.bin(OShl, r.tt.SExt(b.t, b.t.w+n), r.tt.Const(b.t.w+n, uint64(n)))))
	})
	reg(p+"Rsh", func(r *Run, fr *Frame, a []Value) Value {
		b := r.bigAt(a[1])
		n := cint(r, a[2])
		return r.bigSet(a[0], r.bigNorm(r.tt.bin(OAShr, b.t, r.tt.ConstBig(b.t.w, big.NewInt(int64(min(n, b.t.w)))))))
	})
	bitop := func(op Op) Intrinsic {
		return bin(func(r *Run, x, y BigVal) BigVal {
			a, b := r.bigExt2(x, y, 0)
			return r.bigNorm(r.tt.bin(op, a, b))
		})
	}
	reg(p+"And", bitop(OBAnd))
	reg(p+"Or", bitop(OBOr))
	reg(p+"Xor", bitop(OBXor))
	reg(p+"SetString", func(r *Run, fr *Frame, a []Value) Value {
		b, ok := r.bigParse(a[1].(Str), cint(r, a[2]))
		if !ok {
			return Tuple{(*Value)(nil), r.tt.fls}
		}
		return Tuple{r.bigSet(a[0], b), r.tt.tru}
	})
	reg(p+"String", func(r *Run, fr *Frame, a []Value) Value {
		if x, ok := a[0].(*Value); ok && x == nil {
			return Str{s: "<nil>"}
		}
		return r.bigText(r.bigAt(a[0]), 10)
	})
	reg(p+"Text", func(r *Run, fr *Frame, a []Value) Value { return r.bigText(r.bigAt(a[0]), cint(r, a[1])) })
	reg(p+"Exp", func(r *Run, fr *Frame, a []Value) Value {
		x, ok1 := r.bigAt(a[1]).val()
		y, ok2 := r.bigAt(a[2]).val()
		if !ok1 || !ok2 {
			r.unsupported("symbolic big Exp")
		}
		var m *big.Int
		if q, ok := a[3].(*Value); ok && q != nil {
			m, _ = r.bigAt(q).val()
		}
		return r.bigSet(a[0], r.bigConst(new(big.Int).Exp(x, y, m)))
	})
	// types.BigInt.String and friends in filecoin libraries go through these
	_ = fmt.Sprint
	_ = strings.Compare
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *Run) bigCmp(x, y BigVal) *Term {
	a, b := r.bigExt2(x, y, 0)
	var lt *Term
	if x.nonneg() && y.nonneg() {
		lt = r.tt.Ult(a, b)
	} else {
		lt = r.tt.Slt(a, b)
	}
	return r.tt.Ite(lt, i64(r, -1), r.tt.Ite(r.tt.Eq(a, b), i64(r, 0), i64(r, 1)))
}
