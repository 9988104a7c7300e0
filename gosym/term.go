package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OBoolConst // u = 0/1
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
	OHex // 4-bit nibble -> lower-case hex character
)

// Term is a hash-consed bit-vector (w > 0) or boolean (w == 0) term.
type Term struct {
	op   Op
	w    int
	a    [3]*Term
	n    int
	lo   int      // extract
	u    uint64   // const value (w <= 64)
	c    *big.Int // const value (w > 64)
	name string
	id   int
	h    h128 // structural hash
	leaf *Term // the only non-constant leaf (for small-support folding), nil if none/many
	nl   int8  // 0 no leaf, 1 one leaf, 2 many
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	lo      int
	u       uint64
	s       string
}

type TT struct {
	tab    map[tkey]*Term
	n      int
	tru    *Term
	fls    *Term
	small  [65][]*Term
	rangeC map[*Term][2]uint64
	foldC  map[*Term]*Term
	varC   map[*Term][]*Term
}

func NewTT() *TT {
	t := &TT{tab: map[tkey]*Term{}, rangeC: map[*Term][2]uint64{}, foldC: map[*Term]*Term{}, varC: map[*Term][]*Term{}}
	t.fls = t.mk(&Term{op: OBoolConst, u: 0})
	t.tru = t.mk(&Term{op: OBoolConst, u: 1})
	for _, w := range []int{8, 16, 32, 64} {
		t.small[w] = make([]*Term, 512)
		for i := range t.small[w] {
			t.small[w][i] = t.mk(&Term{op: OConst, w: w, u: uint64(i)})
		}
	}
	return t
}

func (t *TT) mk(x *Term) *Term {
	k := tkey{op: x.op, w: x.w, lo: x.lo, u: x.u, s: x.name}
	if x.c != nil {
		k.s = x.c.Text(62)
	}
	id := func(y *Term) int {
		if y == nil {
			return 0
		}
		return y.id
	}
	k.a, k.b, k.c = id(x.a[0]), id(x.a[1]), id(x.a[2])
	if y, ok := t.tab[k]; ok {
		return y
	}
	t.n++
	x.id = t.n
	if x.op == OVar {
		x.nl, x.leaf = 1, x
	} else if (x.op == OExtract && x.w <= 8 || x.op == OHex && x.a[0].w <= 8) && x.a[0].nl != 0 {
		// a small slice of something: treat as leaf itself
		if x.op == OHex {
			x.nl, x.leaf = 1, x.a[0]
			if x.a[0].nl == 1 && x.a[0].leaf.w <= 8 {
				x.leaf = x.a[0].leaf
			}
		} else {
			x.nl, x.leaf = 1, x
		}
	} else {
		for i := 0; i < x.n; i++ {
			y := x.a[i]
			switch y.nl {
			case 1:
				if x.nl == 0 {
					x.nl, x.leaf = 1, y.leaf
				} else if x.leaf != y.leaf {
					x.nl, x.leaf = 2, nil
				}
			case 2:
				x.nl, x.leaf = 2, nil
			}
			if x.nl == 2 {
				break
			}
		}
	}
	x.h = termHash(x, k.s)
	t.tab[k] = x
	return x
}

func maskU(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *TT) Bool(b bool) *Term {
	if b {
		return t.tru
	}
	return t.fls
}

func (t *TT) Const(w int, u uint64) *Term {
	if w > 64 {
		return t.ConstBig(w, new(big.Int).SetUint64(u))
	}
	u &= maskU(w)
	if s := t.small[w]; s != nil && u < uint64(len(s)) {
		return s[u]
	}
	return t.mk(&Term{op: OConst, w: w, u: u})
}

func (t *TT) ConstBig(w int, v *big.Int) *Term {
	if w <= 64 {
		m := new(big.Int).And(v, new(big.Int).SetUint64(maskU(w)))
		return t.Const(w, m.Uint64())
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	m.And(m, v)
	return t.mk(&Term{op: OConst, w: w, c: m})
}

func (t *TT) Var(w int, name string) *Term { return t.mk(&Term{op: OVar, w: w, name: name}) }

func (x *Term) isConst() bool { return x.op == OConst || x.op == OBoolConst }
func (x *Term) isTrue() bool  { return x.op == OBoolConst && x.u == 1 }
func (x *Term) isFalse() bool { return x.op == OBoolConst && x.u == 0 }

func (x *Term) big() *big.Int {
	if x.c != nil {
		return x.c
	}
	return new(big.Int).SetUint64(x.u)
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	s := uint(64 - w)
	return int64(u<<s) >> s
}

func bigSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// ---- boolean ----

func (t *TT) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return t.fls
	case a.isFalse():
		return t.tru
	case a.op == ONot:
		return a.a[0]
	case a.op == OUlt:
		return t.mk2(OUle, 0, a.a[1], a.a[0])
	case a.op == OUle:
		return t.mk2(OUlt, 0, a.a[1], a.a[0])
	case a.op == OSlt:
		return t.mk2(OSle, 0, a.a[1], a.a[0])
	case a.op == OSle:
		return t.mk2(OSlt, 0, a.a[1], a.a[0])
	}
	return t.mk(&Term{op: ONot, n: 1, a: [3]*Term{a}})
}

func (t *TT) mk2(op Op, w int, a, b *Term) *Term {
	return t.mk(&Term{op: op, w: w, n: 2, a: [3]*Term{a, b}})
}

func (t *TT) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return t.fls
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if t.Not(a) == b {
		return t.fls
	}
	if a.h[0] > b.h[0] {
		a, b = b, a
	}
	return t.fold(t.mk2(OAnd, 0, a, b))
}

func (t *TT) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return t.tru
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if t.Not(a) == b {
		return t.tru
	}
	if a.h[0] > b.h[0] {
		a, b = b, a
	}
	return t.fold(t.mk2(OOr, 0, a, b))
}

func (t *TT) Ands(xs ...*Term) *Term {
	r := t.tru
	for _, x := range xs {
		r = t.And(r, x)
	}
	return r
}
func (t *TT) Ors(xs ...*Term) *Term {
	r := t.fls
	for _, x := range xs {
		r = t.Or(r, x)
	}
	return r
}

// fold replaces a boolean term over a single small leaf by a constant when
// it has the same value for every value of the leaf.
func (t *TT) fold(x *Term) *Term {
	if x.w != 0 || x.nl != 1 || x.leaf.w > 8 || x.leaf.w == 0 {
		return x
	}
	if y, ok := t.foldC[x]; ok {
		return y
	}
	l := x.leaf
	n := 1 << uint(l.w)
	cnt := 0
	memo := map[*Term]uint64{}
	var last int
	for v := 0; v < n; v++ {
		for k := range memo {
			delete(memo, k)
		}
		memo[l] = uint64(v)
		r, ok := evalSmall(x, memo)
		if !ok {
			t.foldC[x] = x
			return x
		}
		if r != 0 {
			cnt++
			last = v
		}
		if cnt != 0 && cnt != v+1 && cnt > 1 {
			// mixed
			t.foldC[x] = x
			return x
		}
	}
	var y *Term
	switch cnt {
	case 0:
		y = t.fls
	case n:
		y = t.tru
	case 1:
		y = t.mk2(OEq, 0, l, t.Const(l.w, uint64(last)))
	default:
		y = x
	}
	t.foldC[x] = y
	return y
}

// evalSmall evaluates a term with all widths <= 64 given leaf values.
func evalSmall(x *Term, memo map[*Term]uint64) (uint64, bool) {
	if x.isConst() {
		if x.c != nil {
			return 0, false
		}
		return x.u, true
	}
	if v, ok := memo[x]; ok {
		return v, true
	}
	if x.op == OVar || x.w > 64 {
		return 0, false
	}
	var a [3]uint64
	for i := 0; i < x.n; i++ {
		if x.a[i].w > 64 {
			return 0, false
		}
		v, ok := evalSmall(x.a[i], memo)
		if !ok {
			return 0, false
		}
		a[i] = v
	}
	v := evalOp64(x, a)
	memo[x] = v
	return v, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func hexChar(n uint64) uint64 {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

// evalOp64 evaluates op on constant args, all widths <= 64.
func evalOp64(x *Term, a [3]uint64) uint64 {
	w := x.w
	m := maskU(w)
	aw := 0
	if x.n > 0 {
		aw = x.a[0].w
	}
	switch x.op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OEq:
		return b2u(a[0] == a[1])
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OSlt:
		return b2u(sext(a[0], aw) < sext(a[1], aw))
	case OSle:
		return b2u(sext(a[0], aw) <= sext(a[1], aw))
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OAdd:
		return (a[0] + a[1]) & m
	case OSub:
		return (a[0] - a[1]) & m
	case OMul:
		return (a[0] * a[1]) & m
	case OUDiv:
		if a[1] == 0 {
			return m
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OBNot:
		return ^a[0] & m
	case ONeg:
		return (-a[0]) & m
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & m
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		s := a[1]
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sext(a[0], w)>>s) & m
	case OConcat:
		return a[0]<<uint(x.a[1].w) | a[1]
	case OExtract:
		return (a[0] >> uint(x.lo)) & m
	case OZExt:
		return a[0]
	case OSExt:
		return uint64(sext(a[0], aw)) & m
	case OHex:
		return hexChar(a[0] & 15)
	}
	panic("evalOp64")
}

// evalBig evaluates op with arbitrary widths.
func evalBig(x *Term, a [3]*big.Int) *big.Int {
	w := x.w
	mod := func(v *big.Int) *big.Int {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return new(big.Int).Mod(v, m)
	}
	bl := func(b bool) *big.Int { return new(big.Int).SetUint64(b2u(b)) }
	aw := 0
	if x.n > 0 {
		aw = x.a[0].w
	}
	switch x.op {
	case OEq:
		return bl(a[0].Cmp(a[1]) == 0)
	case OUlt:
		return bl(a[0].Cmp(a[1]) < 0)
	case OUle:
		return bl(a[0].Cmp(a[1]) <= 0)
	case OSlt:
		return bl(bigSigned(a[0], aw).Cmp(bigSigned(a[1], aw)) < 0)
	case OSle:
		return bl(bigSigned(a[0], aw).Cmp(bigSigned(a[1], aw)) <= 0)
	case OIte:
		if a[0].Sign() != 0 {
			return a[1]
		}
		return a[2]
	case OAdd:
		return mod(new(big.Int).Add(a[0], a[1]))
	case OSub:
		return mod(new(big.Int).Sub(a[0], a[1]))
	case OMul:
		return mod(new(big.Int).Mul(a[0], a[1]))
	case OUDiv:
		if a[1].Sign() == 0 {
			return mod(big.NewInt(-1))
		}
		return new(big.Int).Div(a[0], a[1])
	case OURem:
		if a[1].Sign() == 0 {
			return a[0]
		}
		return new(big.Int).Mod(a[0], a[1])
	case OSDiv, OSRem:
		p, q := bigSigned(a[0], w), bigSigned(a[1], w)
		if q.Sign() == 0 {
			if x.op == OSRem {
				return a[0]
			}
			if p.Sign() < 0 {
				return big.NewInt(1)
			}
			return mod(big.NewInt(-1))
		}
		if x.op == OSRem {
			return mod(new(big.Int).Rem(p, q))
		}
		return mod(new(big.Int).Quo(p, q))
	case OBAnd:
		return new(big.Int).And(a[0], a[1])
	case OBOr:
		return new(big.Int).Or(a[0], a[1])
	case OBXor:
		return new(big.Int).Xor(a[0], a[1])
	case OBNot:
		return mod(new(big.Int).Not(a[0]))
	case ONeg:
		return mod(new(big.Int).Neg(a[0]))
	case OShl:
		if a[1].Cmp(big.NewInt(int64(w))) >= 0 {
			return new(big.Int)
		}
		return mod(new(big.Int).Lsh(a[0], uint(a[1].Uint64())))
	case OLShr:
		if a[1].Cmp(big.NewInt(int64(w))) >= 0 {
			return new(big.Int)
		}
		return new(big.Int).Rsh(a[0], uint(a[1].Uint64()))
	case OAShr:
		s := uint64(w - 1)
		if a[1].Cmp(big.NewInt(int64(w))) < 0 {
			s = a[1].Uint64()
		}
		return mod(new(big.Int).Rsh(bigSigned(a[0], w), uint(s)))
	case OConcat:
		return new(big.Int).Or(new(big.Int).Lsh(a[0], uint(x.a[1].w)), a[1])
	case OExtract:
		return mod(new(big.Int).Rsh(a[0], uint(x.lo)))
	case OZExt:
		return a[0]
	case OSExt:
		return mod(bigSigned(a[0], aw))
	}
	var u [3]uint64
	for i := 0; i < x.n; i++ {
		u[i] = a[i].Uint64()
	}
	return new(big.Int).SetUint64(evalOp64(x, u))
}

// cfold tries constant folding of a fresh (not yet hash-consed) op.
func (t *TT) cfold(x *Term) *Term {
	for i := 0; i < x.n; i++ {
		if !x.a[i].isConst() {
			return nil
		}
	}
	big_ := x.w > 64
	for i := 0; i < x.n; i++ {
		if x.a[i].w > 64 {
			big_ = true
		}
	}
	if !big_ {
		var a [3]uint64
		for i := 0; i < x.n; i++ {
			a[i] = x.a[i].u
		}
		r := evalOp64(x, a)
		if x.w == 0 {
			return t.Bool(r != 0)
		}
		return t.Const(x.w, r)
	}
	var a [3]*big.Int
	for i := 0; i < x.n; i++ {
		a[i] = x.a[i].big()
	}
	r := evalBig(x, a)
	if x.w == 0 {
		return t.Bool(r.Sign() != 0)
	}
	return t.ConstBig(x.w, r)
}

func (t *TT) Eq(a, b *Term) *Term {
	if a == b {
		return t.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	x := &Term{op: OEq, n: 2, a: [3]*Term{a, b}}
	if r := t.cfold(x); r != nil {
		return r
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return t.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			in := a.a[0]
			v := b.big()
			if v.BitLen() > in.w {
				return t.fls
			}
			return t.Eq(in, t.ConstBig(in.w, v))
		case OSExt:
			in := a.a[0]
			v := bigSigned(b.big(), b.w)
			lim := new(big.Int).Lsh(big.NewInt(1), uint(in.w-1))
			if v.Cmp(lim) >= 0 || v.Cmp(new(big.Int).Neg(lim)) < 0 {
				return t.fls
			}
			return t.Eq(in, t.ConstBig(in.w, v))
		case OHex:
			v := b.u
			if v >= '0' && v <= '9' {
				return t.Eq(a.a[0], t.Const(a.a[0].w, v-'0'))
			}
			if v >= 'a' && v <= 'f' {
				return t.Eq(a.a[0], t.Const(a.a[0].w, v-'a'+10))
			}
			return t.fls
		case OConcat:
			hi := t.Extract(b, a.a[1].w, a.a[0].w)
			lo := t.Extract(b, 0, a.a[1].w)
			return t.And(t.Eq(a.a[0], hi), t.Eq(a.a[1], lo))
		case OIte:
			p, q := a.a[1], a.a[2]
			if p.isConst() && q.isConst() {
				pe, qe := p == b, q == b
				switch {
				case pe && qe:
					return t.tru
				case pe:
					return a.a[0]
				case qe:
					return t.Not(a.a[0])
				default:
					return t.fls
				}
			}
			if p.isConst() {
				if p == b {
					return t.Or(a.a[0], t.Eq(q, b))
				}
				return t.And(t.Not(a.a[0]), t.Eq(q, b))
			}
			if q.isConst() {
				if q == b {
					return t.Or(t.Not(a.a[0]), t.Eq(p, b))
				}
				return t.And(a.a[0], t.Eq(p, b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return t.Eq(a.a[0], t.Sub(b, a.a[1]))
			}
		case OBXor:
			if a.a[1].isConst() {
				return t.Eq(a.a[0], t.BXor(b, a.a[1]))
			}
		}
		if a.w <= 64 && a.w > 0 {
			lo, hi := t.urange(a)
			if b.u < lo || b.u > hi {
				return t.fls
			}
		}
		return t.fold(t.mk2(OEq, 0, a, b))
	}
	if a.op == OHex && b.op == OHex && a.a[0].w == b.a[0].w {
		return t.Eq(a.a[0], b.a[0])
	}
	if a.op == OZExt && b.op == OZExt {
		p, q := a.a[0], b.a[0]
		if p.w == q.w {
			return t.Eq(p, q)
		}
		if p.w < q.w {
			p, q = q, p
		}
		return t.Eq(p, t.ZExt(q, p.w))
	}
	if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return t.Eq(a.a[0], b.a[0])
	}
	if a.op == OConcat || b.op == OConcat {
		if p, q, ok := t.dropEqual(a, b); ok {
			return t.Eq(p, q)
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
		return t.And(t.Eq(a.a[0], b.a[0]), t.Eq(a.a[1], b.a[1]))
	}
	if a.w > 0 && a.w <= 64 {
		al, ah := t.urange(a)
		bl, bh := t.urange(b)
		if ah < bl || bh < al {
			return t.fls
		}
	}
	if a.h[0] > b.h[0] {
		a, b = b, a
	}
	return t.fold(t.mk2(OEq, 0, a, b))
}

// urange gives an unsigned interval for a term of width <= 64.
func (t *TT) urange(x *Term) (uint64, uint64) {
	if x.isConst() {
		return x.u, x.u
	}
	full := maskU(x.w)
	switch x.op {
	case OVar:
		return 0, full
	case OHex:
		return '0', 'f'
	}
	if r, ok := t.rangeC[x]; ok {
		return r[0], r[1]
	}
	lo, hi := uint64(0), full
	switch x.op {
	case OZExt:
		lo, hi = t.urange(x.a[0])
	case OIte:
		l1, h1 := t.urange(x.a[1])
		l2, h2 := t.urange(x.a[2])
		lo, hi = min(l1, l2), max(h1, h2)
	case OBAnd:
		_, h1 := t.urange(x.a[0])
		_, h2 := t.urange(x.a[1])
		hi = min(h1, h2)
	case OLShr:
		l1, h1 := t.urange(x.a[0])
		if x.a[1].isConst() {
			if x.a[1].u >= 64 {
				lo, hi = 0, 0
			} else {
				lo, hi = l1>>x.a[1].u, h1>>x.a[1].u
			}
		} else {
			hi = h1
		}
	case OURem:
		if x.a[1].isConst() && x.a[1].u > 0 {
			hi = x.a[1].u - 1
		}
	case OUDiv:
		l1, h1 := t.urange(x.a[0])
		if x.a[1].isConst() && x.a[1].u > 0 {
			lo, hi = l1/x.a[1].u, h1/x.a[1].u
		}
	case OAdd:
		l1, h1 := t.urange(x.a[0])
		l2, h2 := t.urange(x.a[1])
		s, c := bits.Add64(h1, h2, 0)
		if c == 0 && s <= full {
			lo, hi = l1+l2, s
		}
	case OSub:
		l1, h1 := t.urange(x.a[0])
		l2, h2 := t.urange(x.a[1])
		if l1 >= h2 {
			lo, hi = l1-h2, h1-l2
		}
	case OMul:
		l1, h1 := t.urange(x.a[0])
		l2, h2 := t.urange(x.a[1])
		hh, ll := bits.Mul64(h1, h2)
		if hh == 0 && ll <= full {
			lo, hi = l1*l2, ll
		}
	case OConcat:
		l1, h1 := t.urange(x.a[0])
		l2, h2 := t.urange(x.a[1])
		s := uint(x.a[1].w)
		lo, hi = l1<<s|l2, h1<<s|h2
	case OBOr, OBXor:
		_, h1 := t.urange(x.a[0])
		_, h2 := t.urange(x.a[1])
		n := max(bits.Len64(h1), bits.Len64(h2))
		hi = maskU(n)
		if n == 0 {
			hi = 0
		}
	}
	t.rangeC[x] = [2]uint64{lo, hi}
	return lo, hi
}

func (t *TT) cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	x := &Term{op: op, n: 2, a: [3]*Term{a, b}}
	if r := t.cfold(x); r != nil {
		return r
	}
	if a == b {
		return t.Bool(op == OUle || op == OSle)
	}
	if a.w <= 64 {
		al, ah := t.urange(a)
		bl, bh := t.urange(b)
		sh := uint64(1) << uint(a.w-1)
		signedSame := ah < sh && bh < sh
		if (op == OSlt || op == OSle) && signedSame {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
		switch op {
		case OUlt:
			if ah < bl {
				return t.tru
			}
			if al >= bh {
				return t.fls
			}
		case OUle:
			if ah <= bl {
				return t.tru
			}
			if al > bh {
				return t.fls
			}
		case OSlt:
			if bh < sh && al >= sh {
				return t.tru
			}
			if ah < sh && bl >= sh {
				return t.fls
			}
		case OSle:
			if bh < sh && al >= sh {
				return t.tru
			}
			if ah < sh && bl >= sh {
				return t.fls
			}
		}
	}
	if (op == OUlt || op == OUle) && a.op == OZExt && b.op == OZExt {
		p, q := a.a[0], b.a[0]
		if p.w < q.w {
			p = t.ZExt(p, q.w)
		} else if q.w < p.w {
			q = t.ZExt(q, p.w)
		}
		return t.cmp(op, p, q)
	}
	if (op == OSlt || op == OSle) && a.op == OZExt && b.op == OZExt && a.w > a.a[0].w && b.w > b.a[0].w {
		if op == OSlt {
			return t.cmp(OUlt, a, b)
		}
		return t.cmp(OUle, a, b)
	}
	if a.isConst() && b.op == OIte && (b.a[1].isConst() || b.a[2].isConst()) {
		return t.Ite(b.a[0], t.cmp(op, a, b.a[1]), t.cmp(op, a, b.a[2]))
	}
	if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return t.Ite(a.a[0], t.cmp(op, a.a[1], b), t.cmp(op, a.a[2], b))
	}
	if a.w > 64 {
		if n := min(t.lowZeros(a), t.lowZeros(b)); n >= 8 && n < a.w {
			return t.cmp(op, t.Extract(a, n, a.w-n), t.Extract(b, n, b.w-n))
		}
	}
	if (op == OUlt || op == OUle) && (a.op == OConcat || b.op == OConcat) {
		if p, q, ok := t.dropEqual(a, b); ok {
			return t.cmp(op, p, q)
		}
	}
	if (op == OUlt || op == OUle) && a.op == OHex && b.op == OHex && a.a[0].w == b.a[0].w {
		return t.cmp(op, a.a[0], b.a[0])
	}
	return t.fold(t.mk2(op, 0, a, b))
}

func (t *TT) Ult(a, b *Term) *Term { return t.cmp(OUlt, a, b) }
func (t *TT) Ule(a, b *Term) *Term { return t.cmp(OUle, a, b) }
func (t *TT) Slt(a, b *Term) *Term { return t.cmp(OSlt, a, b) }
func (t *TT) Sle(a, b *Term) *Term { return t.cmp(OSle, a, b) }

func (t *TT) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return t.Or(c, b)
		}
		if a.isFalse() {
			return t.And(t.Not(c), b)
		}
		if b.isTrue() {
			return t.Or(t.Not(c), a)
		}
		if b.isFalse() {
			return t.And(c, a)
		}
	}
	if c.op == ONot {
		return t.Ite(c.a[0], b, a)
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if w := a.w; w > 64 {
		if n := min(t.lowZeros(a), t.lowZeros(b)); n >= 8 && n < w {
			return t.Concat(t.Ite(c, t.Extract(a, n, w-n), t.Extract(b, n, w-n)), t.Const(n, 0))
		}
	}
	return t.mk(&Term{op: OIte, w: a.w, n: 3, a: [3]*Term{c, a, b}})
}

func (t *TT) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	x := &Term{op: op, w: w, n: 2, a: [3]*Term{a, b}}
	if r := t.cfold(x); r != nil {
		return r
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if w > 64 && (op == OAdd || op == OSub) {
		if n := min(t.lowZeros(a), t.lowZeros(b)); n >= 8 && n < w {
			return t.Concat(t.bin(op, t.Extract(a, n, w-n), t.Extract(b, n, w-n)), t.Const(n, 0))
		}
	}
	isC := func(y *Term, v uint64) bool { return y.isConst() && y.big().IsUint64() && y.big().Uint64() == v }
	ones := func(y *Term) bool {
		return y.isConst() && y.big().BitLen() == w && func() bool {
			z := new(big.Int).Add(y.big(), big.NewInt(1))
			return z.BitLen() == w+1
		}()
	}
	switch op {
	case OAdd:
		if isC(b, 0) {
			return a
		}
		if b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return t.bin(OAdd, a.a[0], t.bin(OAdd, a.a[1], b))
		}
	case OSub:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return t.Const(w, 0)
		}
		if b.isConst() {
			return t.bin(OAdd, a, t.Neg(b))
		}
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
	case OMul:
		if isC(b, 0) {
			return b
		}
		if isC(b, 1) {
			return a
		}
	case OUDiv, OSDiv:
		if isC(b, 1) {
			return a
		}
	case OURem:
		if isC(b, 1) {
			return t.Const(w, 0)
		}
		if b.isConst() && w <= 64 {
			_, h := t.urange(a)
			if h < b.u {
				return a
			}
		}
	case OBAnd:
		if isC(b, 0) {
			return b
		}
		if a == b || ones(b) {
			return a
		}
		if b.isConst() {
			// low mask -> zext(extract)
			n := b.big().BitLen()
			z := new(big.Int).Add(b.big(), big.NewInt(1))
			if z.BitLen() == n+1 && int(z.TrailingZeroBits()) == n {
				return t.ZExt(t.Extract(a, 0, n), w)
			}
		}
	case OBOr:
		if isC(b, 0) || a == b {
			return a
		}
		if ones(b) {
			return b
		}
		if r := t.orDisjoint(a, b); r != nil {
			return r
		}
	case OBXor:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return t.Const(w, 0)
		}
	case OShl:
		if isC(b, 0) {
			return a
		}
		if b.isConst() {
			if b.big().Cmp(big.NewInt(int64(w))) >= 0 {
				return t.Const(w, 0)
			}
			n := int(b.big().Int64())
			return t.Concat(t.Extract(a, 0, w-n), t.Const(n, 0))
		}
	case OLShr:
		if isC(b, 0) {
			return a
		}
		if b.isConst() {
			if b.big().Cmp(big.NewInt(int64(w))) >= 0 {
				return t.Const(w, 0)
			}
			n := int(b.big().Int64())
			return t.ZExt(t.Extract(a, n, w-n), w)
		}
	case OAShr:
		if isC(b, 0) {
			return a
		}
		if b.isConst() {
			n := w - 1
			if b.big().Cmp(big.NewInt(int64(w))) < 0 {
				n = int(b.big().Int64())
			}
			return t.SExt(t.Extract(a, n, w-n), w)
		}
	}
	return t.mk2(op, w, a, b)
}

// parts decomposes a term into (lo,width,term) pieces where nil term = zeros.
type part struct {
	w int
	t *Term
}

func (t *TT) parts(x *Term, out []part) []part { // most significant first
	switch x.op {
	case OConcat:
		return t.parts(x.a[1], t.parts(x.a[0], out))
	case OZExt:
		out = append(out, part{x.w - x.a[0].w, nil})
		return t.parts(x.a[0], out)
	case OConst:
		if x.big().Sign() == 0 {
			return append(out, part{x.w, nil})
		}
	}
	return append(out, part{x.w, x})
}

// orDisjoint turns an or of terms with disjoint non-zero pieces into a concat.
func (t *TT) orDisjoint(a, b *Term) *Term {
	if a.op != OConcat && a.op != OZExt || b.op != OConcat && b.op != OZExt {
		return nil
	}
	pa, pb := t.parts(a, nil), t.parts(b, nil)
	var out []*Term
	i, j := 0, 0
	ra, rb := pa[0].w, pb[0].w // remaining widths
	for i < len(pa) && j < len(pb) {
		n := min(ra, rb)
		var piece *Term
		ta, tb := pa[i].t, pb[j].t
		switch {
		case ta == nil && tb == nil:
			piece = t.Const(n, 0)
		case ta != nil && tb != nil:
			return nil
		case ta != nil:
			piece = t.Extract(ta, ra-n, n)
		default:
			piece = t.Extract(tb, rb-n, n)
		}
		out = append(out, piece)
		ra -= n
		rb -= n
		if ra == 0 {
			i++
			if i < len(pa) {
				ra = pa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(pb) {
				rb = pb[j].w
			}
		}
	}
	return t.Concats(out)
}

func (t *TT) Concats(ps []*Term) *Term { // most significant first
	r := ps[0]
	for _, p := range ps[1:] {
		r = t.Concat(r, p)
	}
	return r
}

func (t *TT) Add(a, b *Term) *Term  { return t.bin(OAdd, a, b) }
func (t *TT) Sub(a, b *Term) *Term  { return t.bin(OSub, a, b) }
func (t *TT) Mul(a, b *Term) *Term  { return t.bin(OMul, a, b) }
func (t *TT) BAnd(a, b *Term) *Term { return t.bin(OBAnd, a, b) }
func (t *TT) BOr(a, b *Term) *Term  { return t.bin(OBOr, a, b) }
func (t *TT) BXor(a, b *Term) *Term { return t.bin(OBXor, a, b) }

func (t *TT) un(op Op, w int, a *Term) *Term {
	x := &Term{op: op, w: w, n: 1, a: [3]*Term{a}}
	if r := t.cfold(x); r != nil {
		return r
	}
	return t.mk(x)
}
func (t *TT) BNot(a *Term) *Term {
	if a.op == OBNot {
		return a.a[0]
	}
	return t.un(OBNot, a.w, a)
}
func (t *TT) Neg(a *Term) *Term {
	if a.op == ONeg {
		return a.a[0]
	}
	if w := a.w; w > 64 {
		if n := t.lowZeros(a); n >= 8 && n < w {
			return t.Concat(t.Neg(t.Extract(a, n, w-n)), t.Const(n, 0))
		}
	}
	return t.un(ONeg, a.w, a)
}

func (t *TT) Concat(a, b *Term) *Term {
	x := &Term{op: OConcat, w: a.w + b.w, n: 2, a: [3]*Term{a, b}}
	if r := t.cfold(x); r != nil {
		return r
	}
	if a.isConst() && a.big().Sign() == 0 {
		return t.ZExt(b, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && a.lo == b.lo+b.w {
		return t.Extract(a.a[0], b.lo, a.w+b.w)
	}
	if a.op == OConcat && a.a[1].op == OExtract && b.op == OExtract && a.a[1].a[0] == b.a[0] && a.a[1].lo == b.lo+b.w {
		return t.Concat(a.a[0], t.Extract(b.a[0], b.lo, a.a[1].w+b.w))
	}
	if b.op == OConcat { // left-assoc
		return t.Concat(t.Concat(a, b.a[0]), b.a[1])
	}
	if a.op == OConcat && a.a[1].isConst() && b.isConst() {
		return t.Concat(a.a[0], t.Concat(a.a[1], b))
	}
	if a.op == OZExt {
		return t.ZExt(t.Concat(a.a[0], b), a.w+b.w)
	}
	return t.mk(x)
}

func (t *TT) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if lo < 0 || w <= 0 || lo+w > a.w {
		panic(fmt.Sprintf("bad extract lo=%d w=%d of %d", lo, w, a.w))
	}
	x := &Term{op: OExtract, w: w, n: 1, lo: lo, a: [3]*Term{a}}
	if r := t.cfold(x); r != nil {
		return r
	}
	switch a.op {
	case OExtract:
		return t.Extract(a.a[0], a.lo+lo, w)
	case OConcat:
		lw := a.a[1].w
		if lo+w <= lw {
			return t.Extract(a.a[1], lo, w)
		}
		if lo >= lw {
			return t.Extract(a.a[0], lo-lw, w)
		}
		return t.Concat(t.Extract(a.a[0], 0, lo+w-lw), t.Extract(a.a[1], lo, lw-lo))
	case OZExt:
		iw := a.a[0].w
		if lo >= iw {
			return t.Const(w, 0)
		}
		if lo+w <= iw {
			return t.Extract(a.a[0], lo, w)
		}
		return t.ZExt(t.Extract(a.a[0], lo, iw-lo), w)
	case OSExt:
		iw := a.a[0].w
		if lo+w <= iw {
			return t.Extract(a.a[0], lo, w)
		}
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return t.Ite(a.a[0], t.Extract(a.a[1], lo, w), t.Extract(a.a[2], lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return t.bin(a.op, t.Extract(a.a[0], lo, w), t.Extract(a.a[1], lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 && w <= 64 && a.w <= 64 {
			return t.bin(a.op, t.Extract(a.a[0], 0, w), t.Extract(a.a[1], 0, w))
		}
	}
	return t.mk(x)
}

func (t *TT) ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return t.Extract(a, 0, w)
	}
	x := &Term{op: OZExt, w: w, n: 1, a: [3]*Term{a}}
	if r := t.cfold(x); r != nil {
		return r
	}
	if a.op == OZExt {
		return t.ZExt(a.a[0], w)
	}
	return t.mk(x)
}

func (t *TT) SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return t.Extract(a, 0, w)
	}
	x := &Term{op: OSExt, w: w, n: 1, a: [3]*Term{a}}
	if r := t.cfold(x); r != nil {
		return r
	}
	if a.op == OZExt && a.w > a.a[0].w {
		return t.ZExt(a.a[0], w)
	}
	if a.op == OSExt {
		return t.SExt(a.a[0], w)
	}
	if a.w > 64 {
		if n := t.lowZeros(a); n >= 8 && n < a.w {
			return t.Concat(t.SExt(t.Extract(a, n, a.w-n), w-n), t.Const(n, 0))
		}
	}
	return t.mk(x)
}

// Hex encodes a 4-bit nibble as lower-case hex character.
func (t *TT) Hex(a *Term) *Term {
	x := &Term{op: OHex, w: 8, n: 1, a: [3]*Term{a}}
	if r := t.cfold(x); r != nil {
		return r
	}
	return t.mk(x)
}

// Unhex decodes a hex character; ok is the validity condition.
func (t *TT) Unhex(c *Term) (nib *Term, ok *Term) {
	if c.op == OHex {
		return c.a[0], t.tru
	}
	if c.isConst() {
		v := c.u
		switch {
		case v >= '0' && v <= '9':
			return t.Const(4, v-'0'), t.tru
		case v >= 'a' && v <= 'f':
			return t.Const(4, v-'a'+10), t.tru
		case v >= 'A' && v <= 'F':
			return t.Const(4, v-'A'+10), t.tru
		}
		return t.Const(4, 0), t.fls
	}
	in := func(lo, hi byte) *Term {
		return t.And(t.Ule(t.Const(8, uint64(lo)), c), t.Ule(c, t.Const(8, uint64(hi))))
	}
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	n := t.Ite(d, t.Sub(c, t.Const(8, '0')), t.Ite(l, t.Sub(c, t.Const(8, 'a'-10)), t.Sub(c, t.Const(8, 'A'-10))))
	return t.Extract(n, 0, 4), t.fold(t.Or(d, t.Or(l, u)))
}

// ---- SMT-LIB printing ----

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(x *Term) string {
	if x.op == OBoolConst {
		if x.u == 1 {
			return "true"
		}
		return "false"
	}
	if x.w%4 == 0 {
		s := x.big().Text(16)
		return "#x" + strings.Repeat("0", x.w/4-len(s)) + s
	}
	return fmt.Sprintf("(_ bv%s %d)", x.big().String(), x.w)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat"}

// ref returns the SMT text naming an already-emitted term.
func ref(x *Term) string {
	if x.isConst() {
		return constStr(x)
	}
	if x.op == OVar {
		return "|" + x.name + "|"
	}
	return fmt.Sprintf("t%d", x.id)
}

func body(x *Term) string {
	switch x.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", x.lo+x.w-1, x.lo, ref(x.a[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a[0].w, ref(x.a[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a[0].w, ref(x.a[0]))
	case OHex:
		r := ref(x.a[0])
		w := x.a[0].w
		z := r
		if w < 8 {
			z = fmt.Sprintf("((_ zero_extend %d) %s)", 8-w, r)
		}
		return fmt.Sprintf("(let ((hz %s)) (ite (bvult hz #x0a) (bvadd hz #x30) (bvadd hz #x57)))", z)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[x.op])
	for i := 0; i < x.n; i++ {
		sb.WriteByte(' ')
		sb.WriteString(ref(x.a[i]))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Model maps variables to values.
type Model map[string]*big.Int

// Eval evaluates a term under a model (missing variables are 0).
func Eval(x *Term, m Model, memo map[*Term]*big.Int) *big.Int {
	if x.isConst() {
		return x.big()
	}
	if v, ok := memo[x]; ok {
		return v
	}
	var r *big.Int
	if x.op == OVar {
		r = m[x.name]
		if r == nil {
			r = new(big.Int)
		}
	} else if x.op == OIte || x.op == OAnd || x.op == OOr || x.op == ONot {
		c := Eval(x.a[0], m, memo)
		switch x.op {
		case OIte:
			if c.Sign() != 0 {
				r = Eval(x.a[1], m, memo)
			} else {
				r = Eval(x.a[2], m, memo)
			}
		case OAnd:
			if c.Sign() == 0 {
				r = c
			} else {
				r = Eval(x.a[1], m, memo)
			}
		case OOr:
			if c.Sign() != 0 {
				r = c
			} else {
				r = Eval(x.a[1], m, memo)
			}
		case ONot:
			r = big.NewInt(1 - c.Int64())
		}
	} else {
		var a [3]*big.Int
		for i := 0; i < x.n; i++ {
			a[i] = Eval(x.a[i], m, memo)
		}
		r = evalBig(x, a)
	}
	memo[x] = r
	return r
}

// dropEqual leaves out the bit positions in which a and b are the same, which changes neither
// equality nor unsigned order; ok is false when there are none.
func (t *TT) dropEqual(a, b *Term) (p, q *Term, ok bool) {
	pa, pb := t.parts(a, nil), t.parts(b, nil)
	var x, y []*Term
	i, j := 0, 0
	ra, rb := pa[0].w, pb[0].w
	get := func(e part, lo, n int) *Term {
		if e.t == nil {
			return t.Const(n, 0)
		}
		return t.Extract(e.t, lo, n)
	}
	dropped := false
	for i < len(pa) && j < len(pb) {
		n := min(ra, rb)
		u, v := get(pa[i], ra-n, n), get(pb[j], rb-n, n)
		if u == v {
			dropped = true
		} else {
			x, y = append(x, u), append(y, v)
		}
		ra -= n
		rb -= n
		if ra == 0 {
			i++
			if i < len(pa) {
				ra = pa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(pb) {
				rb = pb[j].w
			}
		}
	}
	if !dropped {
		return nil, nil, false
	}
	if len(x) == 0 {
		return t.Const(1, 0), t.Const(1, 0), true
	}
	return t.Concats(x), t.Concats(y), true
}

// lowZeros is the number of low bits known to be zero.
func (t *TT) lowZeros(x *Term) int {
	switch x.op {
	case OConst:
		v := x.big()
		if v.Sign() == 0 {
			return x.w
		}
		return int(v.TrailingZeroBits())
	case OConcat:
		if n := t.lowZeros(x.a[1]); n < x.a[1].w {
			return n
		}
		return x.a[1].w + t.lowZeros(x.a[0])
	case OZExt, OSExt:
		if n := t.lowZeros(x.a[0]); n < x.a[0].w {
			return n
		}
		return x.w
	}
	return 0
}
