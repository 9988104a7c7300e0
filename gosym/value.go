package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, float64, complex128, Str, *Value (pointer), *SymPtr, Struct, Array, Slice,
// *Map, Iface, *Closure, *Chan, Tuple, BigVal, TimeVal, *SyncObj, *Native, RVal, nil (unset).
type Value interface{}

type Str struct {
	s string
	b []*Term // non-nil: symbolic
}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn    *ssa.Function
	Env   []Value
	B     *ssa.Builtin
	Nat   func(r *Run, args []Value) Value // engine-provided function value
	NName string
}

type SymPtr struct {
	elems []Value
	idx   *Term
}

// BigVal is a math/big.Int: a signed two's complement term wide enough never to overflow.
type BigVal struct {
	t   *Term // width = bits+1
	nil bool
}

// TimeVal is a time.Time with wall seconds and nanoseconds.
type TimeVal struct {
	sec, nsec *Term // 64, 64
	zero      bool
}

// SyncObj models sync.Mutex, RWMutex, Once, WaitGroup, Cond, Map, Pool, atomic.Value...
type SyncObj struct {
	kind    string
	locked  bool
	owner   int
	readers int
	writers int // waiting
	rdBy    map[int]int
	count   int
	done    bool
	m       *Map
	v       Value
}

// Native is an opaque object implemented by the engine; Iface.T is a synthetic named type.
type Native struct {
	kind string
	f    map[string]Value
	x    interface{}
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	id     int
	sent   int
	taken  int
}

type mapEntry struct {
	k, v    Value
	deleted bool
	ck      string
	conc    bool
}

type Map struct {
	ents []*mapEntry
	idx  map[string]*mapEntry
	nsym int
	n    int
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (r *Run) strAt(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return r.tt.Const(8, uint64(s.s[i]))
}

func (r *Run) strTerms(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = r.tt.Const(8, uint64(s.s[i]))
	}
	return out
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{b: append(make([]*Term, 0, len(b)), b...)}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.u))
	}
	return Str{s: sb.String()}
}

func (s Str) slice(lo, hi int) Str {
	if s.b != nil {
		if lo == hi {
			return Str{}
		}
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (r *Run) strCat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	return mkStr(append(append([]*Term{}, r.strTerms(a)...), r.strTerms(b)...))
}

// stripHex maps lower-case hex characters to nibbles when every byte of both allows it.
func (r *Run) stripHex(a, b []*Term) ([]*Term, []*Term) {
	any := false
	ok := func(t *Term) bool {
		if t.op == OHex {
			any = true
			return true
		}
		return t.op == OConst && (t.u >= '0' && t.u <= '9' || t.u >= 'a' && t.u <= 'f')
	}
	for i := range a {
		if !ok(a[i]) {
			return a, b
		}
	}
	for i := range b {
		if !ok(b[i]) {
			return a, b
		}
	}
	if !any {
		return a, b
	}
	conv := func(x []*Term) []*Term {
		out := make([]*Term, len(x))
		for i, t := range x {
			out[i], _ = r.tt.Unhex(t)
		}
		return out
	}
	return conv(a), conv(b)
}

func (r *Run) bytesEq(a, b []*Term) *Term {
	if d := r.docEq(a, b); d != nil {
		return d
	}
	if len(a) != len(b) {
		return r.tt.fls
	}
	if len(a) == 0 {
		return r.tt.tru
	}
	same := true
	for i := range a {
		if a[i] != b[i] {
			same = false
			if a[i].op == OConst && b[i].op == OConst {
				return r.tt.fls
			}
		}
	}
	if same {
		return r.tt.tru
	}
	a, b = r.stripHex(a, b)
	if d := r.hashEq(a, b); d != nil {
		return d
	}
	if a[0].w == 8 {
		// mixed content: compare bytewise where simplification applies
		res := r.tt.tru
		var pa, pb []*Term
		flush := func() {
			if len(pa) > 0 {
				res = r.tt.And(res, r.tt.Eq(r.tt.Concats(pa), r.tt.Concats(pb)))
				pa, pb = nil, nil
			}
		}
		for i := range a {
			if a[i].op == OHex || b[i].op == OHex || a[i].op == OIte || b[i].op == OIte {
				res = r.tt.And(res, r.tt.Eq(a[i], b[i]))
				if res.isFalse() {
					return res
				}
				continue
			}
			pa, pb = append(pa, a[i]), append(pb, b[i])
		}
		flush()
		return res
	}
	return r.tt.Eq(r.tt.Concats(a), r.tt.Concats(b))
}

func (r *Run) strEq(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return r.tt.Bool(a.s == b.s)
	}
	return r.bytesEq(r.strTerms(a), r.strTerms(b))
}

// bytesLt: lexicographic a < b.
func (r *Run) bytesLt(a, b []*Term) *Term {
	n := min(len(a), len(b))
	if n == 0 {
		return r.tt.Bool(len(a) < len(b))
	}
	x, y := r.stripHex(a[:n], b[:n])
	p, q := r.tt.Concats(x), r.tt.Concats(y)
	lt := r.tt.Ult(p, q)
	if len(a) < len(b) {
		return r.tt.Or(lt, r.tt.Eq(p, q))
	}
	return lt
}

func (r *Run) strLt(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return r.tt.Bool(a.s < b.s)
	}
	return r.bytesLt(r.strTerms(a), r.strTerms(b))
}

func sliceTerms(s Slice) []*Term {
	out := make([]*Term, len(s))
	for i, v := range s {
		out[i] = v.(*Term)
	}
	return out
}

func termSlice(b []*Term) Slice {
	out := make(Slice, len(b))
	for i, t := range b {
		out[i] = t
	}
	return out
}

func (r *Run) bytesOf(s string) Slice {
	out := make(Slice, len(s))
	for i := range out {
		out[i] = r.tt.Const(8, uint64(s[i]))
	}
	return out
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

// width of a scalar type; -1 if not an integer/bool.
func width(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func signed(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

func syncKind(np string) string {
	switch np {
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Map", "sync.Pool", "sync.Cond",
		"sync/atomic.Value", "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64", "sync/atomic.Bool":
		return np
	}
	return ""
}

func (r *Run) zero(t types.Type) Value {
	switch np := namedPath(t); np {
	case "":
	case "math/big.Int":
		return BigVal{t: r.tt.Const(1, 0)}
	case "time.Time":
		return TimeVal{sec: r.tt.Const(64, 0), nsec: r.tt.Const(64, 0), zero: true}
	case "reflect.Value":
		return RVal{}
	default:
		if k := syncKind(np); k != "" {
			return &SyncObj{kind: k}
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w := width(t); w == 0 {
			return r.tt.fls
		} else if w > 0 {
			return r.tt.Const(w, 0)
		}
		if isString(t) {
			return Str{}
		}
		if isFloat(t) {
			return float64(0)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = r.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := r.zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else if _, ok := z.(*Term); ok {
					a[i] = z
				} else {
					a[i] = r.zero(u.Elem())
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return r.zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = r.zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		r.unsupported("zero of type parameter %v", t)
	}
	panic(fmt.Sprintf("zero: %v", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		out := make(Struct, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	case Array:
		out := make(Array, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	case *SyncObj:
		c := *v
		return &c
	}
	return v
}

// ---- equality ----

func (r *Run) eq(t types.Type, a, b Value) *Term {
	tt := r.tt
	switch x := a.(type) {
	case *Term:
		return tt.Eq(x, b.(*Term))
	case float64:
		return tt.Bool(x == b.(float64))
	case complex128:
		return tt.Bool(x == b.(complex128))
	case Str:
		return r.strEq(x, b.(Str))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return tt.Bool(x == y)
		}
		return tt.fls
	case *Native:
		y, ok := b.(*Native)
		return tt.Bool(ok && x == y)
	case Struct:
		y := b.(Struct)
		st := under(t).(*types.Struct)
		res := tt.tru
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			res = tt.And(res, r.eq(st.Field(i).Type(), x[i], y[i]))
			if res.isFalse() {
				return res
			}
		}
		return res
	case Array:
		y := b.(Array)
		et := under(t).(*types.Array).Elem()
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok && width(et) == 8 {
				return r.bytesEq(sliceTerms(Slice(x)), sliceTerms(Slice(y)))
			}
		}
		res := tt.tru
		for i := range x {
			res = tt.And(res, r.eq(et, x[i], y[i]))
			if res.isFalse() {
				return res
			}
		}
		return res
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			// comparison of interface against concrete (should not happen in SSA)
			r.unsupported("iface eq %T", b)
		}
		if x.T == nil || y.T == nil {
			return tt.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tt.fls
		}
		if !types.Comparable(x.T) {
			r.rtPanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return r.eq(x.T, x.V, y.V)
	case *Map:
		if y, ok := b.(*Map); ok {
			return tt.Bool(x == y)
		}
		return tt.Bool(x == nil)
	case Slice:
		if y, ok := b.(Slice); ok {
			return tt.Bool(x == nil && y == nil)
		}
		return tt.Bool(x == nil)
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return tt.Bool(x == y)
		}
		return tt.Bool(x == nil)
	case *Chan:
		return tt.Bool(x == b.(*Chan))
	case TimeVal:
		y := b.(TimeVal)
		return tt.And(tt.Eq(x.sec, y.sec), tt.Eq(x.nsec, y.nsec))
	case nil:
		switch y := b.(type) {
		case nil:
			return tt.tru
		case *Map:
			return tt.Bool(y == nil)
		case Slice:
			return tt.Bool(y == nil)
		case *Closure:
			return tt.Bool(y == nil)
		case *Value:
			return tt.Bool(y == nil)
		case Iface:
			return tt.Bool(y.T == nil)
		}
	case *SymPtr:
		r.unsupported("compare of symbolic pointer")
	case *SyncObj:
		return tt.tru
	}
	r.unsupported("eq %T %T", a, b)
	return nil
}

// concKey renders a fully concrete key canonically.
func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("t%d:%s", x.w, x.big().Text(16)), true
		}
	case Str:
		if x.b == nil {
			return "s" + x.s, true
		}
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		if k, ok := concKey(x.V); ok {
			return "i" + types.TypeString(x.T, nil) + "|" + k, true
		}
	case Array:
		var sb strings.Builder
		sb.WriteString("a")
		for _, e := range x {
			k, ok := concKey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte(0)
		}
		return sb.String(), true
	case Struct:
		var sb strings.Builder
		sb.WriteString("S")
		for _, e := range x {
			k, ok := concKey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte(0)
		}
		return sb.String(), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case *Native:
		return fmt.Sprintf("n%p", x), true
	}
	return "", false
}

func NewMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

func (r *Run) mapFind(kt types.Type, m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted || conc && e.conc {
			continue
		}
		c := r.eq(kt, e.k, k)
		if c.isTrue() || !c.isFalse() && r.branch(c) {
			return e
		}
	}
	return nil
}

func (r *Run) mapSet(kt types.Type, m *Map, k, v Value) {
	if e := r.mapFind(kt, m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	e.ck, e.conc = concKey(k)
	if e.conc {
		m.idx[e.ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (r *Run) mapDelete(kt types.Type, m *Map, k Value) {
	if m == nil {
		return
	}
	e := r.mapFind(kt, m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if e.conc {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	ents := m.ents[:0:0]
	for _, x := range m.ents {
		if x != e {
			ents = append(ents, x)
		}
	}
	m.ents = ents
}

// ---- big integers ----

func (r *Run) bigConst(v *big.Int) BigVal {
	w := v.BitLen() + 1
	return BigVal{t: r.tt.ConstBig(w, v)}
}

func (b BigVal) val() (*big.Int, bool) {
	if b.t.isConst() {
		return bigSigned(b.t.big(), b.t.w), true
	}
	return nil, false
}

func (r *Run) bigExt2(a, b BigVal, extra int) (*Term, *Term) {
	w := max(a.t.w, b.t.w) + extra
	return r.tt.SExt(a.t, w), r.tt.SExt(b.t, w)
}

func (r *Run) bigNorm(t *Term) BigVal {
	if t.isConst() {
		return r.bigConst(bigSigned(t.big(), t.w))
	}
	// drop redundant sign bits
	for {
		switch t.op {
		case OSExt:
			t = t.a[0]
			continue
		case OZExt:
			if t.w > t.a[0].w+1 {
				t = r.tt.ZExt(t.a[0], t.a[0].w+1)
				continue
			}
		}
		return BigVal{t: t}
	}
}

// nonneg reports whether the value is syntactically non-negative.
func (b BigVal) nonneg() bool {
	return b.t.op == OZExt || b.t.isConst() && bigSigned(b.t.big(), b.t.w).Sign() >= 0
}
