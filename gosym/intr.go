package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}
var nativeMethods = map[string]func(r *Run, n *Native, args []Value) Value{}

func reg(name string, f Intrinsic) {
	for _, n := range strings.Split(name, "|") {
		if _, dup := intrinsics[n]; dup {
			panic("dup intrinsic " + n)
		}
		intrinsics[n] = f
	}
}

func noop(r *Run, fr *Frame, args []Value) Value { return nil }

var regexIntr []struct {
	pre string
	f   func(fn *ssa.Function) Intrinsic
}

func regPrefix(pre string, f func(fn *ssa.Function) Intrinsic) {
	regexIntr = append(regexIntr, struct {
		pre string
		f   func(fn *ssa.Function) Intrinsic
	}{pre, f})
}

func zeroIntr(fn *ssa.Function) Intrinsic {
	sig := fn.Signature
	return func(r *Run, fr *Frame, args []Value) Value { return r.zeroResults(sig) }
}

func lookupIntrinsic(name string, fn *ssa.Function) Intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return nil
	}
	for _, p := range regexIntr {
		if strings.HasPrefix(name, p.pre) || strings.HasPrefix(name, "("+p.pre) || strings.HasPrefix(name, "(*"+p.pre) {
			return p.f(fn)
		}
	}
	return nil
}

// nativeType returns a synthetic named type for engine objects.
var nativeTypes = map[string]types.Type{}

func nativeType(kind string) types.Type {
	regMu.Lock()
	defer regMu.Unlock()
	if t, ok := nativeTypes[kind]; ok {
		return t
	}
	pkg := types.NewPackage("gosym/native", "native")
	t := types.NewPointer(types.NewNamed(types.NewTypeName(0, pkg, kind, nil), types.NewStruct(nil, nil), nil))
	nativeTypes[kind] = t
	return t
}

func nat(kind string, f map[string]Value) Iface {
	if f == nil {
		f = map[string]Value{}
	}
	return Iface{T: nativeType(kind), V: &Native{kind: kind, f: f}}
}

func (r *Run) typeOf(pkg, name string) types.Type {
	p := r.eng.l.tpkgs[pkg]
	if p == nil {
		r.unsupported("package %s not loaded", pkg)
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		r.unsupported("no %s.%s", pkg, name)
	}
	return o.Type()
}

// mkErr builds an errors.New value.
func (r *Run) mkErr(msg string) Iface { return r.mkErrS(Str{s: msg}) }

func (r *Run) mkErrS(s Str) Iface {
	p := new(Value)
	*p = Struct{s}
	return Iface{T: types.NewPointer(r.typeOf("errors", "errorString")), V: p}
}

func (r *Run) fn(pkg, name string) *ssa.Function {
	p := r.eng.prog.ImportedPackage(pkg)
	if p == nil {
		p = r.eng.prog.Package(r.eng.l.tpkgs[pkg])
	}
	if p == nil {
		r.unsupported("no package %s", pkg)
	}
	f := p.Func(name)
	if f == nil {
		r.unsupported("no function %s.%s", pkg, name)
	}
	return f
}

// globalVal reads a package-level variable.
func (r *Run) globalVal(pkg, name string) Value {
	p := r.eng.prog.Package(r.eng.l.tpkgs[pkg])
	g := p.Var(name)
	return *r.global(g)
}

func i64(r *Run, n int) *Term { return r.tt.Const(64, uint64(int64(n))) }

func cstr(r *Run, v Value) string {
	s := v.(Str)
	if s.b != nil {
		r.unsupported("symbolic string where a constant is needed")
	}
	return s.s
}

func cint(r *Run, v Value) int { return int(r.concretize(v.(*Term)).Int64()) }

// globalOverride supplies values for globals of packages whose init is not run.
func globalOverride(r *Run, g *ssa.Global) (Value, bool) {
	switch g.RelString(nil) {
	case "crypto/rand.Reader":
		return nat("randReader", nil), true
	case "time.UTC", "time.Local":
		p := new(Value)
		*p = r.zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())
		return p, true
	case "time.unitMap":
		return unitMap(r), true
	}
	return nil, false
}

func init() {
	// ---- misc runtime ----
	reg("runtime.GC|runtime.Gosched|runtime.KeepAlive|runtime.SetFinalizer|os/signal.Notify|(*strings.Builder).copyCheck", noop)
	reg("runtime.GOMAXPROCS|runtime.NumCPU|runtime.NumGoroutine", func(r *Run, fr *Frame, a []Value) Value { return i64(r, 1) })
	reg("os.Getenv", func(r *Run, fr *Frame, a []Value) Value { return Str{} })
	reg("(runtime.errorString).Error", func(r *Run, fr *Frame, a []Value) Value { return a[0] })
	reg("(*strings.Builder).String", func(r *Run, fr *Frame, a []Value) Value {
		s := (*r.deref(a[0])).(Struct)
		return mkStr(sliceTerms(s[len(s)-1].(Slice)))
	})
	reg("internal/bytealg.MakeNoZero", func(r *Run, fr *Frame, a []Value) Value {
		n := cint(r, a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = r.tt.Const(8, 0)
		}
		return s
	})
	reg("internal/bytealg.Equal|bytes.Equal", func(r *Run, fr *Frame, a []Value) Value {
		return r.bytesEq(sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	})
	cmp3 := func(r *Run, x, y []*Term) *Term {
		lt := r.bytesLt(x, y)
		eq := r.bytesEq(x, y)
		return r.tt.Ite(lt, i64(r, -1), r.tt.Ite(eq, i64(r, 0), i64(r, 1)))
	}
	reg("internal/bytealg.Compare|bytes.Compare", func(r *Run, fr *Frame, a []Value) Value {
		return cmp3(r, sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	})
	reg("internal/bytealg.CompareString|strings.Compare|runtime.cmpstring", func(r *Run, fr *Frame, a []Value) Value {
		return cmp3(r, r.strTerms(a[0].(Str)), r.strTerms(a[1].(Str)))
	})
	idxByte := func(r *Run, b []*Term, c *Term) Value {
		for i, t := range b {
			if r.branch(r.tt.Eq(t, c)) {
				return i64(r, i)
			}
		}
		return i64(r, -1)
	}
	reg("internal/bytealg.IndexByte|internal/stringslite.IndexByteBytes", func(r *Run, fr *Frame, a []Value) Value {
		return idxByte(r, sliceTerms(a[0].(Slice)), a[1].(*Term))
	})
	reg("internal/bytealg.IndexByteString|internal/stringslite.IndexByte|strings.IndexByte", func(r *Run, fr *Frame, a []Value) Value {
		return idxByte(r, r.strTerms(a[0].(Str)), a[1].(*Term))
	})
	cnt := func(r *Run, b []*Term, c *Term) Value {
		n := 0
		for _, t := range b {
			if r.branch(r.tt.Eq(t, c)) {
				n++
			}
		}
		return i64(r, n)
	}
	reg("internal/bytealg.Count", func(r *Run, fr *Frame, a []Value) Value { return cnt(r, sliceTerms(a[0].(Slice)), a[1].(*Term)) })
	reg("internal/bytealg.CountString", func(r *Run, fr *Frame, a []Value) Value { return cnt(r, r.strTerms(a[0].(Str)), a[1].(*Term)) })
	index := func(r *Run, s, sub []*Term) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if r.branch(r.bytesEq(s[i:i+len(sub)], sub)) {
				return i64(r, i)
			}
		}
		return i64(r, -1)
	}
	reg("strings.Index|internal/stringslite.Index", func(r *Run, fr *Frame, a []Value) Value {
		return index(r, r.strTerms(a[0].(Str)), r.strTerms(a[1].(Str)))
	})
	reg("bytes.Index", func(r *Run, fr *Frame, a []Value) Value {
		return index(r, sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	})
	reg("strings.EqualFold", func(r *Run, fr *Frame, a []Value) Value {
		x, y := r.strTerms(a[0].(Str)), r.strTerms(a[1].(Str))
		if len(x) != len(y) {
			return r.tt.fls
		}
		res := r.tt.tru
		for i := range x {
			res = r.tt.And(res, r.tt.Eq(r.lower(x[i]), r.lower(y[i])))
		}
		return res
	})
	reg("strings.ToLower", func(r *Run, fr *Frame, a []Value) Value {
		x := r.strTerms(a[0].(Str))
		out := make([]*Term, len(x))
		for i := range x {
			out[i] = r.lower(x[i])
		}
		return mkStr(out)
	})
	reg("strings.ToUpper", func(r *Run, fr *Frame, a []Value) Value {
		x := r.strTerms(a[0].(Str))
		out := make([]*Term, len(x))
		for i, c := range x {
			lc := r.tt.And(r.tt.Ule(r.tt.Const(8, 'a'), c), r.tt.Ule(c, r.tt.Const(8, 'z')))
			out[i] = r.tt.Ite(lc, r.tt.Sub(c, r.tt.Const(8, 32)), c)
		}
		return mkStr(out)
	})

	// ---- hex ----
	enc := func(r *Run, b []*Term) []*Term {
		out := make([]*Term, 0, 2*len(b))
		for _, t := range b {
			out = append(out, r.tt.Hex(r.tt.Extract(t, 4, 4)), r.tt.Hex(r.tt.Extract(t, 0, 4)))
		}
		return out
	}
	reg("encoding/hex.EncodeToString", func(r *Run, fr *Frame, a []Value) Value { return mkStr(enc(r, sliceTerms(a[0].(Slice)))) })
	reg("encoding/hex.Encode", func(r *Run, fr *Frame, a []Value) Value {
		dst := a[0].(Slice)
		e := enc(r, sliceTerms(a[1].(Slice)))
		for i, t := range e {
			if i >= len(dst) {
				r.rtPanic("index out of range")
			}
			dst[i] = t
		}
		return i64(r, len(e))
	})
	hexDec := func(r *Run, s []*Term) (Slice, Iface) {
		var out []*Term
		ok := r.tt.tru
		for i := 0; i+1 < len(s); i += 2 {
			h, o1 := r.tt.Unhex(s[i])
			l, o2 := r.tt.Unhex(s[i+1])
			ok = r.tt.And(ok, r.tt.And(o1, o2))
			out = append(out, r.tt.Concat(h, l))
		}
		if len(s)%2 == 1 {
			_, o := r.tt.Unhex(s[len(s)-1])
			ok = r.tt.And(ok, o)
		}
		if !r.branch(ok) {
			return Slice{}, r.mkErr("encoding/hex: invalid byte")
		}
		if len(s)%2 == 1 {
			return termSlice(out), r.globalVal("encoding/hex", "ErrLength").(Iface)
		}
		return termSlice(out), Iface{}
	}
	reg("encoding/hex.DecodeString", func(r *Run, fr *Frame, a []Value) Value {
		s, e := hexDec(r, r.strTerms(a[0].(Str)))
		return Tuple{s, e}
	})
	reg("encoding/hex.Decode", func(r *Run, fr *Frame, a []Value) Value {
		s, e := hexDec(r, sliceTerms(a[1].(Slice)))
		dst := a[0].(Slice)
		copy(dst, s)
		return Tuple{i64(r, len(s)), e}
	})

	// ---- base64 (whole values) ----
	reg("(*encoding/base64.Encoding).EncodeToString", func(r *Run, fr *Frame, a []Value) Value {
		b := sliceTerms(a[1].(Slice))
		if s, ok := concBytes(b); ok {
			return Str{s: r.b64(a[0]).EncodeToString(s)}
		}
		return mkStr(r.newDoc(&JNode{k: jB64, b: b}, true))
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(r *Run, fr *Frame, a []Value) Value {
		s := a[1].(Str)
		if s.b == nil {
			d, err := r.b64(a[0]).DecodeString(s.s)
			if err != nil {
				return Tuple{r.bytesOf(string(d)), r.mkErr(err.Error())}
			}
			return Tuple{r.bytesOf(string(d)), Iface{}}
		}
		if d := r.wholeDoc(s.b); d != nil && d.text && d.n.k == jB64 {
			return Tuple{termSlice(d.n.b), Iface{}}
		}
		if d := r.anyDoc(s.b); d {
			return Tuple{Slice{}, r.mkErr("illegal base64 data")}
		}
		r.unsupported("base64 of symbolic text")
		return nil
	})

	// ---- strconv ----
	fmtInt := func(sg bool) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			t := a[0].(*Term)
			base := 10
			if len(a) > 1 {
				base = cint(r, a[1])
			}
			if t.isConst() {
				if sg {
					return Str{s: strconv.FormatInt(sext(t.u, t.w), base)}
				}
				return Str{s: strconv.FormatUint(t.u, base)}
			}
			if base != 10 {
				r.unsupported("FormatInt base %d of symbolic", base)
			}
			return mkStr(r.newDoc(r.jnum(t, sg), true))
		}
	}
	reg("strconv.Itoa|strconv.FormatInt", fmtInt(true))
	reg("strconv.FormatUint", fmtInt(false))
	parse := func(sg bool) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			s := a[0].(Str)
			base, bits := 10, 64
			if len(a) > 1 {
				base, bits = cint(r, a[1]), cint(r, a[2])
			}
			if bits == 0 {
				bits = 64
			}
			if s.b == nil {
				if sg {
					v, err := strconv.ParseInt(s.s, base, bits)
					if err != nil {
						return Tuple{r.tt.Const(64, uint64(v)), r.mkErr(err.Error())}
					}
					return Tuple{r.tt.Const(64, uint64(v)), Iface{}}
				}
				v, err := strconv.ParseUint(s.s, base, bits)
				if err != nil {
					return Tuple{r.tt.Const(64, v), r.mkErr(err.Error())}
				}
				return Tuple{r.tt.Const(64, v), Iface{}}
			}
			if d := r.wholeDoc(s.b); d != nil && d.text && d.n.k == jNum && base == 10 {
				t, ok := r.fitInt(d.n.t, bits, sg)
				if r.branch(ok) {
					if sg {
						return Tuple{r.tt.SExt(t, 64), Iface{}}
					}
					return Tuple{r.tt.ZExt(t, 64), Iface{}}
				}
				return Tuple{r.tt.Const(64, 0), r.mkErr("strconv: value out of range")}
			}
			// arbitrary symbolic digits, decimal only
			return r.parseDigits(s, base, bits, sg)
		}
	}
	reg("strconv.ParseInt|strconv.Atoi", parse(true))
	reg("strconv.ParseUint", parse(false))

	// ---- sort ----
	isort := func(r *Run, n int, less func(i, j int) bool, swap func(i, j int)) {
		for i := 1; i < n; i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				swap(j, j-1)
			}
		}
	}
	reg("sort.Slice|sort.SliceStable", func(r *Run, fr *Frame, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		less := a[1]
		isort(r, len(s), func(i, j int) bool {
			return r.branch(r.call(fr, less, []Value{i64(r, i), i64(r, j)}).(*Term))
		}, func(i, j int) {
			x, y := copyVal(s[i]), copyVal(s[j])
			s[i], s[j] = y, x
		})
		return nil
	})
	reg("sort.Sort|sort.Stable", func(r *Run, fr *Frame, a []Value) Value {
		x := a[0].(Iface)
		n := cint(r, r.callMethod(x, "Len"))
		isort(r, n, func(i, j int) bool {
			return r.branch(r.callMethod(x, "Less", i64(r, i), i64(r, j)).(*Term))
		}, func(i, j int) { r.callMethod(x, "Swap", i64(r, i), i64(r, j)) })
		return nil
	})
	reg("sort.Strings", func(r *Run, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		isort(r, len(s), func(i, j int) bool { return r.branch(r.strLt(s[i].(Str), s[j].(Str))) },
			func(i, j int) { s[i], s[j] = s[j], s[i] })
		return nil
	})
	reg("slices.SortFunc|slices.SortStableFunc", func(r *Run, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		isort(r, len(s), func(i, j int) bool {
			c := r.call(fr, a[1], []Value{copyVal(s[i]), copyVal(s[j])}).(*Term)
			return r.branch(r.tt.Slt(c, r.tt.Const(64, 0)))
		}, func(i, j int) { s[i], s[j] = s[j], s[i] })
		return nil
	})

	// ---- errors ----
	reg("errors.Is", func(r *Run, fr *Frame, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		for e.T != nil {
			if target.T != nil && types.Identical(e.T, target.T) && types.Comparable(e.T) && r.branch(r.eq(e.T, e.V, target.V)) {
				return r.tt.tru
			}
			if _, ok := e.V.(*Native); ok || r.hasMethod(e.T, "Unwrap") == nil {
				break
			}
			u, ok := r.callMethod(e, "Unwrap").(Iface)
			if !ok {
				break
			}
			e = u
		}
		return r.tt.Bool(e.T == nil && target.T == nil)
	})

	// ---- fmt / log ----
	reg("fmt.Sprintf", func(r *Run, fr *Frame, a []Value) Value { return r.format(a[0].(Str), a[1].(Slice)) })
	reg("golang.org/x/xerrors.New", func(r *Run, fr *Frame, a []Value) Value { return r.mkErrS(a[0].(Str)) })
	reg("fmt.Errorf|golang.org/x/xerrors.Errorf", func(r *Run, fr *Frame, a []Value) Value {
		s := r.format(a[0].(Str), a[1].(Slice))
		if a[0].(Str).b == nil && strings.Contains(a[0].(Str).s, "%w") {
			for _, v := range a[1].(Slice) {
				if e, ok := v.(Iface); ok && e.T != nil {
					if _, isN := e.V.(*Native); isN || r.hasMethod(e.T, "Error") != nil {
						p := new(Value)
						*p = Struct{s, e}
						return Iface{T: types.NewPointer(r.typeOf("fmt", "wrapError")), V: p}
					}
				}
			}
		}
		return r.mkErrS(s)
	})
	reg("(*fmt.wrapError).Error", func(r *Run, fr *Frame, a []Value) Value { return (*r.deref(a[0])).(Struct)[0] })
	reg("(*fmt.wrapError).Unwrap", func(r *Run, fr *Frame, a []Value) Value { return (*r.deref(a[0])).(Struct)[1] })
	reg("fmt.Sprint|fmt.Sprintln", func(r *Run, fr *Frame, a []Value) Value {
		var out []*Term
		for _, v := range a[0].(Slice) {
			out = append(out, r.fmtVal('v', v.(Iface), "")...)
		}
		return mkStr(out)
	})
	reg("fmt.Printf|fmt.Println|fmt.Print|fmt.Fprintf|fmt.Fprintln|fmt.Fprint", func(r *Run, fr *Frame, a []Value) Value {
		return Tuple{i64(r, 0), Iface{}}
	})
	reg("log.Println|log.Printf|log.Print|log.Fatal|log.Fatalf", noop)
	regPrefix(modPrefix+"common/pkg/logging.", func(fn *ssa.Function) Intrinsic {
		if fn.Name() == "LogLevel" || fn.Blocks == nil && fn.Pkg == nil {
			return nil
		}
		if strings.HasPrefix(fn.Name(), "Panic") || strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "ErrorAndPanic") {
			return func(r *Run, fr *Frame, a []Value) Value {
				panic(targetPanic{v: Iface{T: types.Typ[types.String], V: Str{s: "logging panic"}}, msg: "logging panic: " + r.lossy(a[0].(Str))})
			}
		}
		if strings.HasPrefix(fn.Name(), "Error") || strings.HasPrefix(fn.Name(), "Warn") || strings.HasPrefix(fn.Name(), "Info") ||
			strings.HasPrefix(fn.Name(), "Debug") || strings.HasPrefix(fn.Name(), "Trace") || strings.HasPrefix(fn.Name(), "Test") || strings.HasPrefix(fn.Name(), "Set") || strings.HasPrefix(fn.Name(), "Init") {
			return zeroIntr(fn)
		}
		return zeroIntr(fn)
	})
	regPrefix("github.com/rs/zerolog", zeroIntr)
	regPrefix("github.com/spf13/viper", zeroIntr)

	// ---- rand / drbg / net ----
	randFill := func(r *Run, s Slice) {
		if len(s) == 0 {
			return
		}
		r.fresh++
		var hint *big.Int
		hint = new(big.Int).SetBytes(pseudo(fmt.Sprintf("rnd%d", r.fresh), len(s)))
		if r.oneDraw {
			for i, b := range pseudo(fmt.Sprintf("rnd%d", r.fresh), len(s)) {
				s[i] = r.tt.Const(8, uint64(b))
			}
			return
		}
		v := r.freshVar(8*len(s), fmt.Sprintf("rnd %d", r.fresh), hint)
		for i := range s {
			s[i] = r.tt.Extract(v, 8*(len(s)-1-i), 8)
		}
	}
	reg("crypto/rand.Read|math/rand.Read|(*math/rand.Rand).Read", func(r *Run, fr *Frame, a []Value) Value {
		s := a[len(a)-1].(Slice)
		randFill(r, s)
		return Tuple{i64(r, len(s)), Iface{}}
	})
	nativeMethods["randReader.Read"] = func(r *Run, n *Native, a []Value) Value {
		randFill(r, a[0].(Slice))
		return Tuple{i64(r, len(a[0].(Slice))), Iface{}}
	}
	const drbg = "github.com/davidlazar/go-crypto/drbg."
	reg(drbg+"New", func(r *Run, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = r.zero(r.typeOf("github.com/davidlazar/go-crypto/drbg", "DRBG"))
		return p
	})
	reg("(*"+drbg+"DRBG).Read", func(r *Run, fr *Frame, a []Value) Value {
		s := a[1].(Slice)
		randFill(r, s)
		return Tuple{i64(r, len(s)), Iface{}}
	})
	reg("(*"+drbg+"DRBG).Reseed", noop)
	reg("net.Interfaces", func(r *Run, fr *Frame, a []Value) Value { return Tuple{Slice(nil), Iface{}} })
	rnd64 := func(w int, mask bool) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			r.fresh++
			v := r.freshVar(w, fmt.Sprintf("mrand %d", r.fresh), big.NewInt(int64(r.fresh)*7919))
			if mask {
				v = r.tt.ZExt(r.tt.Extract(v, 0, w-1), w)
			}
			return v
		}
	}
	reg("math/rand.Int63|(*math/rand.Rand).Int63|math/rand.Int|(*math/rand.Rand).Int", rnd64(64, true))
	reg("math/rand.Uint64|(*math/rand.Rand).Uint64", rnd64(64, false))
	reg("math/rand.Uint32|(*math/rand.Rand).Uint32", rnd64(32, false))
	reg("math/rand.Intn|math/rand.Int63n|(*math/rand.Rand).Intn|(*math/rand.Rand).Int63n", func(r *Run, fr *Frame, a []Value) Value {
		n := a[len(a)-1].(*Term)
		r.fresh++
		v := r.freshVar(64, fmt.Sprintf("mrand %d", r.fresh), new(big.Int))
		if r.branch(r.tt.Sle(n, r.tt.Const(64, 0))) {
			r.rtPanic("invalid argument to Intn")
		}
		r.assume(r.tt.Ult(v, n))
		return v
	})
	reg("math/rand.Seed", noop)
	reg("math/rand.Shuffle", func(r *Run, fr *Frame, a []Value) Value {
		n := cint(r, a[0])
		for i := n - 1; i > 0; i-- {
			j := r.choose(i + 1)
			r.call(fr, a[1], []Value{i64(r, i), i64(r, j)})
		}
		return nil
	})
	regPrefix("github.com/google/uuid.", zeroIntr)

	// ---- reflect (the little that is used) ----
	regReflect()
	regBig()
	regTime()
	regSync()
	regCrypto()
	regFil()
	regJSON()
	regSym()
	regEnv()
	regHTTP()

}

func (r *Run) lower(c *Term) *Term {
	if c.op == OHex {
		return c
	}
	up := r.tt.And(r.tt.Ule(r.tt.Const(8, 'A'), c), r.tt.Ule(c, r.tt.Const(8, 'Z')))
	return r.tt.Ite(up, r.tt.Add(c, r.tt.Const(8, 32)), c)
}

func concBytes(b []*Term) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.u)
	}
	return out, true
}

// parseDigits parses a symbolic decimal or hexadecimal number.
func (r *Run) parseDigits(s Str, base, bits int, sg bool) Value {
	tt := r.tt
	if s.Len() == 0 || s.Len() > 20 || base != 10 {
		r.unsupported("parse of symbolic number text")
	}
	b := s.b
	neg := tt.fls
	if sg && r.branch(tt.Or(tt.Eq(b[0], tt.Const(8, '-')), tt.Eq(b[0], tt.Const(8, '+')))) {
		neg = tt.Eq(b[0], tt.Const(8, '-'))
		b = b[1:]
	}
	ok := tt.Bool(len(b) > 0)
	v := tt.Const(72, 0)
	for _, c := range b {
		d := tt.Sub(c, tt.Const(8, '0'))
		ok = tt.And(ok, tt.Ult(d, tt.Const(8, 10)))
		v = tt.Add(tt.Mul(v, tt.Const(72, 10)), tt.ZExt(d, 72))
	}
	v = tt.Ite(neg, tt.Neg(v), v)
	if !r.branch(ok) {
		return Tuple{tt.Const(64, 0), r.mkErr("strconv: invalid syntax")}
	}
	t, fit := r.fitInt(v, bits, sg)
	if !r.branch(fit) {
		return Tuple{tt.Const(64, 0), r.mkErr("strconv: value out of range")}
	}
	if sg {
		return Tuple{tt.SExt(t, 64), Iface{}}
	}
	return Tuple{tt.ZExt(t, 64), Iface{}}
}

// fitInt narrows a signed term to bits, with the condition that it fits.
func (r *Run) fitInt(t *Term, bits int, sg bool) (*Term, *Term) {
	tt := r.tt
	if t.w < bits+1 {
		t = tt.SExt(t, bits+1)
	}
	lo := tt.Extract(t, 0, bits)
	if sg {
		return lo, tt.Eq(tt.SExt(lo, t.w), t)
	}
	return lo, tt.Eq(tt.ZExt(lo, t.w), t)
}

// ---- formatting ----

func (r *Run) format(f Str, args Slice) Str {
	if f.b != nil {
		return Str{s: "<formatted>"}
	}
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, r.tt.Const(8, uint64(s[i])))
		}
	}
	ai := 0
	s := f.s
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			lit(s[i : i+j])
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit("%!(NOVERB)")
			break
		}
		flags := s[i+1 : j]
		verb := s[j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = append(out, r.fmtVal(verb, args[ai].(Iface), flags)...)
		ai++
	}
	return mkStr(out)
}

func (r *Run) fmtVal(verb byte, v Iface, flags string) []*Term {
	lit := func(s string) []*Term { return r.strTerms(Str{s: s}) }
	if v.T == nil {
		return lit("<nil>")
	}
	if verb == 'T' {
		return lit(v.T.String())
	}
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		if _, ok := v.V.(*Native); !ok {
			if r.hasMethod(v.T, "Error") != nil {
				return lit(r.errText(v))
			}
			if r.hasMethod(v.T, "String") != nil {
				ok := true
				var res Str
				func() {
					defer func() {
						if p := recover(); p != nil {
							switch p.(type) {
							case targetPanic, unsupportedErr:
								ok = false
								return
							}
							panic(p)
						}
					}()
					res = r.callMethod(v, "String").(Str)
				}()
				if ok {
					return r.strTerms(res)
				}
				return lit("<string>")
			}
		}
	}
	switch x := v.V.(type) {
	case Str:
		if verb == 'x' {
			var out []*Term
			for _, t := range r.strTerms(x) {
				out = append(out, r.tt.Hex(r.tt.Extract(t, 4, 4)), r.tt.Hex(r.tt.Extract(t, 0, 4)))
			}
			return out
		}
		if verb == 'q' {
			return append(append(lit("\""), r.strTerms(x)...), lit("\"")...)
		}
		return r.strTerms(x)
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return lit(fmt.Sprint(x.u == 1))
			}
			var a interface{} = x.u
			if signed(v.T) {
				a = sext(x.u, x.w)
			}
			if verb == 's' {
				verb = 'd'
			}
			return lit(fmt.Sprintf("%"+flags+string(verb), a))
		}
		if x.w == 0 {
			return lit("<bool>")
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			return r.newDoc(r.jnum(x, signed(v.T)), true)
		}
		if verb == 'x' && (flags == "" || flags == "02" && x.w == 8) {
			if x.w == 8 && flags == "02" {
				return []*Term{r.tt.Hex(r.tt.Extract(x, 4, 4)), r.tt.Hex(r.tt.Extract(x, 0, 4))}
			}
		}
		return lit("<num>")
	case float64:
		return lit(fmt.Sprintf("%"+flags+string(verb), x))
	case Slice:
		if st, ok := under(v.T).(*types.Slice); ok && width(st.Elem()) == 8 {
			if verb == 's' {
				return sliceTerms(x)
			}
			if verb == 'x' {
				var out []*Term
				for _, t := range sliceTerms(x) {
					out = append(out, r.tt.Hex(r.tt.Extract(t, 4, 4)), r.tt.Hex(r.tt.Extract(t, 0, 4)))
				}
				return out
			}
		}
		return lit("[...]")
	case Array:
		if at, ok := under(v.T).(*types.Array); ok && width(at.Elem()) == 8 && verb == 'x' {
			var out []*Term
			for _, t := range sliceTerms(Slice(x)) {
				out = append(out, r.tt.Hex(r.tt.Extract(t, 4, 4)), r.tt.Hex(r.tt.Extract(t, 0, 4)))
			}
			return out
		}
		return lit("[...]")
	}
	return lit("<" + v.T.String() + ">")
}

// ---- reflect ----

type RVal struct {
	T types.Type
	V Value
	p *Value
}

func regReflect() {
	kindOf := func(t types.Type) uint64 {
		if t == nil {
			return 0
		}
		switch u := under(t).(type) {
		case *types.Basic:
			m := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
				types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.String: 24, types.UnsafePointer: 26}
			return m[u.Kind()]
		case *types.Array:
			return 17
		case *types.Chan:
			return 18
		case *types.Signature:
			return 19
		case *types.Interface:
			return 20
		case *types.Map:
			return 21
		case *types.Pointer:
			return 22
		case *types.Slice:
			return 23
		case *types.Struct:
			return 25
		}
		return 0
	}
	reg("reflect.ValueOf", func(r *Run, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		return RVal{T: i.T, V: i.V}
	})
	reg("(reflect.Value).Kind", func(r *Run, fr *Frame, a []Value) Value { return r.tt.Const(64, kindOf(a[0].(RVal).T)) })
	reg("(reflect.Kind).String", func(r *Run, fr *Frame, a []Value) Value { return Str{s: "kind"} })
	reg("(reflect.Value).IsValid", func(r *Run, fr *Frame, a []Value) Value { return r.tt.Bool(a[0].(RVal).T != nil) })
	reg("(reflect.Value).Len", func(r *Run, fr *Frame, a []Value) Value {
		switch x := a[0].(RVal).V.(type) {
		case Slice:
			return i64(r, len(x))
		case Str:
			return i64(r, x.Len())
		case *Map:
			return i64(r, x.n)
		case Array:
			return i64(r, len(x))
		}
		r.unsupported("reflect Len")
		return nil
	})
	reg("(reflect.Value).Index", func(r *Run, fr *Frame, a []Value) Value {
		v := a[0].(RVal)
		i := a[1].(*Term)
		switch x := v.V.(type) {
		case Slice:
			r.boundsCheck(i, len(x))
			return RVal{T: under(v.T).(*types.Slice).Elem(), V: copyVal(x[r.concretize(i).Int64()])}
		}
		r.unsupported("reflect Index")
		return nil
	})
	reg("(reflect.Value).Interface", func(r *Run, fr *Frame, a []Value) Value {
		v := a[0].(RVal)
		if i, ok := v.V.(Iface); ok {
			return i
		}
		return Iface{T: v.T, V: v.V}
	})
	reg("(reflect.Value).IsNil", func(r *Run, fr *Frame, a []Value) Value {
		switch x := a[0].(RVal).V.(type) {
		case *Value:
			return r.tt.Bool(x == nil)
		case Slice:
			return r.tt.Bool(x == nil)
		case *Map:
			return r.tt.Bool(x == nil)
		case Iface:
			return r.tt.Bool(x.T == nil)
		case *Closure:
			return r.tt.Bool(x == nil)
		}
		r.unsupported("reflect IsNil")
		return nil
	})
	reg("reflect.TypeOf", func(r *Run, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return Iface{}
		}
		x := nat("rtype", nil)
		x.V.(*Native).x = i.T
		return x
	})
	nativeMethods["rtype.String"] = func(r *Run, n *Native, a []Value) Value { return Str{s: n.x.(types.Type).String()} }
	nativeMethods["rtype.Kind"] = func(r *Run, n *Native, a []Value) Value { return r.tt.Const(64, kindOf(n.x.(types.Type))) }
	nativeMethods["rtype.Name"] = func(r *Run, n *Native, a []Value) Value {
		if nn, ok := n.x.(types.Type).(*types.Named); ok {
			return Str{s: nn.Obj().Name()}
		}
		return Str{}
	}
	reg("reflect.DeepEqual", func(r *Run, fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return r.tt.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return r.tt.fls
		}
		return r.deepEq(x.T, x.V, y.V, 0)
	})
}

func (r *Run) deepEq(t types.Type, a, b Value, d int) *Term {
	tt := r.tt
	if d > 50 {
		r.unsupported("deepequal depth")
	}
	switch x := a.(type) {
	case *Value:
		y := b.(*Value)
		if x == y {
			return tt.tru
		}
		if x == nil || y == nil {
			return tt.fls
		}
		return r.deepEq(under(t).(*types.Pointer).Elem(), *x, *y, d+1)
	case Struct:
		y := b.(Struct)
		st := under(t).(*types.Struct)
		res := tt.tru
		for i := range x {
			res = tt.And(res, r.deepEq(st.Field(i).Type(), x[i], y[i], d+1))
		}
		return res
	case Array:
		res := tt.tru
		for i := range x {
			res = tt.And(res, r.deepEq(under(t).(*types.Array).Elem(), x[i], b.(Array)[i], d+1))
		}
		return res
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return tt.fls
		}
		et := under(t).(*types.Slice).Elem()
		if width(et) == 8 {
			return r.bytesEq(sliceTerms(x), sliceTerms(y))
		}
		res := tt.tru
		for i := range x {
			res = tt.And(res, r.deepEq(et, x[i], y[i], d+1))
		}
		return res
	case *Map:
		y := b.(*Map)
		if x == y {
			return tt.tru
		}
		if x == nil || y == nil || x.n != y.n {
			return tt.fls
		}
		mt := under(t).(*types.Map)
		res := tt.tru
		for _, e := range x.ents {
			f := r.mapFind(mt.Key(), y, e.k)
			if f == nil {
				return tt.fls
			}
			res = tt.And(res, r.deepEq(mt.Elem(), e.v, f.v, d+1))
		}
		return res
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return tt.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tt.fls
		}
		return r.deepEq(x.T, x.V, y.V, d+1)
	case BigVal:
		p, q := r.bigExt2(x, b.(BigVal), 0)
		return tt.Eq(p, q)
	case *Closure:
		return tt.Bool(x == nil && b.(*Closure) == nil)
	}
	return r.eq(t, a, b)
}

var _ = sort.Strings
