package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	slot    map[ssa.Value]int
	n       int
	full    string
	intr    Intrinsic
	isSym   bool
	track   bool
	harness bool
	seen    atomic.Bool
	regs    map[*ssa.BasicBlock]*region
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	at   ssa.Instruction
}

type Frame struct {
	r         *Run
	th        *Thread
	caller    *Frame
	fn        *ssa.Function
	info      *FnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []*deferred
	result    Value
	panicking bool
	pval      targetPanic
	recovered bool
	phiDone   bool
}

type Intrinsic func(r *Run, fr *Frame, args []Value) Value

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{slot: map[ssa.Value]int{}}
	name := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		name = o.RelString(nil)
	}
	fi.full = name
	fi.intr = lookupIntrinsic(name, fn)
	// Build is a sync.Once: it also waits for another worker that is still building
	if fi.intr == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fi.intr == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		fi.track = strings.HasPrefix(p, modPrefix) && !strings.Contains(p, "verifsym")
	}
	if fi.track {
		pos := fn.Prog.Fset.Position(fn.Pos())
		if strings.Contains(pos.Filename, "zz_verif") {
			fi.track = false
			fi.harness = true
		}
	}
	v, _ := e.infos.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

func (r *Run) rtPanic(msg string) {
	panic(targetPanic{v: Iface{T: r.eng.rtErrType(), V: Str{s: msg}}, msg: msg})
}

// rtErrType is the dynamic type given to run-time errors (runtime.errorString).
func (e *Engine) rtErrType() types.Type {
	if p := e.l.tpkgs["runtime"]; p != nil {
		if o := p.Scope().Lookup("errorString"); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.String]
}

func (r *Run) constVal(c *ssa.Const) Value {
	if v, ok := r.w.consts[c]; ok {
		return v
	}
	v := r.constVal0(c)
	switch v.(type) {
	case *Term, Str, float64:
		r.w.consts[c] = v
	}
	return v
}

func (r *Run) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	t := c.Type()
	if w := width(t); w == 0 {
		return r.tt.Bool(constant.BoolVal(c.Value))
	} else if w > 0 {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return r.tt.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return r.tt.Const(w, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(i))}
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	r.unsupported("const %v", c)
	return nil
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.r.constVal(x)
	case *ssa.Global:
		return fr.r.global(x)
	case *ssa.Function:
		return fr.r.fnVal(x)
	case *ssa.Builtin:
		return &Closure{B: x}
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.info.slot[v]] = x }

func (r *Run) fnVal(fn *ssa.Function) Value {
	if v, ok := r.side[fn]; ok {
		return v.(*Closure)
	}
	c := &Closure{Fn: fn}
	r.side[fn] = c
	return c
}

func isStd(p *ssa.Package) bool { return !strings.HasPrefix(p.Pkg.Path(), modPrefix) }

func (r *Run) global(g *ssa.Global) *Value {
	std := isStd(g.Pkg)
	if std {
		if p, ok := r.w.stdGlobals[g]; ok {
			if !r.w.stdInit[g.Pkg] {
				r.initPkg(g.Pkg)
			}
			return p
		}
	} else if p, ok := r.globals[g]; ok {
		return p
	}
	p := new(Value)
	if v, ok := globalOverride(r, g); ok {
		*p = v
	} else {
		*p = r.zero(g.Type().(*types.Pointer).Elem())
	}
	if std {
		r.w.stdGlobals[g] = p
	} else {
		r.globals[g] = p
	}
	if !strings.HasPrefix(g.Name(), "init$guard") {
		r.initPkg(g.Pkg)
	}
	return p
}

func (r *Run) initPkg(p *ssa.Package) {
	m := r.inited
	if isStd(p) {
		m = r.w.stdInit
	}
	if m[p] {
		return
	}
	m[p] = true
	if r.eng.l.list[p.Pkg.Path()] == nil || !wantBodies(r.eng.l.list[p.Pkg.Path()]) || skipInit[p.Pkg.Path()] {
		return
	}
	p.Build()
	in := p.Func("init")
	if in == nil || in.Blocks == nil {
		return
	}
	r.inInit++
	steps := r.steps
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupportedErr); ok {
					if r.eng.verbose {
						fmt.Printf("init %s incomplete: %s\n", p.Pkg.Path(), u.msg)
					}
					return
				}
				if tp, ok := e.(targetPanic); ok {
					if r.eng.verbose {
						fmt.Printf("init %s panicked: %s\n", p.Pkg.Path(), tp.msg)
					}
					return
				}
				panic(e)
			}
		}()
		r.callFn(nil, in, nil, nil)
	}()
	r.steps = steps
	r.inInit--
}

// skipInit lists packages whose initialisers are not run (their globals stay zero).
var skipInit = map[string]bool{
	"unicode": false, "os": true, "net": true, "time": true, "encoding/json": true, "math/big": true,
	"internal/godebug": true, "crypto/rand": true, "math/rand": true, "log": true, "internal/poll": true,
	"net/http": true, modPrefix + "common/pkg/logging": true,
}

// ---- calls ----

func (r *Run) call(fr *Frame, fv Value, args []Value) Value {
	c, ok := fv.(*Closure)
	if !ok {
		r.unsupported("call of %T", fv)
	}
	if c == nil {
		r.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if c.Nat != nil {
		return c.Nat(r, args)
	}
	if c.B != nil {
		r.unsupported("builtin value call %s", c.B.Name())
	}
	return r.callFn(fr, c.Fn, args, c.Env)
}

func (r *Run) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	if len(r.eng.stubs) > 0 && r.inInit == 0 {
		if s, ok := r.eng.stubs[fn.RelString(nil)]; ok && (caller == nil || caller.fn != s) {
			fn = s
		}
	}
	info := r.eng.info(fn)
	if info.intr != nil {
		return info.intr(r, caller, args)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if caller != nil {
			// dependency initialisers run lazily
			return nil
		}
	}
	if fn.Blocks == nil {
		if r.inInit > 0 {
			return r.zeroResults(fn.Signature)
		}
		r.unsupported("no body: %s", info.full)
	}
	if info.track && !info.seen.Swap(true) {
		r.eng.mu.Lock()
		r.eng.res.Funcs[info.full] = true
		r.eng.mu.Unlock()
	}
	r.depth++
	if r.depth > 2000 {
		r.unsupported("recursion depth in %s", info.full)
	}
	fr := &Frame{r: r, th: r.cur, caller: caller, fn: fn, info: info, env: make([]Value, info.n)}
	for i, p := range fn.Params {
		fr.env[info.slot[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[info.slot[p]] = env[i]
	}
	fr.block = fn.Blocks[0]
	d := r.depth
	for fr.block != nil {
		fr.runGuard()
	}
	r.depth = d - 1
	return fr.result
}

func (r *Run) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return r.zero(sig.Results().At(0).Type())
	}
	return r.zero(sig.Results())
}

// runGuard runs blocks until return or panic, handling deferred calls.
func (fr *Frame) runGuard() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		p := recover()
		tp, ok := p.(targetPanic)
		if !ok {
			if p != nil {
				if _, isPA := p.(pathAbort); !isPA && (fr.r.eng.verbose) {
					if _, ok := p.(threadExit); !ok {
						fmt.Printf("  at %s %s (%v)\n", fr.fn, fr.fn.Prog.Fset.Position(fr.fn.Pos()), p)
					}
				}
				panic(p)
			}
			return
		}
		fr.panicking = true
		fr.pval = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.r.zeroResults(fr.fn.Signature)
		}
	}()
	fr.loop()
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pval)
	}
}

func (fr *Frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if tp, is := p.(targetPanic); is {
				fr.panicking = true
				fr.pval = tp
			} else {
				panic(p)
			}
		}
	}()
	c := d.fn.(*Closure)
	if c != nil && c.B != nil {
		fr.builtin(c.B, d.call, d.args)
	} else {
		fr.r.call(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *Frame) loop() {
	r := fr.r
	for {
		b := fr.block
		jumped := false
		for i := 0; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			r.steps++
			if r.steps&0x3ff == 0 {
				if r.steps > r.eng.maxSteps {
					r.unsupported("step limit in %s", fr.fn)
				}
				if r.steps&0xfffff == 0 && time.Now().After(r.eng.deadline) {
					panic(pathAbort{"deadline"})
				}
			}
			switch fr.visit(in) {
			case kNext:
			case kJump:
				jumped = true
			case kReturn:
				return
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("block fell through")
		}
	}
}

type cont int

const (
	kNext cont = iota
	kJump
	kReturn
)

func (r *Run) deref(p Value) *Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			r.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return x
	case *SymPtr:
		i := int(r.concretize(x.idx).Int64())
		return &x.elems[i]
	}
	r.unsupported("deref %T", p)
	return nil
}

func (r *Run) load(p Value) Value {
	if sp, ok := p.(*SymPtr); ok {
		return r.symLoad(sp)
	}
	v := r.deref(p)
	r.raceRead(v)
	return copyVal(*v)
}

func (r *Run) symLoad(sp *SymPtr) Value {
	n := len(sp.elems)
	vs := make([]*Term, n)
	for i := range vs {
		t, ok := sp.elems[i].(*Term)
		if !ok {
			return copyVal(*r.deref(sp))
		}
		vs[i] = t
	}
	lo, hi := uint64(0), uint64(n-1)
	if sp.idx.w <= 64 {
		l, h := r.tt.urange(sp.idx)
		lo, hi = max(lo, l), min(hi, h)
	}
	if lo > hi {
		r.abort("infeasible index")
	}
	// hex table special case
	if n == 16 && vs[0].w == 8 && sp.idx.w >= 4 {
		hexT := true
		for i, v := range vs {
			if !v.isConst() || v.u != hexChar(uint64(i)) {
				hexT = false
				break
			}
		}
		if hexT {
			return r.tt.Hex(r.tt.Extract(sp.idx, 0, 4))
		}
	}
	// group equal values into ranges to keep the chain small
	res := vs[hi]
	for i := int(hi) - 1; i >= int(lo); i-- {
		if vs[i] == res {
			continue
		}
		// find run start: cheap chain
		res = r.tt.Ite(r.tt.Ule(sp.idx, r.tt.Const(sp.idx.w, uint64(i))), r.chainAt(vs, i, int(lo), sp.idx), res)
		break
	}
	return res
}

// chainAt builds ite over idx in [lo,i], value vs[idx].
func (r *Run) chainAt(vs []*Term, i, lo int, idx *Term) *Term {
	// binary tree over ranges, merging equal runs
	var build func(l, h int) *Term
	build = func(l, h int) *Term {
		same := true
		for k := l + 1; k <= h; k++ {
			if vs[k] != vs[l] {
				same = false
				break
			}
		}
		if same {
			return vs[l]
		}
		m := (l + h) / 2
		return r.tt.Ite(r.tt.Ule(idx, r.tt.Const(idx.w, uint64(m))), build(l, m), build(m+1, h))
	}
	return build(lo, i)
}

func (r *Run) store(p Value, v Value) {
	if sp, ok := p.(*SymPtr); ok {
		if vt, ok := v.(*Term); ok {
			all := true
			for _, e := range sp.elems {
				if _, ok := e.(*Term); !ok {
					all = false
				}
			}
			if all {
				for i := range sp.elems {
					c := r.tt.Eq(sp.idx, r.tt.Const(sp.idx.w, uint64(i)))
					sp.elems[i] = r.tt.Ite(c, vt, sp.elems[i].(*Term))
				}
				return
			}
		}
	}
	x := r.deref(p)
	r.raceWrite(x)
	storeInto(x, v)
}

// storeInto assigns preserving the identity of nested cells (field addresses stay valid).
func storeInto(dst *Value, v Value) {
	switch s := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(s) {
			for i := range s {
				storeInto(&d[i], s[i])
			}
			return
		}
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(s) {
			for i := range s {
				storeInto(&d[i], s[i])
			}
			return
		}
	case *SyncObj:
		if d, ok := (*dst).(*SyncObj); ok {
			*d = *s
			return
		}
	}
	*dst = copyVal(v)
}

func (fr *Frame) visit(in ssa.Instruction) cont {
	r := fr.r
	tt := r.tt
	if _, isPhi := in.(*ssa.Phi); !isPhi {
		fr.phiDone = false // the phi prefix of the block is over
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, r.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type(), x.Type()))
	case *ssa.Call:
		fv, args := fr.prepCall(&x.Call)
		c, _ := fv.(*Closure)
		if c != nil && c.B != nil {
			fr.set(x, fr.builtin(c.B, &x.Call, args))
		} else {
			fr.set(x, r.call(fr, fv, args))
		}
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, r.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, r.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		n := int(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if len(s) < n {
			r.rtPanic("runtime error: cannot convert slice to array pointer")
		}
		// shares storage only if we can; build an array aliasing the slice
		p := new(Value)
		*p = Array(s[:n:n])
		if s == nil {
			fr.set(x, (*Value)(nil))
		} else {
			fr.set(x, p)
		}
	case *ssa.MakeInterface:
		fr.set(x, Iface{T: x.X.Type(), V: fr.get(x.X)})
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, v := range x.Results {
				t[i] = fr.get(v)
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(x.X).(Iface)
		panic(targetPanic{v: v, msg: r.describe(v)})
	case *ssa.Send:
		r.chanSend(fr.get(x.Chan).(*Chan), fr.get(x.X))
	case *ssa.Store:
		r.store(fr.get(x.Addr), fr.get(x.Val))
	case *ssa.If:
		c := fr.get(x.Cond).(*Term)
		if !c.isConst() {
			if fr.tryRegion(x, c) {
				return kJump
			}
		}
		s := 1
		if r.branch(c) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fv, args := fr.prepCall(&x.Call)
		fr.defers = append(fr.defers, &deferred{fn: fv, args: args, call: &x.Call, at: x})
	case *ssa.Go:
		fv, args := fr.prepCall(&x.Call)
		r.spawn(fv, args)
	case *ssa.MakeChan:
		n := int(r.concretize(fr.get(x.Size).(*Term)).Int64())
		r.fresh++
		fr.set(x, &Chan{cap: n, id: r.fresh})
	case *ssa.Alloc:
		p := new(Value)
		*p = r.zero(under(x.Type()).(*types.Pointer).Elem())
		fr.set(x, p)
	case *ssa.MakeSlice:
		lt := fr.get(x.Len).(*Term)
		ct := fr.get(x.Cap).(*Term)
		n := r.sizeOf(lt, "makeslice: len out of range")
		c := r.sizeOf(ct, "makeslice: cap out of range")
		if n > c {
			r.rtPanic("runtime error: makeslice: cap out of range")
		}
		et := under(x.Type()).(*types.Slice).Elem()
		s := make(Slice, n, c)
		r.fillZero(s[:c], et)
		fr.set(x, s)
	case *ssa.MakeMap:
		fr.set(x, NewMap())
	case *ssa.Range:
		fr.set(x, r.rangeIter(fr.get(x.X), x.X.Type()))
	case *ssa.Next:
		fr.set(x, r.iterNext(fr.get(x.Iter), x))
	case *ssa.FieldAddr:
		base := fr.get(x.X)
		p := r.deref(base)
		if o, ok := (*p).(*SyncObj); ok && o.kind == "sync.Pool" && x.Field == 5 {
			fr.set(x, &o.v) // New
			return kNext
		}
		s, ok := (*p).(Struct)
		if !ok {
			r.unsupported("field %d of %T (%s) in %s", x.Field, *p, x.X.Type(), fr.fn)
		}
		fr.set(x, &s[x.Field])
	case *ssa.Field:
		s, ok := fr.get(x.X).(Struct)
		if !ok {
			r.unsupported("field of %T in %s", fr.get(x.X), fr.fn)
		}
		fr.set(x, s[x.Field])
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Index:
		v := fr.get(x.X)
		idx := fr.get(x.Index).(*Term)
		idx = r.idx64(idx, x.Index.Type())
		switch a := v.(type) {
		case Array:
			r.boundsCheck(idx, len(a))
			if idx.isConst() {
				fr.set(x, a[idx.u])
			} else {
				fr.set(x, r.symLoad(&SymPtr{a, idx}))
			}
		case Str:
			r.boundsCheck(idx, a.Len())
			fr.set(x, r.strIndex(a, idx))
		default:
			r.unsupported("index of %T", v)
		}
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*Map)
		if m == nil {
			r.rtPanic("assignment to entry in nil map")
		}
		r.raceWrite(m)
		r.mapSet(under(x.Map.Type()).(*types.Map).Key(), m, fr.get(x.Key), copyVal(fr.get(x.Value)))
	case *ssa.TypeAssert:
		fr.set(x, r.typeAssert(x, fr.get(x.X).(Iface)))
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range x.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(x, &Closure{Fn: x.Fn.(*ssa.Function), Env: env})
	case *ssa.Phi:
		if fr.phiDone {
			return kNext
		}
		fr.doPhis()
		return kNext
	case *ssa.Select:
		fr.set(x, r.selectStmt(fr, x))
	default:
		r.unsupported("instr %T", in)
	}
	_ = tt
	return kNext
}

// doPhis evaluates all phis of the current block in parallel.
func (fr *Frame) doPhis() {
	b := fr.block
	k := -1
	for i, p := range b.Preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	if k < 0 {
		panic("phi: no predecessor")
	}
	var vals []Value
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.get(phi.Edges[k]))
	}
	for i, v := range vals {
		fr.set(b.Instrs[i].(*ssa.Phi), v)
	}
	fr.phiDone = true
}

func (r *Run) fillZero(s Slice, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := r.zero(et)
	switch z.(type) {
	case *Term, Str, *Value, float64, *Map, Iface, Slice, *Closure:
		for i := range s {
			s[i] = z
		}
	default:
		s[0] = z
		for i := 1; i < len(s); i++ {
			s[i] = r.zero(et)
		}
	}
}

const maxAlloc = 1 << 22

// sizeOf concretises an allocation size.
func (r *Run) sizeOf(t *Term, msg string) int {
	if t.w < 64 {
		t = r.tt.ZExt(t, 64)
	}
	if r.allocLimit > 0 {
		r.obligation(r.tt.Ule(t, r.tt.Const(64, uint64(r.allocLimit))), r.allocLabel)
	}
	if !t.isConst() {
		// negative or huge sizes
		lim := r.tt.Const(64, uint64(allocBound))
		if !r.branch(r.tt.Ule(t, lim)) {
			if r.branch(r.tt.Slt(t, r.tt.Const(64, 0))) {
				r.rtPanic("runtime error: " + msg)
			}
			r.cutAlloc(t)
		}
		return int(r.concretize(t).Int64())
	}
	v := int64(t.u)
	if v < 0 || v > 1<<40 {
		r.rtPanic("runtime error: " + msg)
	}
	if v > maxAlloc {
		r.cutAlloc(t)
	}
	return int(v)
}

const allocBound = 300

// cutAlloc ends a path that allocates more than the engine's bound.
func (r *Run) cutAlloc(t *Term) {
	r.eng.mu.Lock()
	r.eng.res.Bounds["alloc"] = fmt.Sprintf("paths allocating a buffer of symbolic size > %d elements are cut", allocBound)
	r.eng.mu.Unlock()
	r.abort("alloc bound")
}

func (r *Run) idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if signed(typ) {
		return r.tt.SExt(t, 64)
	}
	return r.tt.ZExt(t, 64)
}

func (r *Run) boundsCheck(idx *Term, n int) {
	c := r.tt.Ult(idx, r.tt.Const(64, uint64(n)))
	if c.isTrue() {
		return
	}
	if !r.branch(c) {
		r.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (r *Run) strIndex(a Str, idx *Term) Value {
	if idx.isConst() {
		return r.strAt(a, int(idx.u))
	}
	bs := r.strTerms(a)
	vals := make([]Value, len(bs))
	for i, b := range bs {
		vals[i] = b
	}
	return r.symLoad(&SymPtr{vals, idx})
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr) Value {
	r := fr.r
	base := fr.get(x.X)
	idx := r.idx64(fr.get(x.Index).(*Term), x.Index.Type())
	var elems []Value
	switch b := base.(type) {
	case Slice:
		elems = b
	case *Value:
		p := r.deref(b)
		a, ok := (*p).(Array)
		if !ok {
			r.unsupported("indexaddr of *%T", *p)
		}
		elems = a
	case *SymPtr:
		p := r.deref(b)
		elems = (*p).(Array)
	default:
		r.unsupported("indexaddr of %T", base)
	}
	r.boundsCheck(idx, len(elems))
	if idx.isConst() {
		return &elems[idx.u]
	}
	if len(elems) == 1 {
		return &elems[0]
	}
	if _, ok := elems[0].(*Term); ok {
		return &SymPtr{elems, idx}
	}
	return &elems[r.concretize(idx).Int64()]
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	r := fr.r
	v := fr.get(x.X)
	get := func(e ssa.Value) (int, bool) {
		if e == nil {
			return 0, false
		}
		return 0, true
	}
	_ = get
	bound := func(e ssa.Value, def int, max int) int {
		if e == nil {
			return def
		}
		t := r.idx64(fr.get(e).(*Term), e.Type())
		if !t.isConst() {
			if !r.branch(r.tt.Ule(t, r.tt.Const(64, uint64(max)))) {
				r.rtPanic("runtime error: slice bounds out of range")
			}
			return int(r.concretize(t).Int64())
		}
		n := int64(t.u)
		if n < 0 || n > int64(max) {
			r.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d] with capacity %d", n, max))
		}
		return int(n)
	}
	switch s := v.(type) {
	case Str:
		n := s.Len()
		hi := bound(x.High, n, n)
		lo := bound(x.Low, 0, hi)
		return s.slice(lo, hi)
	case Slice:
		c := cap(s)
		mx := bound(x.Max, c, c)
		hi := bound(x.High, len(s), mx)
		lo := bound(x.Low, 0, hi)
		if s == nil {
			return Slice(nil)
		}
		return s[lo:hi:mx]
	case *Value, *SymPtr:
		p := r.deref(s)
		a, ok := (*p).(Array)
		if !ok {
			r.unsupported("slice of *%T", *p)
		}
		c := len(a)
		mx := bound(x.Max, c, c)
		hi := bound(x.High, c, mx)
		lo := bound(x.Low, 0, hi)
		return Slice(a[lo:hi:mx])
	}
	r.unsupported("slice of %T", v)
	return nil
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	r := fr.r
	switch m := fr.get(x.X).(type) {
	case Str:
		idx := r.idx64(fr.get(x.Index).(*Term), x.Index.Type())
		r.boundsCheck(idx, m.Len())
		return r.strIndex(m, idx)
	case *Map:
		r.raceRead(m)
		mt := under(x.X.Type()).(*types.Map)
		e := r.mapFind(mt.Key(), m, fr.get(x.Index))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = r.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{v, r.tt.Bool(e != nil)}
		}
		return v
	}
	r.unsupported("lookup in %T", fr.get(x.X))
	return nil
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	r := fr.r
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return r.load(v)
	case token.NOT:
		return r.tt.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return r.tt.Neg(v.(*Term))
	case token.XOR:
		return r.tt.BNot(v.(*Term))
	case token.ARROW:
		val, ok := r.chanRecv(v.(*Chan), under(x.X.Type()).(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{val, r.tt.Bool(ok)}
		}
		return val
	}
	r.unsupported("unop %s", x.Op)
	return nil
}

func (r *Run) binop(op token.Token, t types.Type, a, b Value, bt types.Type, rt types.Type) Value {
	tt := r.tt
	switch op {
	case token.EQL:
		return r.eqMixed(t, bt, a, b)
	case token.NEQ:
		return tt.Not(r.eqMixed(t, bt, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		sg := signed(t)
		switch op {
		case token.ADD:
			return tt.Add(x, y)
		case token.SUB:
			return tt.Sub(x, y)
		case token.MUL:
			return tt.Mul(x, y)
		case token.QUO, token.REM:
			if !y.isConst() {
				if r.branch(tt.Eq(y, tt.Const(y.w, 0))) {
					r.rtPanic("runtime error: integer divide by zero")
				}
			} else if y.big().Sign() == 0 {
				r.rtPanic("runtime error: integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return tt.bin(OSDiv, x, y)
			case op == token.QUO:
				return tt.bin(OUDiv, x, y)
			case sg:
				return tt.bin(OSRem, x, y)
			default:
				return tt.bin(OURem, x, y)
			}
		case token.AND:
			return tt.BAnd(x, y)
		case token.OR:
			return tt.BOr(x, y)
		case token.XOR:
			return tt.BXor(x, y)
		case token.AND_NOT:
			return tt.BAnd(x, tt.BNot(y))
		case token.SHL, token.SHR:
			if signed(bt) {
				if r.branch(tt.Slt(y, tt.Const(y.w, 0))) {
					r.rtPanic("runtime error: negative shift amount")
				}
			}
			// bring shift count to x's width, saturating
			if y.w > x.w {
				big_ := tt.Ult(tt.Const(y.w, uint64(x.w)), y)
				y = tt.Ite(big_, tt.Const(x.w, uint64(x.w)), tt.Extract(y, 0, x.w))
				if x.w <= 8 && y.isConst() {
					y = tt.Const(x.w, y.u)
				}
			} else {
				y = tt.ZExt(y, x.w)
			}
			switch {
			case op == token.SHL:
				return tt.bin(OShl, x, y)
			case sg:
				return tt.bin(OAShr, x, y)
			default:
				return tt.bin(OLShr, x, y)
			}
		case token.LSS:
			if sg {
				return tt.Slt(x, y)
			}
			return tt.Ult(x, y)
		case token.LEQ:
			if sg {
				return tt.Sle(x, y)
			}
			return tt.Ule(x, y)
		case token.GTR:
			if sg {
				return tt.Slt(y, x)
			}
			return tt.Ult(y, x)
		case token.GEQ:
			if sg {
				return tt.Sle(y, x)
			}
			return tt.Ule(y, x)
		}
	case float64:
		y := b.(float64)
		f32 := func(v float64) Value {
			if bt, ok := under(t).(*types.Basic); ok && bt.Kind() == types.Float32 {
				return float64(float32(v))
			}
			return v
		}
		switch op {
		case token.ADD:
			return f32(x + y)
		case token.SUB:
			return f32(x - y)
		case token.MUL:
			return f32(x * y)
		case token.QUO:
			return f32(x / y)
		case token.LSS:
			return tt.Bool(x < y)
		case token.LEQ:
			return tt.Bool(x <= y)
		case token.GTR:
			return tt.Bool(x > y)
		case token.GEQ:
			return tt.Bool(x >= y)
		}
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return r.strCat(x, y)
		case token.LSS:
			return r.strLt(x, y)
		case token.GTR:
			return r.strLt(y, x)
		case token.LEQ:
			return tt.Not(r.strLt(y, x))
		case token.GEQ:
			return tt.Not(r.strLt(x, y))
		}
	}
	r.unsupported("binop %s on %T", op, a)
	return nil
}

func (r *Run) eqMixed(ta, tb types.Type, a, b Value) *Term {
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia != ib {
		if ia {
			b = Iface{tb, b}
			return r.eq(ta, a, b)
		}
		a = Iface{ta, a}
		return r.eq(tb, a, b)
	}
	return r.eq(ta, a, b)
}

func (r *Run) convert(from, to types.Type, v Value) Value {
	tt := r.tt
	uf, ut := under(from), under(to)
	if tp, ok := ut.(*types.TypeParam); ok {
		_ = tp
		r.unsupported("convert to type param")
	}
	switch x := v.(type) {
	case *Term:
		if isString(to) { // rune -> string
			c := r.concretize(x)
			return Str{s: string(rune(bigSigned(c, x.w).Int64()))}
		}
		if isFloat(to) {
			if !x.isConst() {
				r.unsupported("symbolic int to float")
			}
			if signed(from) {
				return float64(sext(x.u, x.w))
			}
			return float64(x.u)
		}
		w := width(to)
		if w > 0 {
			if w <= x.w {
				return tt.Extract(x, 0, w)
			}
			if signed(from) {
				return tt.SExt(x, w)
			}
			return tt.ZExt(x, w)
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
	case float64:
		if isFloat(to) {
			if ut.(*types.Basic).Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
		if w := width(to); w > 0 {
			if signed(to) {
				return tt.Const(w, uint64(int64(x)))
			}
			if x >= math.MaxInt64 {
				return tt.Const(w, uint64(x))
			}
			return tt.Const(w, uint64(int64(x)))
		}
	case Str:
		if isString(to) {
			return x
		}
		if s, ok := ut.(*types.Slice); ok {
			if width(s.Elem()) == 8 {
				return termSlice(r.strTerms(x))
			}
			// []rune
			var out Slice
			out = make(Slice, 0)
			for i := 0; i < x.Len(); {
				c, n := r.decodeRune(x, i)
				out = append(out, c)
				i += n
			}
			return out
		}
	case Slice:
		if isString(to) {
			if s, ok := uf.(*types.Slice); ok && width(s.Elem()) == 8 {
				return mkStr(sliceTerms(x))
			}
			var sb strings.Builder
			var bs []*Term
			for _, e := range x {
				t := e.(*Term)
				if t.isConst() {
					sb.Reset()
					sb.WriteRune(rune(sext(t.u, 32)))
					for i := 0; i < sb.Len(); i++ {
						bs = append(bs, tt.Const(8, uint64(sb.String()[i])))
					}
				} else {
					_, hi := tt.urange(t)
					if hi < 0x80 {
						bs = append(bs, tt.Extract(t, 0, 8))
					} else {
						c := r.concretize(t)
						s := string(rune(c.Int64()))
						for i := 0; i < len(s); i++ {
							bs = append(bs, tt.Const(8, uint64(s[i])))
						}
					}
				}
			}
			return mkStr(bs)
		}
		if _, ok := ut.(*types.Slice); ok {
			return x
		}
		if a, ok := ut.(*types.Array); ok {
			if int64(len(x)) < a.Len() {
				r.rtPanic("runtime error: cannot convert slice to array")
			}
			return copyVal(Array(x[:a.Len()]))
		}
	case *Value, *SymPtr, *Native:
		return v // unsafe.Pointer <-> *T : identity
	}
	_ = uf
	r.unsupported("convert %v -> %v (%T)", from, to, v)
	return nil
}

// decodeRune decodes one rune at offset i; symbolic non-ASCII bytes fork.
func (r *Run) decodeRune(s Str, i int) (Value, int) {
	b := r.strAt(s, i)
	if !b.isConst() {
		if r.branch(r.tt.Ult(b, r.tt.Const(8, 0x80))) {
			return r.tt.ZExt(b, 32), 1
		}
		// concretise up to 4 bytes
		var buf []byte
		for j := i; j < s.Len() && j < i+4; j++ {
			c := r.strAt(s, j)
			if j > i && !c.isConst() {
				// only continuation bytes matter
				if !r.branch(r.tt.Eq(r.tt.Extract(c, 6, 2), r.tt.Const(2, 2))) {
					break
				}
			}
			buf = append(buf, byte(r.concretize(c).Uint64()))
		}
		ru, n := utf8.DecodeRune(buf)
		return r.tt.Const(32, uint64(uint32(ru))), n
	}
	if b.u < 0x80 {
		return r.tt.Const(32, b.u), 1
	}
	var buf []byte
	for j := i; j < s.Len() && j < i+4; j++ {
		buf = append(buf, byte(r.concretize(r.strAt(s, j)).Uint64()))
	}
	ru, n := utf8.DecodeRune(buf)
	return r.tt.Const(32, uint64(uint32(ru))), n
}

// ---- range ----

type strIter struct {
	s Str
	i int
}
type mapIter struct {
	m    *Map
	ents []*mapEntry
	i    int
}

func (r *Run) rangeIter(v Value, t types.Type) Value {
	switch x := v.(type) {
	case Str:
		return &strIter{s: x}
	case *Map:
		if x == nil {
			return &mapIter{}
		}
		r.raceRead(x)
		ents := append([]*mapEntry{}, x.ents...)
		if r.mapOrder && len(ents) > 1 && r.inInit == 0 {
			// arbitrary iteration order
			if len(ents) <= 4 {
				for i := 0; i < len(ents)-1; i++ {
					j := i + r.choose(len(ents)-i)
					ents[i], ents[j] = ents[j], ents[i]
				}
			} else if r.choose(2) == 1 {
				for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
					ents[i], ents[j] = ents[j], ents[i]
				}
			}
		}
		return &mapIter{m: x, ents: ents}
	}
	r.unsupported("range over %T", v)
	return nil
}

func (r *Run) iterNext(it Value, x *ssa.Next) Value {
	switch it := it.(type) {
	case *strIter:
		if it.i >= it.s.Len() {
			return Tuple{r.tt.fls, r.tt.Const(64, 0), r.tt.Const(32, 0)}
		}
		i := it.i
		c, n := r.decodeRune(it.s, i)
		it.i += n
		return Tuple{r.tt.tru, r.tt.Const(64, uint64(i)), c}
	case *mapIter:
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return Tuple{r.tt.tru, copyVal(e.k), copyVal(e.v)}
		}
		return Tuple{r.tt.fls, nil, nil}
	}
	panic("iterNext")
}

// ---- interfaces ----

func (r *Run) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var res Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if v.T != nil {
			ok = r.implements(v, it)
			res = v
		}
		if !ok {
			res = Iface{}
		}
	} else {
		ok = v.T != nil && types.Identical(v.T, x.AssertedType)
		if ok {
			res = copyVal(v.V)
		} else {
			res = r.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, r.tt.Bool(ok)}
	}
	if !ok {
		r.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", v.T, x.AssertedType))
	}
	return res
}

func (r *Run) implements(v Iface, it *types.Interface) bool {
	if n, ok := v.V.(*Native); ok {
		return n.implements(it)
	}
	return types.Implements(v.T, it)
}

func (n *Native) implements(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if nativeMethods[n.kind+"."+it.Method(i).Name()] == nil {
			return false
		}
	}
	return true
}

func (fr *Frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	r := fr.r
	if !c.IsInvoke() {
		fv := fr.get(c.Value)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return fv, args
	}
	recv := fr.get(c.Value).(Iface)
	if recv.T == nil {
		r.rtPanic("runtime error: invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)")
	}
	args := make([]Value, 0, len(c.Args)+1)
	fv, self := r.method(recv, c.Method.Name(), c.Method.Pkg())
	if fv.Nat == nil {
		args = append(args, self)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fv, args
}

type mkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

// method finds the implementation of a method on a dynamic value.
func (r *Run) method(recv Iface, name string, pkg *types.Package) (*Closure, Value) {
	if n, ok := recv.V.(*Native); ok {
		m := nativeMethods[n.kind+"."+name]
		if m == nil {
			r.unsupported("native method %s.%s", n.kind, name)
		}
		return &Closure{Nat: func(r *Run, args []Value) Value { return m(r, n, args) }}, nil
	}
	k := mkey{recv.T, name, nil}
	if pkg != nil && !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := r.eng.msets.Load(k); ok {
		return r.fnVal(f.(*ssa.Function)).(*Closure), recv.V
	}
	fn := r.eng.prog.LookupMethod(recv.T, k.pkg, name)
	if fn == nil {
		r.unsupported("no method %s on %v", name, recv.T)
	}
	r.eng.msets.Store(k, fn)
	return r.fnVal(fn).(*Closure), recv.V
}

// callMethod calls a method by name on an interface value.
func (r *Run) callMethod(recv Iface, name string, args ...Value) Value {
	f, self := r.method(recv, name, nil)
	if f.Nat != nil {
		return f.Nat(r, args)
	}
	return r.call(nil, f, append([]Value{self}, args...))
}

// hasMethod reports whether a (concrete) type has a method, returning it.
func (r *Run) hasMethod(t types.Type, name string) *ssa.Function {
	ms := r.eng.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return r.eng.prog.MethodValue(sel)
}

func (r *Run) describe(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	if s, ok := v.V.(Str); ok {
		if s.b == nil {
			return s.s
		}
		return "<symbolic string>"
	}
	return r.errText(v)
}

// errText obtains the text of an error value without forking.
func (r *Run) errText(v Iface) (out string) {
	if v.T == nil {
		return "<nil>"
	}
	out = "<" + v.T.String() + ">"
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case targetPanic, unsupportedErr:
				return
			}
			panic(p)
		}
	}()
	if _, ok := v.V.(*Native); !ok && r.hasMethod(v.T, "Error") == nil {
		return out
	}
	s := r.callMethod(v, "Error").(Str)
	if s.b == nil {
		return s.s
	}
	return r.lossy(s)
}

func (r *Run) lossy(s Str) string {
	if s.b == nil {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.b {
		if t.isConst() {
			sb.WriteByte(byte(t.u))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// ---- builtins ----

func (fr *Frame) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	r := fr.r
	tt := r.tt
	i64 := func(n int) *Term { return tt.Const(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return i64(x.Len())
		case Slice:
			return i64(len(x))
		case *Map:
			if x == nil {
				return i64(0)
			}
			r.raceRead(x)
			return i64(x.n)
		case Array:
			return i64(len(x))
		case *Value:
			return i64(len((*x).(Array)))
		case *Chan:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return i64(cap(x))
		case Array:
			return i64(len(x))
		case *Value:
			return i64(len((*x).(Array)))
		case *Chan:
			return i64(x.cap)
		}
	case "append":
		s, _ := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add Slice
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			add = termSlice(r.strTerms(y))
		}
		et := under(call.Args[0].Type()).(*types.Slice).Elem()
		return r.appendSlice(s, add, et)
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = termSlice(r.strTerms(y))
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return i64(n)
	case "delete":
		r.raceWrite(args[0])
		r.mapDelete(under(call.Args[0].Type()).(*types.Map).Key(), args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				*x = *NewMap()
			}
		case Slice:
			r.fillZero(x, under(call.Args[0].Type()).(*types.Slice).Elem())
		}
		return nil
	case "close":
		c := args[0].(*Chan)
		if c == nil {
			r.rtPanic("close of nil channel")
		}
		if c.closed {
			r.rtPanic("close of closed channel")
		}
		c.closed = true
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, msg: r.describe(v)})
	case "recover":
		// the frame that deferred us
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			return c.pval.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		res := args[0]
		for _, y := range args[1:] {
			switch x := res.(type) {
			case *Term:
				sg := signed(call.Args[0].Type())
				var lt *Term
				if sg {
					lt = tt.Slt(x, y.(*Term))
				} else {
					lt = tt.Ult(x, y.(*Term))
				}
				if b.Name() == "max" {
					lt = tt.Not(lt)
				}
				res = tt.Ite(lt, x, y.(*Term))
			case float64:
				if b.Name() == "min" {
					res = math.Min(x, y.(float64))
				} else {
					res = math.Max(x, y.(float64))
				}
			default:
				r.unsupported("min/max of %T", res)
			}
		}
		return res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			r.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "Add", "Slice", "SliceData", "String", "StringData":
		return r.unsafeBuiltin(b.Name(), args)
	}
	r.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (r *Run) unsafeBuiltin(name string, args []Value) Value {
	n := func(v Value) int { return int(r.concretize(v.(*Term)).Int64()) }
	switch name {
	case "SliceData":
		s := args[0].(Slice)
		p := new(Value)
		*p = s
		r.side[p] = s
		return p
	case "String":
		p := args[0].(*Value)
		k := n(args[1])
		if k == 0 {
			return Str{}
		}
		if s, ok := (*p).(Slice); ok {
			return mkStr(sliceTerms(s[:k]))
		}
		r.unsupported("unsafe.String")
	case "StringData":
		s := args[0].(Str)
		p := new(Value)
		*p = termSlice(r.strTerms(s))
		return p
	case "Slice":
		p := args[0].(*Value)
		k := n(args[1])
		if p == nil {
			return Slice(nil)
		}
		if s, ok := (*p).(Slice); ok {
			return s[:k:k]
		}
	}
	r.unsupported("unsafe.%s", name)
	return nil
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var sizes = types.SizesFor("gc", "amd64")

// growCap follows runtime.growslice, so that aliasing after append matches the real program.
func growCap(oldCap, newLen int, et types.Type) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	es := 8
	func() {
		defer func() { recover() }()
		es = int(sizes.Sizeof(et))
	}()
	if es == 0 {
		return newLen
	}
	c := roundSize(nc*es) / es
	if c < newLen {
		c = newLen
	}
	return c
}

func (r *Run) appendSlice(s, add Slice, et types.Type) Slice {
	n := len(s) + len(add)
	if s == nil && len(add) == 0 {
		return s
	}
	if n > cap(s) {
		if n > maxAlloc {
			r.unsupported("append too large")
		}
		c := growCap(cap(s), n, et)
		ns := make(Slice, n, c)
		copy(ns, s)
		for i, v := range add {
			ns[len(s)+i] = copyVal(v)
		}
		if c > n {
			r.fillZero(ns[n:c], et)
		}
		return ns
	}
	out := s[:n]
	for i, v := range add {
		v = copyVal(v)
		r.raceWrite(&out[len(s)+i])
		storeInto(&out[len(s)+i], v)
	}
	return out
}

var _ = big.NewInt
