package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A region is an acyclic set of side-effect-free blocks reached from a conditional
// branch; it is evaluated in one go, merging values with if-then-else terms.
type region struct {
	blocks []*ssa.BasicBlock // topological order, excluding the head
	in     map[*ssa.BasicBlock]bool
	ok     bool
}

const maxRegion = 24

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.ChangeType:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Value != nil && width(x.Y.Type()) > 0 && c.Value.ExactString() != "0"
		case token.SHL, token.SHR:
			if signed(x.Y.Type()) {
				_, ok := x.Y.(*ssa.Const)
				return ok
			}
			return width(x.X.Type()) > 0
		case token.EQL, token.NEQ:
			return width(x.X.Type()) >= 0 || isString(x.X.Type())
		}
		return width(x.X.Type()) >= 0
	case *ssa.UnOp:
		return (x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR) && width(x.X.Type()) >= 0
	case *ssa.Convert:
		return width(x.X.Type()) > 0 && width(x.Type()) > 0
	case *ssa.Extract:
		return true
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

func buildRegion(head *ssa.BasicBlock) *region {
	rg := &region{in: map[*ssa.BasicBlock]bool{}}
	// grow: a pure block joins when all its predecessors are the head or in the region
	for changed := true; changed && len(rg.blocks) < maxRegion; {
		changed = false
		var cand []*ssa.BasicBlock
		cand = append(cand, head.Succs...)
		for _, b := range rg.blocks {
			cand = append(cand, b.Succs...)
		}
		for _, b := range cand {
			if rg.in[b] || b == head || !pureBlock(b) || len(b.Succs) == 0 || b.Dominates(head) {
				continue
			}
			ok := true
			for _, p := range b.Preds {
				// (a block passed on the way to the head may have been folded away there)
				if p != head && !rg.in[p] && !p.Dominates(head) {
					ok = false
					break
				}
			}
			if ok {
				rg.in[b] = true
				rg.blocks = append(rg.blocks, b)
				changed = true
			}
		}
	}
	rg.ok = true
	return rg
}

type edgeIn struct {
	pred *ssa.BasicBlock
	k    int // predecessor index in target
	cond *Term
}

// tryRegion evaluates the region starting at the If x with symbolic condition c.
// It returns false when nothing is gained or values cannot be merged.
func (fr *Frame) tryRegion(x *ssa.If, c *Term) bool {
	r := fr.r
	head := fr.block
	if r.inInit > 0 {
		return false
	}
	fr.info0(head)
	rg := fr.info.region(head)
	// exits with more than one incoming edge make merging worthwhile
	if len(rg.blocks) == 0 {
		s0, s1 := head.Succs[0], head.Succs[1]
		if s0 != s1 {
			return false
		}
	}
	tt := r.tt
	in := map[*ssa.BasicBlock][]edgeIn{}
	var order []*ssa.BasicBlock // exits in discovery order
	addEdge := func(from, to *ssa.BasicBlock, si int, cond *Term) {
		if cond.isFalse() {
			return
		}
		// which predecessor entry? (an If with both successors equal yields duplicates)
		k, seen := -1, 0
		for i, p := range to.Preds {
			if p == from {
				k = i
				if from.Succs[0] == to && len(from.Succs) > 1 && from.Succs[1] == to {
					if seen == si {
						break
					}
					seen++
					continue
				}
				break
			}
		}
		if !rg.in[to] && len(in[to]) == 0 {
			order = append(order, to)
		}
		in[to] = append(in[to], edgeIn{from, k, cond})
	}
	addEdge(head, head.Succs[0], 0, c)
	addEdge(head, head.Succs[1], 1, tt.Not(c))
	mergePhi := func(phi *ssa.Phi, es []edgeIn) (Value, bool) {
		var res Value
		for i := len(es) - 1; i >= 0; i-- {
			v := fr.get(phi.Edges[es[i].k])
			if res == nil {
				res = v
				continue
			}
			m, ok := mergeVal(r, es[i].cond, v, res)
			if !ok {
				return nil, false
			}
			res = m
		}
		return res, true
	}
	for _, b := range rg.blocks {
		es := in[b]
		if len(es) == 0 {
			continue // unreachable under constants
		}
		cond := tt.fls
		for _, e := range es {
			cond = tt.Or(cond, e.cond)
		}
		var phiVals []Value
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			v, ok := mergePhi(phi, es)
			if !ok {
				return false
			}
			phis = append(phis, phi)
			phiVals = append(phiVals, v)
		}
		for i, p := range phis {
			fr.set(p, phiVals[i])
		}
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				cv, ok := fr.get(y.Cond).(*Term)
				if !ok {
					return false
				}
				addEdge(b, b.Succs[0], 0, tt.And(cond, cv))
				addEdge(b, b.Succs[1], 1, tt.And(cond, tt.Not(cv)))
			case *ssa.Jump:
				addEdge(b, b.Succs[0], 0, cond)
			default:
				if !operandsReady(fr, ins) {
					return false
				}
				fr.visit(ins)
			}
		}
	}
	// exits
	multi := false
	for _, b := range order {
		if len(in[b]) > 1 {
			multi = true
		}
	}
	if !multi && len(order) > 1 {
		// still fine: conditions are exact; but plain forking is equivalent
		return false
	}
	// check phis can be merged at each exit before deciding
	type exit struct {
		b    *ssa.BasicBlock
		cond *Term
		vals []Value
	}
	var exits []exit
	for _, b := range order {
		es := in[b]
		cond := tt.fls
		for _, e := range es {
			cond = tt.Or(cond, e.cond)
		}
		ex := exit{b: b, cond: cond}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			v, ok := mergePhi(phi, es)
			if !ok {
				return false
			}
			ex.vals = append(ex.vals, v)
		}
		exits = append(exits, ex)
	}
	pick := len(exits) - 1
	for i := 0; i < len(exits)-1; i++ {
		if r.branch(exits[i].cond) {
			pick = i
			break
		}
	}
	ex := exits[pick]
	r.merges++
	fr.prev = in[ex.b][0].pred
	fr.block = ex.b
	for i, v := range ex.vals {
		fr.set(ex.b.Instrs[i].(*ssa.Phi), v)
	}
	fr.phiDone = len(ex.vals) > 0
	return true
}

func (fr *Frame) info0(*ssa.BasicBlock) {}

func (fi *FnInfo) region(b *ssa.BasicBlock) *region {
	regMu.Lock()
	defer regMu.Unlock()
	if fi.regs == nil {
		fi.regs = map[*ssa.BasicBlock]*region{}
	}
	rg := fi.regs[b]
	if rg == nil {
		rg = buildRegion(b)
		fi.regs[b] = rg
	}
	return rg
}

func operandsReady(fr *Frame, in ssa.Instruction) bool {
	var buf [4]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if op == nil || *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const:
			continue
		case *ssa.Global, *ssa.Function, *ssa.Builtin:
			continue
		}
		if fr.env[fr.info.slot[*op]] == nil {
			return false
		}
	}
	return true
}

func mergeVal(r *Run, c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return r.tt.Ite(c, x, y), true
	case Str:
		y, ok := b.(Str)
		if ok && x.b == nil && y.b == nil && x.s == y.s {
			return x, true
		}
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return x, true
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return x, true
		}
	case Iface:
		y, ok := b.(Iface)
		if ok && x.T == nil && y.T == nil {
			return x, true
		}
		if ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			switch p := x.V.(type) {
			case *Value:
				if q, ok := y.V.(*Value); ok && p == q {
					return x, true
				}
			}
		}
	case Slice:
		y, ok := b.(Slice)
		if ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || &x[:1][0] == &y[:1][0]) {
			return x, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x, true
		}
	}
	return nil, false
}
