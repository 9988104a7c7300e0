package main

import (
	"fmt"
	"math/big"
)

// Wide disequalities. Ideal hashes, keys and signatures are variables of 128 bits and more that
// must differ from many others. While a variable v occurs in nothing but constraints v != x (v
// whole, or 128 bits or more of it, and x without v), they are always satisfiable together with
// the rest of the path condition: each of them excludes at most a 2^-128th of the values of v,
// whatever x is, and a run has far fewer than 2^100 of them. They are kept from the solver until v
// occurs in another constraint or in a query.

const wideBits = 128

// wideOwner returns the variable that makes p satisfiable, nil if p is no such constraint.
func (r *Run) wideOwner(p *Term) *Term {
	if p.op != ONot || p.a[0].op != OEq {
		return nil
	}
	e := p.a[0]
	for i := 0; i < 2; i++ {
		x, y := e.a[i], e.a[1-i]
		if x.w < wideBits {
			return nil
		}
		if x.op == OExtract {
			x = x.a[0]
		}
		if x.op != OVar || r.wideUsed[x] {
			continue
		}
		own := false
		for _, v := range r.tt.varsOf(y) {
			own = own || v == x
		}
		if !own {
			return x
		}
	}
	return nil
}

func (r *Run) flushPC() {
	for ; r.pcN < len(r.pc); r.pcN++ {
		p := r.pc[r.pcN]
		if v := r.wideOwner(p); v != nil {
			if _, ok := r.wide[v]; !ok {
				r.wideOrder = append(r.wideOrder, v)
			}
			r.wide[v] = append(r.wide[v], p)
			continue
		}
		r.assertWide(p)
	}
}

func (r *Run) assertWide(p *Term) {
	todo := []*Term{p}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		r.w.sol.Assert(p)
		for _, v := range r.tt.varsOf(p) {
			if v.w < wideBits || r.wideUsed[v] {
				continue
			}
			r.wideUsed[v] = true
			todo = append(todo, r.wide[v]...)
			delete(r.wide, v)
		}
	}
}

// withWide adds to a query the constraints that were kept back and concern it.
func (r *Run) withWide(c *Term) (q *Term, in map[*Term]bool) {
	q = c
	in = map[*Term]bool{}
	todo := []*Term{c}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, v := range r.tt.varsOf(p) {
			if v.w < wideBits || in[v] {
				continue
			}
			in[v] = true
			for _, d := range r.wide[v] {
				q = r.tt.And(q, d)
				todo = append(todo, d)
			}
		}
	}
	return
}

// fillWide gives values to the variables whose constraints were kept back.
func (r *Run) fillWide(m Model, in map[*Term]bool) {
	for _, v := range r.wideOrder {
		if _, ok := r.wide[v]; !ok || in[v] {
			continue
		}
		x := new(big.Int)
		for n, i := 0, 0; n < v.w; n, i = n+64, i+1 {
			x.Lsh(x, 64)
			x.Or(x, new(big.Int).SetUint64(mix64(hashStr(fmt.Sprint(v.name, "#", i)))))
		}
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(v.w)), big.NewInt(1)))
		m[v.name] = x
	}
}
