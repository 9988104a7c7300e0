package main

import (
	"hash/fnv"
	"math/big"
	"sync"
	"sync/atomic"
)

// Query cache. A query "path condition and c" is decided by the constraints that share variables
// with c, directly or through other constraints: the path condition is satisfiable by itself, and
// the rest of it does not mention those variables. Queries are therefore remembered under the
// structural hash of c and of that part of the path condition; the answer came from the solver in
// an earlier path of the same run.

type h128 [2]uint64

type cached struct {
	res Res
	m   Model
}

type queryCache struct {
	mu [64]sync.Mutex
	t  [64]map[[2]h128]cached
	n  int64
}

func newQueryCache() *queryCache {
	q := &queryCache{}
	for i := range q.t {
		q.t[i] = map[[2]h128]cached{}
	}
	return q
}

func (q *queryCache) get(k [2]h128) (cached, bool) {
	i := (k[0][0] ^ k[1][0]) & 63
	q.mu[i].Lock()
	defer q.mu[i].Unlock()
	c, ok := q.t[i][k]
	return c, ok
}

func (q *queryCache) put(k [2]h128, c cached) {
	if c.res == Unknown || atomic.LoadInt64(&q.n) > 1500000 {
		return
	}
	i := (k[0][0] ^ k[1][0]) & 63
	q.mu[i].Lock()
	defer q.mu[i].Unlock()
	if _, ok := q.t[i][k]; !ok {
		atomic.AddInt64(&q.n, 1)
		q.t[i][k] = c
	}
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// termHash hashes the structure of a term whose arguments are hashed.
func termHash(x *Term, name string) h128 {
	var r h128
	for i := range r {
		h := mix64(uint64(x.op)*0x1f123bb5 + uint64(x.w)*0x9e3779b1 + uint64(i)*0xabcdef1234567)
		h = mix64(h ^ uint64(x.lo)<<1 ^ x.u*31)
		if name != "" {
			h = mix64(h ^ hashStr(name)*uint64(2*i+1))
		}
		for j := 0; j < x.n; j++ {
			h = mix64(h ^ x.a[j].h[i]*uint64(2*j+3))
		}
		r[i] = h
	}
	return r
}

// slices keeps the path condition of a run apart by the variables it mentions.
type slices struct {
	up   map[*Term]*Term // union-find over variables
	sum  map[*Term]h128  // hash of the constraints of a component, by root
	mem  map[*Term][]*Term
	seen map[*Term]bool // constraints entered
	n    int            // constraints of r.pc entered
	f    h128           // constraints without variables
}

func newSlices() *slices {
	return &slices{up: map[*Term]*Term{}, sum: map[*Term]h128{}, mem: map[*Term][]*Term{}, seen: map[*Term]bool{}}
}

func (s *slices) root(v *Term) *Term {
	p, ok := s.up[v]
	if !ok {
		s.up[v] = v
		s.mem[v] = []*Term{v}
		return v
	}
	for p != s.up[p] {
		s.up[p] = s.up[s.up[p]]
		p = s.up[p]
	}
	return p
}

func (s *slices) union(a, b *Term) *Term {
	a, b = s.root(a), s.root(b)
	if a == b {
		return a
	}
	if len(s.mem[a]) < len(s.mem[b]) {
		a, b = b, a
	}
	s.up[b] = a
	x, y := s.sum[a], s.sum[b]
	s.sum[a] = h128{x[0] + y[0], x[1] + y[1]}
	s.mem[a] = append(s.mem[a], s.mem[b]...)
	delete(s.mem, b)
	delete(s.sum, b)
	return a
}

// varsOf lists the variables of a term.
func (t *TT) varsOf(x *Term) []*Term {
	if v, ok := t.varC[x]; ok {
		return v
	}
	var out []*Term
	seen := map[*Term]bool{}
	stack := []*Term{x}
	for len(stack) > 0 {
		y := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if y.nl == 0 || seen[y] {
			continue
		}
		seen[y] = true
		if y.op == OVar {
			out = append(out, y)
			continue
		}
		for i := 0; i < y.n; i++ {
			stack = append(stack, y.a[i])
		}
	}
	t.varC[x] = out
	return out
}

func (r *Run) sliceKey(c *Term) (key [2]h128, roots []*Term) {
	s := r.sl
	for ; s.n < len(r.pc); s.n++ {
		p := r.pc[s.n]
		if s.seen[p] {
			continue
		}
		s.seen[p] = true
		vs := r.tt.varsOf(p)
		if len(vs) == 0 {
			s.f = h128{s.f[0] + p.h[0], s.f[1] + p.h[1]}
			continue
		}
		a := s.root(vs[0])
		for _, v := range vs[1:] {
			a = s.union(a, v)
		}
		x := s.sum[a]
		s.sum[a] = h128{x[0] + mix64(p.h[0]), x[1] + mix64(p.h[1])}
	}
	done := map[*Term]bool{}
	sum := s.f
	for _, v := range r.tt.varsOf(c) {
		a := s.root(v)
		if !done[a] {
			done[a] = true
			roots = append(roots, a)
			x := s.sum[a]
			sum = h128{sum[0] + x[0], sum[1] + x[1]}
		}
	}
	return [2]h128{c.h, sum}, roots
}

// checkCached is check with the cache in front.
func (r *Run) checkCached(c *Term) (Res, Model) {
	if c.isConst() {
		return r.checkSolver(c)
	}
	key, roots := r.sliceKey(c)
	if e, ok := r.eng.qc.get(key); ok {
		if e.res == Unsat {
			atomic.AddInt64(&r.eng.res.St.Hits, 1)
			return Unsat, nil
		}
		if r.model != nil {
			atomic.AddInt64(&r.eng.res.St.Hits, 1)
			m := make(Model, len(r.model))
			for k, v := range r.model {
				m[k] = v
			}
			for k, v := range e.m {
				m[k] = v
			}
			return Sat, m
		}
	}
	res, m := r.checkSolver(c)
	switch res {
	case Unsat:
		r.eng.qc.put(key, cached{res: Unsat})
	case Sat:
		sub := Model{}
		for _, a := range roots {
			for _, v := range r.sl.mem[a] {
				if x, ok := m[v.name]; ok {
					sub[v.name] = x
				} else {
					sub[v.name] = new(big.Int)
				}
			}
		}
		r.eng.qc.put(key, cached{res: Sat, m: sub})
	}
	return res, m
}
