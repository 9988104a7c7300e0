package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math/big"
)

// hashApp is one application of a hash function, modelled as an injective uninterpreted function
// (collision resistance); applications to concrete data give the real digest when we can compute it.
type hashApp struct {
	alg string
	in  []*Term
	out []*Term
	v   *Term // output variable, nil for concrete digests
}

func pseudo(seed string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", seed, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// realHash computes the digest of concrete data; blake2b is replaced by a tagged SHA-512/256,
// which only changes values no check looks at (marked so that they never count as known bytes).
func realHash(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		h := sha256.Sum256(b)
		return h[:]
	case "sha512_256":
		h := sha512.Sum512_256(b)
		return h[:]
	}
	h := sha512.Sum512_256(append([]byte("gosym-"+alg+":"), b...))
	return h[:]
}

func hasDoc(r *Run, b []*Term) bool {
	for _, t := range b {
		if t.op == OVar {
			if _, ok := r.docBytes[t]; ok {
				return true
			}
		}
	}
	return false
}

func (r *Run) hash(alg string, in []*Term) []*Term {
	in = append([]*Term{}, in...)
	for _, h := range r.hashes {
		if h.alg == alg && len(h.in) == len(in) {
			same := true
			for i := range in {
				if in[i] != h.in[i] {
					same = false
					break
				}
			}
			if same {
				return append([]*Term{}, h.out...)
			}
		}
	}
	for _, o := range r.hashes {
		if o.alg == alg && r.bytesEq(in, o.in).isTrue() {
			return append([]*Term{}, o.out...)
		}
	}
	h := &hashApp{alg: alg, in: in}
	if b, ok := concBytes(in); ok && (alg == "sha256" || alg == "sha512_256") {
		d := realHash(alg, b)
		for _, x := range d {
			h.out = append(h.out, r.tt.Const(8, uint64(x)))
		}
	} else {
		k := len(r.hashes)
		var hint *big.Int
		if r.model != nil {
			if hasDoc(r, in) {
				hint = new(big.Int).SetBytes(pseudo(fmt.Sprintf("hash%d", k), 32))
				for _, o := range r.hashes {
					if o.alg == alg && o.v != nil && r.evalBool(r.bytesEq(in, o.in)) {
						hint = Eval(o.v, r.model, r.memo)
						break
					}
				}
			} else {
				bs := make([]byte, len(in))
				for i, t := range in {
					bs[i] = byte(Eval(t, r.model, r.memo).Uint64())
				}
				hint = new(big.Int).SetBytes(realHash(alg, bs))
			}
		}
		h.v = r.freshVar(256, fmt.Sprintf("hash %d", k), hint)
		for i := 0; i < 32; i++ {
			h.out = append(h.out, r.tt.Extract(h.v, 8*(31-i), 8))
		}
	}
	// injectivity against every earlier application of the same function
	for _, o := range r.hashes {
		if o.alg != alg {
			continue
		}
		if h.v == nil && o.v == nil {
			continue
		}
		e := r.bytesEq(h.in, o.in)
		oe := r.tt.Eq(r.tt.Concats(h.out), r.tt.Concats(o.out))
		r.addFact(r.tt.Eq(e, oe))
	}
	r.hashes = append(r.hashes, h)
	return append([]*Term{}, h.out...)
}

// hashAt recognises a full digest variable at the start of b.
func (r *Run) hashAt(b []*Term) *hashApp {
	if len(b) < 32 || len(r.hashes) == 0 || b[0].op != OExtract || b[0].a[0].w != 256 || b[0].a[0].op != OVar {
		return nil
	}
	for _, h := range r.hashes {
		if h.v == b[0].a[0] {
			for i := 0; i < 32; i++ {
				if b[i] != h.out[i] {
					return nil
				}
			}
			return h
		}
	}
	return nil
}

// hashEq compares byte strings containing digests by comparing the hashed data.
func (r *Run) hashEq(a, b []*Term) *Term {
	if len(r.hashes) == 0 || len(a) != len(b) || len(a) < 32 || a[0].w != 8 {
		return nil
	}
	res := r.tt.tru
	i, last, found := 0, 0, false
	for i < len(a) {
		p := r.hashAt(a[i:])
		if p == nil {
			i++
			continue
		}
		q := r.hashAt(b[i:])
		if q == nil || q.alg != p.alg {
			i += 32
			continue
		}
		found = true
		if i > last {
			res = r.tt.And(res, r.bytesEq(a[last:i], b[last:i]))
		}
		res = r.tt.And(res, r.bytesEq(p.in, q.in))
		i += 32
		last = i
	}
	if !found {
		return nil
	}
	if last < len(a) {
		res = r.tt.And(res, r.bytesEq(a[last:], b[last:]))
	}
	return res
}

// ---- keys and signatures ----

type pubApp struct {
	key, pub []*Term // 32, 65
}

type sigApp struct {
	key, msg, sig []*Term // 32, 32, 65
}

var (
	secpP, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	secpN, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	secpGx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	secpGy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
)

func secpMul(k *big.Int) (x, y *big.Int) {
	add := func(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
		if x1 == nil {
			return x2, y2
		}
		if x2 == nil {
			return x1, y1
		}
		var l *big.Int
		if x1.Cmp(x2) == 0 {
			if new(big.Int).Mod(new(big.Int).Add(y1, y2), secpP).Sign() == 0 {
				return nil, nil
			}
			n := new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(x1, x1))
			l = n.Mul(n, new(big.Int).ModInverse(new(big.Int).Lsh(y1, 1), secpP))
		} else {
			dx := new(big.Int).Mod(new(big.Int).Sub(x2, x1), secpP)
			l = new(big.Int).Mul(new(big.Int).Sub(y2, y1), new(big.Int).ModInverse(dx, secpP))
		}
		l.Mod(l, secpP)
		x3 := new(big.Int).Mul(l, l)
		x3.Sub(x3, x1).Sub(x3, x2).Mod(x3, secpP)
		y3 := new(big.Int).Sub(x1, x3)
		y3.Mul(y3, l).Sub(y3, y1).Mod(y3, secpP)
		return x3, y3
	}
	px, py := secpGx, secpGy
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			x, y = add(x, y, px, py)
		}
		px, py = add(px, py, px, py)
	}
	return
}

// validKey: 0 < key < N
func (r *Run) validKey(key []*Term) *Term {
	k := r.tt.Concats(key)
	return r.tt.And(r.tt.Not(r.tt.Eq(k, r.tt.Const(256, 0))), r.tt.Ult(k, r.tt.ConstBig(256, secpN)))
}

// pubKey returns the 65-byte public key of a 32-byte private key.
func (r *Run) pubKey(key []*Term) []*Term {
	for _, p := range r.pubs {
		same := true
		for i := range key {
			if p.key[i] != key[i] {
				same = false
			}
		}
		if same {
			return append([]*Term{}, p.pub...)
		}
	}
	p := &pubApp{key: append([]*Term{}, key...), pub: []*Term{r.tt.Const(8, 4)}}
	if b, ok := concBytes(key); ok {
		x, y := secpMul(new(big.Int).SetBytes(b))
		if x == nil {
			x, y = new(big.Int), new(big.Int)
		}
		buf := make([]byte, 64)
		x.FillBytes(buf[:32])
		y.FillBytes(buf[32:])
		for _, c := range buf {
			p.pub = append(p.pub, r.tt.Const(8, uint64(c)))
		}
	} else {
		k := len(r.pubs)
		v := r.freshVar(512, fmt.Sprintf("pub %d", k), new(big.Int).SetBytes(pseudo(fmt.Sprintf("pub%d", k), 64)))
		for i := 0; i < 64; i++ {
			p.pub = append(p.pub, r.tt.Extract(v, 8*(63-i), 8))
		}
	}
	for _, o := range r.pubs {
		e := r.tt.Eq(r.tt.Concats(p.key), r.tt.Concats(o.key))
		r.addFact(r.tt.Eq(e, r.tt.Eq(r.tt.Concats(p.pub), r.tt.Concats(o.pub))))
	}
	r.pubs = append(r.pubs, p)
	return append([]*Term{}, p.pub...)
}

func (r *Run) signDigest(key, msg []*Term) []*Term {
	r.pubKey(key)
	for _, s := range r.nmsigs {
		if e := r.tt.And(r.bytesEq(s.key, key), r.bytesEq(s.msg, msg)); e.isTrue() {
			return append([]*Term{}, s.sig...)
		}
	}
	k := len(r.nmsigs)
	s := &sigApp{key: append([]*Term{}, key...), msg: append([]*Term{}, msg...)}
	hint := pseudo(fmt.Sprintf("sig%d", k), 65)
	hint[64] &= 1
	for _, o := range r.nmsigs {
		if r.model != nil && r.evalBool(r.tt.And(r.bytesEq(o.key, key), r.bytesEq(o.msg, msg))) {
			for i := range hint {
				hint[i] = byte(Eval(o.sig[i], r.model, r.memo).Uint64())
			}
			break
		}
	}
	v := r.freshVar(513, fmt.Sprintf("sig %d", k), func() *big.Int {
		h := new(big.Int).SetBytes(hint[:64])
		h.Lsh(h, 1)
		return h.Or(h, big.NewInt(int64(hint[64])))
	}())
	for i := 0; i < 64; i++ {
		s.sig = append(s.sig, r.tt.Extract(v, 1+8*(63-i), 8))
	}
	s.sig = append(s.sig, r.tt.ZExt(r.tt.Extract(v, 0, 1), 8))
	for _, o := range r.nmsigs {
		e := r.tt.And(r.bytesEq(s.key, o.key), r.bytesEq(s.msg, o.msg))
		r.addFact(r.tt.Eq(e, r.tt.Eq(r.tt.Concats(s.sig[:64]), r.tt.Concats(o.sig[:64]))))
		if !e.isFalse() {
			r.addFact(r.tt.Or(r.tt.Not(e), r.tt.Eq(s.sig[64], o.sig[64])))
		}
	}
	r.nmsigs = append(r.nmsigs, s)
	return append([]*Term{}, s.sig...)
}

func regCrypto() {
	arr := func(b []*Term) Array { return Array(termSlice(b)) }
	sum := func(alg string) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value { return arr(r.hash(alg, sliceTerms(a[0].(Slice)))) }
	}
	reg("crypto/sha256.Sum256", sum("sha256"))
	reg("crypto/sha512.Sum512_256", sum("sha512_256"))
	reg("golang.org/x/crypto/blake2b.Sum256", sum("blake2b"))
	mk := func(alg string, size, block int) func(r *Run) Iface {
		return func(r *Run) Iface {
			h := nat("hash", map[string]Value{"buf": Slice{}, "alg": Str{s: alg}})
			h.V.(*Native).x = [2]int{size, block}
			return h
		}
	}
	reg("crypto/sha256.New", func(r *Run, fr *Frame, a []Value) Value { return mk("sha256", 32, 64)(r) })
	reg("golang.org/x/crypto/blake2b.New256", func(r *Run, fr *Frame, a []Value) Value { return Tuple{mk("blake2b", 32, 128)(r), Iface{}} })
	nativeMethods["hash.Write"] = func(r *Run, n *Native, a []Value) Value {
		b := n.f["buf"].(Slice)
		n.f["buf"] = append(b[:len(b):len(b)], a[0].(Slice)...)
		return Tuple{i64(r, len(a[0].(Slice))), Iface{}}
	}
	nativeMethods["hash.Sum"] = func(r *Run, n *Native, a []Value) Value {
		d := termSlice(r.hash(n.f["alg"].(Str).s, sliceTerms(n.f["buf"].(Slice))))
		return r.appendSlice(a[0].(Slice), d, types.Typ[types.Uint8])
	}
	nativeMethods["hash.Reset"] = func(r *Run, n *Native, a []Value) Value { n.f["buf"] = Slice{}; return nil }
	nativeMethods["hash.Size"] = func(r *Run, n *Native, a []Value) Value { return i64(r, n.x.([2]int)[0]) }
	nativeMethods["hash.BlockSize"] = func(r *Run, n *Native, a []Value) Value { return i64(r, n.x.([2]int)[1]) }

	reg("crypto/ecdsa.GenerateKey", func(r *Run, fr *Frame, a []Value) Value {
		t := r.typeOf("crypto/ecdsa", "PrivateKey")
		p := new(Value)
		*p = r.zero(t)
		r.keyN++
		d := new(big.Int).SetBytes(pseudo(fmt.Sprintf("key%d", r.keyN), 32))
		d.Mod(d, secpN)
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "D" {
				(*p).(Struct)[i] = r.newBig(r.bigConst(d))
			}
		}
		return Tuple{p, Iface{}}
	})
	const secp = "github.com/ipsn/go-secp256k1."
	reg(secp+"S256", func(r *Run, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = r.zero(r.typeOf("github.com/ipsn/go-secp256k1", "BitCurve"))
		return p
	})
	reg("(*"+secp+"BitCurve).ScalarBaseMult", func(r *Run, fr *Frame, a []Value) Value {
		k := sliceTerms(a[1].(Slice))
		if len(k) != 32 {
			r.unsupported("scalar of %d bytes", len(k))
		}
		pub := r.pubKey(k)
		return Tuple{r.newBig(r.bigFromBytes(pub[1:33])), r.newBig(r.bigFromBytes(pub[33:]))}
	})
	reg("crypto/elliptic.Marshal", func(r *Run, fr *Frame, a []Value) Value {
		out := Slice{r.tt.Const(8, 4)}
		for _, p := range a[1:3] {
			b := r.bigAt(p)
			t := r.tt.SExt(b.t, 257)
			for i := 31; i >= 0; i-- {
				out = append(out, r.tt.Extract(t, 8*i, 8))
			}
		}
		return out
	})
	secErr := func(r *Run, n string) Iface { return r.mkErr("secp256k1: " + n) }
	reg(secp+"Sign", func(r *Run, fr *Frame, a []Value) Value {
		msg, key := sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice))
		if len(msg) != 32 {
			return Tuple{Slice(nil), secErr(r, "invalid message length, need 32 bytes")}
		}
		if len(key) != 32 || !r.branch(r.validKey(key)) {
			return Tuple{Slice(nil), secErr(r, "invalid private key")}
		}
		return Tuple{termSlice(r.signDigest(key, msg)), Iface{}}
	})
	reg(secp+"VerifySignature", func(r *Run, fr *Frame, a []Value) Value {
		pub, msg, sig := sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)), sliceTerms(a[2].(Slice))
		if len(msg) != 32 || len(sig) != 64 || len(pub) == 0 {
			return r.tt.fls
		}
		res := r.tt.fls
		for _, s := range r.nmsigs {
			p := r.pubKey(s.key)
			if len(pub) != len(p) {
				continue
			}
			e := r.bytesEq(pub, p)
			if e.isFalse() {
				continue
			}
			e = r.tt.And(e, r.tt.Eq(r.tt.Concats(sig), r.tt.Concats(s.sig[:64])))
			if e.isFalse() {
				continue
			}
			res = r.tt.Or(res, r.tt.And(e, r.bytesEq(msg, s.msg)))
		}
		return res
	})
	reg(secp+"RecoverPubkey", func(r *Run, fr *Frame, a []Value) Value {
		msg, sig := sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice))
		if len(msg) != 32 {
			return Tuple{Slice(nil), secErr(r, "invalid message length, need 32 bytes")}
		}
		if len(sig) != 65 {
			return Tuple{Slice(nil), secErr(r, "invalid signature length")}
		}
		if !r.branch(r.tt.Ult(sig[64], r.tt.Const(8, 4))) {
			return Tuple{Slice(nil), secErr(r, "invalid signature recovery id")}
		}
		for _, s := range r.nmsigs {
			e := r.tt.And(r.tt.Eq(r.tt.Concats(sig), r.tt.Concats(s.sig)), r.bytesEq(msg, s.msg))
			if r.branch(e) {
				return Tuple{termSlice(r.pubKey(s.key)), Iface{}}
			}
		}
		if r.choose(2) == 0 {
			return Tuple{Slice(nil), secErr(r, "recovery failed")}
		}
		// some key nobody holds
		r.fresh++
		v := r.freshVar(512, fmt.Sprintf("rec %d", r.fresh), new(big.Int).SetBytes(pseudo(fmt.Sprintf("rec%d", r.fresh), 64)))
		out := []*Term{r.tt.Const(8, 4)}
		for i := 0; i < 64; i++ {
			out = append(out, r.tt.Extract(v, 8*(63-i), 8))
		}
		for _, p := range r.pubs {
			r.addFact(r.tt.Not(r.tt.Eq(r.tt.Concats(out), r.tt.Concats(p.pub))))
		}
		return Tuple{termSlice(out), Iface{}}
	})
}
