package main

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strings"
)

// Models of the Filecoin libraries: serialisations are lossless, token amounts are integers.

var blakeIV = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}
var blakeSigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}}

// blake2b of concrete data with a digest of size bytes, no key.
func blake2b(data []byte, size int) []byte {
	h := blakeIV
	h[0] ^= 0x01010000 ^ uint64(size)
	n := len(data)
	for off := 0; ; off += 128 {
		var blk [128]byte
		copy(blk[:], data[min(off, n):])
		last := off+128 >= n
		t := off + 128
		if last {
			t = n
		}
		var m [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(blk[8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], blakeIV[:])
		v[12] ^= uint64(t)
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for i := 0; i < 12; i++ {
			s := blakeSigma[i%10]
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
		if last {
			break
		}
	}
	out := make([]byte, 64)
	for i, x := range h {
		binary.LittleEndian.PutUint64(out[8*i:], x)
	}
	return out[:size]
}

// smallHash: a digest of another size; the digest of symbolic data is a prefix of an injective one
// (two different inputs are taken to have different short digests as well).
func (r *Run) smallHash(size int, in []*Term) []*Term {
	alg := fmt.Sprint(size)
	in = append([]*Term{}, in...)
	for _, h := range r.smalls {
		if h.alg == alg && len(h.in) == len(in) && sameTerms(h.in, in) {
			return append([]*Term{}, h.out...)
		}
	}
	h := &hashApp{alg: alg, in: in}
	if b, ok := concBytes(in); ok {
		for _, x := range blake2b(b, size) {
			h.out = append(h.out, r.tt.Const(8, uint64(x)))
		}
	} else {
		h.out = r.hash("blake2b", in)[:min(size, 32)]
		h.v = h.out[0]
	}
	for _, o := range r.smalls {
		if o.alg == alg && (h.v != nil || o.v != nil) {
			r.addFact(r.tt.Eq(r.bytesEq(h.in, o.in), r.tt.Eq(r.tt.Concats(h.out), r.tt.Concats(o.out))))
		}
	}
	r.smalls = append(r.smalls, h)
	return append([]*Term{}, h.out...)
}

func sameTerms(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// b64 finds the encoding an *base64.Encoding stands for.
func (r *Run) b64(v Value) *base64.Encoding {
	e := base64.StdEncoding
	p, ok := v.(*Value)
	if !ok || p == nil {
		return e
	}
	if p == r.globalCell("encoding/base64", "RawURLEncoding") {
		return base64.RawURLEncoding
	}
	s, ok := (*p).(Struct)
	if !ok {
		return e
	}
	url, raw := false, false
	for _, f := range s {
		switch x := f.(type) {
		case Array:
			if len(x) == 64 {
				if t, ok := x[62].(*Term); ok && t.isConst() && t.u == '-' {
					url = true
				}
			}
		case *Term:
			if x.w == 32 && x.isConst() && int32(x.u) == -1 {
				raw = true
			}
		}
	}
	switch {
	case url && raw:
		return base64.RawURLEncoding
	case url:
		return base64.URLEncoding
	case raw:
		return base64.RawStdEncoding
	}
	return e
}

func (r *Run) globalCell(pkg, name string) *Value {
	p := r.eng.prog.ImportedPackage(pkg)
	if p == nil || p.Var(name) == nil {
		return nil
	}
	v, _ := (*r.global(p.Var(name))).(*Value)
	return v
}

func regFil() {
	const pc = "github.com/filecoin-project/specs-actors/actors/builtin/paych."
	const in = "github.com/filecoin-project/specs-actors/actors/builtin/init."
	marsh := func(pkg, name string) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				r.unsupported("CBOR of nil %s", name)
			}
			b, e := r.marshal(Iface{T: r.typeOf(strings.TrimSuffix(pkg, "."), name), V: *p})
			if e.T != nil {
				return e
			}
			return r.callMethod(a[1].(Iface), "Write", termSlice(b)).(Tuple)[1]
		}
	}
	unmarsh := func(pkg, name string) Intrinsic {
		return func(r *Run, fr *Frame, a []Value) Value {
			res := r.call(fr, r.fnVal(r.fn("io", "ReadAll")), []Value{a[1]}).(Tuple)
			if e := res[1].(Iface); e.T != nil {
				return e
			}
			t := r.typeOf(strings.TrimSuffix(pkg, "."), name)
			return r.unmarshal(sliceTerms(res[0].(Slice)), Iface{T: types.NewPointer(t), V: a[0]})
		}
	}
	reg("(*"+pc+"SignedVoucher).MarshalCBOR", marsh(pc, "SignedVoucher"))
	reg("(*"+pc+"SignedVoucher).UnmarshalCBOR", unmarsh(pc, "SignedVoucher"))
	reg("(*"+in+"ExecReturn).MarshalCBOR", marsh(in, "ExecReturn"))
	reg("(*"+in+"ExecReturn).UnmarshalCBOR", unmarsh(in, "ExecReturn"))
	reg("github.com/ipfs/go-ipld-cbor.DecodeInto", func(r *Run, fr *Frame, a []Value) Value {
		return r.unmarshal(sliceTerms(a[0].(Slice)), a[1].(Iface))
	})
	reg("github.com/minio/blake2b-simd.Sum256", func(r *Run, fr *Frame, a []Value) Value {
		return Array(termSlice(r.smallHash(32, sliceTerms(a[0].(Slice)))))
	})
	reg("github.com/minio/blake2b-simd.New", func(r *Run, fr *Frame, a []Value) Value {
		size := 64
		if p := a[0].(*Value); p != nil {
			size = cint(r, (*p).(Struct)[0])
		}
		h := nat("fhash", map[string]Value{"buf": Slice{}})
		h.V.(*Native).x = size
		return Tuple{h, Iface{}}
	})
	nativeMethods["fhash.Write"] = nativeMethods["hash.Write"]
	nativeMethods["fhash.Sum"] = func(r *Run, n *Native, a []Value) Value {
		d := termSlice(r.smallHash(n.x.(int), sliceTerms(n.f["buf"].(Slice))))
		return append(append(Slice{}, a[0].(Slice)...), d...)
	}
	reg("(*github.com/filecoin-project/lotus/chain/types.Message).Cid", func(r *Run, fr *Frame, a []Value) Value {
		return r.zero(r.typeOf("github.com/ipfs/go-cid", "Cid"))
	})
	reg("github.com/filecoin-project/lotus/chain/types.ParseFIL", func(r *Run, fr *Frame, a []Value) Value {
		s := a[0].(Str)
		if s.b != nil {
			r.unsupported("ParseFIL of symbolic text")
		}
		t := strings.TrimSuffix(strings.TrimSuffix(s.s, "FIL"), " ")
		x, ok := new(big.Rat).SetString(t)
		if ok {
			x.Mul(x, new(big.Rat).SetInt64(1000000000000000000))
			ok = x.IsInt()
		}
		if !ok {
			var nilBig *Value
			return Tuple{Struct{nilBig}, r.mkErr("failed to parse FIL")}
		}
		return Tuple{Struct{r.newBig(r.bigConst(x.Num()))}, Iface{}}
	})
	reg("(github.com/filecoin-project/lotus/chain/actors/builtin/paych.message4).Create", func(r *Run, fr *Frame, a []Value) Value {
		t := r.typeOf("github.com/filecoin-project/lotus/chain/types", "Message")
		p := new(Value)
		*p = r.zero(t)
		set := func(name string, v Value) {
			for i := 0; i < under(t).(*types.Struct).NumFields(); i++ {
				if under(t).(*types.Struct).Field(i).Name() == name {
					(*p).(Struct)[i] = v
				}
			}
		}
		set("From", a[0].(Struct)[0])
		set("Value", a[2])
		set("Method", r.tt.Const(64, 2)) // Exec of the init actor
		// The parameters say whose channel it is.
		at := r.typeOf("github.com/filecoin-project/go-address", "Address")
		var params []*Term
		for _, x := range []Value{a[0].(Struct)[0], a[1]} {
			b, e := r.marshal(Iface{T: at, V: x})
			if e.T != nil {
				return Tuple{(*Value)(nil), e}
			}
			params = append(params, b...)
		}
		set("Params", termSlice(params))
		return Tuple{p, Iface{}}
	})
}
