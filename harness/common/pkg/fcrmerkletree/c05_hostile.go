package fcrmerkletree

import (
	"encoding/binary"
	"encoding/json"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a received proof of any shape is refused or can be checked without a panic
func VerifC05_anyShape() {
	np, ni := sym.Choose("paths", 4), sym.Choose("indexes", 4)
	var path [][]byte
	var index []int64
	for i := 0; i < np; i++ {
		path = append(path, sym.Bytes("sibling", []int{0, 1, 32, 33}[sym.Choose("len", sym.Bound("sibling lengths", 3, 4))]))
	}
	for i := 0; i < ni; i++ {
		index = append(index, sym.Int64("index"))
	}
	cids := kit.CIDs("cid", 3)
	t := vTree(cids)
	c := kit.CID("claimed")
	var p *FCRMerkleProof
	var err error
	sym.Assert(!sym.Try(func() { p, err = vProof(path, index) }), "decoding a proof never panics")
	if err != nil {
		sym.Assert(np != ni, "a proof with one side per sibling is accepted")
		return
	}
	ok := false
	sym.Assert(!sym.Try(func() { ok = p.VerifyContent(c, t.GetMerkleRoot()) }), "checking an accepted proof never panics")
	_ = ok
}

// any framing: truncated or inconsistent lengths are refused without a panic
func VerifC05_anyFraming() {
	n := sym.Choose("len", sym.Bound("bytes", 12, 20))
	raw := sym.Bytes("wire", n)
	wire, err := json.Marshal(raw)
	sym.Assert(err == nil, "marshals")
	p := &FCRMerkleProof{}
	sym.Assert(!sym.Try(func() { err = json.Unmarshal(wire, p) }), "no panic on any framing")
	if n <= 8 {
		sym.Assert(err != nil, "short proof is refused")
	}
	c := kit.CID("c")
	if err == nil {
		sym.Assert(!sym.Try(func() { p.VerifyContent(c, "00") }), "checking an accepted proof never panics")
	}
}

// wrong length words around well formed parts are refused
func VerifC05_lengthWords() {
	a, err := json.Marshal([][]byte{sym.Bytes("sibling", 32)})
	sym.Assert(err == nil, "marshals")
	b, err := json.Marshal([]int64{1})
	sym.Assert(err == nil, "marshals")
	d1, d2 := sym.Uint32("d1"), sym.Uint32("d2")
	l1, l2 := uint32(len(a))+d1, uint32(len(b))+d2
	w1, w2 := make([]byte, 4), make([]byte, 4)
	binary.BigEndian.PutUint32(w1, l1)
	binary.BigEndian.PutUint32(w2, l2)
	sym.Assume(d1 == 0 || d1 >= 256 && d1 < 1<<32-512)
	wire, err := json.Marshal(append(append(append(w1, a...), w2...), b...))
	sym.Assert(err == nil, "marshals")
	p := &FCRMerkleProof{}
	sym.Assert(!sym.Try(func() { err = json.Unmarshal(wire, p) }), "no panic on any length words")
	sym.Assert((err == nil) == (d1 == 0 && d2 == 0), "only consistent lengths are accepted")
}

// a proof cut short or followed by extra bytes is refused
func VerifC05_truncated() {
	n := 1 + sym.Choose("n", 3)
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	p, err := t.GenerateMerkleProof(&cids[0])
	sym.Assert(err == nil, "proof")
	data, err := json.Marshal(p)
	sym.Assert(err == nil, "marshals")
	var raw []byte
	sym.Assert(json.Unmarshal(data, &raw) == nil, "wire form is a byte string")
	switch sym.Choose("cut", 6) {
	case 0:
		raw = raw[:sym.Choose("keep", 9)]
	case 1:
		raw = raw[:len(raw)-1-sym.Choose("drop", 4)]
	case 2:
		raw = append(raw, sym.Bytes("extra", 1+sym.Choose("more", 4))...)
	case 3:
		raw = append(raw, raw...)
	case 4:
		raw = raw[4:]
	case 5:
		raw = raw[1+sym.Choose("skip", 3):]
		sym.Assume(len(raw) > 0)
	}
	wire, err := json.Marshal(raw)
	sym.Assert(err == nil, "marshals")
	q := &FCRMerkleProof{}
	sym.Assert(!sym.Try(func() { err = json.Unmarshal(wire, q) }), "no panic on a cut proof")
	sym.Assert(err != nil, "a cut or padded proof is refused")
}
