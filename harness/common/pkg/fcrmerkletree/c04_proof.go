package fcrmerkletree

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// every CID of the tree has a proof that verifies, also after the wire; it proves no other CID and no other root
func VerifC04_complete() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 5, 9))
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	k := sym.Choose("which", n)
	p, err := t.GenerateMerkleProof(&cids[k])
	sym.Assert(err == nil && p != nil, "proof for a CID of the tree")
	sym.Assert(p.VerifyContent(&cids[k], t.GetMerkleRoot()), "proof verifies")
	data, err := json.Marshal(p)
	sym.Assert(err == nil, "proof marshals")
	var q FCRMerkleProof
	sym.Assert(json.Unmarshal(data, &q) == nil, "proof unmarshals")
	sym.Assert(q.VerifyContent(&cids[k], t.GetMerkleRoot()), "received proof verifies")
	again, err := json.Marshal(&q)
	sym.Assert(err == nil && bytes.Equal(again, data), "proof survives the wire")
	sym.Assert(q.VerifyContent(&cids[k], t.GetMerkleRoot()), "checking a proof does not change it")
	other := kit.CID("other")
	sym.Assert(q.VerifyContent(other, t.GetMerkleRoot()) == kit.SameCID(other, &cids[k]), "proof is for its own CID only")
	root := sym.Bytes("root", 32)
	sym.Assert(q.VerifyContent(&cids[k], hex.EncodeToString(root)) == bytes.Equal(root, vHex(t.GetMerkleRoot())), "proof is for its own root only")
}

// the root does not depend on anything but the CIDs, and identifies them when the number is known
func VerifC04_rootIdentifies() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 6))
	a, b := kit.CIDs("a", n), kit.CIDs("b", n)
	ra, rb := vTree(a).GetMerkleRoot(), vTree(b).GetMerkleRoot()
	sym.Assert((ra == rb) == kit.SameCIDs(a, b), "equal roots exactly for equal CID lists")
	sym.Assert(vTree(a).GetMerkleRoot() == ra, "root is stable")
	sym.Assert(len(ra) == 64, "root is a digest in hex")
}

// soundness: no path of the tree's own depth proves a CID that is not in the tree
func VerifC04_sound() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	depth := 1
	for w := 2; w < n; w *= 2 {
		depth++
	}
	var path [][]byte
	var index []int64
	for i := 0; i < depth; i++ {
		path = append(path, sym.Bytes("sibling", 32))
		index = append(index, int64(sym.Choose("side", 3))-1)
	}
	p, err := vProof(path, index)
	sym.Assert(err == nil, "well formed proof accepted")
	c := kit.CID("claimed")
	if p.VerifyContent(c, t.GetMerkleRoot()) {
		in := false
		for i := range cids {
			in = in || kit.SameCID(c, &cids[i])
		}
		sym.Assert(in, "only CIDs of the tree can be proved")
	}
}

// a shorter or longer path proves nothing either, unless a CID is itself the hash of a tree node
func VerifC04_soundOtherDepth() {
	n := 1 + sym.Choose("n", 4)
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	depth := 1
	for w := 2; w < n; w *= 2 {
		depth++
	}
	d := sym.Choose("depth", sym.Bound("path length", 4, 5))
	sym.Assume(d != depth)
	c := kit.CID("claimed")
	var path [][]byte
	var index []int64
	var on [][]byte // the hashes on the way up
	h := c.ToBytes()
	for i := 0; i < d; i++ {
		s := sym.Bytes("sibling", 32)
		side := sym.Choose("side", 2)
		path = append(path, s)
		index = append(index, int64(side))
		var x [32]byte
		if side == 1 {
			x = sha256.Sum256(append(append([]byte{}, h...), s...))
		} else {
			x = sha256.Sum256(append(append([]byte{}, s...), h...))
		}
		h = x[:]
		on = append(on, h)
	}
	for _, x := range on {
		for i := range cids {
			sym.Assume(!bytes.Equal(x, cids[i].ToBytes()))
		}
	}
	for _, x := range vInner(cids) {
		sym.Assume(!bytes.Equal(x, c.ToBytes()))
	}
	p, err := vProof(path, index)
	if err != nil {
		return
	}
	sym.Assert(!p.VerifyContent(c, t.GetMerkleRoot()), "a path of another length proves nothing")
}

func vInner(cids []cid.ContentID) (out [][]byte) {
	var level [][]byte
	for i := range cids {
		level = append(level, cids[i].ToBytes())
	}
	for first := true; first || len(level) > 1; first = false {
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			j := i + 1
			if j == len(level) {
				j = i
			}
			x := sha256.Sum256(append(append([]byte{}, level[i]...), level[j]...))
			up = append(up, x[:])
		}
		out = append(out, up...)
		level = up
	}
	return
}

// the root itself, given as a CID with an empty path, must not be provable
func VerifC04_rootAsCID() {
	cids := kit.CIDs("cid", 2)
	t := vTree(cids)
	c, err := cid.NewContentIDFromBytes(vHex(t.GetMerkleRoot()))
	sym.Assert(err == nil, "CID")
	p, err := vProof(nil, nil)
	if err != nil {
		return
	}
	sym.Assert(!p.VerifyContent(c, t.GetMerkleRoot()), "the root is not provable as a CID")
}

// a CID outside the tree gets no proof that verifies
func VerifC04_absent() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	cids := kit.CIDs("cid", n)
	c := kit.CID("absent")
	for i := range cids {
		sym.Assume(!kit.SameCID(c, &cids[i]))
	}
	for _, x := range vInner(cids) {
		sym.Assume(!bytes.Equal(x, c.ToBytes()))
	}
	t := vTree(cids)
	p, err := t.GenerateMerkleProof(c)
	if err != nil || p == nil {
		return
	}
	sym.Assert(!p.VerifyContent(c, t.GetMerkleRoot()), "absent CID is not proved")
}

// a tampered proof fails: any change of a sibling
func VerifC04_tampered() {
	n := 2 + sym.Choose("n", sym.Bound("cids-1", 3, 5))
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	k := sym.Choose("which", n)
	depth := 1
	for w := 2; w < n; w *= 2 {
		depth++
	}
	var path [][]byte
	var index []int64
	for l := 0; l < depth; l++ {
		path = append(path, orig(cids, k, l))
		index = append(index, int64(1-(k>>uint(l))%2))
	}
	good, err := vProof(path, index)
	sym.Assert(err == nil && good.VerifyContent(&cids[k], t.GetMerkleRoot()), "the sibling path proves the CID")
	i := sym.Choose("level", depth)
	sibling := sym.Bytes("sibling", 32)
	same := bytes.Equal(sibling, path[i])
	path[i] = sibling
	bad, err := vProof(path, index)
	sym.Assert(err == nil, "well formed proof accepted")
	sym.Assert(bad.VerifyContent(&cids[k], t.GetMerkleRoot()) == same, "changed sibling is refused")
}

// a proof with a sibling of another size, one put in, one left out or one on its other side fails
func VerifC04_reshaped() {
	n := 2 + sym.Choose("n", sym.Bound("cids-1", 3, 5))
	cids := kit.CIDs("cid", n)
	t := vTree(cids)
	for i := range cids {
		for j := range cids[:i] {
			sym.Assume(!kit.SameCID(&cids[i], &cids[j]))
		}
	}
	k := sym.Choose("which", n)
	depth := 1
	for w := 2; w < n; w *= 2 {
		depth++
	}
	var path [][]byte
	var index []int64
	for l := 0; l < depth; l++ {
		path = append(path, orig(cids, k, l))
		index = append(index, int64(1-(k>>uint(l))%2))
	}
	sizes := []int{0, 1, 31, 33, 64}
	i := sym.Choose("level", depth)
	kind := sym.Choose("change", 5)
	lone := string(path[i]) == string(orig(cids, k^1, i)) && n%2 == 1
	switch kind {
	case 0:
		path[i] = sym.Bytes("sibling", sizes[sym.Choose("size", len(sizes))])
	case 1:
		put := sym.Bytes("sibling", append(sizes, 32)[sym.Choose("size", len(sizes)+1)])
		path = append(path[:i], append([][]byte{put}, path[i:]...)...)
		index = append(index[:i], append([]int64{int64(sym.Choose("side", 2))}, index[i:]...)...)
	case 2:
		path, index = append(path[:i], path[i+1:]...), append(index[:i], index[i+1:]...)
	case 3:
		path, index = append(path, sym.Bytes("sibling", append(sizes, 32)[sym.Choose("size", len(sizes)+1)])), append(index, int64(sym.Choose("side", 2)))
	case 4:
		sym.Assume(!lone)
		index[i] = 1 - index[i]
	}
	h := cids[k].ToBytes()
	for j := range path { // no hash on the way is a CID of the tree
		var x [32]byte
		if index[j] == 1 {
			x = sha256.Sum256(append(append([]byte{}, h...), path[j]...))
		} else {
			x = sha256.Sum256(append(append([]byte{}, path[j]...), h...))
		}
		h = x[:]
		for c := range cids {
			sym.Assume(!bytes.Equal(h, cids[c].ToBytes()))
		}
	}
	for _, x := range vInner(cids) {
		for c := range cids {
			sym.Assume(!bytes.Equal(x, cids[c].ToBytes()))
		}
	}
	p, err := vProof(path, index)
	if err != nil {
		return
	}
	sym.Assert(!p.VerifyContent(&cids[k], t.GetMerkleRoot()), "a proof of another shape is refused")
}

// orig recomputes the sibling of leaf k at level lv.
func orig(cids []cid.ContentID, k, lv int) []byte {
	var level [][]byte
	for i := range cids {
		level = append(level, cids[i].ToBytes())
	}
	if len(level)%2 == 1 {
		level = append(level, level[len(level)-1])
	}
	for l := 0; ; l++ {
		s := k ^ 1
		if s >= len(level) {
			s = k
		}
		if l == lv {
			return level[s]
		}
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			j := i + 1
			if j == len(level) {
				j = i
			}
			x := sha256.Sum256(append(append([]byte{}, level[i]...), level[j]...))
			up = append(up, x[:])
		}
		level, k = up, k/2
	}
}

// an inner node, given as a CID with the path above it, must not be provable
func VerifC04_innerAsCID() {
	cids := kit.CIDs("cid", 4)
	t := vTree(cids)
	in := vInner(cids)
	c, err := cid.NewContentIDFromBytes(in[0])
	sym.Assert(err == nil, "CID")
	p, err := vProof([][]byte{in[1]}, []int64{1})
	if err != nil {
		return
	}
	sym.Assert(!p.VerifyContent(c, t.GetMerkleRoot()), "an inner node is not provable as a CID")
}
