package fcrmerkletree

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/cbergoon/merkletree"
)

func vTree(cids []cid.ContentID) *FCRMerkleTree {
	var list []merkletree.Content
	for i := range cids {
		list = append(list, cids[i])
	}
	t, err := CreateMerkleTree(list)
	sym.Assert(err == nil && t != nil, "tree over at least one CID")
	return t
}

// vProof is a received proof with the given path and indexes.
func vProof(path [][]byte, index []int64) (*FCRMerkleProof, error) {
	frame := func(v interface{}) []byte {
		b, err := json.Marshal(v)
		sym.Assume(err == nil)
		n := make([]byte, 4)
		binary.BigEndian.PutUint32(n, uint32(len(b)))
		return append(n, b...)
	}
	wire, err := json.Marshal(append(frame(path), frame(index)...))
	sym.Assume(err == nil)
	p := &FCRMerkleProof{}
	err = json.Unmarshal(wire, p)
	return p, err
}

func vHex(s string) []byte {
	b, err := hex.DecodeString(s)
	sym.Assume(err == nil)
	return b
}
