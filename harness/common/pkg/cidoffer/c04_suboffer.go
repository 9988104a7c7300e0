package cidoffer

import (
	"encoding/json"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a sub offer proves its CID against its root, and a proof lent to another CID or root fails
func VerifC04_subOffer() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	o, cids := vOffer("o", n)
	c := cids[sym.Choose("which", n)]
	s, err := o.GenerateSubCIDOffer(&c)
	sym.Assert(err == nil && s.VerifyMerkleProof() == nil, "sub offer proves its CID")
	data, err := json.Marshal(s)
	sym.Assert(err == nil, "sub offer marshals")
	var q SubCIDOffer
	sym.Assert(json.Unmarshal(data, &q) == nil && q.VerifyMerkleProof() == nil, "received sub offer proves its CID")
	other := kit.CID("other")
	t := NewSubCIDOffer(s.GetProviderID(), other, s.GetMerkleRoot(), s.GetMerkleProof(), s.GetPrice(), s.GetExpiry(), s.GetQoS(), s.GetSignature())
	sym.Assert((t.VerifyMerkleProof() == nil) == kit.SameCID(&c, other), "the proof is for its own CID only")
	b, _ := vOffer("b", 1+sym.Choose("nb", 2))
	u := NewSubCIDOffer(s.GetProviderID(), &c, rootOf(b), s.GetMerkleProof(), s.GetPrice(), s.GetExpiry(), s.GetQoS(), s.GetSignature())
	sym.Assert((u.VerifyMerkleProof() == nil) == (rootOf(b) == s.GetMerkleRoot()), "the proof is for its own root only")
}

// a sub offer for a CID the offer does not contain never verifies
func VerifC04_absentCID() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	o, cids := vOffer("o", n)
	c := kit.CID("absent")
	for i := range cids {
		sym.Assume(!kit.SameCID(c, &cids[i]))
	}
	root, err := o.GenerateSubCIDOffer(&cids[0])
	sym.Assert(err == nil, "sub offer")
	sym.Assume(c.ToString() != root.GetMerkleRoot())
	s, err := o.GenerateSubCIDOffer(c)
	if err != nil || s == nil {
		return
	}
	sym.Assert(s.VerifyMerkleProof() != nil, "absent CID is not proved")
}

func rootOf(o *CIDOffer) string {
	s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
	sym.Assume(err == nil)
	return s.GetMerkleRoot()
}
