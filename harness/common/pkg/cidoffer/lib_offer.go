package cidoffer

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// vOffer is an offer with symbolic fields.
func vOffer(label string, n int) (*CIDOffer, []cid.ContentID) {
	cids := kit.CIDs(label+" cid", n)
	o, err := NewCIDOffer(kit.NodeID(label+" provider"), cids, sym.Uint64(label+" price"), sym.Int64(label+" expiry"), sym.Uint64(label+" qos"))
	sym.Assert(err == nil && o != nil, "offer with at least one CID can be built")
	return o, cids
}

func vSameOffer(a, b *CIDOffer) bool {
	return kit.SameNode(a.GetProviderID(), b.GetProviderID()) && kit.SameCIDs(a.GetCIDs(), b.GetCIDs()) &&
		a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS()
}
