package fcroffermgr

import (
	"bytes"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

const never = int64(1) << 40 // later than any time of a run

// pool: n different content ids in ascending order
func pool(n int) []cid.ContentID {
	var l []cid.ContentID
	for i := 0; i < n; i++ {
		c := kit.WideCID("cid", 2)
		if i > 0 {
			sym.Assume(bytes.Compare(l[i-1].ToBytes(), c.ToBytes()) < 0)
		}
		l = append(l, *c)
	}
	return l
}

func offerOf(expiry int64, cids ...cid.ContentID) *cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(kit.WideNodeID("provider", 2), cids, sym.Uint64("price"), expiry, 5)
	sym.Assume(err == nil && o != nil)
	return o
}

func sameOffer(a, b *cidoffer.CIDOffer) bool {
	return kit.SameNode(a.GetProviderID(), b.GetProviderID()) && kit.SameCIDs(a.GetCIDs(), b.GetCIDs()) &&
		a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS()
}

// distinct leaves out offers that are the same as an earlier one
func distinct(l []*cidoffer.CIDOffer) []*cidoffer.CIDOffer {
	var res []*cidoffer.CIDOffer
	for _, o := range l {
		dup := false
		for _, p := range res {
			dup = dup || sameOffer(o, p)
		}
		if !dup {
			res = append(res, o)
		}
	}
	return res
}

func holds(o *cidoffer.CIDOffer, c *cid.ContentID) bool {
	for _, x := range o.GetCIDs() {
		if bytes.Equal(x.ToBytes(), c.ToBytes()) {
			return true
		}
	}
	return false
}

// exactly checks that got is the set of the offers of want, each once
func exactly(got []cidoffer.CIDOffer, want []*cidoffer.CIDOffer, what string) {
	sym.Assert(len(got) == len(want), "the number of offers is right: "+what)
	for _, w := range want {
		n := 0
		for i := range got {
			if sameOffer(&got[i], w) {
				n++
			}
		}
		sym.Assert(n == 1, "every offer is found once: "+what)
	}
}

func timeExpired(o *cidoffer.CIDOffer) bool { return time.Unix(o.GetExpiry(), 0).Before(sym.TimeNow()) }
