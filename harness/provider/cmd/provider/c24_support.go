package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
)

// the provider keeps the gateways that say they support its group offers
func VerifC24_support() {
	w := boot(1, 2)
	w.initialise()
	supports := [3]bool{}
	rounds := sym.Bound("messages", 3, 4)
	for i := 0; i < rounds; i++ {
		named := []int{1, 2, stranger}[sym.Choose("gateway", 3)]
		signer := named
		if sym.Bool("signed by another") {
			signer = 3
		}
		yes := sym.Bool("supports")
		m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(node(named), yes)
		l := fcrp2pserver.VerifConnect(gatewayPort, signed(signer, m, err))
		if named == signer && named != stranger {
			supports[named] = yes
			sym.Assert(len(l) == 1 && by(self, l[0]), "the gateway is answered")
			sym.Assume(len(l) == 1)
			ok, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(l[0])
			sym.Assert(err == nil && ok, "the gateway is answered")
		} else {
			for _, m := range l {
				sym.Assert(m.GetMessageType() == fcrmessages.InvalidMessageResponseType, "only registered gateways say what they support")
			}
		}
		got := [3]int{}
		for _, id := range core.GetSingleInstance().GroupOfferGatewayIDs {
			for k := 1; k < 3; k++ {
				if id.ToString() == node(k).ToString() {
					got[k]++
				}
			}
		}
		n := 0
		for k := 1; k < 3; k++ {
			want := 0
			if supports[k] {
				want = 1
			}
			n += want
			sym.Assert(got[k] == want, "the gateways are kept that support group offers")
		}
		sym.Assert(len(core.GetSingleInstance().GroupOfferGatewayIDs) == n, "the gateways are kept that support group offers")
	}
}
