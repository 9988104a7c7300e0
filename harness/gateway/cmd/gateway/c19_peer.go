package main

import (
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

func VerifC19_peerSearch() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	stored := shelf()
	amount, refused := w.payment()
	nonce := sym.Int64("nonce")
	p := sym.Choose("piece", 4)
	m, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(node(1), piece(p), nonce, 1<<60, "channel", "voucher")
	l := fcrp2pserver.VerifConnect(gatewayPort, signed(1, m, err))
	sym.Assert(len(w.paid) == 0 && len(w.sent) == 0, "nobody else is involved")
	sym.Assert(len(l) == 1, "a peer's search is answered")
	sym.Assume(len(l) == 1)
	c, n, found, digests, funded, required, channel, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(l[0])
	if err != nil {
		sym.Assert(refused || amount.Cmp(big.NewInt(1000)) < 0, "a paid search is answered")
		return
	}
	sym.Assert(by(self, l[0]), "the answer is signed")
	sym.Assert(kit.SameCID(c, piece(p)) && n == nonce && len(funded) == len(digests), "the answer is one to the search")
	if refused || amount.Cmp(big.NewInt(1000)) < 0 {
		sym.Assert(len(digests) == 0, "no offers are told without payment")
		sym.Assert(required && channel == "channel", "the payment is asked for")
		return
	}
	sym.Assert(!required, "no more payment is asked for")
	var want []string
	switch p {
	case 1:
		want = []string{digest(&stored[0]), digest(&stored[1])}
	case 2:
		want = []string{digest(&stored[1]), digest(&stored[2])}
	}
	sym.Assert(found == (len(want) > 0) && len(digests) == len(want), "the stored offers are told")
	for i := range want {
		sym.Assert(digests[i] == want[i], "the stored offers are told")
	}
}

func VerifC19_peerBuy() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	stored := shelf()
	amount, refused := w.payment()
	nonce := sym.Int64("nonce")
	p := sym.Choose("piece", 2) + 1
	ks, digests := choices(stored)
	price := big.NewInt(int64(70 * len(ks)))
	m, err := fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(piece(p), nonce, digests, "channel", "voucher")
	l := fcrp2pserver.VerifConnect(gatewayPort, signed(1, m, err))
	sym.Assert(len(w.paid) == 0 && len(w.sent) == 0, "nobody else is involved")
	sym.Assert(len(l) == 1, "a peer's purchase is answered")
	sym.Assume(len(l) == 1)
	c, n, _, offers, funded, required, channel, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(l[0])
	if err != nil {
		sym.Assert(refused || amount.Cmp(price) < 0, "a paid purchase is answered")
		return
	}
	sym.Assert(by(self, l[0]), "the answer is signed")
	sym.Assert(kit.SameCID(c, piece(p)) && n == nonce && len(funded) == len(offers), "the answer is one to the purchase")
	if refused || amount.Cmp(price) < 0 {
		sym.Assert(len(offers) == 0, "no offers are sold without payment")
		sym.Assert(required && channel == "channel", "the payment is asked for")
		return
	}
	sym.Assert(!required, "no more payment is asked for")
	checkSold(offers, sold(stored, p, ks), p)
}
