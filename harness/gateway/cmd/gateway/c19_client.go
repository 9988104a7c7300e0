package main

import (
	"errors"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// payment is what the gateway makes of the voucher of a request
func (w *world) payment() (amount *big.Int, refused bool) {
	amount, refused = sym.BigInt("amount", 64), sym.Bool("refused")
	w.value = func(channel, code string) (*big.Int, error) {
		sym.Assert(channel == "channel" && code == "voucher", "the voucher of the request is taken")
		sym.Assert(len(w.received) == 0, "a voucher is taken once")
		if refused {
			return nil, errors.New("refused")
		}
		return amount, nil
	}
	return
}

// shelf stores two offers for piece 1 and one for piece 2 only
func shelf() []cidoffer.CIDOffer {
	l := []cidoffer.CIDOffer{offer(5, 3, 1), offer(6, 4, 1, 2), offer(6, 5, 2)}
	offermgr.VerifOffers = append([]cidoffer.CIDOffer{}, l...)
	return l
}

func VerifC19_search() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	stored := shelf()
	amount, refused := w.payment()
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	p := sym.Choose("piece", 4)
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientStandardDiscoverRequestV2(piece(p), nonce, ttl, "channel", "voucher")))
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.paid) == 0 && len(w.sent) == 0, "nobody else is involved")
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl || refused || amount.Cmp(big.NewInt(1000)) < 0, "a paid search is answered")
		return
	}
	sym.Assert(before <= ttl, "an expired search is not answered")
	sym.Assert(by(self, a.Message), "the answer is signed")
	c, n, found, digests, funded, required, channel, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(a.Message)
	sym.Assert(err == nil && kit.SameCID(c, piece(p)) && n == nonce && len(funded) == len(digests), "the answer is one to the search")
	if refused || amount.Cmp(big.NewInt(1000)) < 0 {
		sym.Assert(len(digests) == 0, "no offers are told without payment")
		sym.Assert(required && channel == "channel", "the payment is asked for")
		return
	}
	sym.Assert(!required, "no more payment is asked for")
	var want []string
	switch p {
	case 1:
		want = []string{digest(&stored[0]), digest(&stored[1])}
	case 2:
		want = []string{digest(&stored[1]), digest(&stored[2])}
	}
	sym.Assert(found == (len(want) > 0) && len(digests) == len(want), "the stored offers are told")
	for i := range want {
		sym.Assert(digests[i] == want[i], "the stored offers are told")
	}
}

// a digest of a stored offer (0 to 2), of one that is not stored (3), or no digest (4)
func wanted(stored []cidoffer.CIDOffer, k int) string {
	switch k {
	case 3:
		o := offer(5, 9, 1)
		return digest(&o)
	case 4:
		return "no digest"
	}
	return digest(&stored[k])
}

// sold: the offers that are to be sold for the digests
func sold(stored []cidoffer.CIDOffer, p int, ks []int) (l []cidoffer.CIDOffer) {
	for _, k := range ks {
		if k < 3 && (p == 1 && k < 2 || p == 2 && k > 0) {
			l = append(l, stored[k])
		}
	}
	return
}

func checkSold(offers []cidoffer.SubCIDOffer, want []cidoffer.CIDOffer, p int) {
	sym.Assert(len(offers) == len(want), "each stored offer that is paid for is sold")
	for i := range want {
		sym.Assert(covers(&offers[i], &want[i], piece(p)), "what is sold is the stored offer")
	}
}

func choices(stored []cidoffer.CIDOffer) (ks []int, digests []string) {
	n := sym.IntRange("digests", 0, sym.Bound("digests", 2, 3))
	for i := 0; i < n; i++ {
		k := sym.Choose("digest", 5)
		ks, digests = append(ks, k), append(digests, wanted(stored, k))
	}
	return
}

func VerifC19_buy() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	stored := shelf()
	amount, refused := w.payment()
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	p := sym.Choose("piece", 2) + 1
	ks, digests := choices(stored)
	price := big.NewInt(int64(70 * len(ks)))
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientStandardDiscoverOfferRequest(piece(p), nonce, ttl, digests, "channel", "voucher")))
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.paid) == 0 && len(w.sent) == 0, "nobody else is involved")
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl || refused || amount.Cmp(price) < 0, "a paid purchase is answered")
		return
	}
	sym.Assert(before <= ttl, "an expired purchase is not answered")
	sym.Assert(by(self, a.Message), "the answer is signed")
	c, n, found, offers, funded, required, channel, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(a.Message)
	sym.Assert(err == nil && kit.SameCID(c, piece(p)) && n == nonce && len(funded) == len(offers), "the answer is one to the purchase")
	if refused || amount.Cmp(price) < 0 {
		sym.Assert(len(offers) == 0 && !found, "no offers are sold without payment")
		sym.Assert(required && channel == "channel", "the payment is asked for")
		return
	}
	sym.Assert(!required, "no more payment is asked for")
	want := sold(stored, p, ks)
	sym.Assert(found == (len(want) > 0), "it is told if there are offers")
	checkSold(offers, want, p)
}

// prices are what they were
func VerifC19_again() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	stored := shelf()
	n := 0
	var amount *big.Int
	w.value = func(channel, code string) (*big.Int, error) { return amount, nil }
	rounds := sym.Bound("requests", 2, 3)
	for i := 0; i < rounds; i++ {
		amount = sym.BigInt("amount", 64)
		var got []cidoffer.SubCIDOffer
		var price int64
		kind := sym.Choose("request", 4)
		n = sym.Choose("digests", 2) + 1
		digests := []string{digest(&stored[0]), digest(&stored[1])}[:n]
		var told []string
		switch kind {
		case 0:
			price = int64(70 * n)
			a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientStandardDiscoverOfferRequest(piece(1), 1, 1<<60, digests, "channel", "voucher")))
			if a.Status == 200 && a.Message != nil {
				_, _, _, got, _, _, _, _ = fcrmessages.DecodeClientStandardDiscoverOfferResponse(a.Message)
			}
		case 1:
			price = int64(70 * n)
			for _, m := range fcrp2pserver.VerifConnect(gatewayPort, signed2(1, digests)) {
				_, _, _, got, _, _, _, _ = fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(m)
			}
		case 2:
			price = 1000
			n = 2
			a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientStandardDiscoverRequestV2(piece(1), 1, 1<<60, "channel", "voucher")))
			if a.Status == 200 && a.Message != nil {
				_, _, _, told, _, _, _, _ = fcrmessages.DecodeClientStandardDiscoverResponseV2(a.Message)
			}
		case 3:
			price = 1000
			n = 2
			m, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(node(1), piece(1), 1, 1<<60, "channel", "voucher")
			for _, m := range fcrp2pserver.VerifConnect(gatewayPort, signed(1, m, err)) {
				_, _, _, told, _, _, _, _ = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(m)
			}
		}
		if amount.Cmp(big.NewInt(price)) < 0 {
			n = 0
		}
		sym.Assert(len(got)+len(told) == n, "the price is the same each time")
	}
}
