package fcrclient

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

func VerifC25_search() {
	w := start([]int{1, 2}, []int{5, 6})
	w.use(1)
	fault := sym.Choose("fault", faults)
	all := []cidoffer.SubCIDOffer{subOffer(0, 1)}
	fine := all
	if fault == 0 {
		all, fine = goods(w, sym.Bound("offers", 2, 3))
	}
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		p, nonce, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(m)
		sym.Assert(to == "gc1" && err == nil && kit.SameCID(p, piece(1)), "the gateway is asked for the piece")
		sym.Assume(err == nil)
		return reply(fault, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			return fcrmessages.EncodeClientStandardDiscoverResponse(p, nonce, len(all) > 0, all, make([]bool, len(all)))
		})
	}
	l, err := w.client.FindOffersStandardDiscovery(piece(1), node(1))
	if fault != 0 {
		sym.Assert(err != nil && len(l) == 0, "an answer that does not verify is none")
		return
	}
	sym.Assert(err == nil && sameOffers(l, fine), "the offers that verify are returned")
}

func VerifC25_dht() {
	w := start([]int{1, 2, 3}, []int{5, 6})
	w.use(1)
	fault := sym.Choose("fault", faults)
	if fault == 2 { // the answer names no piece
		return
	}
	fault2 := 0
	all := []cidoffer.SubCIDOffer{subOffer(0, 1)}
	fine := all
	if fault == 0 {
		fault2 = sym.Choose("answer of the first", relayFaults)
		if fault2 == 0 {
			all, fine = goods(w, 1)
		}
	}
	if fault2 == 4 {
		w.partly()
	}
	kind := sym.Choose("kind", 4)
	second := []cidoffer.SubCIDOffer{subOffer(kind, 2)}
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		p, nonce, _, n, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(m)
		sym.Assert(to == "gc1" && err == nil && kit.SameCID(p, piece(1)) && n == 2, "the gateway is asked for the piece")
		sym.Assume(err == nil)
		return reply(fault, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			a, err := fcrmessages.EncodeGatewayDHTDiscoverResponse(p, nonce, len(all) > 0, all, make([]bool, len(all)))
			id, a := w.relayed(fault2, 2, a, err)
			b, err := fcrmessages.EncodeGatewayDHTDiscoverResponse(p, nonce, true, second, []bool{false})
			return fcrmessages.EncodeClientDHTDiscoverResponse([]nodeid.NodeID{*id, *node(3)}, []fcrmessages.FCRMessage{*a, *signed(3, b, err)}, nil, nonce, false, "")
		})
	}
	l, err := w.client.FindOffersDHTDiscovery(piece(1), node(1), 2)
	if fault != 0 {
		sym.Assert(err != nil && len(l) == 0, "an answer that does not verify is none")
		return
	}
	sym.Assert(err == nil, "a good answer is taken")
	if fault2 != 0 {
		fine = nil
	}
	sym.Assert(sameOffers(listed(l, 2), fine), "the offers that verify are listed")
	if kind > 1 {
		second = nil
	}
	sym.Assert(sameOffers(listed(l, 3), second), "the offers of another gateway are listed")
	sym.Assert(listed(l, stranger) == nil && listed(l, 4) == nil && listed(l, 1) == nil, "only the offers of registered gateways are listed")
}

func VerifC25_paidSearch() {
	w := start([]int{1, 2}, []int{5, 6})
	w.use(1)
	fault, fault2 := sym.Choose("fault", faults), 0
	all := []cidoffer.SubCIDOffer{subOffer(0, 1)}
	fine := all
	if fault == 0 {
		fault2 = sym.Choose("fault of the offers", faults)
		if fault2 == 0 {
			all, fine = goods(w, sym.Bound("offers", 2, 3))
		}
	}
	limit := 1 + sym.Choose("limit", 3)
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == "gc1", "the gateway is asked")
		if p, nonce, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(m); err == nil {
			sym.Assert(kit.SameCID(p, piece(1)), "the gateway is asked for the piece")
			return reply(fault, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
				return fcrmessages.EncodeClientStandardDiscoverResponseV2(p, nonce, true, []string{"a", "b", "c"}, make([]bool, 3), false, "")
			})
		}
		p, nonce, _, digests, _, _, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		sym.Assert(err == nil && kit.SameCID(p, piece(1)) && len(digests) == limit, "the offers are asked for")
		for i := range digests {
			sym.Assert(digests[i] == string([]byte{'a' + byte(i)}), "the offers are asked for")
		}
		return reply(fault2, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			return fcrmessages.EncodeClientStandardDiscoverOfferResponse(p, nonce, len(all) > 0, all, make([]bool, len(all)), false, "")
		})
	}
	l, err := w.client.FindOffersStandardDiscoveryV2(piece(1), node(1), limit)
	if fault != 0 || fault2 != 0 {
		sym.Assert(err != nil && len(l) == 0, "an answer that does not verify is none")
		return
	}
	if len(fine) > limit {
		fine = fine[:limit]
	}
	sym.Assert(err == nil && sameOffers(l, fine), "the offers that verify are returned")
}

func VerifC25_paidDHT() {
	w := start([]int{1, 2, 3}, []int{5, 6})
	w.use(1)
	fault, fault2, fault3 := sym.Choose("fault", faults), 0, 0
	if fault == 2 { // the answer names no piece
		return
	}
	all := []cidoffer.SubCIDOffer{subOffer(0, 1)}
	fine := all
	if fault == 0 {
		fault3 = sym.Choose("answer of the first", relayFaults)
		if fault3 == 0 {
			fault2 = sym.Choose("fault of the offers", faults)
			if fault2 == 0 {
				all, fine = goods(w, 1)
			}
		}
	}
	if fault3 == 4 {
		w.partly()
	}
	kind := sym.Choose("kind", 4)
	second := []cidoffer.SubCIDOffer{subOffer(kind, 2)}
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == "gc1", "the gateway is asked")
		if p, nonce, _, n, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m); err == nil {
			sym.Assert(kit.SameCID(p, piece(1)) && n == 2, "the gateway is asked for the piece")
			return reply(fault, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
				a, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(p, nonce, true, []string{"a"}, []bool{false}, false, "")
				id, a := w.relayed(fault3, 2, a, err)
				b, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(p, nonce, true, []string{"b"}, []bool{false}, false, "")
				return fcrmessages.EncodeClientDHTDiscoverResponseV2([]nodeid.NodeID{*id, *node(3)}, []fcrmessages.FCRMessage{*a, *signed(3, b, err)}, nil, nonce, false, "")
			})
		}
		p, nonce, digests, ids, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		sym.Assert(err == nil && kit.SameCID(p, piece(1)), "the offers are asked for")
		if fault3 == 0 {
			sym.Assert(len(ids) == 2 && len(digests) == 2 && kit.SameNode(&ids[0], node(2)) && kit.SameNode(&ids[1], node(3)), "each gateway is asked for its offers")
			sym.Assert(len(digests[0]) == 1 && digests[0][0] == "a" && len(digests[1]) == 1 && digests[1][0] == "b", "each gateway is asked for its offers")
		} else {
			sym.Assert(len(ids) == 1 && len(digests) == 1 && kit.SameNode(&ids[0], node(3)), "a gateway with a good answer is asked for its offers")
			sym.Assert(len(digests[0]) == 1 && digests[0][0] == "b", "a gateway with a good answer is asked for its offers")
		}
		return reply(fault2, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			var l []fcrmessages.FCRMessage
			if fault3 == 0 {
				a, err := fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(p, nonce, len(all) > 0, all, make([]bool, len(all)), false, "")
				l = append(l, *signed(2, a, err))
			}
			b, err := fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(p, nonce, true, second, []bool{false}, false, "")
			l = append(l, *signed(3, b, err))
			return fcrmessages.EncodeClientDHTDiscoverOfferResponse(p, nonce, ids, l, false, "")
		})
	}
	l, err := w.client.FindOffersDHTDiscoveryV2(piece(1), node(1), 2, 3)
	if fault != 0 || fault2 != 0 {
		sym.Assert(err != nil && len(l) == 0, "an answer that does not verify is none")
		return
	}
	sym.Assert(err == nil, "a good answer is taken")
	if fault3 != 0 {
		fine = nil
	}
	if kind > 1 {
		second = nil
	}
	sym.Assert(sameOffers(listed(l, 2), fine), "the offers that verify are listed")
	sym.Assert(sameOffers(listed(l, 3), second), "the offers of another gateway are listed")
	sym.Assert(listed(l, stranger) == nil && listed(l, 4) == nil && listed(l, 1) == nil, "only the offers of registered gateways are listed")
}

// a paid DHT discovery returns the fine offers, in the order in which the gateways are named, up to the limit; offers
// that are not fine do not count
func VerifC25_limit() {
	w := start([]int{1, 2, 3}, []int{5, 6})
	w.use(1)
	limit := sym.Choose("limit", 4)
	var asked, offers [2][]string
	left := limit
	for i := range asked {
		for j, n := 0, sym.Choose("digests", 3); j < n; j++ {
			offers[i] = append(offers[i], "ab"[i:i+1]+"12"[j:j+1])
		}
		if asked[i] = offers[i]; len(asked[i]) > left {
			asked[i] = asked[i][:left]
		}
		left -= len(asked[i])
	}
	good, bad := subOffer(0, 1), subOffer(2, 2)
	var all, fine [2][]cidoffer.SubCIDOffer
	left = limit
	for i := range all {
		for j, n := 0, sym.Choose("offers", sym.Bound("offers of a gateway", 2, 3)+1); len(asked[i]) > 0 && j < n; j++ {
			if sym.Choose("fine", 2) == 0 {
				all[i] = append(all[i], bad)
				continue
			}
			all[i] = append(all[i], good)
			if left > 0 {
				fine[i] = append(fine[i], good)
				left--
			}
		}
	}
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		if p, nonce, _, _, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m); err == nil {
			return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
				var l []fcrmessages.FCRMessage
				for i := range offers {
					a, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(p, nonce, len(offers[i]) > 0, offers[i], make([]bool, len(offers[i])), false, "")
					l = append(l, *signed(2+i, a, err))
				}
				return fcrmessages.EncodeClientDHTDiscoverResponseV2([]nodeid.NodeID{*node(2), *node(3)}, l, nil, nonce, false, "")
			})
		}
		p, nonce, digests, ids, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		sym.Assert(err == nil && len(ids) == len(digests), "the offers are asked for")
		return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			var l []fcrmessages.FCRMessage
			for i := range ids {
				k := 0
				if kit.SameNode(&ids[i], node(3)) {
					k = 1
				}
				sym.Assert(len(digests[i]) == len(asked[k]), "each gateway is asked for as many offers as the limit leaves")
				for j := range digests[i] {
					sym.Assert(digests[i][j] == asked[k][j], "each gateway is asked for its offers")
				}
				a, err := fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(p, nonce, len(all[k]) > 0, all[k], make([]bool, len(all[k])), false, "")
				l = append(l, *signed(2+k, a, err))
			}
			return fcrmessages.EncodeClientDHTDiscoverOfferResponse(p, nonce, ids, l, false, "")
		})
	}
	l, err := w.client.FindOffersDHTDiscoveryV2(piece(1), node(1), 2, limit)
	sym.Assert(err == nil, "a good answer is taken")
	sym.Assert(sameOffers(listed(l, 2), fine[0]) && sameOffers(listed(l, 3), fine[1]), "the fine offers are listed up to the limit")
}
