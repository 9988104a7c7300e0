package main

import (
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

func checkFound(found bool, offers []cidoffer.SubCIDOffer, want []cidoffer.CIDOffer, p int) {
	sym.Assert(found == (len(want) > 0) && len(offers) == len(want), "the stored offers are told")
	for i := range want {
		sym.Assert(covers(&offers[i], &want[i], piece(p)), "the stored offers are told")
	}
}

// what another gateway asks for
func VerifC21_peer() {
	w := boot([]int{1, 2}, []int{5, 6})
	w.initialise()
	w.value = func(channel, code string) (*big.Int, error) { return big.NewInt(5000), nil }
	p := sym.Choose("piece", 3)
	want := things(p)
	named := []int{1, 2, 5, stranger}[sym.Choose("gateway", 4)]
	signer := []int{1, 2, 5, stranger}[sym.Choose("signer", 4)]
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	v2 := sym.Bool("paid")
	m, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(node(named), piece(p), nonce, ttl, "channel", "voucher")
	if v2 {
		m, err = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(node(named), piece(p), nonce, ttl, "channel", "voucher")
	}
	m = signed(signer, m, err)
	before := sym.TimeNow().Unix()
	l := fcrp2pserver.VerifConnect(gatewayPort, m)
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.sent) == 0 && len(w.paid) == 0, "nobody else is involved")
	sym.Assert(len(l) == 1, "a request is answered")
	sym.Assume(len(l) == 1)
	c, n, found, offers, funded, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(l[0])
	var digests []string
	if v2 {
		c, n, found, digests, funded, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(l[0])
	}
	good := named == signer && (named == 1 || named == 2)
	if err != nil {
		sym.Assert(!good || after > ttl, "a gateway's own unexpired request is served")
		sym.Assert(len(w.received) == 0 || good && before <= ttl, "no voucher is taken for a request that is refused")
		return
	}
	sym.Assert(good && before <= ttl, "only a registered gateway's own unexpired request is served")
	sym.Assert(by(self, l[0]) && kit.SameCID(c, piece(p)) && n == nonce, "the answer is signed and one to the request")
	if v2 {
		sym.Assert(len(digests) == len(want) && len(funded) == len(want) && found == (len(want) > 0), "the stored offers are told")
		for i := range want {
			sym.Assert(digests[i] == digest(&want[i]), "the stored offers are told")
		}
		return
	}
	sym.Assert(len(funded) == len(offers) && len(w.received) == 0, "the stored offers are told")
	checkFound(found, offers, want, p)
}

func VerifC21_search() {
	w := boot([]int{1}, []int{5, 6})
	w.initialise()
	p := sym.Choose("piece", 3)
	want := things(p)
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientStandardDiscoverRequest(piece(p), nonce, ttl, "", "")))
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.sent) == 0 && len(w.paid) == 0 && len(w.received) == 0, "nobody else is involved")
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl, "an unexpired request is served")
		return
	}
	sym.Assert(before <= ttl, "an expired request is not served")
	c, n, found, offers, funded, err := fcrmessages.DecodeClientStandardDiscoverResponse(a.Message)
	sym.Assert(err == nil && by(self, a.Message) && kit.SameCID(c, piece(p)) && n == nonce && len(funded) == len(offers), "the answer is signed and one to the request")
	checkFound(found, offers, want, p)
}

func VerifC21_establishment() {
	w := boot([]int{1}, nil)
	w.initialise()
	ttl := sym.Int64("ttl")
	challenge := sym.String("challenge", 4)
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientEstablishmentRequest(node(7), challenge, ttl)))
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.sent) == 0 && len(w.paid) == 0 && len(w.received) == 0, "nobody else is involved")
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl, "an unexpired request is served")
		return
	}
	sym.Assert(before <= ttl, "an expired request is not served")
	id, got, err := fcrmessages.DecodeClientEstablishmentResponse(a.Message)
	sym.Assert(err == nil && by(self, a.Message) && kit.SameNode(id, node(self)) && got == challenge, "the challenge is signed by the gateway")
}

// the gateway asks others for the client
func VerifC21_relay() {
	w := boot([]int{0, 1, 2, 3}, nil)
	w.initialise()
	kinds := [4]int{-1, -1, -1, -1}
	num := []int64{-5, 0, 1, 2, 3, 1 << 40}[sym.Choose("gateways", 6)]
	own := func(k int) *fcrmessages.FCRMessage {
		m, err := fcrmessages.EncodeGatewayDHTDiscoverResponse(piece(1), int64(k), false, nil, nil)
		return encoded(m, err)
	}
	start := sym.TimeNow().Unix()
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		id, c, _, t, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
		sym.Assert(err == nil && by(self, m) && kit.SameNode(id, node(self)) && kit.SameCID(c, piece(1)) && t >= start, "another gateway is sent the request, signed and not expired")
		k := int(to[2] - '0')
		sym.Assert(to == "gw"+name(k) && k > 0 && kinds[k] < 0, "each of the other gateways is asked once")
		kinds[k] = sym.Choose("peer", 3)
		switch kinds[k] {
		case 1:
			return nil
		case 2:
			return []*fcrmessages.FCRMessage{signed(k%3+1, own(k), nil)}
		}
		return []*fcrmessages.FCRMessage{signed(k, own(k), nil)}
	}
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTDiscoverRequest(piece(1), nonce, ttl, num, false, "", "")))
	after := sym.TimeNow().Unix()
	sym.Assert(len(w.paid) == 0 && len(w.received) == 0 && len(w.topups) == 0, "nobody is paid")
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl || num < 0, "an unexpired request is served")
		sym.Assert(len(w.sent) == 0, "others are asked for a request that is served")
		return
	}
	sym.Assert(before <= ttl, "an expired request is not served")
	contacted, answers, lost, n, _, _, err := fcrmessages.DecodeClientDHTDiscoverResponse(a.Message)
	sym.Assert(err == nil && by(self, a.Message) && n == nonce && len(contacted) == len(answers), "the answer is signed and one to the request")
	want := 0
	if num > 0 {
		want = 3
		if num < 3 {
			want = int(num)
		}
	}
	sym.Assert(len(contacted)+len(lost) == want, "as many gateways are told as were asked for")
	var told [4]bool
	for i := range contacted {
		k := number(&contacted[i])
		sym.Assert(k > 0 && k <= 3 && !told[k] && kinds[k] == 0, "a gateway's own answer is passed on, and no other")
		sym.Assume(k > 0 && k <= 3)
		told[k] = true
		sym.Assert(sameMessage(&answers[i], signed(k, own(k), nil)), "a gateway's own answer is passed on, and no other")
	}
	for i := range lost {
		k := number(&lost[i])
		sym.Assert(k > 0 && k <= 3 && !told[k] && kinds[k] > 0, "a gateway without an own answer is told to be out of reach")
		sym.Assume(k > 0 && k <= 3)
		told[k] = true
	}
	for k := 1; k <= want; k++ {
		sym.Assert(told[k], "the closest gateways are asked")
	}
}
