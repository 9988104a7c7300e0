package main

import (
	"errors"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// funds: how often the gateway's channel to a peer must be topped up before it pays, and what fails
func (w *world) funds() (needs int, fails bool) {
	needs, fails = sym.Choose("top ups", 4), sym.Bool("no funds")
	n := map[string]int{}
	w.low = func(recipient string) bool { return recipient == "addr1" && n[recipient] < needs }
	w.topup = func(recipient string) error {
		n[recipient]++
		if fails {
			return errors.New("no funds")
		}
		return nil
	}
	return
}

// spent is what the gateway paid
func (w *world) spent() *big.Int {
	s := new(big.Int)
	for _, v := range w.paid {
		s.Add(s, v.amount)
	}
	return s
}

// kinds of peers: honest, silent, and one that answers with another's signature
func (w *world) peers() (kinds [3]int) {
	for i := range kinds {
		kinds[i] = -1
	}
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		k := int(to[2] - '0')
		if kinds[k-1] < 0 {
			kinds[k-1] = sym.Choose("peer", 3)
		}
		signer := k
		switch kinds[k-1] {
		case 1:
			return nil
		case 2:
			signer = k%3 + 1
		}
		return []*fcrmessages.FCRMessage{reply(k, signer)}
	}
	return
}

// the answer of peer k
func reply(k, signer int) *fcrmessages.FCRMessage {
	m, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(piece(1), int64(k), true, []string{"digest " + name(k)}, []bool{false}, false, "")
	return signed(signer, m, err)
}

// checkSpent: each message went to a peer that was paid with the voucher that is in the message
func (w *world) checkVoucher(i int, channel, code string) {
	n := 0
	for _, v := range w.paid {
		if v.channel == channel && v.code == code && v.to == "addr"+w.sent[i].to[2:] {
			n++
		}
	}
	sym.Assert(n == 1, "a peer is sent a voucher that is made for it")
	for j := 0; j < i; j++ {
		sym.Assert(w.sent[j].to != w.sent[i].to, "a peer is asked once")
	}
}

func VerifC19_relay() {
	w := boot([]int{0, 1, 2, 3}, nil)
	w.initialise()
	amount, refused := w.payment()
	needs, fails := w.funds()
	w.peers()
	if sym.Bool("cannot pay") {
		w.payErr = errors.New("cannot pay")
	}
	nonce, ttl := sym.Int64("nonce"), sym.Int64("ttl")
	num := []int64{-1 << 62, -1, 0, 1, 2, 3, 1 << 40}[sym.Choose("gateways", 7)]
	before := sym.TimeNow().Unix()
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTDiscoverRequestV2(piece(1), nonce, ttl, num, false, "channel", "voucher")))
	after := sym.TimeNow().Unix()
	price := new(big.Int).Mul(big.NewInt(1000), big.NewInt(num))
	paid := !refused && amount.Cmp(price) >= 0
	sym.Assert(len(w.paid) == 0 || w.spent().Cmp(amount) <= 0, "the gateway spends no more than it is paid")
	if !paid || before > ttl {
		sym.Assert(len(w.paid) == 0 && len(w.sent) == 0 && len(w.topups) == 0, "nothing is done for a search that is not paid or expired")
	}
	for _, v := range w.topups {
		sym.Assert(v.amount.Cmp(big.NewInt(100000)) == 0 && v.to == "addr1", "channels are topped up as needed by the amount of the settings")
	}
	for _, v := range w.paid {
		sym.Assert(v.amount.Cmp(big.NewInt(1000)) == 0, "a peer is paid the price of a search")
	}
	for i, s := range w.sent {
		id, c, _, t, channel, code, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(s.m)
		sym.Assert(err == nil && by(self, s.m) && kit.SameNode(id, node(self)) && kit.SameCID(c, piece(1)), "a peer is sent the search, signed")
		sym.Assert(t >= before, "a peer is sent a search that is not expired")
		w.checkVoucher(i, channel, code)
	}
	if a.Status != 200 || a.Message == nil {
		sym.Assert(after > ttl || !paid || w.payErr != nil || num > 0 && (needs > 0 && fails || needs > 1), "a paid search is answered")
		return
	}
	sym.Assert(before <= ttl, "an expired search is not answered")
	sym.Assert(by(self, a.Message), "the answer is signed")
	contacted, answers, lost, n, required, channel, err := fcrmessages.DecodeClientDHTDiscoverResponseV2(a.Message)
	sym.Assert(err == nil && n == nonce, "the answer is one to the search")
	if !paid {
		sym.Assert(len(answers) == 0 && required && channel == "channel", "the payment is asked for")
		return
	}
	want := 0
	if num > 0 {
		want = 3
		if num < 3 {
			want = int(num)
		}
	}
	sym.Assert(!required, "no more payment is asked for")
	sym.Assert(len(contacted)+len(lost) == want && len(answers) == len(contacted), "as many gateways are asked as are paid for")
	var seen [9]bool
	for i := range contacted {
		k := number(&contacted[i])
		sym.Assert(k > 0 && k <= 3 && !seen[k], "each gateway is told once")
		sym.Assume(k > 0 && k <= 3)
		seen[k] = true
		sym.Assert(sameMessage(&answers[i], reply(k, k)), "a gateway's own answer is passed on")
	}
	for i := range lost {
		k := number(&lost[i])
		sym.Assert(k > 0 && k <= 3 && !seen[k], "each gateway is told once")
		sym.Assume(k > 0 && k <= 3)
		seen[k] = true
	}
	for k := 1; k < want; k++ {
		sym.Assert(seen[k], "the closest gateways are asked")
	}
}

// the client buys offers of other gateways
func VerifC19_relayBuy() {
	w := boot([]int{0, 1, 2, 3}, nil)
	w.initialise()
	amount, refused := w.payment()
	needs, fails := w.funds()
	w.peers()
	if sym.Bool("cannot pay") {
		w.payErr = errors.New("cannot pay")
	}
	nonce := sym.Int64("nonce")
	var targets []nodeid.NodeID
	var ks []int
	n := sym.IntRange("targets", 0, 2)
	for i := 0; i < n; i++ {
		k := []int{1, 2, stranger}[sym.Choose("target", 3)]
		ks, targets = append(ks, k), append(targets, *node(k))
	}
	sym.Assume(n < 2 || ks[0] != ks[1])
	var digests [][]string
	lists := sym.IntRange("lists", 0, 2)
	unit := 0
	for i := 0; i < lists; i++ {
		var l []string
		for j := 0; j < sym.IntRange("digests", 0, 2); j++ {
			l = append(l, "digest "+name(3*i+j))
		}
		unit += len(l)
		digests = append(digests, l)
	}
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTDiscoverOfferRequest(piece(1), nonce, digests, targets, "channel", "voucher")))
	price := big.NewInt(int64(70 * unit))
	paid := !refused && amount.Cmp(price) >= 0
	sym.Assert(len(w.paid) == 0 || w.spent().Cmp(amount) <= 0, "the gateway spends no more than it is paid")
	if !paid {
		sym.Assert(len(w.paid) == 0 && len(w.sent) == 0 && len(w.topups) == 0, "nothing is done for a purchase that is not paid")
	}
	for _, v := range w.topups {
		sym.Assert(v.amount.Cmp(big.NewInt(100000)) == 0 && v.to == "addr1", "channels are topped up as needed by the amount of the settings")
	}
	for i, s := range w.sent {
		c, nn, l, channel, code, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(s.m)
		sym.Assert(err == nil && by(self, s.m) && kit.SameCID(c, piece(1)) && nn == nonce, "a peer is sent the purchase, signed")
		w.checkVoucher(i, channel, code)
		for j := range ks {
			if s.to == "gw"+name(ks[j]) {
				sym.Assert(j < lists && len(l) == len(digests[j]), "a peer is sent its digests")
				for x := range l {
					sym.Assert(l[x] == digests[j][x], "a peer is sent its digests")
				}
				for _, v := range w.paid {
					sym.Assert(v.to != "addr"+name(ks[j]) || v.amount.Cmp(big.NewInt(int64(70*len(l)))) == 0, "a peer is paid the price of its offers")
				}
			}
		}
	}
	if a.Status != 200 || a.Message == nil {
		sym.Assert(!paid || lists != n || w.payErr != nil || needs > 0 && fails || needs > 1 || n > 0 && ks[0] == stranger || n > 1 && ks[1] == stranger, "a paid purchase is answered")
		return
	}
	sym.Assert(by(self, a.Message), "the answer is signed")
	c, nn, contacted, answers, required, channel, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(a.Message)
	sym.Assert(err == nil && nn == nonce && kit.SameCID(c, piece(1)), "the answer is one to the purchase")
	if !paid {
		sym.Assert(len(answers) == 0 && required && channel == "channel", "the payment is asked for")
		return
	}
	sym.Assert(!required && len(contacted) == len(answers), "no more payment is asked for")
	for i := range contacted {
		k := number(&contacted[i])
		sym.Assert(k > 0 && k <= 2 && (i == 0 || k != number(&contacted[0])), "each gateway is told once")
		sym.Assume(k > 0 && k <= 3)
		sym.Assert(sameMessage(&answers[i], reply(k, k)), "a gateway's own answer is passed on")
	}
}
