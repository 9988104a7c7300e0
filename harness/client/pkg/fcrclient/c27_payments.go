package fcrclient

import (
	"errors"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// till is what the client pays from: its channel is too low for the first payments, and a payment may fail
type till struct {
	w        *world
	low      int // payments for which the channel is too low
	fails    int // number of the payment that fails
	tried    int
	askAgain int // searches that the gateway wants more payment for
	searches int
	offers   int
}

func (w *world) till() *till {
	t := &till{w: w}
	t.low = sym.Choose("low", 4)
	t.askAgain = sym.Choose("ask again", 3)
	t.fails = -1
	if sym.Bool("fails") {
		t.fails = t.low + sym.Choose("failing payment", 3)
	}
	w.low = func(recipient string) bool {
		t.tried++
		return t.tried <= t.low
	}
	pay := fcrpaymentmgr.VerifPayments.Pay
	fcrpaymentmgr.VerifPayments.Pay = func(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
		if t.tried == t.fails {
			t.tried++
			return "", "", false, errors.New("no funds")
		}
		return pay(recipient, lane, amount)
	}
	return t
}

// paidWith: the request comes with the n-th payment, which is the last one
func (t *till) paidWith(n int, channel, code string, amount *big.Int) {
	w := t.w
	sym.Assert(len(w.paid) == n, "the client pays once for each request")
	sym.Assume(len(w.paid) == n)
	v := w.paid[n-1]
	sym.Assert(v.channel == channel && v.code == code, "the request comes with the payment for it")
	sym.Assert(v.to == "addr1", "the client pays the gateway that it asks")
	sym.Assert(v.amount.Cmp(amount) == 0, "the client pays the price")
}

// settled: the client has topped up when it had to
func (t *till) settled() {
	w := t.w
	for _, v := range w.topups {
		sym.Assert(v.to == "addr1" && v.amount.Cmp(big.NewInt(topUpAmount)) == 0, "the client tops up its channel to the gateway by the set amount")
	}
	most := t.low
	if t.searches > 1 || t.askAgain > 0 {
		most++
	}
	sym.Assert(len(w.topups) <= most, "the client tops up when it has to")
	for i := 0; i < len(w.wallet); i++ {
		sym.Assert(w.wallet[i] == []string{"wallet", "lotus", "token"}[i], "the wallet is the one of the settings")
	}
}

func VerifC27_search() {
	w := start([]int{1, 2}, []int{5, 6})
	w.use(1)
	t := w.till()
	most := sym.IntRange("most", -1, 3)
	found := sym.Choose("found", 4)
	digests := []string{"a", "b", "c"}[:found]
	wanted := found
	if wanted > most {
		wanted = most
	}
	if wanted < 0 {
		wanted = 0
	}
	good := subOffer(0, 5)
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == "gc1", "the gateway is asked")
		if p, nonce, _, channel, code, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(m); err == nil {
			t.searches++
			t.paidWith(t.searches, channel, code, big.NewInt(searchPrice))
			sym.Assert(t.searches <= t.askAgain+1 && t.searches <= 2, "the client searches again if it must pay again")
			return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
				if t.searches <= t.askAgain {
					return fcrmessages.EncodeClientStandardDiscoverResponseV2(p, nonce, false, nil, nil, true, channel)
				}
				return fcrmessages.EncodeClientStandardDiscoverResponseV2(p, nonce, found > 0, digests, make([]bool, found), false, "")
			})
		}
		p, nonce, _, asked, channel, code, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		sym.Assert(err == nil, "offers are asked for")
		sym.Assume(err == nil)
		t.offers++
		sym.Assert(t.offers == 1 && len(asked) == wanted, "the wanted offers are asked for, once")
		t.paidWith(t.searches+1, channel, code, big.NewInt(int64(offerPrice*wanted)))
		return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			return fcrmessages.EncodeClientStandardDiscoverOfferResponse(p, nonce, true, []cidoffer.SubCIDOffer{good}, []bool{false}, false, "")
		})
	}
	l, err := w.client.FindOffersStandardDiscoveryV2(piece(1), node(1), most)
	t.check(wanted, len(l), err)
}

// check: what came of it, if the gateway answers well
func (t *till) check(wanted, got int, err error) {
	t.settled()
	w := t.w
	if err != nil {
		sym.Assert(got == 0, "an error comes with no offers")
		sym.Assert(t.low > 2 || t.fails >= 0 && t.tried > t.fails || t.askAgain == 2, "a search that can be paid for is made")
		return
	}
	sym.Assert(t.askAgain < 2 && t.searches == t.askAgain+1, "a search that is not paid for is an error")
	if wanted == 0 {
		sym.Assert(t.offers == 0 && len(w.paid) == t.searches && got == 0, "nothing is paid for no offers")
		return
	}
	sym.Assert(t.offers == 1 && len(w.paid) == t.searches+1, "the offers are paid for")
	sym.Assert(got >= 1 && got <= wanted, "the wanted offers are found")
}

func VerifC27_dht() {
	w := start([]int{1, 2, 3}, []int{5, 6})
	w.use(1)
	t := w.till()
	most := sym.IntRange("most", -1, 4)
	n2, n3 := sym.Choose("found by 2", 3), sym.Choose("found by 3", 3)
	want2, want3 := n2, n3
	if want2 > most {
		want2 = most
	}
	if want2 < 0 {
		want2 = 0
	}
	if want3 > most-want2 {
		want3 = most - want2
	}
	if want3 < 0 {
		want3 = 0
	}
	number := sym.Int64("number")
	sym.Assume(number > 0 && number < 1<<40)
	price := new(big.Int).Mul(big.NewInt(number), big.NewInt(searchPrice))
	good := subOffer(0, 5)
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == "gc1", "the gateway is asked")
		if p, nonce, _, n, _, channel, code, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m); err == nil {
			t.searches++
			sym.Assert(n == number, "as many gateways are searched as wanted")
			t.paidWith(t.searches, channel, code, price)
			sym.Assert(t.searches <= t.askAgain+1 && t.searches <= 2, "the client searches again if it must pay again")
			return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
				if t.searches <= t.askAgain {
					return fcrmessages.EncodeClientDHTDiscoverResponseV2(nil, nil, nil, nonce, true, channel)
				}
				a, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(p, nonce, n2 > 0, []string{"a", "b"}[:n2], make([]bool, n2), false, "")
				b, err2 := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(p, nonce, n3 > 0, []string{"c", "d"}[:n3], make([]bool, n3), false, "")
				return fcrmessages.EncodeClientDHTDiscoverResponseV2(nodes(2, 3), []fcrmessages.FCRMessage{*signed(2, a, err), *signed(3, b, err2)}, nodes(4), nonce, false, "")
			})
		}
		p, nonce, digests, ids, channel, code, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		sym.Assert(err == nil && len(digests) == len(ids), "offers are asked for")
		sym.Assume(err == nil && len(digests) == len(ids))
		t.offers++
		got := [4][]string{}
		for i := range ids {
			if kit.SameNode(&ids[i], node(2)) {
				got[2] = append(got[2], digests[i]...)
			} else {
				sym.Assert(kit.SameNode(&ids[i], node(3)), "offers of these gateways are asked for")
				got[3] = append(got[3], digests[i]...)
			}
		}
		sym.Assert(t.offers == 1 && alike(got[2], []string{"a", "b"}[:want2]) && alike(got[3], []string{"c", "d"}[:want3]), "the wanted offers are asked for, once")
		t.paidWith(t.searches+1, channel, code, big.NewInt(int64(offerPrice*(want2+want3))))
		return reply(0, p, nonce, func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error) {
			var from []nodeid.NodeID
			var l []fcrmessages.FCRMessage
			for _, k := range []int{2, 3} {
				n := 2 // more than wanted
				a, err := fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(p, nonce, true, []cidoffer.SubCIDOffer{good, good}[:n], make([]bool, n), false, "")
				l = append(l, *signed(k, a, err))
				from = append(from, *node(k))
			}
			return fcrmessages.EncodeClientDHTDiscoverOfferResponse(p, nonce, from, l, false, "")
		})
	}
	l, err := w.client.FindOffersDHTDiscoveryV2(piece(1), node(1), number, most)
	n := 0
	for _, o := range l {
		n += len(*o)
	}
	sym.Assert(n == 0 || n <= most, "no more offers are returned than wanted")
	if n > want2+want3 {
		n = want2 + want3
	}
	t.check(want2+want3, n, err)
}

func alike(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// without a wallet, nothing can be paid for
func VerifC27_wallet() {
	w := start([]int{1, 2}, []int{5, 6})
	w.use(1)
	w.newPay = errors.New("no wallet")
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Fail("nothing is asked for without payment")
		return nil, errNothing
	}
	if sym.Bool("dht") {
		_, err := w.client.FindOffersDHTDiscoveryV2(piece(1), node(1), 1, 1)
		sym.Assert(err != nil, "a search without a wallet is an error")
	} else {
		_, err := w.client.FindOffersStandardDiscoveryV2(piece(1), node(1), 1)
		sym.Assert(err != nil, "a search without a wallet is an error")
	}
	sym.Assert(w.client.PaymentMgr() == nil, "there is no payment manager without a wallet")
	w.newPay = nil
	sym.Assert(w.client.PaymentMgr() != nil, "the wallet can be had later")
	n := len(w.wallet)
	sym.Assert(w.client.PaymentMgr() != nil && len(w.wallet) == n, "there is one payment manager")
}

func VerifC27_threads() {
	w := start([]int{1}, nil)
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var a, b *fcrpaymentmgr.FCRPaymentMgr
	sym.Par(func() { a = w.client.PaymentMgr() }, func() { b = w.client.PaymentMgr() })
	sym.Assert(a != nil && b != nil && len(w.wallet) == 3, "there is one payment manager")
}
