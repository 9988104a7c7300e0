package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
)

// kinds of offers in a message of a provider; only the first is that provider's
const offerKinds = 6

// sample is the i-th offer in a message that names the provider
func sample(i, provider, kind int, pieces ...int) cidoffer.CIDOffer {
	other := 11 - provider
	if provider == stranger {
		other = 5
	}
	price := uint64(10 + i)
	switch kind {
	case 1: // another's, signed by this provider
		o := offer(other, price, pieces...)
		sym.Assume(o.Sign(priv(provider), version) == nil)
		return o
	case 2: // another's
		return offer(other, price, pieces...)
	case 3: // signed by another
		o := offer(provider, price, pieces...)
		sym.Assume(o.Sign(priv(other), version) == nil)
		return o
	case 4: // with the signature of another offer
		o, o2 := offer(provider, price, pieces...), offer(provider, price+100, pieces...)
		o.SetSignature(o2.GetSignature())
		return o
	case 5: // not signed
		o := offer(provider, price, pieces...)
		o.SetSignature("")
		return o
	}
	return offer(provider, price, pieces...)
}

func sameOffer(a, b *cidoffer.CIDOffer) bool {
	return a.GetMessageDigest() == b.GetMessageDigest() && a.GetSignature() == b.GetSignature() && kit.SameNode(a.GetProviderID(), b.GetProviderID()) && len(a.GetCIDs()) == len(b.GetCIDs())
}

func VerifC20_group() {
	w := boot(nil, []int{5, 6})
	w.initialise()
	named := []int{5, 6, stranger}[sym.Choose("provider", 3)]
	signer := []int{5, 6, stranger}[sym.Choose("signer", 3)]
	kind := sym.Choose("offer", offerKinds)
	o := sample(0, named, kind, 1, 2)
	offermgr.VerifOffersFull = sym.Bool("full")
	m, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(node(named), sym.Int64("nonce"), &o)
	l := fcrp2pserver.VerifConnect(providerPort, signed(signer, m, err))
	sym.Assert(len(w.sent) == 0, "nobody else is involved")
	sym.Assert(len(l) == 1, "the provider is answered")
	sym.Assume(len(l) == 1)
	good := named == signer && named != stranger && kind == 0
	id, d, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(l[0])
	if !good || offermgr.VerifOffersFull {
		sym.Assert(len(offermgr.VerifOffers) == 0, "only a provider's own offers are stored")
		sym.Assert(err != nil, "an offer that is not stored is not acknowledged")
		return
	}
	sym.Assert(len(offermgr.VerifOffers) == 1 && sameOffer(&offermgr.VerifOffers[0], &o), "a provider's offer is stored")
	sym.Assert(err == nil && by(self, l[0]) && kit.SameNode(id, node(self)) && d == digest(&o), "the stored offer is acknowledged")
}

// lot is a list of offers of a message that names the provider
func lot(base, max, provider int) (offers []cidoffer.CIDOffer, good bool) {
	n := sym.IntRange("offers", 0, max)
	good = true
	for i := 0; i < n; i++ {
		kind := sym.Choose("offer", offerKinds)
		good = good && kind == 0
		offers = append(offers, sample(base+i, provider, kind, 1+i))
	}
	return
}

// checkStored: what is stored are the provider's own offers of the lists, and all of those that are acknowledged
func checkStored(lots []cidoffer.CIDOffer, all bool) {
	for i := range offermgr.VerifOffers {
		found := false
		for j := range lots {
			found = found || sameOffer(&offermgr.VerifOffers[i], &lots[j])
		}
		sym.Assert(found, "only a provider's own offers are stored")
	}
	sym.Assert(!all || len(offermgr.VerifOffers) == len(lots), "each offer that is acknowledged is stored")
}

func genuine(offers []cidoffer.CIDOffer, k int) (l []cidoffer.CIDOffer) {
	_, pub := kit.Key(k)
	for i := range offers {
		if kit.SameNode(offers[i].GetProviderID(), node(k)) && offers[i].Verify(pub) == nil {
			l = append(l, offers[i])
		}
	}
	return
}

func acknowledges(k int, m, ack *fcrmessages.FCRMessage, nonce int64) bool {
	_, pub := kit.Key(k)
	n, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
	if err != nil || n != nonce {
		return false
	}
	ok, err := fcrcrypto.VerifyMessage(pub, sig, m.GetMessageBody())
	return err == nil && ok
}

func VerifC20_dht() {
	w := boot(nil, []int{5, 6})
	w.initialise()
	named := []int{5, stranger}[sym.Choose("provider", 2)]
	signer := []int{5, 6, stranger}[sym.Choose("signer", 3)]
	offers, good := lot(0, sym.Bound("offers", 2, 3), named)
	offermgr.VerifOffersFull = sym.Bool("full")
	nonce := sym.Int64("nonce")
	m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(named), nonce, offers)
	m = signed(signer, m, err)
	l := fcrp2pserver.VerifConnect(providerPort, m)
	sym.Assert(len(w.sent) == 0, "nobody else is involved")
	sym.Assert(len(l) == 1, "the provider is answered")
	sym.Assume(len(l) == 1)
	full := offermgr.VerifOffersFull && len(offers) > 0
	if named != signer || named == stranger || full {
		sym.Assert(len(offermgr.VerifOffers) == 0, "only a provider's own offers are stored")
		sym.Assert(!acknowledges(self, m, l[0], nonce), "offers that are not stored are not acknowledged")
		return
	}
	checkStored(genuine(offers, named), good)
	if !good {
		sym.Assert(!acknowledges(self, m, l[0], nonce), "offers that are not stored are not acknowledged")
		return
	}
	sym.Assert(by(self, l[0]) && acknowledges(self, m, l[0], nonce), "the stored offers are acknowledged")
}

// the gateway asks its providers for the offers of its range
func VerifC20_list() {
	w := boot([]int{0, 1, 2}, []int{5})
	w.initialise()
	refresh := sym.Bool("refresh")
	signer := []int{5, 6}[sym.Choose("signer", 2)]
	offermgr.VerifOffersFull = sym.Bool("full")
	var subs, good []*fcrmessages.FCRMessage
	var offers []cidoffer.CIDOffer
	clean := true
	n := sym.IntRange("messages", 0, 2)
	nonces := [2]int64{sym.Int64("nonce"), sym.Int64("nonce")}
	var goodNonces []int64
	for i := 0; i < n; i++ {
		from := sym.Choose("message", 3)
		named, by := 5, 5
		if from == 1 {
			named, by = 6, 6
		} else if from == 2 {
			by = 6
		}
		max := sym.Bound("offers", 1, 2)
		if from > 0 {
			max = 1
		}
		l, ok := lot(2*i, max, named)
		m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(named), nonces[i], l)
		subs = append(subs, signed(by, m, err))
		if from == 0 && ok && !(offermgr.VerifOffersFull && len(l) > 0) {
			good, goodNonces = append(good, subs[i]), append(goodNonces, nonces[i])
		} else {
			clean = false
		}
		if from == 0 && signer == 5 {
			offers = append(offers, genuine(l, 5)...)
		}
	}
	var acks *fcrmessages.FCRMessage
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		sym.Assert(to == "pg5" && by(self, m), "the provider is sent signed messages")
		if len(w.sent) == 2 {
			acks = m
			return nil
		}
		id, from, till, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
		sym.Assert(err == nil && kit.SameNode(id, node(self)), "the provider is asked for its offers")
		sym.Assume(err == nil)
		first, last, err := core.GetSingleInstance().RegisterMgr.GetGatewayCIDRange(node(self))
		sym.Assume(err == nil)
		sym.Assert(kit.SameCID(from, first) && kit.SameCID(till, last), "the provider is asked for the range of the gateway")
		l := make([]fcrmessages.FCRMessage, 0)
		for _, s := range subs {
			l = append(l, *s)
		}
		a, err := fcrmessages.EncodeGatewayListDHTOfferResponse(l)
		return []*fcrmessages.FCRMessage{signed(signer, a, err)}
	}
	a := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(refresh)))
	sym.Settle()
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
	sym.Assume(a.Status == 200 && a.Message != nil)
	refreshed, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(a.Message)
	sym.Assert(err == nil && refreshed == refresh, "the admin is told whether providers are asked")
	if !refresh {
		sym.Assert(len(w.sent) == 0 && len(offermgr.VerifOffers) == 0, "providers are asked if the admin wants it")
		return
	}
	sym.Assert(len(w.sent) > 0, "the provider is asked for its offers")
	if signer != 5 {
		sym.Assert(acks == nil && len(offermgr.VerifOffers) == 0, "only a provider's own offers are stored")
		return
	}
	if offermgr.VerifOffersFull {
		offers = nil
	}
	checkStored(offers, clean)
	sym.Assert(acks != nil, "the stored offers are acknowledged")
	sym.Assume(acks != nil)
	l, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
	sym.Assert(err == nil && len(l) == len(good), "the messages are acknowledged whose offers are all stored")
	sym.Assume(len(l) == len(good))
	for i := range l {
		sym.Assert(acknowledges(self, good[i], &l[i], goodNonces[i]), "the messages are acknowledged whose offers are all stored")
		sym.Assert(by(self, &l[i]), "each acknowledgement is signed")
	}
}
