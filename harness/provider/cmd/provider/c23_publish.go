package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
)

type terms struct {
	pieces []cid.ContentID
	price  uint64
	expiry int64
	qos    uint64
}

// of: whether the offer is the provider's, signed, and has the terms
func (t *terms) of(o *cidoffer.CIDOffer) bool {
	_, pub := kit.Key(self)
	return kit.SameNode(o.GetProviderID(), node(self)) && samePieces(o.GetCIDs(), t.pieces) && o.GetPrice() == t.price && o.GetExpiry() == t.expiry &&
		o.GetQoS() == t.qos && o.Verify(pub) == nil
}

// published are the offers that the provider tells its admin it published at the gateways
func published(gateways ...int) []cidoffer.CIDOffer {
	var ids []nodeid.NodeID
	for _, k := range gateways {
		ids = append(ids, *node(k))
	}
	found, l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(admin(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(ids)))
	sym.Assert(err == nil && found == (len(l) > 0), "the admin is told the published offers")
	return l
}

func VerifC23_group() {
	w := boot(1, 2)
	w.initialise()
	t := terms{[]cid.ContentID{*piece(1), *piece(2)}[:1+sym.Choose("pieces", 2)], sym.Uint64("price"), sym.Int64("expiry"), sym.Uint64("qos")}
	ok := map[string]bool{}
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		k := int(to[2] - '0')
		id, _, o, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
		sym.Assert(err == nil && by(self, m) && kit.SameNode(id, node(self)) && t.of(o), "each gateway is sent the offer, signed")
		sym.Assume(err == nil)
		d, signer := digest(o), k
		switch sym.Choose("peer", 6) {
		case 1:
			return nil
		case 2:
			signer = 3 - k
		case 3:
			other := offer(self, 77, 1)
			d = digest(&other)
		case 4:
			a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, signature(k, m))
			return []*fcrmessages.FCRMessage{signed(k, a, err)}
		case 5:
			b, mask, zero := o.GetMessageDigest(), sym.Bytes("mask", 32), byte(0)
			for i := range b {
				b[i] ^= mask[i]
				zero |= mask[i]
			}
			sym.Assume(zero != 0)
			d = cidoffer.EncodeMessageDigest(b)
		default:
			ok[to] = true
		}
		a, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*node(k), d)
		return []*fcrmessages.FCRMessage{signed(signer, a, err)}
	}
	received, err := fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(admin(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(t.pieces, t.price, t.expiry, t.qos)))
	sym.Assert(err == nil && received, "the admin is answered")
	sym.Assert(len(w.sent) == 2 && w.sent[0].to != w.sent[1].to, "each gateway is sent the offer, signed")
	sym.Assume(t.price != 77)
	if t.expiry > 1<<60 && len(t.pieces) > 1 {
		stored, _ := core.GetSingleInstance().OffersMgr.GetGroupOffers(piece(1))
		sym.Assert(len(stored) == 1 && t.of(&stored[0]), "the offer is stored")
	}
	n := 0
	for k := 1; k < 3; k++ {
		l := published(k)
		want := 0
		if ok["gp"+name(k)] {
			want = 1
		}
		n += want
		sym.Assert(len(l) == want && (want == 0 || t.of(&l[0])), "an offer is published at a gateway once that acknowledged it")
	}
	sym.Assert(len(published(1, 2)) == n && len(published()) == n, "an offer is published at a gateway once that acknowledged it")
}

// acked: whether the provider tells clients that the gateway acknowledged an offer for the piece, and the offers
func acked(p, k int) (bool, []cidoffer.CIDOffer) {
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTOfferAckRequest(piece(p), node(k))))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the client is answered")
	sym.Assume(a.Status == 200 && a.Message != nil)
	c, id, found, m, ack, err := fcrmessages.DecodeClientDHTOfferAckResponse(a.Message)
	sym.Assert(err == nil && kit.SameCID(c, piece(p)) && kit.SameNode(id, node(k)), "the client is answered")
	if !found {
		return false, nil
	}
	id, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
	sym.Assert(err == nil && by(self, m) && kit.SameNode(id, node(self)), "the client is given the signed message with the offer")
	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
	sym.Assert(err == nil, "the client is given the gateway's signature of the message")
	_, pub := kit.Key(k)
	ok, err := fcrcrypto.VerifyMessage(pub, sig, m.GetMessageBody())
	sym.Assert(err == nil && ok, "the client is given the gateway's signature of the message")
	in := false
	for i := range offers {
		in = in || kit.SameCID(&offers[i].GetCIDs()[0], piece(p))
	}
	sym.Assert(in, "the client is given the signed message with the offer")
	return true, offers
}

func VerifC23_dht() {
	publish(1+sym.Choose("offers", 2), 6)
}

// more offers, to gateways that acknowledge them
func VerifC23_several() {
	publish(3+sym.Choose("offers", sym.Bound("offers", 1, 2)), 1)
}

func publish(n, kinds int) {
	w := boot(1, 2)
	w.initialise()
	var ts []terms
	var pieces []cid.ContentID
	var prices, qos []uint64
	var expiries []int64
	has := [6]bool{}
	for i := 0; i < n; i++ {
		p := 1
		if i > 0 {
			p = 1 + sym.Choose("piece", n)
		}
		has[p] = true
		t := terms{[]cid.ContentID{*piece(p)}, sym.Uint64("price"), 1<<60 + int64(sym.Uint32("expiry")), sym.Uint64("qos")}
		ts = append(ts, t)
		pieces, prices, expiries, qos = append(pieces, t.pieces[0]), append(prices, t.price), append(expiries, t.expiry), append(qos, t.qos)
	}
	// offers that are alike in everything are one
	for i := range ts {
		sym.Assume(ts[i].price != 77)
		for j := range ts[:i] {
			sym.Assume(ts[i].price != ts[j].price)
		}
	}
	kind := [3]int{-1, sym.Choose("peer 1", kinds), sym.Choose("peer 2", kinds)}
	var got [3][]cidoffer.CIDOffer
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		k := int(to[2] - '0')
		id, nonce, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		sym.Assert(err == nil && by(self, m) && kit.SameNode(id, node(self)), "a gateway is sent offers, signed")
		sym.Assume(err == nil)
		got[k] = append(got[k], l...)
		signer, sig := k, signature(k, m)
		switch kind[k] {
		case 1:
			return nil
		case 2:
			signer = 3 - k
		case 3:
			sig = signature(3-k, m)
		case 4:
			o := offer(self, 77, 1)
			other, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(self), 1, []cidoffer.CIDOffer{o})
			sig = signature(k, signed(self, other, err))
		case 5:
			o := l[0]
			a, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*node(k), digest(&o))
			return []*fcrmessages.FCRMessage{signed(k, a, err)}
		}
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		return []*fcrmessages.FCRMessage{signed(signer, a, err)}
	}
	received, err := fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(pieces, prices, expiries, qos)))
	sym.Assert(err == nil && received, "the admin is answered")
	total := 0
	for k := 1; k < 3; k++ {
		checkOnce(got[k], ts, "each gateway that is near is sent each offer once")
		l := published(k)
		if kind[k] > 0 {
			sym.Assert(len(l) == 0, "an offer is published at a gateway once that acknowledged it")
		} else {
			checkOnce(l, ts, "an offer is published at a gateway once that acknowledged it")
			total += n
		}
		for p := 1; p < 5; p++ {
			ok, _ := acked(p, k)
			sym.Assert(ok == (has[p] && kind[k] == 0), "clients are told of the offers that a gateway acknowledged")
		}
	}
	stored := 0
	for p := 1; p <= n; p++ {
		l, _ := core.GetSingleInstance().OffersMgr.GetDHTOffers(piece(p))
		for i := range l {
			ok := false
			for j := range ts {
				ok = ok || ts[j].of(&l[i]) && samePieces(l[i].GetCIDs(), []cid.ContentID{*piece(p)})
			}
			sym.Assert(ok, "the offers are stored")
		}
		stored += len(l)
	}
	sym.Assert(stored == n, "the offers are stored")
	sym.Assert(len(published()) == total, "an offer is published at a gateway once that acknowledged it")
}

// checkOnce: the offers are those with the terms
func checkOnce(l []cidoffer.CIDOffer, ts []terms, label string) {
	sym.Assert(len(l) == len(ts), label)
	for i := range ts {
		found := 0
		for j := range l {
			if ts[i].of(&l[j]) {
				found++
			}
		}
		sym.Assert(found == 1, label)
	}
}

// lists of different lengths, and none, are refused
func VerifC23_lengths() {
	w := boot(1)
	w.initialise()
	a, b, c, d := sym.Choose("pieces", 3), sym.Choose("prices", 3), sym.Choose("expiries", 3), sym.Choose("qos", 3)
	sym.Assume(a == 0 || a != b || a != c || a != d)
	answer := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*piece(1), *piece(2)}[:a], []uint64{1, 2}[:b], []int64{1, 2}[:c], []uint64{1, 2}[:d])))
	sym.Assert(answer.Status != 200 && answer.Message == nil && len(w.sent) == 0, "a bad request publishes nothing")
	answer = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(nil, 1, 2, 3)))
	sym.Assert(answer.Status != 200 && answer.Message == nil && len(w.sent) == 0, "a bad request publishes nothing")
}

// an offer goes to the gateways near its piece
func VerifC23_near() {
	ks := []int{}
	for k := 20; k < 38; k++ {
		ks = append(ks, k)
	}
	w := boot(ks...)
	w.initialise()
	a, b := 21+8*sym.Choose("piece", 3), 35
	got := map[string]int{}
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		_, _, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		sym.Assert(err == nil, "a gateway is sent offers, signed")
		for i := range l {
			got[to+l[i].GetCIDs()[0].ToString()]++
		}
		return nil
	}
	admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*piece(a), *piece(b)}, []uint64{1, 2}, []int64{1 << 40, 1 << 40}, []uint64{1, 1}))
	for _, p := range []int{a, b} {
		near, err := core.GetSingleInstance().RegisterMgr.GetGatewaysNearCID(piece(p), 16, nil)
		sym.Assume(err == nil && len(near) == 16)
		for _, k := range ks {
			is := false
			for _, g := range near {
				is = is || g.GetNodeID() == node(k).ToString()
			}
			n := got["gp"+name(k)+piece(p).ToString()]
			if is {
				sym.Assert(n == 1, "each gateway that is near is sent each offer once")
			} else {
				sym.Assert(n == 0, "an offer goes to the gateways near its piece only")
			}
		}
	}
}

// offers of several requests
func VerifC23_history() {
	w := boot(1, 2)
	w.initialise()
	var ok [3][]terms
	var has [3][4]bool
	var prices []uint64
	good := [3]bool{false, true, true}
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		k := int(to[2] - '0')
		if !good[k] {
			return nil
		}
		if _, _, o, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m); err == nil {
			a, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*node(k), digest(o))
			return []*fcrmessages.FCRMessage{signed(k, a, err)}
		}
		_, nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		sym.Assert(err == nil, "a gateway is sent offers, signed")
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, signature(k, m))
		return []*fcrmessages.FCRMessage{signed(k, a, err)}
	}
	for i := sym.Bound("requests", 2, 3); i > 0; i-- {
		price := sym.Uint64("price")
		for _, p := range prices {
			sym.Assume(p != price)
		}
		prices = append(prices, price)
		good[1] = sym.Bool("gateway 1 answers")
		t := terms{[]cid.ContentID{*piece(1), *piece(2)}, price, 1 << 60, 5}
		if sym.Bool("group") {
			admin(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(t.pieces, price, 1<<60, 5))
		} else {
			p := 1 + sym.Choose("piece", 2)
			t.pieces = []cid.ContentID{*piece(p)}
			admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(t.pieces, []uint64{price}, []int64{1 << 60}, []uint64{5}))
			for k := 1; k < 3; k++ {
				has[k][p] = has[k][p] || good[k]
			}
		}
		for k := 1; k < 3; k++ {
			if good[k] {
				ok[k] = append(ok[k], t)
			}
		}
	}
	for k := 1; k < 3; k++ {
		checkOnce(published(k), ok[k], "an offer is published at a gateway once that acknowledged it")
		for p := 1; p < 4; p++ {
			told, _ := acked(p, k)
			sym.Assert(told == has[k][p], "clients are told of the offers that a gateway acknowledged")
		}
	}
	sym.Assert(len(published(1, 2)) == len(ok[1])+len(ok[2]), "an offer is published at a gateway once that acknowledged it")
}
