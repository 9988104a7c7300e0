package main

import (
	"errors"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
)

const forever = 1 << 40

// publish is the admin publishing an offer for each of the pieces, at the price 10*number
func publish(pieces ...int) {
	var l []cid.ContentID
	var prices, qos []uint64
	var expiries []int64
	for _, p := range pieces {
		l, prices, expiries, qos = append(l, *piece(p)), append(prices, uint64(10*p)), append(expiries, forever), append(qos, 1)
	}
	ok, err := fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(l, prices, expiries, qos)))
	sym.Assert(err == nil && ok, "the admin is answered")
}

func listRequest(named, signer int, from, till byte) *fcrmessages.FCRMessage {
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(node(named), piece(int(from)), piece(int(till)), "block", "receipt", "root", &fcrmerkletree.FCRMerkleProof{})
	return signed(signer, m, err)
}

// recorded: whether the provider tells clients that the gateway acknowledged an offer for the piece
func recorded(p, k int) bool { return recordedFor(piece(p), k) }

func recordedFor(c *cid.ContentID, k int) bool {
	a := fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTOfferAckRequest(c, node(k))))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the client is answered")
	sym.Assume(a.Status == 200 && a.Message != nil)
	_, _, found, m, ack, err := fcrmessages.DecodeClientDHTOfferAckResponse(a.Message)
	sym.Assert(err == nil, "the client is answered")
	if found {
		_, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		in := false
		for i := range offers {
			in = in || kit.SameCID(&offers[i].GetCIDs()[0], c)
		}
		sym.Assert(err == nil && by(self, m) && in, "the client is given the signed message with the offer")
		_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
		sym.Assert(err == nil && signs(k, sig, m), "the client is given the gateway's signature of the message")
	}
	return found
}

// a gateway asks for the offers of a range, and acknowledges them
func VerifC24_list() {
	w := boot(1, 2)
	w.initialise()
	var stored []int
	for p := 1; p < 4; p++ {
		if sym.Bool("stored") {
			stored = append(stored, p)
		}
	}
	if len(stored) > 0 {
		publish(stored...)
	}
	w.sent = nil
	named := []int{1, stranger}[sym.Choose("gateway", 2)]
	signer := []int{1, 2, stranger}[sym.Choose("signer", 3)]
	from, till := sym.Byte("from"), sym.Byte("till")
	sym.Assume(from <= till)
	in := [4]bool{}
	for _, p := range stored {
		if byte(p) >= from && byte(p) <= till {
			in[p] = true
		}
	}
	// what the gateway makes of the answer
	good := false
	answers := 0
	l := fcrp2pserver.VerifTalk(gatewayPort, func(m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		answers++
		if answers > 1 {
			return nil
		}
		msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(m)
		if err != nil {
			return nil
		}
		ackSigner := 1
		kind := sym.Choose("peer", 7)
		var acks []fcrmessages.FCRMessage
		for i := range msgs {
			sig := signature(1, &msgs[i])
			switch kind {
			case 1:
				sig = signature(2, &msgs[i])
			case 2:
				o := offer(self, 77, 1)
				other, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(self), 1, []cidoffer.CIDOffer{o})
				sig = signature(1, signed(self, other, err))
			case 3:
				if i == len(msgs)-1 {
					continue
				}
			}
			a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, sig)
			acks = append(acks, *signed(1, a, err))
		}
		switch kind {
		case 4:
			ackSigner = 2
		case 5:
			return nil
		case 6:
			r, err := fcrmessages.EncodeGatewayListDHTOfferResponse(acks)
			return []*fcrmessages.FCRMessage{signed(1, r, err)}
		}
		good = kind == 0
		r, err := fcrmessages.EncodeGatewayListDHTOfferAck(acks)
		return []*fcrmessages.FCRMessage{signed(ackSigner, r, err)}
	}, listRequest(named, signer, from, till))
	sym.Assert(len(w.sent) == 0, "the gateway is answered only")
	if named != 1 || signer != 1 {
		for _, m := range l {
			sym.Assert(m.GetMessageType() == fcrmessages.InvalidMessageResponseType, "only a registered gateway is given the offers")
		}
		for p := 1; p < 4; p++ {
			sym.Assert(!recorded(p, 1) && !recorded(p, 2), "what a gateway acknowledged is recorded")
		}
		return
	}
	sym.Assert(len(l) > 0 && by(self, l[0]), "the gateway is given the offers of the range, signed")
	sym.Assume(len(l) > 0)
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(l[0])
	sym.Assert(err == nil, "the gateway is given the offers of the range, signed")
	sym.Assume(err == nil)
	_, pub := kit.Key(self)
	got := [4]bool{}
	for i := range msgs {
		id, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
		sym.Assert(err == nil && by(self, &msgs[i]) && kit.SameNode(id, node(self)), "the gateway is given the offers of the range, signed")
		for j := range offers {
			o := &offers[j]
			p := int(o.GetPrice() / 10)
			ok := p > 0 && p < 4 && in[p] && !got[p] && o.GetPrice() == uint64(10*p) && samePieces(o.GetCIDs(), []cid.ContentID{*piece(p)}) && o.Verify(pub) == nil
			sym.Assert(ok, "the gateway is given the offers of the range, signed")
			sym.Assume(ok)
			got[p] = true
		}
	}
	sym.Assert(got == in, "the gateway is given the offers of the range, signed")
	for p := 1; p < 4; p++ {
		sym.Assert(recorded(p, 1) == (good && in[p]), "what a gateway acknowledged is recorded")
		sym.Assert(!recorded(p, 2), "what a gateway acknowledged is recorded")
	}
}

// lists of many messages
func VerifC24_many() {
	w := boot(1)
	w.initialise()
	n := []int{49, 50, 51, 101, 501}[sym.Choose("offers", 5)]
	first := offer(self, 10, 1)
	for p := 1; p <= n; p++ {
		o, err := cidoffer.NewCIDOffer(node(self), []cid.ContentID{*many(p)}, uint64(10*p), forever, 1)
		sym.Assume(err == nil)
		o.SetSignature(first.GetSignature())
		sym.Assume(core.GetSingleInstance().OffersMgr.AddDHTOffer(o) == nil)
	}
	acked := 0
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(node(1), many(1), many(1000), "block", "receipt", "root", &fcrmerkletree.FCRMerkleProof{})
	l := fcrp2pserver.VerifTalk(gatewayPort, func(m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(m)
		sym.Assert(err == nil, "the gateway is given the offers of the range, signed")
		var acks []fcrmessages.FCRMessage
		kind := sym.Choose("acks", 4)
		acked = n
		for i := range msgs {
			k := 1
			if kind == 1 && i == len(msgs)-1 {
				k, acked = 2, 50*i
			}
			a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, signature(k, &msgs[i]))
			acks = append(acks, *signed(1, a, err))
		}
		if kind == 2 {
			acks, acked = acks[:len(acks)-1], 0
		} else if kind == 3 {
			acks, acked = append(acks, acks[0]), 0
		}
		r, err := fcrmessages.EncodeGatewayListDHTOfferAck(acks)
		return []*fcrmessages.FCRMessage{signed(1, r, err)}
	}, signed(1, m, err))
	sym.Assert(len(l) == 1, "the gateway is given the offers of the range, signed")
	sym.Assume(len(l) == 1)
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(l[0])
	sym.Assert(err == nil, "the gateway is given the offers of the range, signed")
	got := map[uint64]int{}
	for i := range msgs {
		_, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
		sym.Assert(err == nil, "the gateway is given the offers of the range, signed")
		for j := range offers {
			got[offers[j].GetPrice()]++
		}
	}
	want := n
	if want > 500 {
		want = 500
	}
	ok := len(got) == want
	for p := 1; p <= want; p++ {
		ok = ok && got[uint64(10*p)] == 1
	}
	sym.Assert(ok, "the gateway is given the offers of the range, signed")
	for _, p := range []int{1, 49, 50, 51, 100, 101} {
		sym.Assert(recordedFor(many(p), 1) == (p <= acked), "what a gateway acknowledged is recorded")
	}
}

// many is one of many pieces
func many(i int) *cid.ContentID {
	b := make([]byte, 32)
	b[0], b[1], b[31] = byte(i/200), byte(i%200), 1
	c, err := cid.NewContentIDFromBytes(b)
	sym.Assume(err == nil)
	return c
}

// request is a request of each kind that clients (0), the admin (1 to 4), and gateways (5, 6) make, and the port for it
func anyRequest(k int) (string, *fcrmessages.FCRMessage) {
	switch k {
	case 0:
		return clientPort, encoded(fcrmessages.EncodeClientDHTOfferAckRequest(piece(1), node(1)))
	case 1:
		return adminPort, encoded(fcrmessages.EncodeProviderAdminForceRefreshRequest(true))
	case 2:
		return adminPort, encoded(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*node(1)}))
	case 3:
		return adminPort, encoded(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*piece(1), *piece(2)}, 1, forever, 1))
	case 4:
		return adminPort, encoded(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*piece(1)}, []uint64{1}, []int64{forever}, []uint64{1}))
	case 5:
		return gatewayPort, listRequest(1, 1, 0, 9)
	}
	m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(node(1), true)
	return gatewayPort, signed(1, m, err)
}

func refused(port string, m *fcrmessages.FCRMessage, label string) {
	if port != gatewayPort {
		a := fcrrestserver.VerifPost(port, m)
		sym.Assert(a.Status != 200 && a.Message == nil, label)
		return
	}
	for _, m := range fcrp2pserver.VerifConnect(port, m) {
		sym.Assert(m.GetMessageType() == fcrmessages.InvalidMessageResponseType, label)
	}
}

func (w *world) idle() {
	mgr := core.GetSingleInstance().OffersMgr
	_, group := mgr.GetGroupOffers(piece(1))
	_, dht := mgr.GetDHTOffers(piece(1))
	sym.Assert(len(w.sent) == 0 && !group && !dht, "a request that is refused does nothing")
}

// a provider without its key refuses, and can still be set up
func VerifC24_uninitialised() {
	w := boot(1)
	asked := w.asked
	port, m := anyRequest(sym.Choose("request", 7))
	refused(port, m, "a provider without its key refuses")
	w.idle()
	sym.Assert(w.asked == asked, "a request that is refused does nothing")
	w.initialise()
	sym.Assert(!recorded(1, 1), "what a gateway acknowledged is recorded")
}

// requests are served at the port for those who make them only
func VerifC24_ports() {
	w := boot(1)
	w.initialise()
	asked := w.asked
	k := sym.Choose("request", 9)
	port, m := adminPort, (*fcrmessages.FCRMessage)(nil)
	if k == 7 {
		m = encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(node(6), priv(6), version))
	} else if k == 8 {
		m = encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(node(6), priv(6), version, "w", "l", "t"))
	} else {
		port, m = anyRequest(k)
	}
	at := []string{clientPort, adminPort, gatewayPort}[sym.Choose("at", 3)]
	sym.Assume(at != port)
	refused(at, m, "a request at the port for others is refused")
	w.idle()
	sym.Assert(w.asked == asked, "a request that is refused does nothing")
	sym.Assert(!recorded(1, 1), "what a gateway acknowledged is recorded")
}

// the key and the wallet that the admin gives
func VerifC24_initialise() {
	w := boot(1)
	first := sym.Choose("first", 3)
	v6, v := kit.Version("version"), kit.Version("version")
	if first == 1 {
		fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(node(6), priv(6), v6)))
	} else if first == 2 {
		fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(node(6), priv(6), v6, "wallet6", "lotus6", "token6")))
	}
	made := len(w.wallet)
	bad, plain := sym.Bool("bad wallet"), false
	if bad {
		w.newPay = errors.New("bad wallet")
	} else {
		plain = sym.Bool("no wallet")
	}
	var a *fcrrestserver.VerifAnswer
	if plain {
		a = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(node(self), priv(self), v)))
	} else {
		a = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(node(self), priv(self), v, "wallet", "lotus", "token")))
		sym.Assert(len(w.wallet) == made+3 && w.wallet[made] == "wallet" && w.wallet[made+1] == "lotus" && w.wallet[made+2] == "token", "the wallet is the one the admin gives")
	}
	k := self
	if bad {
		sym.Assert(a.Status != 200, "a wallet that does not work is refused")
		k, v = 6, v6
	} else {
		sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message) && versioned(a.Message, v), "the provider takes its key")
	}
	if bad && first == 0 {
		port, m := anyRequest(0)
		refused(port, m, "a provider without its key refuses")
		return
	}
	a = fcrrestserver.VerifPost(clientPort, encoded(fcrmessages.EncodeClientDHTOfferAckRequest(piece(1), node(1))))
	sym.Assert(a.Status == 200 && a.Message != nil && by(k, a.Message) && versioned(a.Message, v), "the provider has the key that the admin gave it last")
	a = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*piece(1)}, []uint64{1}, []int64{forever}, []uint64{1})))
	sym.Assert(a.Status == 200 && a.Message != nil && by(k, a.Message) && len(w.sent) == 1, "the provider has the key that the admin gave it last")
	sym.Assume(len(w.sent) == 1)
	id, _, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(w.sent[0].m)
	sym.Assert(err == nil && by(k, w.sent[0].m) && versioned(w.sent[0].m, v) && kit.SameNode(id, node(k)) && len(l) == 1 && kit.SameNode(l[0].GetProviderID(), node(k)), "the provider has the key that the admin gave it last")
}

func VerifC24_refresh() {
	w := boot(1)
	w.initialise()
	w.gateways = append(w.gateways, gatewayInfo(2))
	asked := w.asked
	refresh := sym.Bool("refresh")
	ok, err := fcrmessages.DecodeProviderAdminForceRefreshResponse(admin(fcrmessages.EncodeProviderAdminForceRefreshRequest(refresh)))
	sym.Assert(err == nil && ok == refresh, "the admin is told whether the register was asked")
	if !refresh {
		sym.Assert(w.asked == asked, "the register is asked if the admin wants it")
		return
	}
	asked = w.asked
	sym.Assert(len(core.GetSingleInstance().RegisterMgr.GetAllGateways()) == 2 && w.asked == asked, "the register is asked before the admin is answered")
}
