package fcrclient

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a publication is the provider's message with offers for the pieces
func publication(signer int, price uint64, pieces ...int) *fcrmessages.FCRMessage {
	l := make([]cidoffer.CIDOffer, 0)
	for _, p := range pieces {
		l = append(l, *offerBy(5, 5, price, 1<<40, 1, p))
	}
	m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(5), 3, l)
	return signed(signer, m, err)
}

func signature(k int, m *fcrmessages.FCRMessage) string {
	s, err := fcrcrypto.SignMessage(priv(k), version, m.GetMessageBody())
	sym.Assume(err == nil)
	return s
}

type wire struct {
	MessageType       int32   `json:"message_type"`
	ProtocolVersion   int32   `json:"protocol_version"`
	ProtocolSupported []int32 `json:"protocol_supported"`
	MessageBody       string  `json:"message_body"`
	Signature         string  `json:"message_signature"`
}

// mixed is the first message with the signature of the second one
func mixed(a, b *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	var x, y wire
	for _, p := range []struct {
		m *fcrmessages.FCRMessage
		w *wire
	}{{a, &x}, {b, &y}} {
		d, err := json.Marshal(p.m)
		sym.Assume(err == nil && json.Unmarshal(d, p.w) == nil)
	}
	sym.Assume(x.Signature != "" && y.Signature != "")
	x.Signature = y.Signature
	d, err := json.Marshal(x)
	var m fcrmessages.FCRMessage
	sym.Assume(err == nil && json.Unmarshal(d, &m) == nil)
	return &m
}

// the client is told of an acknowledgement by gateway 1 of an offer of provider 5 for piece 1
func VerifC31_ack() {
	w := start([]int{1, 2}, []int{5, 6})
	price := sym.Uint64("price")
	good, found, signer := true, true, 5
	msg := publication(5, price, 1)
	sig := signature(1, msg)
	ackSigner, nonce := 1, sym.Int64("nonce")
	var ack *fcrmessages.FCRMessage
	no := func() { good = false }
	switch sym.Choose("case", 17) {
	case 1: // of two offers
		msg = publication(5, price, 2, 1)
		sig = signature(1, msg)
	case 2: // the answer is another's
		signer = 6
		no()
	case 3:
		found = false
		no()
	case 4: // the offer is another's
		msg = publication(6, price, 1)
		sig = signature(1, msg)
		no()
	case 5: // for other pieces
		msg = publication(5, price, 2, 3)
		sig = signature(1, msg)
		no()
	case 6: // for none
		msg = publication(5, price)
		sig = signature(1, msg)
		no()
	case 7: // another gateway acknowledges
		ackSigner = 2
		no()
	case 8:
		sig = signature(2, msg)
		no()
	case 9: // another message is acknowledged
		other := sym.Uint64("other price")
		sym.Assume(other != price)
		sig = signature(1, publication(5, other, 1))
		no()
	case 10:
		sig = ""
		no()
	case 11:
		sig = "not a signature"
		no()
	case 12: // the acknowledgement is of another kind
		a, err := fcrmessages.EncodeClientEstablishmentResponse(node(1), "challenge")
		ack = signed(1, a, err)
		no()
	case 13: // the message is of another kind
		a, err := fcrmessages.EncodeClientEstablishmentResponse(node(5), "challenge")
		msg = signed(5, a, err)
		sig = signature(1, msg)
		no()
	case 14: // a group offer
		a, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(node(5), 3, offerBy(5, 5, price, 1<<40, 1, 1, 2))
		msg = signed(5, a, err)
		sig = signature(1, msg)
		no()
	case 15: // nothing at all
		msg, ack = &fcrmessages.FCRMessage{}, &fcrmessages.FCRMessage{}
		no()
	case 16: // changed after it was signed
		other := sym.Uint64("other price")
		sym.Assume(other != price)
		msg = mixed(publication(5, other, 1), publication(5, price, 1))
		sig = signature(1, msg)
		no()
	}
	if ack == nil {
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		ack = signed(ackSigner, a, err)
	}
	asked := 0
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		asked++
		p, g, err := fcrmessages.DecodeClientDHTOfferAckRequest(m)
		sym.Assert(to == "pc5" && err == nil && kit.SameCID(p, piece(1)) && kit.SameNode(g, node(1)), "the provider is asked for the acknowledgement")
		sym.Assume(err == nil)
		a, err := fcrmessages.EncodeClientDHTOfferAckResponse(p, g, found, msg, ack)
		return signed(signer, a, err), nil
	}
	ok, err := w.client.FindDHTOfferAck(piece(1), node(1), node(5))
	sym.Assert(asked == 1, "the provider is asked for the acknowledgement")
	if good {
		sym.Assert(ok && err == nil, "an acknowledgement is believed")
	} else {
		sym.Assert(!ok, "what is no acknowledgement is not believed")
	}
}

// nodes must be registered completely for an acknowledgement to be believed
func VerifC31_registration() {
	fault := sym.Choose("case", 5)
	providers := []int{5}
	if fault == 2 {
		providers = []int{6}
	}
	w := start([]int{1}, providers)
	gateway := 1
	msg := publication(5, 1, 1)
	switch fault {
	case 0: // incomplete
		gateway = 4
		w.partly()
	case 1:
		gateway = stranger
	case 3:
		spoilProvider(&w.providers[0], sym.Choose("detail", 7))
		w.manager.Refresh()
	case 4: // the provider does not answer
		w.answer = nil
		ok, _ := w.client.FindDHTOfferAck(piece(1), node(1), node(5))
		sym.Assert(!ok, "what is no acknowledgement is not believed")
		return
	}
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(3, signature(gateway, msg))
		a, err = fcrmessages.EncodeClientDHTOfferAckResponse(piece(1), node(gateway), true, msg, signed(gateway, a, err))
		return signed(5, a, err), nil
	}
	ok, _ := w.client.FindDHTOfferAck(piece(1), node(gateway), node(5))
	sym.Assert(!ok, "only registered nodes are believed")
}
