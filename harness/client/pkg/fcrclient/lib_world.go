package fcrclient

import (
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"time"

	"github.com/rs/zerolog"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:with common/pkg/fcrregistermgr/stub_timer.go
//verif:with common/pkg/fcrpaymentmgr/stub_payments.go
//verif:redirect github.com/ConsenSys/fc-retrieval/common/pkg/logging.Init1 verifLogging

// Nodes 1 to 3 are gateways, 5 to 7 are providers, each with the key of its number. Node 8 is not registered.
const stranger = 8

func verifLogging(level, target, service string) zerolog.Logger { return zerolog.Logger{} }

func priv(k int) *fcrcrypto.KeyPair { p, _ := kit.Key(k); return p }

func node(k int) *nodeid.NodeID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k+1), 1
	n, err := nodeid.NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

func nodes(l ...int) (r []nodeid.NodeID) {
	for _, k := range l {
		r = append(r, *node(k))
	}
	return
}

func piece(k int) *cid.ContentID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k), 2
	c, err := cid.NewContentIDFromBytes(b)
	sym.Assume(err == nil)
	return c
}

func name(k int) string { return string([]byte{'0' + byte(k)}) }

func publicKey(k int) string {
	s, err := priv(k).EncodePublicKey()
	sym.Assume(err == nil)
	return s
}

func gatewayInfo(k int) register.GatewayRegister {
	t := name(k)
	return register.GatewayRegister{NodeID: node(k).ToString(), Address: "addr" + t, RootSigningKey: publicKey(k), SigningKey: publicKey(k), RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t, NetworkInfoProvider: "gp" + t, NetworkInfoClient: "gc" + t, NetworkInfoAdmin: "ga" + t}
}

func providerInfo(k int) register.ProviderRegister {
	t := name(k)
	return register.ProviderRegister{NodeID: node(k).ToString(), Address: "addr" + t, RootSigningKey: publicKey(k), SigningKey: publicKey(k), RegionCode: "region" + t,
		NetworkInfoGateway: "pg" + t, NetworkInfoClient: "pc" + t, NetworkInfoAdmin: "pa" + t}
}

// spoil makes the registration incomplete
func spoil(g *register.GatewayRegister, field int) {
	f := []*string{&g.Address, &g.RootSigningKey, &g.SigningKey, &g.RegionCode, &g.NetworkInfoGateway, &g.NetworkInfoProvider, &g.NetworkInfoClient, &g.NetworkInfoAdmin}
	*f[field] = ""
}

func spoilProvider(g *register.ProviderRegister, field int) {
	f := []*string{&g.Address, &g.RootSigningKey, &g.SigningKey, &g.RegionCode, &g.NetworkInfoGateway, &g.NetworkInfoClient, &g.NetworkInfoAdmin}
	*f[field] = ""
}

type voucher struct {
	to, channel, code string
	lane              uint64
	amount            *big.Int
}

type world struct {
	client    *FilecoinRetrievalClient
	manager   *fcrregistermgr.FCRRegisterMgr
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister

	paid   []voucher
	topups []voucher
	wallet []string
	newPay error
	low    func(recipient string) bool // the channel must be topped up
	payErr error

	answer func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error)
}

const searchPrice, offerPrice, topUpAmount = 130, 70, 100000

func start(gateways, providers []int) *world {
	w := &world{}
	for _, k := range gateways {
		w.gateways = append(w.gateways, gatewayInfo(k))
	}
	for _, k := range providers {
		w.providers = append(w.providers, providerInfo(k))
	}
	request.VerifHTTP.Get = func(url string) ([]byte, error) {
		switch strings.TrimSuffix(url, "/") {
		case "http://register/registers/gateway":
			return json.Marshal(w.gateways)
		case "http://register/registers/provider":
			return json.Marshal(w.providers)
		}
		return nil, errors.New("no such resource")
	}
	request.VerifHTTP.Send = func(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		if w.answer == nil {
			return nil, errors.New("nobody there")
		}
		return w.answer(url, m)
	}
	fcrpaymentmgr.VerifPayments.New = func(key, lotus, token string) error {
		w.wallet = append(w.wallet, key, lotus, token)
		return w.newPay
	}
	fcrpaymentmgr.VerifPayments.Pay = func(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
		if w.payErr != nil {
			return "", "", false, w.payErr
		}
		if w.low != nil && w.low(recipient) {
			return "", "", true, nil
		}
		v := voucher{recipient, "channel to " + recipient, "voucher " + name(len(w.paid)), lane, amount}
		w.paid = append(w.paid, v)
		return v.channel, v.code, false, nil
	}
	fcrpaymentmgr.VerifPayments.Topup = func(recipient string, amount *big.Int) error {
		w.topups = append(w.topups, voucher{to: recipient, amount: amount})
		return nil
	}
	s := CreateSettings()
	s.SetRegisterURL("http://register")
	s.SetBlockchainPrivateKey(priv(0))
	s.SetRetrievalPrivateKey(priv(0), fcrcrypto.DecodeKeyVersion(1))
	s.SetEstablishmentTTL(100)
	s.SetWalletPrivateKey("wallet")
	s.SetLotusAP("lotus")
	s.SetLotusAuthToken("token")
	s.SetSearchPrice(big.NewInt(searchPrice))
	s.SetOfferPrice(big.NewInt(offerPrice))
	s.SetTopUpAmount(big.NewInt(topUpAmount))
	w.manager = fcrregistermgr.NewFCRRegisterMgr("http://register", true, true, time.Hour)
	sym.Assume(w.manager.Start() == nil)
	w.manager.Refresh()
	c, err := NewFilecoinRetrievalClient(*s.Build(), w.manager)
	sym.Assume(err == nil)
	w.client = c
	return w
}

var version = fcrcrypto.DecodeKeyVersion(1)

func signed(k int, m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	sym.Assume(err == nil)
	sym.Assume(m.Sign(priv(k), version) == nil)
	return m
}

// use makes the gateways active
func (w *world) use(l ...int) {
	answer := w.answer
	w.answer = w.establish
	for _, k := range l {
		n := w.client.AddGatewaysToUse([]*nodeid.NodeID{node(k)})
		n += w.client.AddActiveGateways([]*nodeid.NodeID{node(k)})
		sym.Assert(n == 2, "a gateway that answers is active")
		sym.Assume(n == 2)
	}
	w.answer = answer
}

func (w *world) establish(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	k := int(to[2] - '0')
	sym.Assert(to == "gc"+name(k), "the gateway is asked at its client port")
	_, challenge, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	sym.Assume(err == nil)
	a, err := fcrmessages.EncodeClientEstablishmentResponse(node(k), challenge)
	return signed(k, a, err), nil
}

func offerBy(owner, signer int, price uint64, expiry int64, qos uint64, pieces ...int) *cidoffer.CIDOffer {
	var l []cid.ContentID
	for _, p := range pieces {
		l = append(l, *piece(p))
	}
	o, err := cidoffer.NewCIDOffer(node(owner), l, price, expiry, qos)
	sym.Assume(err == nil)
	sym.Assume(o.Sign(priv(signer), version) == nil)
	return o
}

func sub(o *cidoffer.CIDOffer, p int) *cidoffer.SubCIDOffer {
	s, err := o.GenerateSubCIDOffer(piece(p))
	sym.Assume(err == nil)
	return s
}

const kinds = 8

// subOffer is an offer for piece 1 that is fine (kinds 0 and 1) or is not
func subOffer(kind int, price uint64) cidoffer.SubCIDOffer {
	const expiry, qos = 1 << 40, 1
	switch kind {
	case 0:
		return *sub(offerBy(5, 5, price, expiry, qos, 1), 1)
	case 1:
		return *sub(offerBy(6, 6, price, expiry, qos, 2, 1), 1)
	case 2: // of another piece
		return *sub(offerBy(6, 6, price, expiry, qos, 1, 2), 2)
	case 3: // signed by another provider
		return *sub(offerBy(5, 6, price, expiry, qos, 1), 1)
	case 4: // changed
		s := sub(offerBy(5, 5, price, expiry, qos, 1), 1)
		other := sym.Uint64("other price")
		sym.Assume(other != price)
		return *cidoffer.NewSubCIDOffer(s.GetProviderID(), s.GetSubCID(), s.GetMerkleRoot(), s.GetMerkleProof(), other, s.GetExpiry(), s.GetQoS(), s.GetSignature())
	case 5: // that does not have the piece
		s := sub(offerBy(5, 5, price, expiry, qos, 2, 3), 2)
		return *cidoffer.NewSubCIDOffer(s.GetProviderID(), piece(1), s.GetMerkleRoot(), s.GetMerkleProof(), price, s.GetExpiry(), s.GetQoS(), s.GetSignature())
	case 6: // of a provider that is not registered
		return *sub(offerBy(stranger, stranger, price, expiry, qos, 1), 1)
	}
	// of a provider whose registration is not complete
	return *sub(offerBy(7, 7, price, expiry, qos, 1), 1)
}

func same(a, b *cidoffer.SubCIDOffer) bool {
	return kit.SameNode(a.GetProviderID(), b.GetProviderID()) && kit.SameCID(a.GetSubCID(), b.GetSubCID()) && a.GetMerkleRoot() == b.GetMerkleRoot() && a.GetPrice() == b.GetPrice() &&
		a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS() && a.GetSignature() == b.GetSignature()
}

// goods is a list of up to most offers, and those of them that are fine. Provider 7 must be registered.
func goods(w *world, most int) (all, fine []cidoffer.SubCIDOffer) {
	n := sym.Choose("offers", most+1)
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", kinds)
		if k == 7 {
			w.incomplete()
		}
		s := subOffer(k, sym.Uint64("price"))
		all = append(all, s)
		if k < 2 {
			fine = append(fine, s)
		}
	}
	return
}

// incomplete registers provider 7, but for one detail
func (w *world) incomplete() {
	if len(w.providers) == 3 {
		return
	}
	p := providerInfo(7)
	spoilProvider(&p, sym.Choose("detail", 7))
	w.providers = append(w.providers, p)
	w.manager.Refresh()
}

func sameOffers(a, b []cidoffer.SubCIDOffer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(&a[i], &b[i]) {
			return false
		}
	}
	return true
}

var errNothing = errors.New("nobody there")

// reply answers a request of the client for the piece. Answer 0 is a good one; the others are signed by another
// gateway, for another piece, for another nonce, of another kind, or none at all.
const faults = 6

func reply(fault int, p *cid.ContentID, nonce int64, encode func(p *cid.ContentID, nonce int64) (*fcrmessages.FCRMessage, error)) (*fcrmessages.FCRMessage, error) {
	signer := 1
	switch fault {
	case 1:
		signer = 2
	case 2:
		p = piece(2)
	case 3:
		flip := sym.Int64("nonce")
		sym.Assume(flip != 0)
		nonce ^= flip
	case 4:
		a, err := fcrmessages.EncodeClientEstablishmentResponse(node(1), "challenge")
		return signed(1, a, err), nil
	case 5:
		return nil, errNothing
	}
	a, err := encode(p, nonce)
	return signed(signer, a, err), nil
}

// relayed is the answer of a gateway that another one relays: a good one (0), not signed by it, of another kind, of a
// gateway that is not registered, or of one whose registration is not complete
const relayFaults = 5

func (w *world) relayed(fault, k int, m *fcrmessages.FCRMessage, err error) (*nodeid.NodeID, *fcrmessages.FCRMessage) {
	switch fault {
	case 0:
		return node(k), signed(k, m, err)
	case 1:
		return node(k), signed(1, m, err)
	case 2:
		a, err := fcrmessages.EncodeClientEstablishmentResponse(node(k), "challenge")
		return node(k), signed(k, a, err)
	case 3:
		return node(stranger), signed(stranger, m, err)
	}
	return node(4), signed(4, m, err)
}

// partly registers gateway 4, but for one detail
func (w *world) partly() {
	g := gatewayInfo(4)
	spoil(&g, sym.Choose("detail", 8))
	w.gateways = append(w.gateways, g)
	w.manager.Refresh()
}

func listed(l map[string]*[]cidoffer.SubCIDOffer, k int) []cidoffer.SubCIDOffer {
	if p := l[node(k).ToString()]; p != nil {
		return *p
	}
	return nil
}
