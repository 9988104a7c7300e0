package main

import (
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"time"

	"github.com/rs/zerolog"
	"github.com/spf13/viper"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:with common/pkg/fcrregistermgr/stub_timer.go
//verif:with common/pkg/fcrp2pserver/stub_net.go
//verif:with common/pkg/fcrrestserver/stub_rest.go
//verif:with common/pkg/fcrpaymentmgr/stub_payments.go
//verif:with common/pkg/offermgr/stub_offers.go
//verif:redirect github.com/ConsenSys/fc-retrieval/gateway/config.NewConfig verifConfig
//verif:redirect github.com/ConsenSys/fc-retrieval/gateway/config.Map verifSettings
//verif:redirect github.com/ConsenSys/fc-retrieval/common/pkg/logging.Init verifLogging
//verif:redirect github.com/ConsenSys/fc-retrieval/gateway/internal/util.SetUpCtrlCExit verifReady

const (
	clientPort   = "9010"
	providerPort = "9012"
	gatewayPort  = "9011"
	adminPort    = "9013"
)

// The gateway under test is node 0 and has key 0. Nodes 1 to 3 are other gateways, 5 and 6 are providers, each with
// the key of its number. Node 8 is not registered.
const (
	self     = 0
	stranger = 8
)

func verifConfig() *viper.Viper                     { return nil }
func verifLogging(conf *viper.Viper) zerolog.Logger { return zerolog.Logger{} }

var theSettings settings.AppSettings

func verifSettings(conf *viper.Viper) settings.AppSettings { return theSettings }

type ready struct{}

// the last step of main before it waits for ever
func verifReady(func()) { panic(ready{}) }

func priv(k int) *fcrcrypto.KeyPair { p, _ := kit.Key(k); return p }

func node(k int) *nodeid.NodeID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k+1), 1
	n, err := nodeid.NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

func piece(k int) *cid.ContentID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k), 2
	c, err := cid.NewContentIDFromBytes(b)
	sym.Assume(err == nil)
	return c
}

func name(k int) string { return string([]byte{'0' + byte(k)}) }

func publicKey(k int) string {
	s, err := priv(k).EncodePublicKey()
	sym.Assume(err == nil)
	return s
}

func gatewayInfo(k int) register.GatewayRegister {
	t := name(k)
	return register.GatewayRegister{NodeID: node(k).ToString(), Address: "addr" + t, RootSigningKey: publicKey(k), SigningKey: publicKey(k), RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t, NetworkInfoProvider: "gp" + t, NetworkInfoClient: "gc" + t, NetworkInfoAdmin: "ga" + t}
}

func providerInfo(k int) register.ProviderRegister {
	t := name(k)
	return register.ProviderRegister{NodeID: node(k).ToString(), Address: "addr" + t, RootSigningKey: publicKey(k), SigningKey: publicKey(k), RegionCode: "region" + t,
		NetworkInfoGateway: "pg" + t, NetworkInfoClient: "pc" + t, NetworkInfoAdmin: "pa" + t}
}

// world is what the gateway does to its surroundings
type world struct {
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister
	asked     int // number of times the register is asked

	received []voucher // payments to the gateway
	paid     []voucher // payments of the gateway
	topups   []voucher
	sent     []sent // messages of the gateway to its peers

	value   func(channel, voucher string) (*big.Int, error) // of a payment to the gateway
	low     func(recipient string) bool                     // the gateway's channel must be topped up
	topup   func(recipient string) error
	payErr  error
	answer  func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage
	wallet  []string // what the payment manager is made with
	newPay  error
	started bool
}

type voucher struct {
	to, channel, code string
	amount            *big.Int
}

type sent struct {
	to string
	m  *fcrmessages.FCRMessage
}

// boot starts the gateway
func boot(gateways, providers []int) *world {
	w := &world{}
	for _, k := range gateways {
		w.gateways = append(w.gateways, gatewayInfo(k))
	}
	for _, k := range providers {
		w.providers = append(w.providers, providerInfo(k))
	}
	request.VerifHTTP.Get = func(url string) ([]byte, error) {
		w.asked++
		switch strings.TrimSuffix(url, "/") {
		case "http://register/registers/gateway":
			return json.Marshal(w.gateways)
		case "http://register/registers/provider":
			return json.Marshal(w.providers)
		}
		return nil, errors.New("no such resource")
	}
	fcrp2pserver.VerifPeer = func(address string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		w.sent = append(w.sent, sent{address, m})
		if w.answer == nil {
			return nil
		}
		return w.answer(address, m)
	}
	fcrpaymentmgr.VerifPayments.New = func(key, lotus, token string) error {
		w.wallet = append(w.wallet, key, lotus, token)
		return w.newPay
	}
	fcrpaymentmgr.VerifPayments.Receive = func(channel, code string) (*big.Int, error) {
		if w.value == nil {
			return nil, errors.New("no such channel")
		}
		v, err := w.value(channel, code)
		if err == nil {
			w.received = append(w.received, voucher{"", channel, code, v})
		}
		return v, err
	}
	fcrpaymentmgr.VerifPayments.Pay = func(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
		if w.payErr != nil {
			return "", "", false, w.payErr
		}
		if w.low != nil && w.low(recipient) {
			return "", "", true, nil
		}
		v := voucher{recipient, "channel to " + recipient, "voucher " + name(len(w.paid)), amount}
		w.paid = append(w.paid, v)
		return v.channel, v.code, false, nil
	}
	fcrpaymentmgr.VerifPayments.Topup = func(recipient string, amount *big.Int) error {
		w.topups = append(w.topups, voucher{to: recipient, amount: amount})
		if w.topup == nil {
			return nil
		}
		return w.topup(recipient)
	}
	theSettings = settings.AppSettings{BindRestAPI: clientPort, BindAdminAPI: adminPort, BindGatewayAPI: gatewayPort, BindProviderAPI: providerPort,
		RegisterAPIURL: "http://register", TCPInactivityTimeout: time.Minute, TCPLongInactivityTimeout: time.Minute,
		SearchPrice: big.NewInt(1000), OfferPrice: big.NewInt(70), TopupAmount: big.NewInt(100000)}
	w.run()
	sym.Assert(w.started, "the gateway starts")
	sym.Assume(w.started)
	core.GetSingleInstance().RegisterMgr.Refresh()
	return w
}

func (w *world) run() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ready); !ok {
				panic(r)
			}
			w.started = true
		}
	}()
	main()
}

var version = fcrcrypto.DecodeKeyVersion(1)

// initialise is the admin giving the gateway its key and wallet
func (w *world) initialise() {
	m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(node(self), priv(self), version, "wallet", "lotus", "token")
	sym.Assume(err == nil)
	a := fcrrestserver.VerifPost(adminPort, m)
	sym.Assert(a.Status == 200 && a.Message != nil, "the gateway takes its key")
	sym.Assume(a.Status == 200 && a.Message != nil)
	ok, err := fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(a.Message)
	sym.Assert(err == nil && ok, "the gateway takes its key")
}

func signed(k int, m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	sym.Assume(err == nil)
	sym.Assume(m.Sign(priv(k), version) == nil)
	return m
}

func encoded(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	sym.Assume(err == nil)
	return m
}

// by: whether the message is signed with the k-th key
func by(k int, m *fcrmessages.FCRMessage) bool {
	_, pub := kit.Key(k)
	return m.Verify(pub) == nil
}

// offer of provider k for the pieces
func offer(k int, price uint64, pieces ...int) cidoffer.CIDOffer {
	var l []cid.ContentID
	for _, p := range pieces {
		l = append(l, *piece(p))
	}
	o, err := cidoffer.NewCIDOffer(node(k), l, price, 1<<40, 1)
	sym.Assume(err == nil)
	sym.Assume(o.Sign(priv(k), version) == nil)
	return *o
}

func digest(o *cidoffer.CIDOffer) string { return cidoffer.EncodeMessageDigest(o.GetMessageDigest()) }

// covers: whether the sub offer is that of the offer for the piece
func covers(s *cidoffer.SubCIDOffer, o *cidoffer.CIDOffer, p *cid.ContentID) bool {
	return kit.SameNode(s.GetProviderID(), o.GetProviderID()) && kit.SameCID(s.GetSubCID(), p) && s.GetPrice() == o.GetPrice() &&
		s.GetExpiry() == o.GetExpiry() && s.GetQoS() == o.GetQoS() && s.GetSignature() == o.GetSignature() && s.VerifyMerkleProof() == nil
}

func number(n *nodeid.NodeID) int {
	for k := 0; k < 9; k++ {
		if kit.SameNode(n, node(k)) {
			return k
		}
	}
	return -1
}

func sameMessage(a, b *fcrmessages.FCRMessage) bool {
	return a.GetMessageType() == b.GetMessageType() && string(a.GetMessageBody()) == string(b.GetMessageBody()) && a.GetSignature() == b.GetSignature()
}

// things: three offers that are stored, and those of them that are for piece p
func things(p int) (want []cidoffer.CIDOffer) {
	l := []cidoffer.CIDOffer{offer(5, 3, 1), offer(6, 4, 1, 2), offer(6, 5, 2)}
	offermgr.VerifOffers = append([]cidoffer.CIDOffer{}, l...)
	switch p {
	case 1:
		return l[:2]
	case 2:
		return l[1:]
	}
	return nil
}

func signed2(k int, digests []string) *fcrmessages.FCRMessage {
	m, err := fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(piece(1), 1, digests, "channel", "voucher")
	return signed(k, m, err)
}

// versioned: whether the signature tells the version of the key
func versioned(m *fcrmessages.FCRMessage, v *fcrcrypto.KeyVersion) bool {
	got, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	return err == nil && got.EncodeKeyVersion() == v.EncodeKeyVersion()
}
