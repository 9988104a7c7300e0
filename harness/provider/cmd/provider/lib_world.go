package main

import (
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"time"

	"github.com/rs/zerolog"
	"github.com/spf13/viper"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:with common/pkg/fcrregistermgr/stub_timer.go
//verif:with common/pkg/fcrp2pserver/stub_net.go
//verif:with common/pkg/fcrrestserver/stub_rest.go
//verif:with common/pkg/fcrpaymentmgr/stub_payments.go
//verif:redirect github.com/ConsenSys/fc-retrieval/provider/config.NewConfig verifConfig
//verif:redirect github.com/ConsenSys/fc-retrieval/provider/config.Map verifSettings
//verif:redirect github.com/ConsenSys/fc-retrieval/common/pkg/logging.Init verifLogging
//verif:redirect github.com/ConsenSys/fc-retrieval/provider/internal/util.SetUpCtrlCExit verifReady

const (
	clientPort  = "9010"
	gatewayPort = "9011"
	adminPort   = "9013"
)

// The provider under test is node 5. Nodes 1 to 4 are gateways, and node 6 is another provider; each has the key of its
// number. Node 8 is not registered.
const (
	self     = 5
	stranger = 8
)

func verifConfig() *viper.Viper                     { return nil }
func verifLogging(conf *viper.Viper) zerolog.Logger { return zerolog.Logger{} }

var theSettings settings.AppSettings

func verifSettings(conf *viper.Viper) settings.AppSettings { return theSettings }

type ready struct{}

// the last step of main before it waits for ever
func verifReady(func()) { panic(ready{}) }

func priv(k int) *fcrcrypto.KeyPair { p, _ := kit.Key(k); return p }

func node(k int) *nodeid.NodeID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k+1), 1
	n, err := nodeid.NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

func piece(k int) *cid.ContentID {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 1, byte(k), 2
	c, err := cid.NewContentIDFromBytes(b)
	sym.Assume(err == nil)
	return c
}

func name(k int) string {
	if k > 9 {
		return name(k/10) + name(k%10)
	}
	return string([]byte{'0' + byte(k)})
}

func publicKey(k int) string {
	s, err := priv(k).EncodePublicKey()
	sym.Assume(err == nil)
	return s
}

func gatewayInfo(k int) register.GatewayRegister {
	t := name(k)
	return register.GatewayRegister{NodeID: node(k).ToString(), Address: "addr" + t, RootSigningKey: publicKey(k), SigningKey: publicKey(k), RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t, NetworkInfoProvider: "gp" + t, NetworkInfoClient: "gc" + t, NetworkInfoAdmin: "ga" + t}
}

type sent struct {
	to string
	m  *fcrmessages.FCRMessage
}

// world is what the provider does to its surroundings
type world struct {
	gateways []register.GatewayRegister
	asked    int    // number of times the register is asked
	sent     []sent // messages of the provider to gateways
	answer   func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage
	wallet   []string // what the payment manager is made with
	newPay   error
	started  bool
}

// boot starts the provider
func boot(gateways ...int) *world {
	w := &world{}
	for _, k := range gateways {
		w.gateways = append(w.gateways, gatewayInfo(k))
	}
	request.VerifHTTP.Get = func(url string) ([]byte, error) {
		w.asked++
		switch strings.TrimSuffix(url, "/") {
		case "http://register/registers/gateway":
			return json.Marshal(w.gateways)
		case "http://register/registers/provider":
			return []byte("[]"), nil
		}
		return nil, errors.New("no such resource")
	}
	fcrp2pserver.VerifPeer = func(address string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		w.sent = append(w.sent, sent{address, m})
		if w.answer == nil {
			return nil
		}
		return w.answer(address, m)
	}
	fcrpaymentmgr.VerifPayments.New = func(key, lotus, token string) error {
		w.wallet = append(w.wallet, key, lotus, token)
		return w.newPay
	}
	fcrpaymentmgr.VerifPayments.Receive = func(channel, code string) (*big.Int, error) {
		sym.Fail("the provider takes no vouchers")
		return nil, errors.New("none")
	}
	fcrpaymentmgr.VerifPayments.Pay = func(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
		sym.Fail("the provider pays nobody")
		return "", "", false, errors.New("none")
	}
	theSettings = settings.AppSettings{BindRestAPI: clientPort, BindAdminAPI: adminPort, BindGatewayAPI: gatewayPort,
		RegisterAPIURL: "http://register", TCPInactivityTimeout: time.Minute, TCPLongInactivityTimeout: time.Minute,
		SearchPrice: big.NewInt(1000), OfferPrice: big.NewInt(70), TopupAmount: big.NewInt(100000)}
	w.run()
	sym.Assert(w.started, "the provider starts")
	sym.Assume(w.started)
	core.GetSingleInstance().RegisterMgr.Refresh()
	return w
}

func (w *world) run() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ready); !ok {
				panic(r)
			}
			w.started = true
		}
	}()
	main()
}

var version = fcrcrypto.DecodeKeyVersion(1)

// initialise is the admin giving the provider its key and wallet
func (w *world) initialise() {
	m, err := fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(node(self), priv(self), version, "wallet", "lotus", "token")
	sym.Assume(err == nil)
	a := fcrrestserver.VerifPost(adminPort, m)
	sym.Assert(a.Status == 200 && a.Message != nil, "the provider takes its key")
	sym.Assume(a.Status == 200 && a.Message != nil)
	ok, err := fcrmessages.DecodeProviderAdminInitialiseKeyResponse(a.Message)
	sym.Assert(err == nil && ok && by(self, a.Message), "the provider takes its key")
}

func signed(k int, m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	sym.Assume(err == nil)
	sym.Assume(m.Sign(priv(k), version) == nil)
	return m
}

func encoded(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	sym.Assume(err == nil)
	return m
}

// by: whether the message is signed with the k-th key
func by(k int, m *fcrmessages.FCRMessage) bool {
	_, pub := kit.Key(k)
	return m.Verify(pub) == nil
}

// admin is the answer to a request of the admin, which is signed
func admin(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	a := fcrrestserver.VerifPost(adminPort, encoded(m, err))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
	sym.Assume(a.Status == 200 && a.Message != nil)
	return a.Message
}

// offer of provider k for the pieces
func offer(k int, price uint64, pieces ...int) cidoffer.CIDOffer {
	var l []cid.ContentID
	for _, p := range pieces {
		l = append(l, *piece(p))
	}
	o, err := cidoffer.NewCIDOffer(node(k), l, price, 1<<40, 1)
	sym.Assume(err == nil)
	sym.Assume(o.Sign(priv(k), version) == nil)
	return *o
}

func digest(o *cidoffer.CIDOffer) string { return cidoffer.EncodeMessageDigest(o.GetMessageDigest()) }

func samePieces(a, b []cid.ContentID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !kit.SameCID(&a[i], &b[i]) {
			return false
		}
	}
	return true
}

// signature is the k-th node's of the body of the message
func signature(k int, m *fcrmessages.FCRMessage) string {
	s, err := fcrcrypto.SignMessage(priv(k), version, m.GetMessageBody())
	sym.Assume(err == nil)
	return s
}

func signs(k int, sig string, m *fcrmessages.FCRMessage) bool {
	_, pub := kit.Key(k)
	ok, err := fcrcrypto.VerifyMessage(pub, sig, m.GetMessageBody())
	return err == nil && ok
}

// versioned: whether the signature tells the version of the key
func versioned(m *fcrmessages.FCRMessage, v *fcrcrypto.KeyVersion) bool {
	got, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	return err == nil && got.EncodeKeyVersion() == v.EncodeKeyVersion()
}
