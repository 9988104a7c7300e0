package fcrgatewayadmin

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/rs/zerolog"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:redirect github.com/ConsenSys/fc-retrieval/common/pkg/logging.Init1 verifLogging

func verifLogging(level, target, service string) zerolog.Logger { return zerolog.Logger{} }

// The admin has key 0. The gateways are 1 and 2, with the key of their number; the key an admin gives them is 5.
const admin, fresh = 0, 5

func priv(k int) *fcrcrypto.KeyPair { p, _ := kit.Key(k); return p }

func publicKey(k int) string {
	s, err := priv(k).EncodePublicKey()
	sym.Assume(err == nil)
	return s
}

func version(v uint32) *fcrcrypto.KeyVersion { return fcrcrypto.DecodeKeyVersion(v) }

// the first byte has letters in its hexadecimal form
func node(k int) *nodeid.NodeID {
	b := make([]byte, 32)
	b[0], b[31] = 0xab, byte(0xab+k)
	n, err := nodeid.NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

// gateway is the registered one, by its id in lower or upper case
// moved: whether node 1 is registered with another address and key
var moved bool

func gateway(k int, upper bool) *register.GatewayRegister {
	t := string([]byte{'0' + byte(k)})
	key := publicKey(k)
	if k == 1 && moved {
		t, key = "4", publicKey(4)
	}
	id := node(k).ToString()
	if upper {
		id = strings.ToUpper(id)
	}
	g := register.NewGatewayRegister(id, "addr"+t, publicKey(6), key, "region"+t, "gg"+t, "gp"+t, "gc"+t, "ga"+t)
	return g.(*register.GatewayRegister)
}

// faults of an answer: 0 is none. 1 is signed by another, 2 not at all, 3 has the signature of a refusal, 4 is signed by the root
// key, 5 is of another kind, 6 is a refusal, 7 does not come
const faults = 8

type world struct {
	admin *FilecoinRetrievalGatewayAdmin
	sent  int
	url   string // of the last request
	fault int
	// serve checks the request and encodes the answer
	serve func(k int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error)
}

func start(keys *fcrcrypto.KeyVersion) *world {
	w := &world{}
	moved = false
	b := CreateSettings()
	b.SetBlockchainPrivateKey(priv(7))
	b.SetGatewayAdminPrivateKey(priv(admin), keys)
	w.admin = NewFilecoinRetrievalGatewayAdmin(*b.Build())
	request.VerifHTTP.Send = func(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		w.sent++
		w.url = url
		sym.Assert(url == "ga1" || url == "ga2" || url == "ga4", "the request goes to the admin port of the gateway")
		k := 1
		if url == "ga2" {
			k = 2
		}
		sym.Assert(m.Verify(priv(admin)) == nil, "the request is signed by the admin")
		return w.answer(k, m)
	}
	return w
}

func (w *world) answer(k int, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	signer := k
	if w.url == "ga4" {
		signer = 4
	}
	a, err := w.serve(k, m, w.fault != 6)
	sym.Assume(err == nil)
	switch w.fault {
	case 1:
		signer = 3 - k
	case 2:
		return a, nil
	case 4:
		signer = 6
	case 5:
		a, err = fcrmessages.EncodeClientEstablishmentResponse(node(k), "challenge")
		sym.Assume(err == nil)
	case 7:
		return nil, errors.New("nobody there")
	}
	sym.Assume(a.Sign(priv(signer), version(1)) == nil)
	if w.fault == 3 {
		no, err := w.serve(k, m, false)
		sym.Assume(err == nil && no.Sign(priv(k), version(1)) == nil)
		return mixed(a, no), nil
	}
	return a, nil
}

type wire struct {
	MessageType       int32   `json:"message_type"`
	ProtocolVersion   int32   `json:"protocol_version"`
	ProtocolSupported []int32 `json:"protocol_supported"`
	MessageBody       string  `json:"message_body"`
	Signature         string  `json:"message_signature"`
}

// mixed is the first message with the signature of the second one
func mixed(a, b *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	var x, y wire
	for _, p := range []struct {
		m *fcrmessages.FCRMessage
		w *wire
	}{{a, &x}, {b, &y}} {
		d, err := json.Marshal(p.m)
		sym.Assume(err == nil && json.Unmarshal(d, p.w) == nil)
	}
	sym.Assume(x.Signature != "" && y.Signature != "" && x.MessageBody != y.MessageBody)
	x.Signature = y.Signature
	d, err := json.Marshal(x)
	var m fcrmessages.FCRMessage
	sym.Assume(err == nil && json.Unmarshal(d, &m) == nil)
	return &m
}

func same(a, b *fcrcrypto.KeyPair) bool {
	if a == nil {
		return false
	}
	return a.EncodePrivateKey() == b.EncodePrivateKey()
}

func sameVersion(a, b *fcrcrypto.KeyVersion) bool {
	return a != nil && a.EncodeKeyVersion() == b.EncodeKeyVersion()
}
