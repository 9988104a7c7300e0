package fcrclient

import (
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// wanted is what settings are built from
type wanted struct {
	url, wallet, lotus, token string
	ttl                       int64
	search, offer, topup      uint64
	chain, retrieval          int
	version                   uint32
}

func big64(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func (w *wanted) has(s *ClientSettings) bool {
	key := s.RetrievalPrivateKey() != nil && s.RetrievalPrivateKeyVer() != nil && s.RetrievalPrivateKeyVer().EncodeKeyVersion() == w.version
	if key && w.retrieval >= 0 {
		key = s.RetrievalPrivateKey().EncodePrivateKey() == priv(w.retrieval).EncodePrivateKey()
	}
	return key && s.RegisterURL() == w.url && s.WalletPrivateKey() == w.wallet && s.LotusAP() == w.lotus && s.LotusAuthToken() == w.token &&
		s.EstablishmentTTL() == w.ttl && s.SearchPrice().Cmp(big64(w.search)) == 0 && s.OfferPrice().Cmp(big64(w.offer)) == 0 &&
		s.TopUpAmount().Cmp(big64(w.topup)) == 0 && s.BlockchainPrivateKey().EncodePrivateKey() == priv(w.chain).EncodePrivateKey() && s.ClientID() != nil
}

func (w *wanted) set(b *SettingsBuilder, call int) {
	switch call {
	case 0:
		w.url = sym.String("url", 2)
		b.SetRegisterURL(w.url)
	case 1:
		w.wallet = sym.String("wallet", 2)
		b.SetWalletPrivateKey(w.wallet)
	case 2:
		w.lotus = sym.String("lotus", 2)
		b.SetLotusAP(w.lotus)
	case 3:
		w.token = sym.String("token", 2)
		b.SetLotusAuthToken(w.token)
	case 4:
		w.ttl = sym.Int64("ttl")
		b.SetEstablishmentTTL(w.ttl)
	case 5:
		w.search = sym.Uint64("search price")
		b.SetSearchPrice(big64(w.search))
	case 6:
		w.offer = sym.Uint64("offer price")
		b.SetOfferPrice(big64(w.offer))
	case 7:
		w.topup = sym.Uint64("top up amount")
		b.SetTopUpAmount(big64(w.topup))
	case 8:
		w.retrieval, w.version = 1+sym.Choose("retrieval key", 2), sym.Uint32("key version")
		b.SetRetrievalPrivateKey(priv(w.retrieval), fcrcrypto.DecodeKeyVersion(w.version))
	case 9:
		w.chain = 3 + sym.Choose("blockchain key", 2)
		b.SetBlockchainPrivateKey(priv(w.chain))
	default:
		b.SetLogging("a", "b", "c")
	}
}

func newWanted() *wanted {
	return &wanted{url: "http://register:9020", ttl: 100, search: 1000000000000000, offer: 1000000000000000, topup: 100000000000000000, retrieval: -1, version: 1}
}

func VerifC36_client() {
	b, w := CreateSettings(), newWanted()
	b.SetBlockchainPrivateKey(priv(0))
	calls := sym.Bound("calls", 2, 3)
	if sym.Choose("all", 2) == 1 {
		for c := 10; c >= 0; c-- {
			w.set(b, c)
		}
		calls = 0
	}
	for i := 0; i < calls; i++ {
		w.set(b, sym.Choose("call", 11))
	}
	var s *ClientSettings
	sym.Assert(!sym.Try(func() { s = b.Build() }), "settings are built")
	sym.Assert(w.has(s), "the settings are those that were set last, or the defaults")
	old := *w
	if calls > 0 {
		return
	}
	w.set(b, sym.Choose("later call", 11))
	sym.Assert(old.has(s), "settings that were built stay as they are")
	sym.Assert(w.has(b.Build()), "the settings are those that were set last, or the defaults")
}

func VerifC36_clientKey() {
	b := CreateSettings()
	b.SetRetrievalPrivateKey(priv(1), version)
	sym.Assert(sym.Try(func() { b.Build() }), "there are no settings without a blockchain key")
}
