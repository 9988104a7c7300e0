package fcrprovideradmin

import (
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

func VerifC36_admin() {
	b := CreateSettings()
	url, chain, key, ver := "http://register:9020", 0, -1, uint32(1)
	b.SetBlockchainPrivateKey(priv(0))
	for i, n := 0, sym.Bound("calls", 3, 4); i < n; i++ {
		switch sym.Choose("call", 4) {
		case 0:
			url = sym.String("url", 2)
			b.SetRegisterURL(url)
		case 1:
			chain = 3 + sym.Choose("blockchain key", 2)
			b.SetBlockchainPrivateKey(priv(chain))
		case 2:
			key, ver = 1+sym.Choose("admin key", 2), sym.Uint32("key version")
			b.SetProviderAdminPrivateKey(priv(key), version(ver))
		default:
			b.SetLogging("a", "b", "c")
		}
	}
	s := b.Build()
	sym.Assert(s.RegisterURL() == url && same(s.BlockchainPrivateKey(), priv(chain)) && s.ProviderAdminPrivateKey() != nil && sameVersion(s.ProviderAdminPrivateKeyVer(), version(ver)), "the settings are those that were set last, or the defaults")
	sym.Assert(key < 0 || same(s.ProviderAdminPrivateKey(), priv(key)), "the settings are those that were set last, or the defaults")
}

func VerifC36_adminKey() {
	b := CreateSettings()
	b.SetProviderAdminPrivateKey(priv(1), version(1))
	sym.Assert(sym.Try(func() { b.Build() }), "there are no settings without a blockchain key")
}
