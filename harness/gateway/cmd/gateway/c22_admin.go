package main

import (
	"errors"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
)

const forever = 1 << 60

// clientRequest is a request of each kind that clients make; the last 4 are paid
func clientRequest(k int) *fcrmessages.FCRMessage {
	switch k {
	case 0:
		return encoded(fcrmessages.EncodeClientEstablishmentRequest(node(7), "challenge", forever))
	case 1:
		return encoded(fcrmessages.EncodeClientStandardDiscoverRequest(piece(1), 1, forever, "", ""))
	case 2:
		return encoded(fcrmessages.EncodeClientDHTDiscoverRequest(piece(1), 1, forever, 2, false, "", ""))
	case 3:
		return encoded(fcrmessages.EncodeClientStandardDiscoverRequestV2(piece(1), 1, forever, "channel", "voucher"))
	case 4:
		return encoded(fcrmessages.EncodeClientDHTDiscoverRequestV2(piece(1), 1, forever, 2, false, "channel", "voucher"))
	case 5:
		o := offer(5, 3, 1)
		return encoded(fcrmessages.EncodeClientStandardDiscoverOfferRequest(piece(1), 1, forever, []string{digest(&o)}, "channel", "voucher"))
	}
	return encoded(fcrmessages.EncodeClientDHTDiscoverOfferRequest(piece(1), 1, [][]string{{"digest"}}, []nodeid.NodeID{*node(1)}, "channel", "voucher"))
}

// adminRequest is a request of each kind that the admin makes of a gateway that has its key
func adminRequest(k int) *fcrmessages.FCRMessage {
	switch k {
	case 0:
		return encoded(fcrmessages.EncodeGatewayAdminForceRefreshRequest(true))
	case 1:
		return encoded(fcrmessages.EncodeGatewayAdminGetReputationRequest(node(7)))
	case 2:
		return encoded(fcrmessages.EncodeGatewayAdminSetReputationRequest(node(7), 5))
	case 3:
		return encoded(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true))
	}
	return encoded(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(node(self), []nodeid.NodeID{*node(5)}))
}

// peerRequest is a request of each kind that gateways (2 paid ones) and providers make, and the port for it
func peerRequest(k int) (string, *fcrmessages.FCRMessage) {
	o := offer(5, 9, 1)
	switch k {
	case 0:
		m, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(node(1), piece(1), 1, forever, "", "")
		return gatewayPort, signed(1, m, err)
	case 1:
		m, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(node(5), 1, &o)
		return providerPort, signed(5, m, err)
	case 2:
		m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(node(5), 1, []cidoffer.CIDOffer{o})
		return providerPort, signed(5, m, err)
	case 3:
		m, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(node(1), piece(1), 1, forever, "channel", "voucher")
		return gatewayPort, signed(1, m, err)
	}
	return gatewayPort, signed2(1, []string{"digest"})
}

// idle: nothing happened
func (w *world) idle(stored int) {
	sym.Assert(len(w.sent) == 0 && len(w.paid) == 0 && len(w.topups) == 0 && len(w.received) == 0, "a request that is refused does nothing")
	sym.Assert(len(offermgr.VerifOffers) == stored && !core.GetSingleInstance().ReputationMgr.ClientExists(node(7)), "a request that is refused does nothing")
}

func refusedPeer(l []*fcrmessages.FCRMessage) bool {
	for _, m := range l {
		if m.GetMessageType() != fcrmessages.InvalidMessageResponseType {
			return false
		}
	}
	return true
}

// a gateway without its key, or without its wallet, refuses what it needs them for
func VerifC22_uninitialised() {
	w := boot([]int{0, 1, 2}, []int{5, 6})
	things(1)
	w.value = func(channel, code string) (*big.Int, error) { return big.NewInt(1 << 40), nil }
	asked := w.asked
	wallet := sym.Bool("has key but no wallet")
	if wallet {
		m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(node(self), priv(self), version)
		a := fcrrestserver.VerifPost(adminPort, encoded(m, err))
		sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the gateway takes its key")
	}
	switch sym.Choose("from", 3) {
	case 0:
		k := sym.Choose("request", 7)
		sym.Assume(!wallet || k >= 3)
		a := fcrrestserver.VerifPost(clientPort, clientRequest(k))
		sym.Assert(a.Status != 200 && a.Message == nil, "a gateway without key or wallet refuses")
	case 1:
		sym.Assume(!wallet)
		a := fcrrestserver.VerifPost(adminPort, adminRequest(sym.Choose("request", 5)))
		sym.Assert(a.Status != 200 && a.Message == nil, "a gateway without key or wallet refuses")
	case 2:
		k := sym.Choose("request", 5)
		sym.Assume(!wallet || k >= 3)
		port, m := peerRequest(k)
		sym.Assert(refusedPeer(fcrp2pserver.VerifConnect(port, m)), "a gateway without key or wallet refuses")
	}
	sym.Settle()
	w.idle(3)
	sym.Assert(w.asked == asked, "a request that is refused does nothing")
	// and can still be set up
	w.initialise()
	a := fcrrestserver.VerifPost(clientPort, clientRequest(0))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the gateway takes its key")
}

// requests are served at the port for those who make them only
func VerifC22_ports() {
	w := boot([]int{0, 1, 2}, []int{5, 6})
	w.initialise()
	things(1)
	w.value = func(channel, code string) (*big.Int, error) { return big.NewInt(1 << 40), nil }
	asked := w.asked
	switch sym.Choose("from", 3) {
	case 0:
		a := fcrrestserver.VerifPost(adminPort, clientRequest(sym.Choose("request", 7)))
		sym.Assert(a.Status != 200 && a.Message == nil, "a request at the port for others is refused")
	case 1:
		k := sym.Choose("request", 7)
		var m *fcrmessages.FCRMessage
		if k < 5 {
			m = adminRequest(k)
		} else if k == 5 {
			m = encoded(fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(node(3), priv(3), version))
		} else {
			m = encoded(fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(node(3), priv(3), version, "w", "l", "t"))
		}
		a := fcrrestserver.VerifPost(clientPort, m)
		sym.Assert(a.Status != 200 && a.Message == nil, "a request at the port for others is refused")
	case 2:
		port, m := peerRequest(sym.Choose("request", 5))
		if port == gatewayPort {
			port = providerPort
		} else {
			port = gatewayPort
		}
		sym.Assert(refusedPeer(fcrp2pserver.VerifConnect(port, m)), "a request at the port for others is refused")
	}
	sym.Settle()
	w.idle(3)
	sym.Assert(w.asked == asked, "a request that is refused does nothing")
	a := fcrrestserver.VerifPost(clientPort, clientRequest(0))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the gateway keeps its key")
}

// the key and the wallet that the admin gives
func VerifC22_initialise() {
	w := boot([]int{1}, nil)
	first := sym.Choose("first", 3)
	v3, v := kit.Version("version"), kit.Version("version")
	if first == 1 {
		m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(node(3), priv(3), v3)
		fcrrestserver.VerifPost(adminPort, encoded(m, err))
	} else if first == 2 {
		m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(node(3), priv(3), v3, "wallet3", "lotus3", "token3")
		fcrrestserver.VerifPost(adminPort, encoded(m, err))
	}
	made := len(w.wallet)
	bad, plain := sym.Bool("bad wallet"), false
	if bad {
		w.newPay = errors.New("bad wallet")
	} else {
		plain = sym.Bool("no wallet")
	}
	var a *fcrrestserver.VerifAnswer
	if plain {
		a = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(node(self), priv(self), v)))
	} else {
		a = fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(node(self), priv(self), v, "wallet", "lotus", "token")))
		sym.Assert(len(w.wallet) == made+3 && w.wallet[made] == "wallet" && w.wallet[made+1] == "lotus" && w.wallet[made+2] == "token", "the wallet is the one the admin gives")
	}
	k := self
	if bad {
		sym.Assert(a.Status != 200, "a wallet that does not work is refused")
		k, v = 3, v3
	} else {
		sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message) && versioned(a.Message, v), "the gateway takes its key")
	}
	a = fcrrestserver.VerifPost(clientPort, clientRequest(0))
	if bad && first == 0 {
		sym.Assert(a.Status != 200, "a gateway without key or wallet refuses")
		return
	}
	sym.Assert(a.Status == 200 && a.Message != nil, "the gateway has the key that the admin gave it last")
	sym.Assume(a.Status == 200 && a.Message != nil)
	id, _, err := fcrmessages.DecodeClientEstablishmentResponse(a.Message)
	sym.Assert(err == nil && kit.SameNode(id, node(k)) && by(k, a.Message) && versioned(a.Message, v), "the gateway has the key that the admin gave it last")
}

func VerifC22_reputation() {
	w := boot([]int{1}, nil)
	w.initialise()
	mgr := core.GetSingleInstance().ReputationMgr
	known := map[int]int64{}
	for k := 6; k < 8; k++ {
		if sym.Bool("known") {
			mgr.ClientEstablishmentChallenge(node(k))
			known[k], _ = mgr.GetClientReputation(node(k))
		}
	}
	rounds := sym.Bound("requests", 2, 3)
	for i := 0; i < rounds; i++ {
		k := 6 + sym.Choose("client", 2)
		want, exists := known[k]
		if sym.Bool("set") {
			v := sym.Int64("reputation")
			a := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminSetReputationRequest(node(k), v)))
			sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
			id, got, ok, err := fcrmessages.DecodeGatewayAdminSetReputationResponse(a.Message)
			sym.Assert(err == nil && kit.SameNode(id, node(k)) && ok == exists && (!ok || got == v), "the admin is told what the reputation is now")
			if exists {
				known[k] = v
			}
			continue
		}
		a := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminGetReputationRequest(node(k))))
		sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
		id, got, ok, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(a.Message)
		sym.Assert(err == nil && kit.SameNode(id, node(k)) && ok == exists && (!ok || got == want), "the admin is told the reputation")
	}
	for k := 6; k < 8; k++ {
		got, ok := mgr.GetClientReputation(node(k))
		want, exists := known[k]
		sym.Assert(ok == exists && (!ok || got == want), "the reputation is what the admin set")
	}
}

func VerifC22_refresh() {
	w := boot([]int{1}, []int{5})
	w.initialise()
	w.gateways = append(w.gateways, gatewayInfo(2))
	w.providers = append(w.providers, providerInfo(6))
	asked := w.asked
	refresh := sym.Bool("refresh")
	a := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeGatewayAdminForceRefreshRequest(refresh)))
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
	ok, err := fcrmessages.DecodeGatewayAdminForceRefreshResponse(a.Message)
	sym.Assert(err == nil && ok == refresh, "the admin is told whether the register was asked")
	if !refresh {
		sym.Assert(w.asked == asked, "the register is asked if the admin wants it")
		return
	}
	mgr := core.GetSingleInstance().RegisterMgr
	asked = w.asked
	sym.Assert(len(mgr.GetAllGateways()) == 2 && len(mgr.GetAllProviders()) == 2 && w.asked == asked, "the register is asked before the admin is answered")
}

// the providers whose group offers are supported are told so
func VerifC22_groups() {
	w := boot([]int{0, 1}, []int{5, 6, 7})
	w.initialise()
	kind := map[string]int{"pg5": sym.Choose("peer 5", 3), "pg6": sym.Choose("peer 6", 3), "pg7": sym.Choose("peer 7", 3)}
	listed := [3]bool{sym.Bool("5 is listed"), sym.Bool("6 is listed"), sym.Bool("7 is listed")}
	var l []nodeid.NodeID
	for i, b := range listed {
		if b {
			l = append(l, *node(5 + i))
		}
	}
	told := [3]int{}
	w.answer = func(to string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
		id, yes, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
		sym.Assert(err == nil && by(self, m) && kit.SameNode(id, node(self)), "a provider is told in a message that is signed")
		i := int(to[2] - '5')
		sym.Assert(yes == listed[i], "a provider is told whether it is listed")
		told[i]++
		if kind[to] == 0 {
			return nil
		}
		a, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(kind[to] == 1)
		return []*fcrmessages.FCRMessage{signed(5+i, a, err)}
	}
	a := fcrrestserver.VerifPost(adminPort, encoded(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(node(self), l)))
	sym.Settle()
	sym.Assert(a.Status == 200 && a.Message != nil && by(self, a.Message), "the admin is answered")
	sym.Assume(a.Status == 200 && a.Message != nil)
	ok, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportResponse(a.Message)
	sym.Assert(err == nil && ok, "the admin is answered")
	for i := range listed {
		sym.Assert(!listed[i] || told[i] == 1, "each listed provider is told once")
	}
}
