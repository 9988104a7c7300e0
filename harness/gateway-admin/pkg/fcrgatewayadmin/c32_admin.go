package fcrgatewayadmin

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/api/adminapi"
)

var texts bool // whether the texts of a wallet may be empty

// initialisation with and without a wallet
func (w *world) initialise(v2 bool, k int, upper bool) error {
	ver := version(sym.Uint32("key version"))
	key := priv(fresh)
	var wallet [3]string
	if v2 {
		full := 3
		if texts {
			full = sym.Choose("texts that are not empty", 4)
		}
		for i, t := range []string{"wallet", "lotus", "token"} {
			if i < full {
				wallet[i] = sym.String(t, i+1)
			}
		}
	}
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the gateway that is named is asked")
		if v2 {
			id, p, v, a, b, c, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2(m)
			sym.Assert(err == nil && kit.SameNode(id, node(k)) && same(p, key) && sameVersion(v, ver) && [3]string{a, b, c} == wallet, "the gateway gets its id, key and wallet")
		} else {
			id, p, v, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequest(m)
			sym.Assert(err == nil && kit.SameNode(id, node(k)) && same(p, key) && sameVersion(v, ver), "the gateway gets its id and key")
		}
		return fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(ok)
	}
	if v2 {
		return w.admin.InitialiseGatewayV2(gateway(k, upper), key, ver, wallet[0], wallet[1], wallet[2])
	}
	return w.admin.InitialiseGateway(gateway(k, upper), key, ver)
}

func (w *world) features(k int, upper bool, providers []nodeid.NodeID) error {
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the gateway that is named is asked")
		id, l, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(m)
		sym.Assert(err == nil && kit.SameNode(id, node(k)) && len(l) == len(providers), "the gateway gets its id and the providers")
		for i := range l {
			sym.Assert(kit.SameNode(&l[i], &providers[i]), "the gateway gets the providers")
		}
		return fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(ok)
	}
	return w.admin.UpdateGatewaySupportedFeatures(gateway(k, upper), append([]nodeid.NodeID{}, providers...))
}

// command is a refresh or a request to list DHT offers
func (w *world) command(list bool, k int) error {
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the gateway that is named is asked")
		if list {
			yes, err := fcrmessages.DecodeGatewayAdminListDHTOfferRequest(m)
			sym.Assert(err == nil && yes, "the gateway is asked to list offers")
			return fcrmessages.EncodeGatewayAdminListDHTOfferResponse(ok)
		}
		yes, err := fcrmessages.DecodeGatewayAdminForceRefreshRequest(m)
		sym.Assert(err == nil && yes, "the gateway is asked to refresh")
		return fcrmessages.EncodeGatewayAdminForceRefreshResponse(ok)
	}
	if list {
		return w.admin.ListDHTOffer(node(k))
	}
	return w.admin.ForceUpdate(node(k))
}

func providers(most int) (l []nodeid.NodeID) {
	for i, n := 0, sym.Choose("providers", most+1); i < n; i++ {
		l = append(l, *kit.NodeID("provider"))
	}
	return
}

func VerifC32_request() {
	texts = true
	w := start(version(sym.Uint32("admin key version")))
	w.fault = sym.Choose("fault", faults)
	upper := sym.Choose("upper case", 2) == 1
	var err error
	switch c := sym.Choose("call", 3); c {
	case 2:
		err = w.features(1, upper, providers(sym.Bound("providers", 2, 4)))
	default:
		err = w.initialise(c == 1, 1, upper)
	}
	sym.Assert(w.sent == 1, "one request is sent")
	sym.Assert((err == nil) == (w.fault == 0), "the call succeeds when the gateway says so")
	w.sent = 0
	started := w.fault == 0
	w.fault = 0
	err = w.command(sym.Choose("list", 2) == 1, 1)
	sym.Assert((err == nil) == started && w.sent == b2i(started), "the gateway can be used when the call succeeded")
	sym.Assert(w.command(sym.Choose("list", 2) == 1, 2) != nil && w.sent == b2i(started), "another gateway cannot be used")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func VerifC32_command() {
	w := start(version(1))
	sym.Assume(w.initialise(false, 1, false) == nil)
	w.sent = 0
	w.fault = sym.Choose("fault", faults)
	err := w.command(sym.Choose("list", 2) == 1, 1)
	sym.Assert(w.sent == 1, "one request is sent")
	sym.Assert((err == nil) == (w.fault == 0), "the command succeeds when the gateway says so")
	w.fault = 0
	sym.Assert(w.command(sym.Choose("list", 2) == 1, 1) == nil, "the gateway can be used again")
	var none error
	sym.Assert(!sym.Try(func() { none = w.admin.ForceUpdate(nil) }) && none != nil, "no gateway is no crash")
	sym.Assert(!sym.Try(func() { none = w.admin.ListDHTOffer(nil) }) && none != nil, "no gateway is no crash")
}

func VerifC32_reputation() {
	w := start(version(1))
	w.fault = sym.Choose("fault", faults)
	client, value := kit.NodeID("client"), sym.Int64("reputation")
	told, reply, exists := client, value, true
	set := sym.Choose("set", 2) == 1
	good := w.fault == 0
	switch sym.Choose("answer", 3) {
	case 1: // about another client
		told = kit.NodeID("other client")
		sym.Assume(!kit.SameNode(told, client))
		good = false
	case 2: // another value
		reply = sym.Int64("other reputation")
		sym.Assume(reply != value)
		good = good && !set
	}
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == 1, "the gateway that is named is asked")
		exists = ok
		if set {
			id, v, err := fcrmessages.DecodeGatewayAdminSetReputationRequest(m)
			sym.Assert(err == nil && kit.SameNode(id, client) && v == value, "the gateway gets the client and its reputation")
			return fcrmessages.EncodeGatewayAdminSetReputationResponse(told, reply, exists)
		}
		id, err := fcrmessages.DecodeGatewayAdminGetReputationRequest(m)
		sym.Assert(err == nil && kit.SameNode(id, client), "the gateway gets the client")
		return fcrmessages.EncodeGatewayAdminGetReputationResponse(told, reply, exists)
	}
	s := w.admin.Settings
	if set {
		ok, err := adminapi.NewAdminApi().RequestSetReputation(gateway(1, false), client, value, s.GatewayAdminPrivateKey(), s.GatewayAdminPrivateKeyVer())
		sym.Assert((err == nil) == good && ok == good, "the reputation is set when the gateway says so of this client and value")
	} else {
		v, err := adminapi.NewAdminApi().RequestGetReputation(gateway(1, false), client, s.GatewayAdminPrivateKey(), s.GatewayAdminPrivateKeyVer())
		sym.Assert((err == nil) == good, "the reputation is read when the gateway says so of this client")
		sym.Assert(err != nil || v == reply, "the reputation is the gateway's")
	}
	sym.Assert(w.sent == 1, "one request is sent")
}

// a history of calls: the gateways that can be used are those with which one call succeeded
func VerifC32_history() {
	w := start(version(1))
	var usable [3]bool
	for i, n := 0, sym.Bound("calls", 3, 4); i < n; i++ {
		k := 1 + sym.Choose("gateway", 2)
		fine := sym.Choose("fine", 2) == 1
		w.sent, w.fault = 0, 7
		if fine {
			w.fault = 0
		}
		switch c := sym.Choose("call", 3); c {
		case 0:
			sym.Assert((w.initialise(false, k, false) == nil) == fine && w.sent == 1, "initialisation")
			usable[k] = usable[k] || fine
		case 1:
			sym.Assert((w.features(k, false, nil) == nil) == fine && w.sent == 1, "features")
			usable[k] = usable[k] || fine
		default:
			sym.Assert((w.command(i%2 == 1, k) == nil) == (fine && usable[k]) && w.sent == b2i(usable[k]), "a command is sent to a gateway that can be used")
		}
	}
}

// calls of several threads neither race nor block each other for ever
func VerifC32_threads() {
	w := start(version(1))
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 1, 2))
	request.VerifHTTP.Send = func(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		a, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
		if _, e := fcrmessages.DecodeGatewayAdminForceRefreshRequest(m); e == nil {
			a, err = fcrmessages.EncodeGatewayAdminForceRefreshResponse(true)
		}
		k := 1
		if url == "ga2" {
			k = 2
		}
		sym.Assume(err == nil && a.Sign(priv(k), version(1)) == nil)
		return a, nil
	}
	var errs [3]error
	second := 1 + sym.Choose("second gateway", 3) // 3: a command, too
	calls := []func() error{
		func() error { return w.admin.ForceUpdate(node(1)) },
		func() error { return w.admin.ForceUpdate(node(3)) },
		func() error { return w.admin.ListDHTOffer(node(3)) },
	}
	call := sym.Choose("call", len(calls))
	sym.Par(
		func() { errs[0] = w.admin.InitialiseGateway(gateway(1, false), priv(fresh), version(2)) },
		func() {
			if second == 3 {
				sym.Assert(calls[call]() != nil || call == 0, "a command to none fails")
				return
			}
			errs[1] = w.admin.InitialiseGateway(gateway(second, false), priv(fresh), version(2))
		},
		func() { errs[2] = calls[call]() },
	)
	sym.Assert(errs[0] == nil && errs[1] == nil, "both gateways are initialised")
	sym.Assert(w.admin.ForceUpdate(node(1)) == nil && (second == 3 || w.admin.ForceUpdate(node(second)) == nil), "both gateways can be used")
}

// a gateway that moves is used as it was registered when a call with it succeeded last
func VerifC32_moved() {
	w := start(version(1))
	call := func() error {
		if sym.Choose("features", 2) == 1 {
			return w.features(1, false, nil)
		}
		return w.initialise(false, 1, false)
	}
	at := ""
	for i := 0; i < 2; i++ {
		here := "ga1"
		if moved = sym.Choose("moved", 2) == 1; moved {
			here = "ga4"
		}
		w.fault = 7 * sym.Choose("fails", 2)
		err := call()
		sym.Assert(w.url == here && (err == nil) == (w.fault == 0), "the gateway is asked as it is registered")
		if err == nil {
			at = here
		}
	}
	w.fault, w.url = 0, ""
	sym.Assert((w.command(sym.Choose("list", 2) == 1, 1) == nil) == (at != "") && w.url == at, "a command goes to the gateway as it was registered when a call with it succeeded last")
}
