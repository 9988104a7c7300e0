package fcrprovideradmin

import (
	"errors"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

var texts bool // whether the texts of a wallet may be empty

// initialisation with and without a wallet
func (w *world) initialise(v2 bool, k int, upper bool) error {
	ver := version(sym.Uint32("key version"))
	key := priv(fresh)
	var wallet [3]string
	if v2 {
		full := 3
		if texts {
			full = sym.Choose("texts that are not empty", 4)
		}
		for i, t := range []string{"wallet", "lotus", "token"} {
			if i < full {
				wallet[i] = sym.String(t, i+1)
			}
		}
	}
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the provider that is named is asked")
		if v2 {
			id, p, v, a, b, c, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2(m)
			sym.Assert(err == nil && kit.SameNode(id, node(k)) && same(p, key) && sameVersion(v, ver) && [3]string{a, b, c} == wallet, "the provider gets its id, key and wallet")
		} else {
			id, p, v, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequest(m)
			sym.Assert(err == nil && kit.SameNode(id, node(k)) && same(p, key) && sameVersion(v, ver), "the provider gets its id and key")
		}
		return fcrmessages.EncodeProviderAdminInitialiseKeyResponse(ok)
	}
	if v2 {
		return w.admin.InitialiseProviderV2(provider(k, upper), key, ver, wallet[0], wallet[1], wallet[2])
	}
	return w.admin.InitialiseProvider(provider(k, upper), key, ver)
}

func (w *world) refresh(k int) error {
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the provider that is named is asked")
		yes, err := fcrmessages.DecodeProviderAdminForceRefreshRequest(m)
		sym.Assert(err == nil && yes, "the provider is asked to refresh")
		return fcrmessages.EncodeProviderAdminForceRefreshResponse(ok)
	}
	return w.admin.ForceUpdate(node(k))
}

func (w *world) publishGroup(k, pieces int) error {
	l := kit.CIDs("piece", pieces)
	price, expiry, qos := sym.Uint64("price"), sym.Int64("expiry"), sym.Uint64("qos")
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the provider that is named is asked")
		c, p, e, q, err := fcrmessages.DecodeProviderAdminPublishGroupOfferRequest(m)
		sym.Assert(err == nil && kit.SameCIDs(c, l) && p == price && e == expiry && q == qos, "the provider gets the pieces and the terms")
		return fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(ok)
	}
	return w.admin.PublishGroupCID(node(k), append([]cid.ContentID{}, l...), price, expiry, qos)
}

var uneven int

func (w *world) publishDHT(k, pieces int) error {
	l := kit.CIDs("piece", pieces)
	var price, qos []uint64
	var expiry []int64
	for range l {
		price = append(price, sym.Uint64("price"))
		expiry = append(expiry, sym.Int64("expiry"))
		qos = append(qos, sym.Uint64("qos"))
	}
	switch uneven { // the lists need not be of one length
	case 1:
		price = append(price, sym.Uint64("price"))
	case 2:
		expiry = append(expiry, sym.Int64("expiry"))
	case 3:
		qos = append(qos, sym.Uint64("qos"))
	case 4:
		price, expiry, qos = nil, nil, nil
	}
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the provider that is named is asked")
		c, p, e, q, err := fcrmessages.DecodeProviderAdminPublishDHTOfferRequest(m)
		fine := err == nil && kit.SameCIDs(c, l) && len(p) == len(price) && len(e) == len(expiry) && len(q) == len(qos)
		for i := 0; fine && i < len(p); i++ {
			fine = p[i] == price[i]
		}
		for i := 0; fine && i < len(e); i++ {
			fine = e[i] == expiry[i]
		}
		for i := 0; fine && i < len(q); i++ {
			fine = q[i] == qos[i]
		}
		sym.Assert(fine, "the provider gets the pieces and the terms of each")
		return fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(ok)
	}
	return w.admin.PublishDHTCID(node(k), append([]cid.ContentID{}, l...), append([]uint64{}, price...), append([]int64{}, expiry...), append([]uint64{}, qos...))
}

// published asks for the published offers
func (w *world) published(k, gateways, most int) error {
	var ids []nodeid.NodeID
	for i := 0; i < gateways; i++ {
		ids = append(ids, *kit.NodeID("gateway"))
	}
	var offers []cidoffer.CIDOffer
	for i := 0; i < most; i++ {
		o, err := cidoffer.NewCIDOffer(node(k), kit.CIDs("piece", 1+i), sym.Uint64("price"), sym.Int64("expiry"), sym.Uint64("qos"))
		sym.Assume(err == nil && o.Sign(priv(k), version(1)) == nil)
		offers = append(offers, *o)
	}
	exists := sym.Choose("exists", 2) == 1
	w.serve = func(to int, m *fcrmessages.FCRMessage, ok bool) (*fcrmessages.FCRMessage, error) {
		sym.Assert(to == k, "the provider that is named is asked")
		l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferRequest(m)
		fine := err == nil && len(l) == len(ids)
		for i := 0; fine && i < len(l); i++ {
			fine = kit.SameNode(&l[i], &ids[i])
		}
		sym.Assert(fine, "the provider is asked for the offers of the gateways")
		return fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(exists == ok, offers)
	}
	found, l, err := w.admin.GetGroupCIDOffer(node(k), append([]nodeid.NodeID{}, ids...))
	if err != nil {
		sym.Assert(!found && len(l) == 0, "no offers without an answer")
		return err
	}
	sym.Assert(found == exists == (w.fault != 6) && len(l) == len(offers), "the offers are the provider's")
	for i := range l {
		a, b := &l[i], &offers[i]
		sym.Assert(kit.SameNode(a.GetProviderID(), b.GetProviderID()) && kit.SameCIDs(a.GetCIDs(), b.GetCIDs()) && a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS() && a.GetSignature() == b.GetSignature(), "the offers are the provider's")
	}
	if w.fault == 6 { // there is no refusal
		return errors.New("refused")
	}
	return nil
}

const commands = 4

func (w *world) command(c, k, size int) error {
	switch c {
	case 0:
		return w.refresh(k)
	case 1:
		return w.publishGroup(k, size)
	case 2:
		return w.publishDHT(k, size)
	}
	return w.published(k, size, size)
}

func VerifC33_request() {
	texts = true
	w := start(version(sym.Uint32("admin key version")))
	w.fault = sym.Choose("fault", faults)
	upper := sym.Choose("upper case", 2) == 1
	err := w.initialise(sym.Choose("wallet", 2) == 1, 1, upper)
	sym.Assert(w.sent == 1, "one request is sent")
	sym.Assert((err == nil) == (w.fault == 0), "the call succeeds when the provider says so")
	w.sent = 0
	started := w.fault == 0
	w.fault = 0
	err = w.command(sym.Choose("command", commands), 1, 1)
	sym.Assert((err == nil) == started && w.sent == b2i(started), "the provider can be used when the call succeeded")
	sym.Assert(w.command(sym.Choose("command", commands), 2, 1) != nil && w.sent == b2i(started), "another provider cannot be used")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func VerifC33_command() {
	w := start(version(1))
	sym.Assume(w.initialise(false, 1, false) == nil)
	w.sent = 0
	w.fault = sym.Choose("fault", faults)
	c := sym.Choose("command", commands)
	if c == 2 {
		uneven = sym.Choose("uneven", 5)
	}
	err := w.command(c, 1, sym.Choose("size", sym.Bound("pieces, offers and gateways", 3, 5)))
	sym.Assert(w.sent == 1, "one request is sent")
	sym.Assert((err == nil) == (w.fault == 0), "the command succeeds when the provider says so")
	w.fault, uneven = 0, 0
	sym.Assert(w.command(sym.Choose("next command", commands), 1, 1) == nil, "the provider can be used again")
}

func VerifC33_nobody() {
	w := start(version(1))
	var err error
	calls := []func(){
		func() { err = w.admin.ForceUpdate(nil) },
		func() { err = w.admin.PublishGroupCID(nil, kit.CIDs("piece", 1), 1, 1, 1) },
		func() { err = w.admin.PublishDHTCID(nil, kit.CIDs("piece", 1), []uint64{1}, []int64{1}, []uint64{1}) },
		func() { _, _, err = w.admin.GetGroupCIDOffer(nil, nil) },
	}
	c := sym.Choose("call", len(calls))
	sym.Assert(!sym.Try(calls[c]) && err != nil && w.sent == 0, "no provider is no crash")
}

// a history of calls: the providers that can be used are those that were initialised once
func VerifC33_history() {
	w := start(version(1))
	var usable [3]bool
	for i, n := 0, sym.Bound("calls", 3, 4); i < n; i++ {
		k := 1 + sym.Choose("provider", 2)
		fine := sym.Choose("fine", 2) == 1
		w.sent, w.fault = 0, 7
		if fine {
			w.fault = 0
		}
		if sym.Choose("initialise", 2) == 1 {
			sym.Assert((w.initialise(i%2 == 1, k, false) == nil) == fine && w.sent == 1, "initialisation")
			usable[k] = usable[k] || fine
		} else {
			sym.Assert((w.command(i%commands, k, 1) == nil) == (fine && usable[k]) && w.sent == b2i(usable[k]), "a command is sent to a provider that can be used")
		}
	}
}

// calls of several threads neither race nor block each other for ever
func VerifC33_threads() {
	w := start(version(1))
	request.VerifHTTP.Send = func(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		a, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
		if _, e := fcrmessages.DecodeProviderAdminForceRefreshRequest(m); e == nil {
			a, err = fcrmessages.EncodeProviderAdminForceRefreshResponse(true)
		}
		k := 1
		if url == "pa2" {
			k = 2
		}
		sym.Assume(err == nil && a.Sign(priv(k), version(1)) == nil)
		return a, nil
	}
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 1, 2))
	var errs [3]error
	second := 1 + sym.Choose("second provider", 3) // 3: a command, too
	calls := []func() error{
		func() error { return w.admin.ForceUpdate(node(1)) },
		func() error { return w.admin.ForceUpdate(node(3)) },
		func() error { return w.admin.PublishGroupCID(node(3), nil, 1, 1, 1) },
		func() error { return w.admin.PublishDHTCID(node(3), nil, nil, nil, nil) },
		func() error { _, _, err := w.admin.GetGroupCIDOffer(node(3), nil); return err },
	}
	call := sym.Choose("call", len(calls))
	sym.Par(
		func() { errs[0] = w.admin.InitialiseProvider(provider(1, false), priv(fresh), version(2)) },
		func() {
			if second == 3 {
				sym.Assert(calls[call]() != nil || call == 0, "a command to none fails")
				return
			}
			errs[1] = w.admin.InitialiseProvider(provider(second, false), priv(fresh), version(2))
		},
		func() { errs[2] = calls[call]() },
	)
	sym.Assert(errs[0] == nil && errs[1] == nil, "both providers are initialised")
	sym.Assert(w.admin.ForceUpdate(node(1)) == nil && (second == 3 || w.admin.ForceUpdate(node(second)) == nil), "both providers can be used")
}

// a provider that moves is used as it was registered when a call with it succeeded last
func VerifC33_moved() {
	w := start(version(1))
	call := func() error { return w.initialise(sym.Choose("wallet", 2) == 1, 1, false) }
	at := ""
	for i := 0; i < 2; i++ {
		here := "pa1"
		if moved = sym.Choose("moved", 2) == 1; moved {
			here = "pa4"
		}
		w.fault = 7 * sym.Choose("fails", 2)
		err := call()
		sym.Assert(w.url == here && (err == nil) == (w.fault == 0), "the provider is asked as it is registered")
		if err == nil {
			at = here
		}
	}
	w.fault, w.url = 0, ""
	sym.Assert((w.command(sym.Choose("command", commands), 1, 1) == nil) == (at != "") && w.url == at, "a command goes to the provider as it was registered when a call with it succeeded last")
}
