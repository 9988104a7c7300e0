package fcrregistermgr

import (
	"encoding/json"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// what the manager must know: the last information of every gateway and provider listed so far
type book struct {
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister
}

func (b *book) gateway(g register.GatewayRegister) {
	for i := range b.gateways {
		if b.gateways[i].NodeID == g.NodeID {
			b.gateways[i] = g
			return
		}
	}
	b.gateways = append(b.gateways, g)
}

func (b *book) provider(g register.ProviderRegister) {
	for i := range b.providers {
		if b.providers[i].NodeID == g.NodeID {
			b.providers[i] = g
			return
		}
	}
	b.providers = append(b.providers, g)
}

func (b *book) check(mgr *FCRRegisterMgr, ids []*nodeid.NodeID) {
	for _, id := range ids {
		var want *register.GatewayRegister
		for i := range b.gateways {
			if b.gateways[i].NodeID == id.ToString() {
				want = &b.gateways[i]
			}
		}
		g := mgr.GetGateway(id)
		if want == nil {
			sym.Assert(g == nil, "a gateway that is not listed is not found")
		} else {
			sym.Assert(sameGateway(g, *want), "a listed gateway is found with its last information")
		}
		var wantP *register.ProviderRegister
		for i := range b.providers {
			if b.providers[i].NodeID == id.ToString() {
				wantP = &b.providers[i]
			}
		}
		p := mgr.GetProvider(id)
		if wantP == nil {
			sym.Assert(p == nil, "a provider that is not listed is not found")
		} else {
			sym.Assert(sameProvider(p, *wantP), "a listed provider is found with its last information")
		}
	}
	all := mgr.GetAllGateways()
	sym.Assert(len(all) == len(b.gateways), "all gateways are listed once")
	for _, w := range b.gateways {
		n := 0
		for _, g := range all {
			if sameGateway(g, w) {
				n++
			}
		}
		sym.Assert(n == 1, "every gateway is listed once with its last information")
	}
	allP := mgr.GetAllProviders()
	sym.Assert(len(allP) == len(b.providers), "all providers are listed once")
	for _, w := range b.providers {
		n := 0
		for _, g := range allP {
			if sameProvider(g, w) {
				n++
			}
		}
		sym.Assert(n == 1, "every provider is listed once with its last information")
	}
}

// the register changes between refreshes
func VerifC30_history() {
	srv, ids, b := serve(), nodes(2, 2), &book{}
	mgr := manager()
	sym.Assert(mgr.GetGateway(ids[0]) == nil && mgr.GetProvider(ids[0]) == nil, "nothing is found before the start")
	sym.Assert(mgr.GetAllGateways() == nil && mgr.GetAllProviders() == nil, "nothing is listed before the start")
	sym.Assert(mgr.Start() == nil, "the manager starts")
	sym.Assert(mgr.Start() != nil, "the manager starts once")
	n := sym.Bound("refreshes", 2, 3)
	for i := 0; i < n; i++ {
		srv.gateways, srv.providers = nil, nil
		for k := 0; k < 2; k++ {
			switch sym.Choose("change", 3) {
			case 1:
				srv.gateways = append(srv.gateways, gatewayOf(ids[k], i))
			case 2:
				srv.providers = append(srv.providers, providerOf(ids[k], i))
			}
		}
		srv.down = sym.Bool("register is down")
		if !srv.down {
			for _, g := range srv.gateways {
				b.gateway(g)
			}
			for _, p := range srv.providers {
				b.provider(p)
			}
		}
		mgr.Refresh()
		b.check(mgr, ids)
	}
}

// one detail of an entry changes between refreshes
func VerifC30_detail() {
	srv, ids, b := serve(), nodes(2, 2), &book{}
	g, p := gatewayOf(ids[0], 0), providerOf(ids[1], 0)
	srv.gateways, srv.providers = append(srv.gateways, g), append(srv.providers, p)
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	if sym.Bool("gateway") {
		f := []*string{&g.Address, &g.RootSigningKey, &g.SigningKey, &g.RegionCode, &g.NetworkInfoGateway, &g.NetworkInfoProvider, &g.NetworkInfoClient, &g.NetworkInfoAdmin}
		*f[sym.Choose("detail", len(f))] = "other"
	} else {
		f := []*string{&p.Address, &p.RootSigningKey, &p.SigningKey, &p.RegionCode, &p.NetworkInfoGateway, &p.NetworkInfoClient, &p.NetworkInfoAdmin}
		*f[sym.Choose("detail", len(f))] = "other"
	}
	srv.gateways[0], srv.providers[0] = g, p
	b.gateway(g)
	b.provider(p)
	mgr.Refresh()
	b.check(mgr, ids)
}

// a lookup that finds no gateway asks the register
func VerifC30_missing() {
	srv, ids := serve(), nodes(2, 2)
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	for i := 0; i < 2; i++ {
		sym.Assert(mgr.GetGateway(ids[1]) == nil, "a gateway that is not listed is not found")
		sym.Assert(mgr.GetProvider(ids[1]) == nil, "a provider that is not listed is not found")
	}
	srv.gateways = append(srv.gateways, gatewayOf(ids[0], 0))
	srv.providers = append(srv.providers, providerOf(ids[0], 0))
	sym.Assert(sameGateway(mgr.GetGateway(ids[0]), srv.gateways[0]), "a gateway that is new in the register is found at once")
	sym.Assert(mgr.GetGateway(ids[1]) == nil, "another gateway is not found")
	mgr.Refresh()
	sym.Assert(sameProvider(mgr.GetProvider(ids[0]), srv.providers[0]), "a listed provider is found")
	sym.Assert(mgr.GetProvider(ids[1]) == nil, "another provider is not found")
	srv.providers[0].Address = "moved"
	mgr.Refresh()
	sym.Assert(sameProvider(mgr.GetProvider(ids[0]), srv.providers[0]), "a provider's new information is found")
}

// what is no list of nodes, or holds entries that are none, changes nothing
func VerifC30_malformed() {
	srv, ids, b := serve(), nodes(2, 2), &book{}
	srv.gateways = append(srv.gateways, gatewayOf(ids[0], 0))
	srv.providers = append(srv.providers, providerOf(ids[0], 0))
	b.gateways, b.providers = srv.gateways, srv.providers
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	bodies := []string{"", "null", "[]", "{}", "7", "[null]", "[null,null]", "[7]", "[[]]", `"x"`, "[{]", "<html></html>"}
	srv.body = []byte(bodies[sym.Choose("body", len(bodies))])
	mgr.Refresh()
	srv.body = nil
	if sym.Bool("some more") {
		// an entry without a good id does no harm to the others
		bad := gatewayOf(ids[0], 1)
		bad.NodeID = []string{"", "AA", "not hex"}[sym.Choose("bad id", 3)]
		srv.gateways = append([]register.GatewayRegister{bad}, srv.gateways...)
		mgr.Refresh()
		c, err := cid.NewContentIDFromBytes(ids[1].ToBytes())
		sym.Assume(err == nil)
		near, err := mgr.GetGatewaysNearCID(c, 16, nil)
		sym.Assert(err == nil && len(near) == 1 && sameGateway(near[0], b.gateways[0]), "gateways are found next to entries with bad ids")
		sym.Assert(sameGateway(mgr.GetGateway(ids[0]), b.gateways[0]), "a gateway is found next to entries with bad ids")
		return
	}
	b.check(mgr, ids)
}

// gateways near a content id: the closest ones of those listed
func VerifC30_near() {
	srv := serve()
	n := sym.Bound("gateways", 3, 4)
	ids := shortNodes(n)
	order := sym.Choose("listed first", n)
	for i := range ids {
		srv.gateways = append(srv.gateways, gatewayOf(ids[(i+order)%n], (i+order)%n))
	}
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	c, err := cid.NewContentIDFromBytes(short("content"))
	sym.Assume(err == nil)
	num := sym.Choose("asked for", n+2)
	var skip *nodeid.NodeID
	left := n
	ex := sym.Choose("excluded", n+1)
	if ex < n {
		skip = ids[ex]
		left--
	}
	got, err := mgr.GetGatewaysNearCID(c, num, skip)
	sym.Assert(err == nil, "a search succeeds")
	want := num
	if want > left {
		want = left
	}
	sym.Assert(len(got) == want, "a search finds as many as there are")
	in := make([]bool, n)
	for _, g := range got {
		hit := -1
		for i := range ids {
			if sameGateway(g, gatewayOf(ids[i], i)) {
				hit = i
			}
		}
		sym.Assert(hit >= 0 && hit != ex, "only listed gateways are found, and not the excluded one")
		if hit >= 0 {
			sym.Assert(!in[hit], "a gateway is found once")
			in[hit] = true
		}
	}
	for i := range ids {
		for j := range ids {
			if in[i] && !in[j] && j != ex {
				sym.Assert(!closer(ids[j], ids[i], c), "no gateway left out is closer")
			}
		}
	}
}

// closer is for ids whose bytes other than the first are 0: a is strictly closer to c than b
func closer(a, b *nodeid.NodeID, c *cid.ContentID) bool { return away(a, c) < away(b, c) }

// the distance on the circle
func away(a *nodeid.NodeID, c *cid.ContentID) int {
	d := int(a.ToBytes()[0]) - int(c.ToBytes()[0])
	if d < 0 {
		d = -d
	}
	if 256-d < d {
		return 256 - d
	}
	return d
}

// never more than sixteen
func VerifC30_sixteen() {
	srv := serve()
	n := 18
	for i := 0; i < n; i++ {
		b := make([]byte, 32)
		b[0] = byte(10 * i)
		id, err := nodeid.NewNodeIDFromBytes(b)
		sym.Assume(err == nil)
		srv.gateways = append(srv.gateways, gatewayOf(id, i))
	}
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	num := sym.IntRange("asked for", 14, 1000)
	c, err := cid.NewContentIDFromBytes(make([]byte, 32))
	sym.Assume(err == nil)
	got, err := mgr.GetGatewaysNearCID(c, num, nil)
	want := num
	if want > 16 {
		want = 16
	}
	sym.Assert(err == nil && len(got) == want, "a search finds up to sixteen")
}

// the range of a gateway spans its closest neighbours
func VerifC30_range() {
	srv := serve()
	n := sym.Choose("gateways", sym.Bound("gateways", 3, 4)) + 1
	ids := ascendingNodes(n)
	for i := range ids {
		srv.gateways = append(srv.gateways, gatewayOf(ids[i], i))
	}
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	k := sym.Choose("of", n)
	lo, hi, err := mgr.GetGatewayCIDRange(ids[k])
	if n < 3 {
		sym.Assert(err != nil, "without two neighbours there is no range")
		return
	}
	sym.Assert(err == nil && lo != nil && hi != nil, "a gateway has a range")
	c, err := cid.NewContentIDFromBytes(ids[k].ToBytes())
	sym.Assume(err == nil)
	near, err := mgr.GetGatewaysNearCID(c, 16, ids[k])
	sym.Assert(err == nil && len(near) == n-1, "all others are near")
	sym.Assert(lo.ToString() == near[0].GetNodeID() && hi.ToString() == near[len(near)-1].GetNodeID(), "the range goes from the first to the last of the closest neighbours")
}

// registering sends the node's own information
func VerifC30_registering() {
	srv, ids := serve(), nodes(1, 2)
	mgr := manager()
	srv.down = sym.Bool("register is down")
	g, p := gatewayOf(ids[0], 0), providerOf(ids[0], 1)
	err := mgr.RegisterGateway(&g)
	errP := mgr.RegisterProvider(&p)
	sym.Assert((err != nil) == srv.down && (errP != nil) == srv.down, "a register that is down is reported")
	if !srv.down {
		sym.Assert(len(srv.posted) == 2, "two registrations")
		a, err := json.Marshal(srv.posted[0])
		sym.Assert(err == nil, "a registration is JSON")
		var g2 register.GatewayRegister
		sym.Assert(json.Unmarshal(a, &g2) == nil && g2 == g, "a gateway registers with its information")
		a, err = json.Marshal(srv.posted[1])
		sym.Assert(err == nil, "a registration is JSON")
		var p2 register.ProviderRegister
		sym.Assert(json.Unmarshal(a, &p2) == nil && p2 == p, "a provider registers with its information")
	}
}

// a manager that does not discover a kind of node knows none of that kind
func VerifC30_kinds() {
	srv, ids := serve(), nodes(2, 2)
	srv.gateways = append(srv.gateways, gatewayOf(ids[0], 0))
	srv.providers = append(srv.providers, providerOf(ids[0], 0))
	pvd, gw := sym.Bool("discovers providers"), sym.Bool("discovers gateways")
	mgr := NewFCRRegisterMgr("http://register", pvd, gw, time.Hour)
	c := kit.WideCID("content", 2)
	if sym.Bool("started") {
		sym.Assert(mgr.Start() == nil, "the manager starts")
		mgr.Refresh()
		sym.Assert(sameGateway(mgr.GetGateway(ids[0]), srv.gateways[0]) == gw, "gateways are found if they are discovered")
		sym.Assert(sameProvider(mgr.GetProvider(ids[0]), srv.providers[0]) == pvd, "providers are found if they are discovered")
		got, err := mgr.GetGatewaysNearCID(c, 5, nil)
		sym.Assert((err == nil && len(got) == 1) == gw, "gateways are near if they are discovered")
	} else {
		sym.Assert(mgr.GetGateway(ids[0]) == nil && mgr.GetProvider(ids[0]) == nil, "nothing is found before the start")
		got, _ := mgr.GetGatewaysNearCID(c, 5, nil)
		sym.Assert(len(got) == 0, "nothing is near before the start")
		mgr.Refresh()
		mgr.Shutdown()
		mgr.ShutdownAndWait()
	}
}

// after a shutdown nothing is found; started again, the manager goes by what is listed then
func VerifC30_restart() {
	srv, ids := serve(), nodes(2, 2)
	srv.gateways = append(srv.gateways, gatewayOf(ids[0], 0))
	srv.providers = append(srv.providers, providerOf(ids[0], 0))
	mgr := manager()
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	if sym.Bool("wait") {
		mgr.ShutdownAndWait()
	} else {
		mgr.Shutdown()
	}
	sym.Assert(mgr.GetGateway(ids[0]) == nil && mgr.GetProvider(ids[0]) == nil, "nothing is found after a shutdown")
	sym.Assert(len(mgr.GetAllGateways()) == 0 && len(mgr.GetAllProviders()) == 0, "nothing is listed after a shutdown")
	srv.gateways = []register.GatewayRegister{gatewayOf(ids[1], 1)}
	srv.providers = nil
	sym.Assert(mgr.Start() == nil, "the manager starts again")
	mgr.Refresh()
	c := kit.WideCID("content", 2)
	_, err := mgr.GetGatewaysNearCID(c, 5, nil)
	sym.Assert(err == nil, "searches work after a restart")
}

// lookups of gateways while the list is refreshed
//
//verif:time 100 500
func VerifC30_threadsGateways() {
	srv, ids := serve(), nodes(2, 2)
	for i := 0; i < 1; i++ {
		srv.gateways = append(srv.gateways, gatewayOf(ids[i], i))
	}
	mgr := NewFCRRegisterMgr("http://register", false, true, time.Hour)
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	kind := sym.Choose("lookup", 4)
	b := append([]register.GatewayRegister{}, srv.gateways...)
	srv.gateways = append(append([]register.GatewayRegister{}, b...), gatewayOf(ids[1], 2))
	srv.gateways[0].Address = "moved"
	c, err := cid.NewContentIDFromBytes(ids[0].ToBytes())
	sym.Assume(err == nil)
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 1, 2))
	sym.Par(func() {
		mgr.Refresh()
		sym.Assert(sameGateway(mgr.GetGateway(ids[1]), srv.gateways[1]), "what was refreshed is found")
	}, func() {
		switch kind {
		case 0:
			g := mgr.GetGateway(ids[0])
			sym.Assert(sameGateway(g, b[0]) || sameGateway(g, srv.gateways[0]), "the old or the new information is found")
		case 1:
			got, err := mgr.GetGatewaysNearCID(c, 16, nil)
			sym.Assert(err == nil && (len(got) == 1 || len(got) == 2), "a search finds the old or the new gateways")
			for _, g := range got {
				sym.Assert(g != nil, "a search finds gateways")
			}
		case 2:
			mgr.GetGatewayCIDRange(ids[0])
			n := len(mgr.GetAllGateways())
			sym.Assert(n == 1 || n == 2, "the old or the new gateways are listed")
		case 3:
			mgr.Refresh()
			sym.Assert(sameGateway(mgr.GetGateway(ids[0]), srv.gateways[0]), "what was refreshed is found by another thread")
		}
	})
	got, err := mgr.GetGatewaysNearCID(c, 16, nil)
	sym.Assert(err == nil && len(got) == 2, "all gateways are found in the end")
}

// lookups of providers while the list is refreshed
func VerifC30_threadsProviders() {
	srv, ids := serve(), nodes(2, 2)
	for i := 0; i < 1; i++ {
		srv.providers = append(srv.providers, providerOf(ids[i], i))
	}
	mgr := NewFCRRegisterMgr("http://register", true, false, time.Hour)
	sym.Assert(mgr.Start() == nil, "the manager starts")
	mgr.Refresh()
	kind := sym.Choose("lookup", 3)
	b := append([]register.ProviderRegister{}, srv.providers...)
	srv.providers = append(append([]register.ProviderRegister{}, b...), providerOf(ids[1], 2))
	srv.providers[0].Address = "moved"
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 1, 2))
	sym.Par(func() {
		mgr.Refresh()
		sym.Assert(sameProvider(mgr.GetProvider(ids[1]), srv.providers[1]), "what was refreshed is found")
	}, func() {
		switch kind {
		case 0:
			p := mgr.GetProvider(ids[1])
			sym.Assert(p == nil || sameProvider(p, srv.providers[1]), "none or the new information is found")
			p = mgr.GetProvider(ids[0])
			sym.Assert(sameProvider(p, b[0]) || sameProvider(p, srv.providers[0]), "the old or the new information is found")
		case 1:
			n := len(mgr.GetAllProviders())
			sym.Assert(n == 1 || n == 2, "the old or the new providers are listed")
		case 2:
			mgr.Refresh()
			sym.Assert(sameProvider(mgr.GetProvider(ids[0]), srv.providers[0]), "what was refreshed is found by another thread")
		}
	})
	sym.Assert(len(mgr.GetAllProviders()) == 2, "all providers are listed in the end")
}
