package fcrclient

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// set of nodes
type set [9]bool

func (s set) size() (n int) {
	for _, b := range s {
		if b {
			n++
		}
	}
	return
}

// holds: whether the list is that of the set
func (s set) holds(l []*nodeid.NodeID) bool {
	var seen set
	for _, id := range l {
		k := 0
		for ; k < 9 && !kit.SameNode(id, node(k)); k++ {
		}
		if k == 9 || seen[k] || !s[k] {
			return false
		}
		seen[k] = true
	}
	return len(l) == s.size()
}

// lists of node ids; number 9 stands for nil
var batches = [][]int{{2, 9, 1}, {stranger, 1}, {1, 1}, {2}, {}}

func batch(l []int) (r []*nodeid.NodeID) {
	for _, k := range l {
		if k == 9 {
			r = append(r, nil)
		} else {
			r = append(r, node(k))
		}
	}
	return
}

//verif:time 150 600
func VerifC26_history() {
	w := start([]int{1, 2}, nil)
	deaf := sym.Choose("deaf", 2) // a gateway that does not answer
	asked := 0
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		asked++
		if to == "gc"+name(deaf) {
			return nil, errNothing
		}
		return w.establish(to, m)
	}
	var use, active set
	for i := 0; i < 4; i++ {
		op := 0
		if i > 0 {
			op = sym.Choose("op", 6)
		}
		var l []int
		if op < 4 {
			l = batches[sym.Choose("batch", sym.Bound("batches", 3, 5))]
		}
		want, contacted, n := 0, 0, asked
		got := 0
		switch op {
		case 0:
			got = w.client.AddGatewaysToUse(batch(l))
			for _, k := range l {
				if k < 3 && !use[k] {
					use[k] = true
					want++
				}
			}
		case 1:
			got = w.client.AddActiveGateways(batch(l))
			for _, k := range l {
				if k < 3 && use[k] && !active[k] {
					contacted++
					if k != deaf {
						active[k] = true
						want++
					}
				}
			}
		case 2:
			got = w.client.RemoveGatewaysToUse(batch(l))
			for _, k := range l {
				if k < 3 && use[k] {
					use[k], active[k] = false, false
					want++
				}
			}
		case 3:
			got = w.client.RemoveActiveGateways(batch(l))
			for _, k := range l {
				if k < 3 && active[k] {
					active[k] = false
					want++
				}
			}
		case 4:
			got, want = w.client.RemoveAllGatewaysToUse(), use.size()
			use, active = set{}, set{}
		case 5:
			got, want = w.client.RemoveAllActiveGateways(), active.size()
			active = set{}
		}
		sym.Assert(got == want, "the number of changes is told")
		sym.Assert(asked == n+contacted, "gateways are contacted to become active, and only then")
		sym.Assert(use.holds(w.client.GetGatewaysToUse()), "the gateways to use are those added and not removed")
		sym.Assert(active.holds(w.client.GetActiveGateways()), "the active gateways are gateways to use that answered")
	}
}

// only registered gateways with a complete registration can be used
func VerifC26_registration() {
	w := start([]int{1, 2}, nil)
	w.partly()
	sym.Assert(w.client.AddGatewaysToUse([]*nodeid.NodeID{node(4), node(stranger)}) == 0, "a gateway is used if its registration is complete")
	w.answer = w.establish
	sym.Assert(w.client.AddActiveGateways([]*nodeid.NodeID{node(4), node(stranger), node(1)}) == 0, "a gateway is active if it is to be used")
	sym.Assert(len(w.client.GetGatewaysToUse()) == 0 && len(w.client.GetActiveGateways()) == 0, "a gateway is used if its registration is complete")
	_, err := w.client.FindOffersStandardDiscovery(piece(1), node(1))
	sym.Assert(err != nil, "an active gateway is asked")
	_, err = w.client.FindOffersDHTDiscovery(piece(1), node(1), 1)
	sym.Assert(err != nil, "an active gateway is asked")
	_, err = w.client.FindOffersStandardDiscoveryV2(piece(1), node(1), 1)
	sym.Assert(err != nil, "an active gateway is asked")
	_, err = w.client.FindOffersDHTDiscoveryV2(piece(1), node(1), 1, 1)
	sym.Assert(err != nil && len(w.paid) == 0, "an active gateway is asked")
}

// a gateway is active once it has answered the client's challenge
func VerifC26_establish() {
	w := start([]int{1, 2}, nil)
	w.client.AddGatewaysToUse([]*nodeid.NodeID{node(1), node(2)})
	fault := sym.Choose("fault", 6)
	before := sym.TimeNow().Unix()
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		after := sym.TimeNow().Unix()
		client, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(m)
		sym.Assert(to == "gc1" && err == nil, "the gateway is asked at its client port")
		sym.Assume(err == nil)
		sym.Assert(kit.SameNode(client, w.client.Settings.ClientID()) && ttl >= before+100 && ttl <= after+100, "the client names itself and its patience")
		sym.Assert(len(challenge) == 44, "the challenge is 32 bytes")
		signer, id := 1, node(1)
		switch fault {
		case 1:
			signer = 2
		case 2:
			id = node(2)
		case 3:
			c := []byte(challenge)
			at := sym.Choose("at", 44)
			if c[at] == 'A' {
				c[at] = 'B'
			} else {
				c[at] = 'A'
			}
			challenge = string(c)
		case 4:
			a, err := fcrmessages.EncodeClientStandardDiscoverResponse(piece(1), 0, false, nil, nil)
			return signed(1, a, err), nil
		case 5:
			return nil, errNothing
		}
		a, err := fcrmessages.EncodeClientEstablishmentResponse(id, challenge)
		return signed(signer, a, err), nil
	}
	n := w.client.AddActiveGateways([]*nodeid.NodeID{node(1)})
	if fault == 0 {
		sym.Assert(n == 1 && len(w.client.GetActiveGateways()) == 1, "a gateway that answers the challenge is active")
	} else {
		sym.Assert(n == 0 && len(w.client.GetActiveGateways()) == 0, "a gateway that does not answer the challenge is not active")
	}
}

// an answer to an earlier challenge is none to a new one
func VerifC26_replay() {
	sym.OneDraw()
	w := start([]int{1}, nil)
	w.client.AddGatewaysToUse([]*nodeid.NodeID{node(1)})
	var first *fcrmessages.FCRMessage
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		_, _, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
		sym.Assume(err == nil)
		if first != nil {
			return first, nil
		}
		first, err = w.establish(to, m)
		return first, err
	}
	sym.Assert(w.client.AddActiveGateways([]*nodeid.NodeID{node(1)}) == 1, "a gateway that answers the challenge is active")
	sym.Assert(w.client.RemoveActiveGateways([]*nodeid.NodeID{node(1)}) == 1, "a gateway can be removed")
	sym.Assert(w.client.AddActiveGateways([]*nodeid.NodeID{node(1)}) == 0, "an old answer is none to a new challenge")
}

// nor is the answer of one gateway, signed by another, while both are made active
func VerifC26_both() {
	sym.OneDraw()
	w := start([]int{1, 2}, nil)
	ids := []*nodeid.NodeID{node(1), node(2)}
	w.client.AddGatewaysToUse(ids)
	challenge := ""
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		k := int(to[2] - '0')
		_, c, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
		sym.Assume(err == nil)
		if challenge == "" {
			challenge = c
		}
		a, err := fcrmessages.EncodeClientEstablishmentResponse(node(k), challenge)
		return signed(k, a, err), nil
	}
	sym.Assert(w.client.AddActiveGateways(ids) == 1 && len(w.client.GetActiveGateways()) == 1, "the challenge of another gateway is not that of a gateway")
}

// located gateways are registered ones of the region, up to the number asked for
func VerifC26_find() {
	w := start([]int{1, 2, 3}, nil)
	sym.MapOrder(true)
	w.gateways[1].RegionCode = "region1"
	n := 0
	for i := range w.gateways {
		if sym.Bool("here") {
			w.gateways[i].RegionCode = "here"
			n++
		}
	}
	// 4 is in the region, with an id that is none
	bad := gatewayInfo(4)
	bad.RegionCode, bad.NodeID = "here", "xyz"
	if sym.Bool("bad") {
		w.gateways = append(w.gateways, bad)
	}
	w.manager.Refresh()
	max := sym.Int("max")
	l, err := w.client.FindGateways("here", max)
	sym.Assert(err == nil, "gateways are located")
	want := n
	if want > max {
		want = max
	}
	if want < 0 {
		want = 0
	}
	sym.Assert(len(l) == want, "as many gateways are located as asked for, or as there are")
	var seen set
	for _, id := range l {
		found := false
		for i := range w.gateways {
			if i < 3 && w.gateways[i].RegionCode == "here" && kit.SameNode(id, node(i+1)) && !seen[i] {
				found, seen[i] = true, true
			}
		}
		sym.Assert(found, "located gateways are in the region, each once")
	}
}

// a gateway that is removed is not active, whatever happens meanwhile
func VerifC26_threads() {
	w := start([]int{1, 2}, nil)
	w.answer = func(to string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		sym.Yield()
		return w.establish(to, m)
	}
	l := []*nodeid.NodeID{node(1)}
	sym.Assume(w.client.AddGatewaysToUse(l) == 1)
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	removed := 0
	other := sym.Choose("other", 3)
	sym.Par(func() { w.client.AddActiveGateways(l) }, func() {
		switch other {
		case 0:
			removed = w.client.RemoveGatewaysToUse(l)
		case 1:
			removed = w.client.RemoveAllGatewaysToUse()
		case 2:
			w.client.GetActiveGateways()
			w.client.GetGatewaysToUse()
			removed = w.client.RemoveActiveGateways(l)
			return
		}
	})
	if other < 2 {
		sym.Assert(removed == 1 && len(w.client.GetGatewaysToUse()) == 0, "a gateway is removed")
		sym.Assert(len(w.client.GetActiveGateways()) == 0, "a removed gateway is not active")
	} else {
		sym.Assert(len(w.client.GetActiveGateways())+removed == 1, "a gateway is active or removed")
	}
}
