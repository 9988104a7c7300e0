package reputation

//verif:fresh

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

const highest, lowest = int64(10000), int64(-10000)

// the table of reputation changes
var table = []int64{-1, 1000, 10, 1, 1, -100, 10, 1, 1, -300, 1, -10}

func event(r *Reputation, k int, id *nodeid.NodeID) {
	switch k {
	case 0:
		v := r.ClientEstablishmentChallenge(id)
		got, _ := r.GetClientReputation(id)
		sym.Assert(v == got, "a challenge returns the new reputation")
	case 1:
		r.OnChainDeposit(id)
	case 2:
		r.ClientStdDiscOneCidOffer(id)
	case 3:
		r.ClientStdDiscNoCidOffers(id)
	case 4:
		r.ClientStdDiscLateCidOffers(id)
	case 5:
		r.ClientStdDiscNonPayment(id)
	case 6:
		r.ClientDhtDiscOneCidOffer(id)
	case 7:
		r.ClientDhtDiscNoCidOffers(id)
	case 8:
		r.ClientDhtDiscLateCidOffers(id)
	case 9:
		r.ClientDhtDiscNonPayment(id)
	case 10:
		r.ClientMicroPayment(id)
	case 11:
		r.ClientInvalidMessage(id)
	}
}

// what a reputation becomes: the sum, no more than the highest and no less than the lowest
func after(v, change int64) int64 {
	if v > highest+1000 { // far above: no change brings it below the highest by overflow
		if change > 0 || v > highest-change {
			return highest
		}
	}
	if v < lowest-1000 {
		if change < 0 || v < lowest-change {
			return lowest
		}
	}
	v += change
	if v > highest {
		return highest
	}
	if v < lowest {
		return lowest
	}
	return v
}

func reads(r *Reputation, id *nodeid.NodeID, known bool, want int64, where string) {
	v, ok := r.GetClientReputation(id)
	sym.Assert(ok == known, "a client has a reputation exactly when it was given one, "+where)
	sym.Assert(r.ClientExists(id) == known, "a client exists exactly when it has a reputation, "+where)
	if known {
		sym.Assert(v == want, "the reputation is what the events add up to, "+where)
	}
}

// any history of events on two clients
func VerifC18_history() {
	r := GetSingleInstance()
	ids := []*nodeid.NodeID{kit.WideNodeID("client", 2), kit.WideNodeID("other client", 2)}
	sym.Assume(!kit.SameNode(ids[0], ids[1]))
	var known [2]bool
	var val [2]int64
	n := sym.Bound("events", 2, 3)
	for i := 0; i < n; i++ {
		c := sym.Choose("client", 2)
		if sym.Bool("set") {
			v := sym.Int64("set to")
			r.SetClientReputation(ids[c], v)
			known[c], val[c] = true, v
		} else {
			k := 0
			if known[c] {
				k = sym.Choose("event", 12)
			} else {
				val[c] = 10
			}
			event(r, k, ids[c])
			known[c], val[c] = true, after(val[c], table[k])
			sym.Assert(val[c] <= highest && val[c] >= lowest, "within limits")
		}
		reads(r, ids[0], known[0], val[0], "first client")
		reads(r, ids[1], known[1], val[1], "second client")
	}
}

// events of one client in a row, from any reputation
func VerifC18_inARow() {
	r := GetSingleInstance()
	id, other := kit.WideNodeID("client", 2), kit.WideNodeID("other client", 2)
	sym.Assume(!kit.SameNode(id, other))
	v := sym.Int64("reputation before")
	r.SetClientReputation(id, v)
	n := sym.Bound("events in a row", 2, 3)
	for i := 0; i < n; i++ {
		k := sym.Choose("event", 12)
		event(r, k, id)
		v = after(v, table[k])
		reads(r, id, true, v, "in a row")
	}
	reads(r, other, false, 0, "untouched client")
}

// events in two threads: none is lost
func VerifC18_threads() {
	r := GetSingleInstance()
	id := kit.WideNodeID("client", 2)
	v := sym.Int64("reputation before")
	sym.Assume(v > -5000 && v < 5000)
	fresh := sym.Bool("new client")
	if !fresh {
		r.SetClientReputation(id, v)
	} else {
		v = 10
	}
	a, b := 0, 0
	if !fresh {
		a, b = sym.Choose("event of the first thread", 12), sym.Choose("event of the second thread", 12)
	} else {
		b = sym.Choose("event after the challenge of the second thread", 12)
	}
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	sym.Par(func() {
		event2(r, a, id)
	}, func() {
		if fresh {
			r.ClientEstablishmentChallenge(id)
		}
		event2(r, b, id)
		r.GetClientReputation(id)
	})
	want := v + table[a] + table[b]
	if fresh {
		want += table[0]
	}
	reads(r, id, true, want, "after threads")
}

// an event whose outcome the thread does not look at
func event2(r *Reputation, k int, id *nodeid.NodeID) {
	if k == 0 {
		r.ClientEstablishmentChallenge(id)
	} else {
		event(r, k, id)
	}
}

// clients of two threads do not disturb each other
func VerifC18_twoClients() {
	r := GetSingleInstance()
	id, other := kit.WideNodeID("client", 2), kit.WideNodeID("other client", 2)
	sym.Assume(!kit.SameNode(id, other))
	k := sym.Choose("event", 12)
	v := sym.Int64("set to")
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	sym.Par(func() {
		r.ClientEstablishmentChallenge(id)
		event(r, k, id)
	}, func() {
		r.SetClientReputation(other, v)
		event(r, k, other)
		r.ClientExists(id)
	})
	reads(r, id, true, 9+table[k], "one client")
	reads(r, other, true, after(v, table[k]), "another client")
}
