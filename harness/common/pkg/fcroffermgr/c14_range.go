package fcroffermgr

import (
	"bytes"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a range of DHT offers: those whose content id lies in it, from its start on, as many as asked for
//verif:time 200 500
func VerifC14_range() {
	ids := pool(sym.Bound("content ids", 3, 4))
	m := NewFCROfferMgr()
	n := sym.Choose("offers", sym.Bound("offers", 4, 5))
	var all []*cidoffer.CIDOffer
	place := -1
	for i := 0; i < n; i++ {
		k := sym.Choose("content id", len(ids))
		// order only matters between content ids; the ring is C09's
		sym.Assume(k >= place)
		place = k
		o := offerOf(never, ids[k])
		for _, p := range all { // the same offer twice is C13's
			sym.Assume(o.GetPrice() > p.GetPrice())
		}
		sym.Assert(m.AddDHTOffer(o) == nil, "a DHT offer is added")
		all = append(all, o)
	}
	if sym.Bool("group offer") {
		sym.Assert(m.AddGroupOffer(offerOf(never, ids[0], ids[1])) == nil, "a group offer is added")
	}
	lo, hi := kit.WideCID("from", 2), kit.WideCID("to", 2)
	max := sym.Choose("at most", n+2) - 1
	wraps := bytes.Compare(lo.ToBytes(), hi.ToBytes()) > 0
	// the offers in the range, clockwise
	var want []*cidoffer.CIDOffer
	for turn := 0; turn < 2; turn++ {
		for _, o := range all {
			c := o.GetCIDs()[0].ToBytes()
			above, below := bytes.Compare(lo.ToBytes(), c) <= 0, bytes.Compare(c, hi.ToBytes()) <= 0
			in := turn == 0 && above && (wraps || below) || turn == 1 && wraps && below && !above
			if in {
				want = append(want, o)
			}
		}
	}
	got, ok := m.GetDHTOffersWithinRange(lo, hi, max)
	num := len(want)
	if num > max {
		num = max
	}
	if num < 0 {
		num = 0
	}
	sym.Assert(len(got) == num, "as many offers as there are, at most as many as asked for")
	sym.Assert(ok == (num > 0), "offers are reported exactly when there are some")
	used := make([]bool, len(want))
	for i := range got {
		sym.Assert(kit.SameCID(&got[i].GetCIDs()[0], &want[i].GetCIDs()[0]), "the range is filled from its start on")
		found := false
		for k, w := range want {
			if !found && !used[k] && sameOffer(&got[i], w) {
				used[k] = true
				found = true
			}
		}
		sym.Assert(found, "only offers in the range, each once")
	}
}

// expired offers take no place in a range
func VerifC14_expired() {
	ids := pool(2)
	m := NewFCROfferMgr()
	a, b := offerOf(sym.Int64("expiry"), ids[0]), offerOf(never, ids[1])
	ea := m.AddDHTOffer(a)
	sym.Assert(m.AddDHTOffer(b) == nil, "added")
	max := 1 + sym.Choose("at most", 2)
	got, ok := m.GetDHTOffersWithinRange(&ids[0], &ids[1], max)
	gone := ea != nil || timeExpired(a)
	sym.Assert(ok && len(got) >= 1, "an offer that has not expired is found")
	if gone {
		last := &got[len(got)-1]
		sym.Assert(sameOffer(last, b) || max == 1 && sameOffer(last, a) || len(got) == 2, "an expired offer takes no place")
		sym.Assert(len(got) == 1 || ea == nil, "a refused offer is not in the range")
		got, ok = m.GetDHTOffersWithinRange(&ids[0], &ids[1], max)
		sym.Assert(ok && len(got) == 1 && sameOffer(&got[0], b), "an expired offer takes no place in a range")
	} else {
		sym.Assert(len(got) == max && sameOffer(&got[0], a), "an offer is in the range until it expires")
	}
}
