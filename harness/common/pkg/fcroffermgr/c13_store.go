package fcroffermgr

import (
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// what was added is found under each of its content ids and by its digest, and nothing else is
func VerifC13_found() {
	ids := pool(3)
	m := NewFCROfferMgr()
	n := sym.Choose("offers", sym.Bound("offers", 3, 4))
	var group, dht []*cidoffer.CIDOffer
	for i := 0; i < n; i++ {
		a := sym.Choose("first content id", 3)
		if sym.Bool("group") {
			o := offerOf(never, ids[a], ids[(a+1)%3])
			sym.Assert(m.AddGroupOffer(o) == nil, "a group offer is added")
			group = append(group, o)
		} else {
			o := offerOf(never, ids[a])
			sym.Assert(m.AddDHTOffer(o) == nil, "a DHT offer is added")
			dht = append(dht, o)
		}
	}
	group, dht = distinct(group), distinct(dht)
	q := ids[sym.Choose("asked for", 3)]
	var g, d []*cidoffer.CIDOffer
	for _, o := range group {
		if holds(o, &q) {
			g = append(g, o)
		}
	}
	for _, o := range dht {
		if holds(o, &q) {
			d = append(d, o)
		}
	}
	for round := 0; round < 2; round++ { // looking up changes nothing
		got, ok := m.GetGroupOffers(&q)
		sym.Assert(ok == (len(g) > 0), "group offers are reported exactly when there are some")
		exactly(got, g, "group")
		got, ok = m.GetDHTOffers(&q)
		sym.Assert(ok == (len(d) > 0), "DHT offers are reported exactly when there are some")
		exactly(got, d, "DHT")
		got, ok = m.GetOffers(&q)
		sym.Assert(ok == (len(g)+len(d) > 0), "offers are reported exactly when there are some")
		exactly(got, append(append([]*cidoffer.CIDOffer{}, g...), d...), "all")
	}
	for _, o := range append(append([]*cidoffer.CIDOffer{}, group...), dht...) {
		r, ok := m.GetOfferByDigest(o.GetMessageDigest())
		sym.Assert(ok && r != nil && sameOffer(r, o), "an offer is found by its digest")
	}
}

// an offer that was not added is not found by its digest, nor under a content id without offers
func VerifC13_notFound() {
	ids := pool(3)
	m := NewFCROfferMgr()
	a, g := offerOf(never, ids[0]), offerOf(never, ids[0], ids[1])
	sym.Assert(m.AddDHTOffer(a) == nil, "added")
	sym.Assert(m.AddGroupOffer(g) == nil, "added")
	var other *cidoffer.CIDOffer
	if sym.Bool("group") {
		other = offerOf(never, ids[0], ids[1])
		sym.Assume(!sameOffer(other, g))
	} else {
		other = offerOf(never, ids[0])
		sym.Assume(!sameOffer(other, a))
	}
	r, ok := m.GetOfferByDigest(other.GetMessageDigest())
	sym.Assert(!ok && r == nil, "an offer that was not added is not found by its digest")
	got, ok := m.GetOffers(&ids[2])
	sym.Assert(!ok && len(got) == 0, "no offers under another content id")
	got, ok = m.GetDHTOffers(&ids[1])
	sym.Assert(!ok && len(got) == 0, "a group offer is no DHT offer")
}

// the two kinds of offers are told apart by their number of content ids
func VerifC13_kinds() {
	ids := pool(3)
	m := NewFCROfferMgr()
	o := offerOf(never, ids[0])
	sym.Assert(m.AddGroupOffer(o) != nil, "an offer of one content id is no group offer")
	p := offerOf(never, ids[:2+sym.Choose("more", 2)]...)
	sym.Assert(m.AddDHTOffer(p) != nil, "an offer of several content ids is no DHT offer")
	for i := range ids {
		_, ok := m.GetOffers(&ids[i])
		sym.Assert(!ok, "a refused offer is not stored")
	}
	_, ok := m.GetOfferByDigest(o.GetMessageDigest())
	sym.Assert(!ok, "a refused offer is not found by its digest")
	_, ok = m.GetDHTOffersWithinRange(&ids[0], &ids[2], 5)
	sym.Assert(!ok, "a refused offer is not in a range")
}

// an expired offer is neither added nor found, whenever it expires
func VerifC13_expiry() {
	ids := pool(3)
	m := NewFCROfferMgr()
	kind := sym.Bool("group")
	add := func(o *cidoffer.CIDOffer) error {
		if kind {
			return m.AddGroupOffer(o)
		}
		return m.AddDHTOffer(o)
	}
	n := 1
	if kind {
		n = 2
	}
	expired := func(o *cidoffer.CIDOffer, t time.Time) bool { return time.Unix(o.GetExpiry(), 0).Before(t) }
	o := offerOf(sym.Int64("expiry"), ids[:n]...)
	from := 0 // the offers share all content ids or, of group offers, the second one of the first
	if kind {
		from = sym.Choose("other's content ids", 2)
	}
	p := offerOf(sym.Int64("other expiry"), ids[from:from+n]...)
	sym.Assume(from > 0 || !sameOffer(o, p))
	t0 := sym.TimeNow()
	err := add(o)
	t1 := sym.TimeNow()
	sym.Assert(err == nil || expired(o, t1), "an offer that has not expired is added")
	sym.Assert(err != nil || !expired(o, t0), "an expired offer is not added")
	errp := add(p)
	sym.Assert(errp != nil || !expired(p, t1), "an expired offer is not added after another one")
	if err == nil && sym.Bool("again") {
		sym.Assert(add(o) == nil || expired(o, sym.TimeNow()), "adding an offer again is no error")
	}
	rounds := sym.Bound("lookups", 2, 3)
	for i := 0; i < rounds; i++ {
		t2 := sym.TimeNow()
		k := sym.Choose("asked for", n+from)
		q := ids[k]
		got, ok := m.GetOffers(&q)
		t3 := sym.TimeNow()
		sym.Assert(ok == (len(got) > 0), "offers are reported exactly when there are some")
		fo, fp := 0, 0
		for j := range got {
			if sameOffer(&got[j], o) {
				fo++
			} else if sameOffer(&got[j], p) {
				fp++
			} else {
				sym.Fail("another offer is found")
			}
		}
		sym.Assert(fo <= 1 && fp <= 1, "an offer is found once")
		sym.Assert(fo == 0 || err == nil && !expired(o, t2), "a refused or expired offer is not found")
		sym.Assert(fo == 1 || err != nil || k >= n || expired(o, t3), "an added offer is found until it expires")
		sym.Assert((fo == 0 || k < n) && (fp == 0 || k >= from), "an offer is found under its own content ids only")
		sym.Assert(fp == 0 || errp == nil && !expired(p, t2), "a refused or expired offer is not found next to another one")
		sym.Assert(fp == 1 || errp != nil || k < from || expired(p, t3), "an added offer is found until it expires, next to another one")
	}
	t4 := sym.TimeNow()
	r, ok := m.GetOfferByDigest(o.GetMessageDigest())
	t5 := sym.TimeNow()
	sym.Assert(!ok || err == nil && sameOffer(r, o) && !expired(o, t4), "a refused or expired offer is not found by its digest")
	sym.Assert(ok || err != nil || expired(o, t5), "an added offer is found by its digest until it expires")
}

// adding and looking up in several threads
func VerifC13_threads() {
	ids := pool(2)
	m := NewFCROfferMgr()
	a, b := offerOf(never, ids[0]), offerOf(never, ids[0])
	g, h := offerOf(never, ids[0], ids[1]), offerOf(never, ids[0], ids[1])
	sym.Assume(!sameOffer(a, b) && !sameOffer(g, h))
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	kind := sym.Choose("threads", 5)
	switch kind {
	case 0:
		sym.Par(func() { m.AddDHTOffer(a) }, func() { m.AddDHTOffer(b) })
		got, _ := m.GetDHTOffers(&ids[0])
		exactly(got, []*cidoffer.CIDOffer{a, b}, "added in two threads")
	case 1:
		sym.Par(func() { m.AddGroupOffer(g) }, func() { m.AddGroupOffer(h) })
		for i := range ids {
			got, _ := m.GetGroupOffers(&ids[i])
			exactly(got, []*cidoffer.CIDOffer{g, h}, "groups added in two threads")
		}
	case 2:
		m.AddDHTOffer(a)
		sym.Par(func() { m.AddDHTOffer(b) }, func() {
			got, _ := m.GetOffers(&ids[0])
			sym.Assert(len(got) >= 1 && len(got) <= 2, "a lookup finds what was there")
		})
		got, _ := m.GetDHTOffers(&ids[0])
		exactly(got, []*cidoffer.CIDOffer{a, b}, "added next to a lookup")
	case 3:
		m.AddGroupOffer(g)
		sym.Par(func() { m.AddGroupOffer(h) }, func() {
			r, ok := m.GetOfferByDigest(g.GetMessageDigest())
			sym.Assert(ok && sameOffer(r, g), "an offer is found by its digest next to another being added")
		})
		got, _ := m.GetGroupOffers(&ids[1])
		exactly(got, []*cidoffer.CIDOffer{g, h}, "added next to a digest lookup")
	case 4:
		m.AddDHTOffer(a)
		sym.Par(func() { m.AddDHTOffer(b) }, func() {
			got, ok := m.GetDHTOffersWithinRange(&ids[0], &ids[1], 9)
			sym.Assert(ok && len(got) >= 1, "a range finds what was there")
		})
		got, _ := m.GetDHTOffersWithinRange(&ids[0], &ids[1], 9)
		exactly(got, []*cidoffer.CIDOffer{a, b}, "added next to a range")
	}
}
