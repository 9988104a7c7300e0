package dhtring

import (
	"bytes"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// ids that differ in their highest bytes: the circle closes between the last and the first one
func VerifC10_closest() {
	n := sym.Choose("entries", sym.Bound("entries", 4, 5))
	l := ascendingOf("id", n, topSpot)
	r := CreateRing()
	fill2(r, l)
	search(r, l, topSpot("wanted"), sym.Choose("number", n+3)-1, "", l)
}

func VerifC10_excludedEntry() {
	n := 1 + sym.Choose("entries", sym.Bound("entries", 3, 4))
	l := ascendingOf("id", n, topSpot)
	r := CreateRing()
	fill2(r, l)
	k := sym.Choose("excluded", n)
	rest := append(append([]spot{}, l[:k]...), l[k+1:]...)
	search(r, l, topSpot("wanted"), 1+sym.Choose("number", n+1), l[k].hex, rest)
}

func VerifC10_excludedAny() {
	n := sym.Choose("entries", sym.Bound("entries", 3, 4))
	l := ascendingOf("id", n, topSpot)
	r := CreateRing()
	fill2(r, l)
	e := topSpot("excluded id")
	var rest []spot
	for _, s := range l {
		if !bytes.Equal(s.raw, e.raw) {
			rest = append(rest, s)
		}
	}
	search(r, l, topSpot("wanted"), 1+sym.Choose("number", n+1), e.hex, rest)
}

// ids that differ in their first and in their last byte
func VerifC10_wide() {
	n := 1 + sym.Choose("entries", sym.Bound("entries", 2, 3))
	l := ascending("id", n)
	r := CreateRing()
	fill2(r, l)
	search(r, l, anySpot("wanted"), 1+sym.Choose("number", n), "", l)
}

// search checks a search of the ring of l; the entries that are not excluded are rest
func search(r *Ring, l []spot, x spot, num int, exclude string, rest []spot) {
	got, err := r.GetClosest(x.hex, num, exclude)
	sym.Assert(err == nil, "a search works")
	want := num
	if want < 0 {
		want = 0
	}
	if want > len(rest) {
		want = len(rest)
	}
	sym.Assert(len(got) == want, "a search finds as many as there are")
	// which entries were found
	chosen := make([]bool, len(rest))
	pos := make([]int, len(got))
	for i, g := range got {
		pos[i] = -1
		for k, s := range rest {
			if g == s.hex {
				sym.Assert(!chosen[k], "no entry is found twice")
				chosen[k] = true
				pos[i] = k
			}
		}
		sym.Assert(pos[i] >= 0, "only entries that are not excluded are found")
	}
	// nothing closer is left out
	for a := range rest {
		for b := range rest {
			if chosen[a] && !chosen[b] {
				sym.Assert(noFarther(x, rest[a], rest[b]), "no closer entry is left out")
			}
		}
	}
	// clockwise order: walking round from the first one found, the positions ascend
	for i := 1; i < len(pos); i++ {
		p := (pos[i-1] - pos[0] + len(rest)) % len(rest)
		q := (pos[i] - pos[0] + len(rest)) % len(rest)
		sym.Assert(p < q, "entries are found in clockwise order")
	}
	content(r, l, "after a search")
}

// entries were removed and inserted again before
func VerifC10_history() {
	n := 2 + sym.Choose("entries", sym.Bound("entries-1", 3, 4))
	l := entries(n, sym.Bound("entries at any place", 2, 3))
	r := CreateRing()
	fill2(r, l)
	k := sym.Choose("removed", n)
	r.Remove(l[k].hex)
	rest := append(append([]spot{}, l[:k]...), l[k+1:]...)
	if sym.Bool("inserted again") {
		r.Insert(l[k].hex)
		rest = l
	}
	search(r, rest, topSpot("wanted"), 1+sym.Choose("number", len(rest)), "", rest)
}

// the wanted id is an entry itself
func VerifC10_self() {
	n := 1 + sym.Choose("entries", sym.Bound("entries", 4, 5))
	l := ascending("id", n)
	r := CreateRing()
	fill2(r, l)
	k := sym.Choose("wanted", n)
	num := 1 + sym.Choose("number", n+1)
	got, err := r.GetClosest(l[k].hex, num, "")
	sym.Assert(err == nil, "a search works")
	found := false
	for _, g := range got {
		found = found || g == l[k].hex
	}
	sym.Assert(found, "an entry is closest to itself")
	got, err = r.GetClosest(l[k].hex, num, l[k].hex)
	sym.Assert(err == nil, "a search works")
	want := num
	if want > n-1 {
		want = n - 1
	}
	sym.Assert(len(got) == want, "all other entries are found")
	for _, g := range got {
		sym.Assert(g != l[k].hex, "an excluded entry is not found")
	}
	content(r, l, "after a search for an entry")
}
