package dhtring

import (
	"bytes"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

func VerifC11_range() {
	n := sym.Choose("entries", sym.Bound("entries", 5, 6))
	l := ascending("id", n)
	r := CreateRing()
	fill(r, l)
	a, b := anySpot("from"), anySpot("to")
	got, err := r.GetWithinRange(a.hex, b.hex)
	sym.Assert(err == nil, "a range works")
	var want []string
	if bytes.Compare(a.raw, b.raw) <= 0 {
		for _, s := range l {
			if bytes.Compare(a.raw, s.raw) <= 0 && bytes.Compare(s.raw, b.raw) <= 0 {
				want = append(want, s.hex)
			}
		}
	} else {
		for _, s := range l {
			if bytes.Compare(a.raw, s.raw) <= 0 {
				want = append(want, s.hex)
			}
		}
		for _, s := range l {
			if bytes.Compare(s.raw, b.raw) <= 0 {
				want = append(want, s.hex)
			}
		}
	}
	sym.Assert(sameTexts(got, want), "exactly the entries between the bounds, in clockwise order")
	content(r, l, "after a range")
}

// bounds that are entries
func VerifC11_entryBounds() {
	n := 1 + sym.Choose("entries", sym.Bound("entries", 4, 5))
	l := ascending("id", n)
	r := CreateRing()
	fill(r, l)
	i, j := sym.Choose("from", n), sym.Choose("to", n)
	got, err := r.GetWithinRange(l[i].hex, l[j].hex)
	sym.Assert(err == nil, "a range works")
	var want []string
	for k := i; ; k = (k + 1) % n {
		want = append(want, l[k].hex)
		if k == j {
			break
		}
	}
	sym.Assert(sameTexts(got, want), "both bounds and what lies between them, in clockwise order")
	content(r, l, "after a range between entries")
}
