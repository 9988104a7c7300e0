package dhtring

import (
	"bytes"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// every history of insertions and removals
func VerifC09_history() {
	l := ascending("id", sym.Bound("ids", 3, 4))
	in := make([]bool, len(l))
	r := CreateRing()
	steps := sym.Bound("steps", 4, 6)
	for i := 0; i < steps; i++ {
		k := sym.Choose("id of step", len(l))
		if sym.Bool("insert") {
			r.Insert(l[k].hex)
			in[k] = true
		} else {
			r.Remove(l[k].hex)
			in[k] = false
		}
	}
	var now []spot
	for k, s := range l {
		if in[k] {
			now = append(now, s)
		}
	}
	content(r, now, "after a history")
}

// removing and inserting again, from a full ring
func VerifC09_removeInsert() {
	n := sym.Choose("entries", sym.Bound("entries", 5, 6))
	l := ascending("id", n)
	r := CreateRing()
	fill(r, l)
	content(r, l, "after insertion")
	x := anySpot("removed")
	var left []spot
	for _, s := range l {
		if !bytes.Equal(s.raw, x.raw) {
			left = append(left, s)
		}
	}
	r.Remove(x.hex)
	content(r, left, "after a removal")
	y := anySpot("inserted")
	var now []spot
	placed := false
	for _, s := range left {
		c := bytes.Compare(y.raw, s.raw)
		if !placed && c <= 0 {
			placed = true
			now = append(now, y)
		}
		if c != 0 {
			now = append(now, s)
		}
	}
	if !placed {
		now = append(now, y)
	}
	r.Insert(y.hex)
	content(r, now, "after a later insertion")
}

// text that is no id changes nothing
func VerifC09_invalid() {
	n := sym.Choose("entries", 3)
	l := ascending("id", n)
	r := CreateRing()
	fill(r, l)
	// one arbitrary character at the start, the middle or the end, and a length around 64
	c := sym.String("character", 1)
	pad := 60 + sym.Choose("length", 8)
	s := ""
	at := sym.Choose("place", 3)
	for i := 0; i < pad; i++ {
		if (at == 0 && i == 0) || (at == 1 && i == 31) || (at == 2 && i == pad-1) {
			s += c
		} else {
			s += "0"
		}
	}
	hexDigit := c[0] >= '0' && c[0] <= '9' || c[0] >= 'a' && c[0] <= 'f' || c[0] >= 'A' && c[0] <= 'F'
	sym.Assume(pad != 64 || !hexDigit)
	sym.Assert(!sym.Try(func() { r.Insert(s) }), "no panic inserting any text")
	content(r, l, "after inserting no id")
	sym.Assert(!sym.Try(func() { r.Remove(s) }), "no panic removing any text")
	content(r, l, "after removing no id")
	_, err := r.GetClosest(s, 1, "")
	sym.Assert(err != nil, "closest to no id is refused")
	_, err = r.GetClosest(zeroHex, 1, s)
	sym.Assert(err != nil, "excluding no id is refused")
	_, err = r.GetWithinRange(s, zeroHex)
	sym.Assert(err != nil, "a range from no id is refused")
	_, err = r.GetWithinRange(zeroHex, s)
	sym.Assert(err != nil, "a range to no id is refused")
	content(r, l, "after lookups of no id")
}

// lookups and changes in several threads: no data race, and the entries come out right
func VerifC09_threads() {
	l := ascending("id", 3)
	r := CreateRing()
	r.Insert(l[1].hex)
	r.Insert(l[2].hex)
	x := anySpot("wanted")
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	kind := sym.Choose("other thread", 3)
	sym.Par(func() {
		got, err := r.GetClosest(x.hex, 2, "")
		sym.Assert(err == nil && len(got) == 2, "a search finds as many as it asks for")
		for _, g := range got {
			sym.Assert(g == l[0].hex || g == l[1].hex || g == l[2].hex, "a search finds entries only")
		}
	}, func() {
		switch kind {
		case 0:
			r.Insert(l[0].hex)
		case 1:
			got, err := r.GetWithinRange(zeroHex, maxHex)
			sym.Assert(err == nil && sameTexts(got, texts(l[1:])), "a range finds entries only")
		case 2:
			got, err := r.GetClosest(maxHex, 5, "")
			sym.Assert(err == nil && len(got) == 2, "another search finds all entries")
		}
	})
	if kind == 0 {
		content(r, l, "after threads")
	} else {
		content(r, l[1:], "after threads")
	}
}

// lookups leave the ring as it is, whatever is near, excluded or a bound
func VerifC09_lookups() {
	n := sym.Choose("entries", sym.Bound("entries", 4, 5))
	l := entries(n, sym.Bound("entries at any place", 2, 3))
	r := CreateRing()
	fill2(r, l)
	pick := func(label string) spot {
		k := sym.Choose(label, n+1)
		if k == n {
			return anySpot(label)
		}
		return l[k]
	}
	rounds := sym.Bound("lookups", 1, 2)
	for i := 0; i < rounds; i++ {
		x, y := pick("first"), pick("second")
		switch sym.Choose("lookup", 3) {
		case 0:
			r.GetClosest(x.hex, 1+sym.Choose("number", 3), "")
		case 1:
			r.GetClosest(x.hex, 1+sym.Choose("number", 3), y.hex)
		case 2:
			r.GetWithinRange(x.hex, y.hex)
		}
		content(r, l, "after a lookup")
	}
}
