package dhtring

import (
	"bytes"
	"encoding/hex"
	"math/big"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

const zeroHex = "0000000000000000000000000000000000000000000000000000000000000000"
const maxHex = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"

// a place on the ring
type spot struct {
	raw []byte
	hex string
}

func anySpot(label string) spot {
	b := kit.Wide(label, sym.Bound("symbolic bytes per id", 2, 4))
	return spot{b, hex.EncodeToString(b)}
}

// topSpot: any value of the highest bytes
func topSpot(label string) spot {
	b := make([]byte, 32)
	copy(b, sym.Bytes(label, sym.Bound("symbolic high bytes per id", 2, 4)))
	return spot{b, hex.EncodeToString(b)}
}

// ascending: n places in ascending order
func ascending(label string, n int) []spot { return ascendingOf(label, n, anySpot) }

func ascendingOf(label string, n int, spotOf func(string) spot) []spot {
	var l []spot
	for i := 0; i < n; i++ {
		s := spotOf(label)
		if i > 0 {
			sym.Assume(bytes.Compare(l[i-1].raw, s.raw) < 0)
		}
		l = append(l, s)
	}
	return l
}

// fill inserts the places in an order of its choice
func fill(r *Ring, l []spot) {
	left := append([]spot{}, l...)
	for len(left) > 0 {
		k := sym.Choose("next inserted", len(left))
		r.Insert(left[k].hex)
		left = append(left[:k:k], left[k+1:]...)
	}
}

// fill2 inserts the places in ascending or in descending order
func fill2(r *Ring, l []spot) {
	down := sym.Bool("descending")
	for i := range l {
		if down {
			r.Insert(l[len(l)-1-i].hex)
		} else {
			r.Insert(l[i].hex)
		}
	}
}

func sameTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func texts(l []spot) []string {
	var t []string
	for _, s := range l {
		t = append(t, s.hex)
	}
	return t
}

// content checks that the ring holds exactly the places of l, which are in ascending order
func content(r *Ring, l []spot, when string) {
	sym.Assert(r.Size() == len(l), "size is right "+when)
	got, err := r.GetWithinRange(zeroHex, maxHex)
	sym.Assert(err == nil && sameTexts(got, texts(l)), "entries are right "+when)
}

// apart: the difference of two ids, and what is left of the circle
func apart(a, b []byte) (d, o *big.Int) {
	d = new(big.Int).Sub(new(big.Int).SetBytes(a), new(big.Int).SetBytes(b))
	d.Abs(d)
	return d, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), d)
}

// noFarther: a is not farther from x than b, either way round
func noFarther(x, a, b spot) bool {
	d, o := apart(x.raw, a.raw)
	e, p := apart(x.raw, b.raw)
	c1, c2, c3, c4 := d.Cmp(e) <= 0, o.Cmp(e) <= 0, d.Cmp(p) <= 0, o.Cmp(p) <= 0
	return (c1 || c2) && (c3 || c4)
}

// entries: n ascending places, any ones if there are no more than some, or else unevenly spread
func entries(n, some int) []spot {
	if n <= some {
		return ascendingOf("id", n, topSpot)
	}
	var l []spot
	for _, v := range []byte{0x08, 0x21, 0x70, 0xa5, 0xf1, 0xfe}[:n] {
		b := make([]byte, 32)
		b[0] = v
		l = append(l, spot{b, hex.EncodeToString(b)})
	}
	return l
}
