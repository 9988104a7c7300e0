package math

import (
	"math/big"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

func VerifC12_distance() {
	sizes := []int{1, 2, 4, 8, 9, 32, 3, 5, 6, 7, 16, 31, 33, 64}
	bits := 8 * sizes[sym.Choose("size", sym.Bound("sizes", 6, 14))]
	a, b := sym.Bytes("a", bits/8), sym.Bytes("b", bits/8)
	card := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	x, y := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
	before := new(big.Int).Set(card)
	d, err := GetDistance(a, b, card)
	sym.Assert(err == nil && d != nil, "a distance is found")
	sym.Assert(card.Cmp(before) == 0, "the circle is left as it is")
	cw := new(big.Int).Sub(y, x)
	if cw.Sign() < 0 {
		cw.Add(cw, card)
	}
	ccw := new(big.Int).Sub(card, cw)
	sym.Assert(d.Cmp(cw) == 0 && cw.Cmp(ccw) <= 0 || d.Cmp(ccw) == 0 && ccw.Cmp(cw) <= 0, "the distance is the shorter way round")
	e, err := GetDistance(b, a, card)
	sym.Assert(err == nil && d.Cmp(e) == 0, "the distance is the same both ways")
	sym.Assert((d.Sign() == 0) == (x.Cmp(y) == 0), "the distance is zero exactly between equal values")
}

// the same for any circle that both values lie on
func VerifC12_anyCircle() {
	n := []int{4, 8, 9, 16}[sym.Choose("size", sym.Bound("sizes", 2, 4))]
	a, b, c := sym.Bytes("a", n), sym.Bytes("b", n), sym.Bytes("circle", n)
	card := new(big.Int).SetBytes(c)
	x, y := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
	sym.Assume(x.Cmp(card) < 0 && y.Cmp(card) < 0)
	d, err := GetDistance(a, b, card)
	sym.Assert(err == nil && d != nil, "a distance is found")
	s := new(big.Int).Abs(new(big.Int).Sub(x, y))
	o := new(big.Int).Sub(card, s)
	sym.Assert(d.Cmp(s) <= 0 && d.Cmp(o) <= 0 && (d.Cmp(s) == 0 || d.Cmp(o) == 0), "the distance is the shorter way round")
}
