package nodeid

import (
	"bytes"
	"encoding/json"
	"math/big"
	"strings"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

func pad32(b []byte) []byte {
	w := make([]byte, 32)
	copy(w[32-len(b):], b)
	return w
}

// bytes of every length: accepted up to 32, left padded, rejected above, never a panic
func VerifC01_nodeBytes() {
	n := sym.Choose("len", sym.Bound("maxlen", 40, 70)+1)
	in := sym.Bytes("id", n)
	keep := append([]byte{}, in...)
	c, err := NewNodeIDFromBytes(in)
	if n > 32 {
		sym.Assert(err != nil && c == nil, "overlong id rejected")
		return
	}
	sym.Assert(err == nil && c != nil, "id accepted")
	sym.Assert(bytes.Equal(c.ToBytes(), pad32(keep)), "left padded to 32 bytes")
	if n > 0 {
		in[0] ^= 0xff
		sym.Assert(bytes.Equal(c.ToBytes(), pad32(keep)), "id does not alias its input")
	}
	sym.Observe("hex", c.ToString())
}

func VerifC01_nodeHex() {
	n := sym.Choose("len", sym.Bound("maxlen", 34, 40)+1)
	in := sym.Bytes("id", n)
	const digits = "0123456789abcdef"
	var sb strings.Builder
	for _, b := range in {
		sb.WriteByte(digits[b>>4])
		sb.WriteByte(digits[b&15])
	}
	s := sb.String()
	c, err := NewNodeIDFromHexString(s)
	if n > 32 {
		sym.Assert(err != nil, "overlong hex rejected")
		return
	}
	sym.Assert(err == nil, "hex accepted")
	sym.Assert(bytes.Equal(c.ToBytes(), pad32(in)), "hex decodes to the padded bytes")
	if n == 32 {
		sym.Assert(c.ToString() == s, "hex text round trip")
	}
	d, err := NewNodeIDFromHexString(c.ToString())
	sym.Assert(err == nil && bytes.Equal(d.ToBytes(), c.ToBytes()), "ToString parses back")
}

// arbitrary text: either an error, or an id whose text is the (padded, lower case) input
func VerifC01_nodeAnyText() {
	n := sym.Choose("len", sym.Bound("maxlen", 6, 66)+1)
	s := sym.String("text", n)
	var c *NodeID
	var err error
	sym.Assert(!sym.Try(func() { c, err = NewNodeIDFromHexString(s) }), "no panic on any text")
	if err != nil {
		return
	}
	sym.Assert(n%2 == 0, "odd text rejected")
	sym.Assert(strings.Repeat("0", 64-n)+strings.ToLower(s) == c.ToString(), "accepted text names the id")
}

func VerifC01_nodeBig() {
	v := sym.BigInt("v", sym.Bound("bits", 264, 320))
	c, err := NewNodeID(v)
	if v.Cmp(new(big.Int).Lsh(big.NewInt(1), 256)) >= 0 {
		sym.Assert(err != nil, "overlong integer rejected")
		return
	}
	sym.Assert(err == nil, "integer accepted")
	sym.Assert(len(c.ToBytes()) == 32, "32 bytes")
	sym.Assert(new(big.Int).SetBytes(c.ToBytes()).Cmp(v) == 0, "big endian value kept")
}

func VerifC01_nodeJSON() {
	in := sym.Bytes("id", 32)
	c, err := NewNodeIDFromBytes(in)
	sym.Assert(err == nil, "id accepted")
	data, err := json.Marshal(c)
	sym.Assert(err == nil, "marshals")
	var d NodeID
	sym.Assert(json.Unmarshal(data, &d) == nil, "unmarshals")
	sym.Assert(bytes.Equal(d.ToBytes(), in), "JSON round trip")
	// in a list, as messages carry them
	list := []NodeID{*c, d}
	data, err = json.Marshal(list)
	sym.Assert(err == nil, "list marshals")
	var back []NodeID
	sym.Assert(json.Unmarshal(data, &back) == nil && len(back) == 2, "list unmarshals")
	sym.Assert(bytes.Equal(back[0].ToBytes(), in) && bytes.Equal(back[1].ToBytes(), in), "list round trip")
}

// a JSON byte string of any other length is refused
func VerifC01_nodeJSONLength() {
	n := sym.Choose("len", sym.Bound("maxlen", 40, 70)+1)
	raw, err := json.Marshal(sym.Bytes("raw", n))
	sym.Assert(err == nil, "marshals")
	var d NodeID
	var uerr error
	sym.Assert(!sym.Try(func() { uerr = json.Unmarshal(raw, &d) }), "no panic")
	sym.Assert((uerr == nil) == (n == 32), "only 32 bytes accepted")
}

func VerifC01_nodeIdentity() {
	a, _ := NewNodeIDFromBytes(sym.Bytes("a", 32))
	b, _ := NewNodeIDFromBytes(sym.Bytes("b", 32))
	same := bytes.Equal(a.ToBytes(), b.ToBytes())
	sym.Assert((a.ToString() == b.ToString()) == same, "text identifies the id")
	sym.Assert((a.AsBytes32() == b.AsBytes32()) == same, "array identifies the id")
}

func VerifC01_nodeMaps() {
	n := sym.Choose("n", sym.Bound("ids", 3, 6)+1)
	var ids []NodeID
	for i := 0; i < n; i++ {
		c, _ := NewNodeIDFromBytes(sym.Bytes("id", 32))
		ids = append(ids, *c)
	}
	back, err := MapStringToNodeID(MapNodeIDToString(ids))
	sym.Assert(err == nil, "list of texts accepted")
	sym.Assert(len(back) == n, "list length kept")
	for i := range back {
		sym.Assert(bytes.Equal(back[i].ToBytes(), ids[i].ToBytes()), "list order and values kept")
	}
}

func VerifC01_nodeBytes32() {
	in := sym.Bytes("id", 32)
	n, err := NewNodeIDFromBytes(in)
	sym.Assert(err == nil, "id accepted")
	a := n.AsBytes32()
	sym.Assert(bytes.Equal(a[:], in), "AsBytes32 is the id")
}

// wideID is an id with symbolic bytes at both ends and in the middle of its 32 bytes
func wideID(label string) *NodeID {
	w := sym.Bound("symbolic id bytes", 3, 6)
	v := sym.Bytes(label, w)
	b := make([]byte, 32)
	for i, x := range v {
		b[(i*31)/(w-1)] = x
	}
	n, err := NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

// SortClockwise returns the same ids, in ring order starting at the first one not below the start
func VerifC01_nodeClockwise() {
	k := sym.Choose("n", sym.Bound("ids", 3, 4)+1)
	start := wideID("start")
	var ids []*NodeID
	for i := 0; i < k; i++ {
		ids = append(ids, wideID("id"))
	}
	in := append([]*NodeID{}, ids...)
	out := SortClockwise(start, ids)
	sym.Assert(len(out) == k, "same number of ids")
	for _, a := range in {
		c := 0
		for _, b := range out {
			if a == b {
				c++
			}
		}
		sym.Assert(c == 1, "a permutation of the ids")
	}
	below := func(n *NodeID) bool { return bytes.Compare(n.ToBytes(), start.ToBytes()) < 0 }
	for i := 1; i < len(out); i++ {
		a, b := out[i-1], out[i]
		if below(a) {
			sym.Assert(below(b), "no id at or after the start follows one before it")
		}
		if below(a) == below(b) {
			sym.Assert(bytes.Compare(a.ToBytes(), b.ToBytes()) <= 0, "ascending within each half of the ring")
		}
	}
}

// a list of arbitrary texts is refused or names an id per text; never a panic
func VerifC01_nodeAnyTexts() {
	n := 1 + sym.Choose("n", 2)
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, sym.String("text", sym.Choose("len", sym.Bound("maxlen", 3, 5))))
	}
	var err error
	var ids []NodeID
	sym.Assert(!sym.Try(func() { ids, err = MapStringToNodeID(texts) }), "no panic on any list of texts")
	good := true
	for _, s := range texts {
		if _, e := NewNodeIDFromHexString(s); e != nil {
			good = false
		}
	}
	sym.Assert((err == nil) == good, "a list is accepted exactly when every text is")
	sym.Assert(err != nil || len(ids) == n, "accepted list is complete")
}
