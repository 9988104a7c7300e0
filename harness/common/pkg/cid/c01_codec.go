package cid

import (
	"bytes"
	"encoding/json"
	"math/big"
	"strings"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

func pad32(b []byte) []byte {
	w := make([]byte, 32)
	copy(w[32-len(b):], b)
	return w
}

// bytes of every length: accepted up to 32, left padded, rejected above, never a panic
func VerifC01_cidBytes() {
	n := sym.Choose("len", sym.Bound("maxlen", 40, 70)+1)
	in := sym.Bytes("id", n)
	keep := append([]byte{}, in...)
	c, err := NewContentIDFromBytes(in)
	if n > 32 {
		sym.Assert(err != nil && c == nil, "overlong id rejected")
		return
	}
	sym.Assert(err == nil && c != nil, "id accepted")
	sym.Assert(bytes.Equal(c.ToBytes(), pad32(keep)), "left padded to 32 bytes")
	if n > 0 {
		in[0] ^= 0xff
		sym.Assert(bytes.Equal(c.ToBytes(), pad32(keep)), "id does not alias its input")
	}
	sym.Observe("hex", c.ToString())
}

func VerifC01_cidHex() {
	n := sym.Choose("len", sym.Bound("maxlen", 34, 40)+1)
	in := sym.Bytes("id", n)
	const digits = "0123456789abcdef"
	var sb strings.Builder
	for _, b := range in {
		sb.WriteByte(digits[b>>4])
		sb.WriteByte(digits[b&15])
	}
	s := sb.String()
	c, err := NewContentIDFromHexString(s)
	if n > 32 {
		sym.Assert(err != nil, "overlong hex rejected")
		return
	}
	sym.Assert(err == nil, "hex accepted")
	sym.Assert(bytes.Equal(c.ToBytes(), pad32(in)), "hex decodes to the padded bytes")
	if n == 32 {
		sym.Assert(c.ToString() == s, "hex text round trip")
	}
	d, err := NewContentIDFromHexString(c.ToString())
	sym.Assert(err == nil && bytes.Equal(d.ToBytes(), c.ToBytes()), "ToString parses back")
}

// arbitrary text: either an error, or an id whose text is the (padded, lower case) input
func VerifC01_cidAnyText() {
	n := sym.Choose("len", sym.Bound("maxlen", 6, 66)+1)
	s := sym.String("text", n)
	var c *ContentID
	var err error
	sym.Assert(!sym.Try(func() { c, err = NewContentIDFromHexString(s) }), "no panic on any text")
	if err != nil {
		return
	}
	sym.Assert(n%2 == 0, "odd text rejected")
	sym.Assert(strings.Repeat("0", 64-n)+strings.ToLower(s) == c.ToString(), "accepted text names the id")
}

func VerifC01_cidBig() {
	v := sym.BigInt("v", sym.Bound("bits", 264, 320))
	c, err := NewContentID(v)
	if v.Cmp(new(big.Int).Lsh(big.NewInt(1), 256)) >= 0 {
		sym.Assert(err != nil, "overlong integer rejected")
		return
	}
	sym.Assert(err == nil, "integer accepted")
	sym.Assert(len(c.ToBytes()) == 32, "32 bytes")
	sym.Assert(new(big.Int).SetBytes(c.ToBytes()).Cmp(v) == 0, "big endian value kept")
}

func VerifC01_cidJSON() {
	in := sym.Bytes("id", 32)
	c, err := NewContentIDFromBytes(in)
	sym.Assert(err == nil, "id accepted")
	data, err := json.Marshal(c)
	sym.Assert(err == nil, "marshals")
	var d ContentID
	sym.Assert(json.Unmarshal(data, &d) == nil, "unmarshals")
	sym.Assert(bytes.Equal(d.ToBytes(), in), "JSON round trip")
	same, err := c.Equals(&d)
	sym.Assert(err == nil && same, "equal to itself after a round trip")
	// in a list, as messages carry them
	list := []ContentID{*c, d}
	data, err = json.Marshal(list)
	sym.Assert(err == nil, "list marshals")
	var back []ContentID
	sym.Assert(json.Unmarshal(data, &back) == nil && len(back) == 2, "list unmarshals")
	sym.Assert(bytes.Equal(back[0].ToBytes(), in) && bytes.Equal(back[1].ToBytes(), in), "list round trip")
}

// a JSON byte string of any other length is refused
func VerifC01_cidJSONLength() {
	n := sym.Choose("len", sym.Bound("maxlen", 40, 70)+1)
	raw, err := json.Marshal(sym.Bytes("raw", n))
	sym.Assert(err == nil, "marshals")
	var d ContentID
	var uerr error
	sym.Assert(!sym.Try(func() { uerr = json.Unmarshal(raw, &d) }), "no panic")
	sym.Assert((uerr == nil) == (n == 32), "only 32 bytes accepted")
}

// identity: two ids are Equal exactly when their 32 bytes agree, and the text and hash agree with it
func VerifC01_cidEquality() {
	a, _ := NewContentIDFromBytes(sym.Bytes("a", 32))
	b, _ := NewContentIDFromBytes(sym.Bytes("b", 32))
	same := bytes.Equal(a.ToBytes(), b.ToBytes())
	eq, err := a.Equals(b)
	sym.Assert(err == nil && eq == same, "Equals is byte equality")
	sym.Assert((a.ToString() == b.ToString()) == same, "text identifies the id")
	ha, err := a.CalculateHash()
	sym.Assert(err == nil, "hash")
	hb, _ := b.CalculateHash()
	sym.Assert(bytes.Equal(ha, hb) == same, "leaf value identifies the id")
}

func VerifC01_cidMaps() {
	n := sym.Choose("n", sym.Bound("ids", 3, 6)+1)
	var ids []ContentID
	for i := 0; i < n; i++ {
		c, _ := NewContentIDFromBytes(sym.Bytes("id", 32))
		ids = append(ids, *c)
	}
	back, err := MapStringToCID(MapCIDToString(ids))
	sym.Assert(err == nil, "list of texts accepted")
	sym.Assert(len(back) == n, "list length kept")
	for i := range back {
		sym.Assert(bytes.Equal(back[i].ToBytes(), ids[i].ToBytes()), "list order and values kept")
	}
}

// a list of arbitrary texts is refused or names an id per text; never a panic
func VerifC01_cidAnyTexts() {
	n := 1 + sym.Choose("n", 2)
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, sym.String("text", sym.Choose("len", sym.Bound("maxlen", 3, 5))))
	}
	var err error
	var ids []ContentID
	sym.Assert(!sym.Try(func() { ids, err = MapStringToCID(texts) }), "no panic on any list of texts")
	good := true
	for _, s := range texts {
		if _, e := NewContentIDFromHexString(s); e != nil {
			good = false
		}
	}
	sym.Assert((err == nil) == good, "a list is accepted exactly when every text is")
	sym.Assert(err != nil || len(ids) == n, "accepted list is complete")
}
