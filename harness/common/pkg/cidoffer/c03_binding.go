package cidoffer

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a signed offer verifies under the signer's key, before and after the wire, and so do its sub offers
func VerifC03_signedVerifies() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 3, 6))
	o, cids := vOffer("o", n)
	priv, pub := kit.Key(sym.Choose("key", 2))
	sym.Assert(o.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	sym.Assert(o.Verify(pub) == nil, "signed offer verifies")
	data, err := json.Marshal(o)
	sym.Assert(err == nil, "offer marshals")
	var p CIDOffer
	sym.Assert(json.Unmarshal(data, &p) == nil, "offer unmarshals")
	sym.Assert(p.Verify(pub) == nil, "received offer verifies")
	c := cids[sym.Choose("which", n)]
	s, err := p.GenerateSubCIDOffer(&c)
	sym.Assert(err == nil, "sub offer")
	sym.Assert(s.Verify(pub) == nil, "sub offer of a received offer verifies")
	data, err = json.Marshal(s)
	sym.Assert(err == nil, "sub offer marshals")
	var q SubCIDOffer
	sym.Assert(json.Unmarshal(data, &q) == nil, "sub offer unmarshals")
	sym.Assert(q.Verify(pub) == nil, "received sub offer verifies")
	sym.Assert(q.VerifyMerkleProof() == nil, "received sub offer proves its CID")
}

// a signature carried over to an offer with any other provider, CIDs, price, expiry or QoS fails
func VerifC03_bindsEveryField() {
	m := sym.Bound("cids", 3, 4)
	a, _ := vOffer("a", 1+sym.Choose("na", m))
	b, _ := vOffer("b", 1+sym.Choose("nb", m))
	priv, pub := kit.Key(0)
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	b.SetSignature(a.GetSignature())
	if b.Verify(pub) == nil {
		sym.Assert(kit.SameNode(a.GetProviderID(), b.GetProviderID()), "provider id is signed")
		sym.Assert(a.GetPrice() == b.GetPrice(), "price is signed")
		sym.Assert(a.GetExpiry() == b.GetExpiry(), "expiry is signed")
		sym.Assert(a.GetQoS() == b.GetQoS(), "qos is signed")
		if len(a.GetCIDs()) == len(b.GetCIDs()) {
			sym.Assert(kit.SameCIDs(a.GetCIDs(), b.GetCIDs()), "CIDs are signed")
		} else {
			// a CID that is itself the hash of an inner node of the other tree is looked at in innerNodes
			for _, h := range innerHashes(a.GetCIDs()) {
				for _, c := range b.GetCIDs() {
					sym.Assume(!bytes.Equal(h, c.ToBytes()))
				}
			}
			for _, h := range innerHashes(b.GetCIDs()) {
				for _, c := range a.GetCIDs() {
					sym.Assume(!bytes.Equal(h, c.ToBytes()))
				}
			}
			sym.Assert(sameSet(a.GetCIDs(), b.GetCIDs()), "the set of CIDs is signed")
		}
	} else {
		sym.Assert(!vSameOffer(a, b), "an equal offer verifies")
	}
}

// innerHashes are the hashes of the nodes above the leaves.
func innerHashes(cids []cid.ContentID) [][]byte {
	var level, out [][]byte
	for i := range cids {
		level = append(level, cids[i].ToBytes())
	}
	for first := true; first || len(level) > 1; first = false {
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			j := i + 1
			if j == len(level) {
				j = i
			}
			h := sha256.Sum256(append(append([]byte{}, level[i]...), level[j]...))
			up = append(up, h[:])
		}
		out = append(out, up...)
		level = up
	}
	return out
}

// an offer whose CIDs are the inner nodes of another offer's tree: the signature must not carry over
func VerifC03_innerNodes() {
	a, ca := vOffer("a", 4)
	priv, pub := kit.Key(0)
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	var up []cid.ContentID
	for _, h := range innerHashes(ca)[:2] {
		c, err := cid.NewContentIDFromBytes(h)
		sym.Assert(err == nil, "CID")
		up = append(up, *c)
	}
	b, err := NewCIDOffer(a.GetProviderID(), up, a.GetPrice(), a.GetExpiry(), a.GetQoS())
	sym.Assert(err == nil, "offer")
	b.SetSignature(a.GetSignature())
	sym.Assert(b.Verify(pub) != nil, "an offer of the inner node hashes does not inherit the signature")
}

// the tree pads an odd leaf by repeating it, so lists that differ by such repeats share a root
func sameSet(a, b []cid.ContentID) bool {
	in := func(x cid.ContentID, l []cid.ContentID) bool {
		for i := range l {
			if kit.SameCID(&x, &l[i]) {
				return true
			}
		}
		return false
	}
	for _, x := range a {
		if !in(x, b) {
			return false
		}
	}
	for _, x := range b {
		if !in(x, a) {
			return false
		}
	}
	return true
}

// sub offers: provider, root, price, expiry and QoS are bound by the signature
func VerifC03_subOfferBinding() {
	a, ca := vOffer("a", 2)
	priv, pub := kit.Key(0)
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	s, err := a.GenerateSubCIDOffer(&ca[sym.Choose("which", 2)])
	sym.Assert(err == nil, "sub offer")
	root := sym.Bytes("root", 32)
	t := NewSubCIDOffer(kit.NodeID("p"), s.GetSubCID(), hex.EncodeToString(root), s.GetMerkleProof(), sym.Uint64("price"), sym.Int64("expiry"), sym.Uint64("qos"), s.GetSignature())
	same := kit.SameNode(s.GetProviderID(), t.GetProviderID()) && s.GetMerkleRoot() == t.GetMerkleRoot() &&
		s.GetPrice() == t.GetPrice() && s.GetExpiry() == t.GetExpiry() && s.GetQoS() == t.GetQoS()
	sym.Assert((t.Verify(pub) == nil) == same, "a sub offer verifies exactly when its signed terms are the signed ones")
}

// another provider's key does not verify it, and a signature by another key is refused
func VerifC03_wrongKey() {
	a, ca := vOffer("a", 1+sym.Choose("n", 2))
	priv, pub := kit.Key(0)
	priv2, pub2 := kit.Key(1)
	sym.Assert(a.Verify(pub) != nil, "unsigned offer does not verify")
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	sym.Assert(a.Verify(pub2) != nil, "other key does not verify the offer")
	s, err := a.GenerateSubCIDOffer(&ca[0])
	sym.Assert(err == nil, "sub offer")
	sym.Assert(s.Verify(pub2) != nil, "other key does not verify the sub offer")
	sym.Assert(a.Sign(priv2, kit.Version("ver2")) == nil, "offer can be re-signed")
	sym.Assert(a.Verify(pub) != nil && a.Verify(pub2) == nil, "the last signer's key verifies")
}

// any change to the signature proper is refused; a malformed one is an error, never a panic
func VerifC03_tamperedSignature() {
	a, ca := vOffer("a", 1)
	priv, pub := kit.Key(0)
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "offer can be signed")
	raw, err := hex.DecodeString(a.GetSignature())
	sym.Assert(err == nil && len(raw) == 69, "signature is key version and 65 bytes")
	mask := sym.Bytes("mask", 64)
	diff := byte(0)
	for i, m := range mask {
		raw[4+i] ^= m
		diff |= m
	}
	a.SetSignature(hex.EncodeToString(raw))
	sym.Assert((a.Verify(pub) == nil) == (diff == 0), "changed signature is refused")
	s, err := a.GenerateSubCIDOffer(&ca[0])
	sym.Assert(err == nil, "sub offer")
	sym.Assert((s.Verify(pub) == nil) == (diff == 0), "changed sub offer signature is refused")
}

func VerifC03_malformedSignature() {
	a, ca := vOffer("a", 1)
	_, pub := kit.Key(0)
	a.SetSignature(sym.String("sig", sym.Choose("len", sym.Bound("signature text", 12, 40))))
	var err error
	sym.Assert(!sym.Try(func() { err = a.Verify(pub) }), "no panic on any offer signature")
	sym.Assert(err != nil, "short signature is refused")
	s, _ := a.GenerateSubCIDOffer(&ca[0])
	sym.Assert(!sym.Try(func() { err = s.Verify(pub) }), "no panic on any sub offer signature")
	sym.Assert(err != nil, "short sub offer signature is refused")
}
