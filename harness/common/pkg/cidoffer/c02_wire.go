package cidoffer

import (
	"bytes"
	"encoding/json"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// an offer survives the wire: every field, the digest and the signed bytes
func VerifC02_offerRoundTrip() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	o, cids := vOffer("o", n)
	o.SetSignature(sym.String("sig", sym.Choose("siglen", 3)*2))
	sym.Assert(kit.SameCIDs(o.GetCIDs(), cids), "offer keeps its CIDs in order")
	data, err := json.Marshal(o)
	sym.Assert(err == nil, "offer marshals")
	var p CIDOffer
	sym.Assert(json.Unmarshal(data, &p) == nil, "offer unmarshals")
	sym.Assert(kit.SameNode(o.GetProviderID(), p.GetProviderID()), "provider id kept")
	sym.Assert(kit.SameCIDs(o.GetCIDs(), p.GetCIDs()), "CIDs kept in order")
	sym.Assert(o.GetPrice() == p.GetPrice(), "price kept")
	sym.Assert(o.GetExpiry() == p.GetExpiry(), "expiry kept")
	sym.Assert(o.GetQoS() == p.GetQoS(), "qos kept")
	sym.Assert(o.GetSignature() == p.GetSignature(), "signature kept")
	sym.Assert(o.GetMessageDigest() == p.GetMessageDigest(), "digest kept")
	a, err := o.MarshalToSign()
	sym.Assert(err == nil, "signed form")
	b, err := p.MarshalToSign()
	sym.Assert(err == nil && bytes.Equal(a, b), "signed bytes kept")
}

func VerifC02_subOfferRoundTrip() {
	n := 1 + sym.Choose("n", sym.Bound("cids", 4, 8))
	o, cids := vOffer("o", n)
	o.SetSignature(sym.String("sig", 4))
	k := sym.Choose("which", n)
	c := cids[k]
	s, err := o.GenerateSubCIDOffer(&c)
	sym.Assert(err == nil && s != nil, "sub offer")
	sym.Assert(kit.SameNode(s.GetProviderID(), o.GetProviderID()) && kit.SameCID(s.GetSubCID(), &c) &&
		s.GetPrice() == o.GetPrice() && s.GetExpiry() == o.GetExpiry() && s.GetQoS() == o.GetQoS() &&
		s.GetSignature() == o.GetSignature(), "sub offer carries the terms and the signature of the offer")
	data, err := json.Marshal(s)
	sym.Assert(err == nil, "sub offer marshals")
	var p SubCIDOffer
	sym.Assert(json.Unmarshal(data, &p) == nil, "sub offer unmarshals")
	sym.Assert(kit.SameNode(s.GetProviderID(), p.GetProviderID()), "provider id kept")
	sym.Assert(kit.SameCID(s.GetSubCID(), p.GetSubCID()), "CID kept")
	sym.Assert(s.GetMerkleRoot() == p.GetMerkleRoot(), "root kept")
	sym.Assert(s.GetPrice() == p.GetPrice() && s.GetExpiry() == p.GetExpiry() && s.GetQoS() == p.GetQoS(), "terms kept")
	sym.Assert(s.GetSignature() == p.GetSignature(), "signature kept")
	a, err := s.MarshalToSign()
	sym.Assert(err == nil, "signed form")
	b, err := p.MarshalToSign()
	sym.Assert(err == nil && bytes.Equal(a, b), "signed bytes kept")
	f, err := o.MarshalToSign()
	sym.Assert(err == nil && bytes.Equal(a, f), "sub offer is signed by the offer's signature")
	again, err := json.Marshal(&p)
	sym.Assert(err == nil && bytes.Equal(again, data), "re-encoding gives the same bytes")
}

// the digest identifies the offer: equal exactly when provider, CIDs, price, expiry and QoS are
func VerifC02_digestIdentifies() {
	m := sym.Bound("cids", 3, 5)
	a, _ := vOffer("a", 1+sym.Choose("na", m))
	b, _ := vOffer("b", 1+sym.Choose("nb", m))
	id := append([]byte{}, a.GetProviderID().ToBytes()...)
	da, db := a.GetMessageDigest(), b.GetMessageDigest()
	sym.Assert((da == db) == vSameOffer(a, b), "digest equality is offer equality")
	sym.Assert(a.GetMessageDigest() == da, "digest is stable")
	sym.Assert(bytes.Equal(id, a.GetProviderID().ToBytes()), "digest leaves the offer unchanged")
	a.SetSignature(sym.String("sig", 2))
	sym.Assert(a.GetMessageDigest() == da, "signature is not part of the digest")
	sym.Assert(DecodeMessageDigest(EncodeMessageDigest(da)) == da, "digest text round trip")
	sym.Assert((EncodeMessageDigest(da) == EncodeMessageDigest(db)) == (da == db), "digest text identifies the digest")
}

func VerifC02_digestText() {
	var d [CIDOfferDigestSize]byte
	copy(d[:], sym.Bytes("digest", CIDOfferDigestSize))
	sym.Assert(DecodeMessageDigest(EncodeMessageDigest(d)) == d, "any digest round trips")
}

func VerifC02_noCIDs() {
	o, err := NewCIDOffer(kit.NodeID("provider"), []cid.ContentID{}, sym.Uint64("price"), sym.Int64("expiry"), sym.Uint64("qos"))
	sym.Assert(err != nil && o == nil, "an offer without CIDs is refused")
}

// expiry: an offer has expired exactly when its expiry second is before the current time
func VerifC02_expiry() {
	exp := sym.Int64("expiry")
	sym.Assume(exp > -1<<40 && exp < 1<<40)
	c := kit.CID("cid")
	o, err := NewCIDOffer(kit.NodeID("provider"), []cid.ContentID{*c}, 1, exp, 1)
	sym.Assert(err == nil, "offer")
	before := time.Now()
	got := o.HasExpired()
	after := time.Now()
	if exp > after.Unix() {
		sym.Assert(!got, "future offer has not expired")
	}
	if exp < before.Unix() {
		sym.Assert(got, "past offer has expired")
	}
	s, err := o.GenerateSubCIDOffer(c)
	sym.Assert(err == nil && s.GetExpiry() == exp, "sub offer")
	before = time.Now()
	got = s.HasExpired()
	after = time.Now()
	if exp > after.Unix() {
		sym.Assert(!got, "future sub offer has not expired")
	}
	if exp < before.Unix() {
		sym.Assert(got, "past sub offer has expired")
	}
}

// hostile wire forms: an id field with any text is refused or names a 32 byte id; never a panic
func VerifC02_hostileOffer() {
	n := sym.Choose("n", 3)
	w := map[string]interface{}{"price": sym.Uint64("price"), "expiry": sym.Int64("expiry"), "qos": sym.Uint64("qos"), "signature": "00"}
	w["provider_id"] = sym.String("provider", sym.Choose("plen", sym.Bound("text", 5, 67)))
	var cids []string
	for i := 0; i < n; i++ {
		cids = append(cids, sym.String("cid", sym.Choose("clen", sym.Bound("text", 5, 67))))
	}
	w["cids"] = cids
	data, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	var o CIDOffer
	var uerr error
	sym.Assert(!sym.Try(func() { uerr = json.Unmarshal(data, &o) }), "no panic on any offer text")
	if uerr != nil {
		return
	}
	sym.Assert(len(o.GetCIDs()) == n && n > 0, "accepted offer has the CIDs it was sent with")
	sym.Assert(o.GetProviderID() != nil, "accepted offer has a provider")
	sym.Assert(!sym.Try(func() { o.GetMessageDigest() }), "accepted offer has a digest")
	sym.Assert(!sym.Try(func() { o.MarshalToSign() }), "accepted offer has a signed form")
}

func VerifC02_hostileSubOffer() {
	good, cids := vOffer("o", 2)
	s, err := good.GenerateSubCIDOffer(&cids[0])
	sym.Assert(err == nil, "sub offer")
	proof, err := json.Marshal(s.GetMerkleProof())
	sym.Assert(err == nil, "proof marshals")
	w := map[string]interface{}{"price": sym.Uint64("price"), "expiry": sym.Int64("expiry"), "qos": sym.Uint64("qos"), "signature": "00",
		"merkle_root": s.GetMerkleRoot(), "merkle_proof": json.RawMessage(proof)}
	w["provider_id"] = sym.String("provider", sym.Choose("plen", sym.Bound("text", 5, 67)))
	w["sub_cid"] = sym.String("cid", sym.Choose("clen", sym.Bound("text", 5, 67)))
	data, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	var o SubCIDOffer
	var uerr error
	sym.Assert(!sym.Try(func() { uerr = json.Unmarshal(data, &o) }), "no panic on any sub offer text")
	if uerr != nil {
		return
	}
	sym.Assert(!sym.Try(func() { o.VerifyMerkleProof() }), "accepted sub offer can be checked")
	sym.Assert(!sym.Try(func() { o.MarshalToSign() }), "accepted sub offer has a signed form")
	sym.Assert(o.GetProviderID() != nil && o.GetSubCID() != nil, "accepted sub offer has its ids")
}
