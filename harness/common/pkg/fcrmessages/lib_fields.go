package fcrmessages

import (
	"bytes"
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// vX is a symbolic value, vEqX compares two, zX is a fixed value, hX is a value of a received body
// (possibly malformed), useX touches a decoded value as its receiver would.

func vlen(l string) int { return sym.Choose(l+" count", sym.Bound("list entries", 3, 4)) }

func vCidp(l string) *cid.ContentID  { return kit.CID(l) }
func vNodep(l string) *nodeid.NodeID { return kit.NodeID(l) }
func vNode(l string) nodeid.NodeID   { return *kit.NodeID(l) }
func vInt64(l string) int64          { return sym.Int64(l) }
func vInt32(l string) int32          { return int32(sym.Uint32(l)) }
func vU64(l string) uint64           { return sym.Uint64(l) }
func vBool(l string) bool            { return sym.Bool(l) }
func vStr(l string) string           { return sym.String(l, []int{3, 0}[sym.Choose(l+" length", 2)]) }
func vKeyp(l string) *fcrcrypto.KeyPair {
	k, _ := kit.Key(sym.Choose(l, 2))
	return k
}
func vVerp(l string) *fcrcrypto.KeyVersion { return kit.Version(l) }
func vStrs(l string) (r []string) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, sym.String(l, 2))
	}
	return
}
func vStrss(l string) (r [][]string) {
	for i, n := 0, vlen(l); i < n; i++ {
		var s []string
		for j := 0; j < i; j++ {
			s = append(s, sym.String(l, 2))
		}
		r = append(r, s)
	}
	return
}
func vBools(l string) (r []bool) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, sym.Bool(l))
	}
	return
}
func vU64s(l string) (r []uint64) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, sym.Uint64(l))
	}
	return
}
func vI64s(l string) (r []int64) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, sym.Int64(l))
	}
	return
}
func vNodes(l string) (r []nodeid.NodeID) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, *kit.NodeID(l))
	}
	return
}
func vCids(l string) []cid.ContentID { return kit.CIDs(l, vlen(l)) }
func vMsgp(l string) *FCRMessage {
	m := CreateFCRMessage(int32(sym.Uint32(l+" type")), sym.Bytes(l+" body", 2))
	return vForge(m, sym.String(l+" signature", 2))
}
func vMsgs(l string) (r []FCRMessage) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, *vMsgp(l))
	}
	return
}
func vOfferp(l string) *cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(kit.NodeID(l+" provider"), kit.CIDs(l+" cid", 1), sym.Uint64(l+" price"), sym.Int64(l+" expiry"), sym.Uint64(l+" qos"))
	sym.Assume(err == nil)
	o.SetSignature(sym.String(l+" signature", 2))
	return o
}
func vOffers(l string) (r []cidoffer.CIDOffer) {
	for i, n := 0, vlen(l); i < n; i++ {
		r = append(r, *vOfferp(l))
	}
	return
}
func vSubs(l string) (r []cidoffer.SubCIDOffer) {
	for i, n := 0, vlen(l); i < n; i++ {
		o := vOfferp(l)
		s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
		sym.Assume(err == nil)
		r = append(r, *s)
	}
	return
}
func vProofp(l string) *fcrmerkletree.FCRMerkleProof {
	o, err := cidoffer.NewCIDOffer(kit.NodeID(l+" provider"), kit.CIDs(l+" cid", 2), 1, 1, 1)
	sym.Assume(err == nil)
	s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[sym.Choose(l, 2)])
	sym.Assume(err == nil)
	return s.GetMerkleProof()
}

func vEqCidp(a, b *cid.ContentID) bool { return kit.SameCID(a, b) }
func vEqNodep(a interface{}, b *nodeid.NodeID) bool {
	switch x := a.(type) {
	case *nodeid.NodeID:
		return kit.SameNode(x, b)
	case nodeid.NodeID:
		return kit.SameNode(&x, b)
	}
	return false
}
func vEqInt64(a, b int64) bool { return a == b }
func vEqInt32(a, b int32) bool { return a == b }
func vEqU64(a, b uint64) bool  { return a == b }
func vEqBool(a, b bool) bool   { return a == b }
func vEqStr(a, b string) bool  { return a == b }
func vEqKeyp(a, b *fcrcrypto.KeyPair) bool {
	return b != nil && a.EncodePrivateKey() == b.EncodePrivateKey()
}
func vEqVerp(a, b *fcrcrypto.KeyVersion) bool { return b != nil && a.Equals(b) }
func vEqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vEqStrss(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vEqStrs(a[i], b[i]) {
			return false
		}
	}
	return true
}
func vEqBools(a, b []bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vEqU64s(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vEqI64s(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vEqNodes(a, b []nodeid.NodeID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !kit.SameNode(&a[i], &b[i]) {
			return false
		}
	}
	return true
}
func vEqCids(a, b []cid.ContentID) bool { return kit.SameCIDs(a, b) }
func vEqMsgp(a, b *FCRMessage) bool     { return b != nil && vSameMsg(a, b) }
func vEqMsgs(a, b []FCRMessage) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vSameMsg(&a[i], &b[i]) {
			return false
		}
	}
	return true
}
func vEqOfferp(a, b *cidoffer.CIDOffer) bool {
	return b != nil && kit.SameNode(a.GetProviderID(), b.GetProviderID()) && kit.SameCIDs(a.GetCIDs(), b.GetCIDs()) &&
		a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS() && a.GetSignature() == b.GetSignature()
}
func vEqOffers(a, b []cidoffer.CIDOffer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vEqOfferp(&a[i], &b[i]) {
			return false
		}
	}
	return true
}
func vEqProofp(a, b *fcrmerkletree.FCRMerkleProof) bool {
	if b == nil {
		return false
	}
	x, err := json.Marshal(a)
	sym.Assume(err == nil)
	y, err := json.Marshal(b)
	return err == nil && bytes.Equal(x, y)
}
func vEqSubs(a, b []cidoffer.SubCIDOffer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := &a[i], &b[i]
		if !(kit.SameNode(x.GetProviderID(), y.GetProviderID()) && kit.SameCID(x.GetSubCID(), y.GetSubCID()) && x.GetMerkleRoot() == y.GetMerkleRoot() &&
			x.GetPrice() == y.GetPrice() && x.GetExpiry() == y.GetExpiry() && x.GetQoS() == y.GetQoS() && x.GetSignature() == y.GetSignature() &&
			vEqProofp(x.GetMerkleProof(), y.GetMerkleProof())) {
			return false
		}
	}
	return true
}

func zCidp() *cid.ContentID {
	c, err := cid.NewContentIDFromBytes([]byte{1})
	sym.Assume(err == nil)
	return c
}
func zNodep() *nodeid.NodeID {
	c, err := nodeid.NewNodeIDFromBytes([]byte{1})
	sym.Assume(err == nil)
	return c
}
func zNode() nodeid.NodeID          { return *zNodep() }
func zInt64() int64                 { return 1 }
func zInt32() int32                 { return 1 }
func zU64() uint64                  { return 1 }
func zBool() bool                   { return true }
func zStr() string                  { return "" }
func zStrs() []string               { return nil }
func zStrss() [][]string            { return nil }
func zBools() []bool                { return nil }
func zU64s() []uint64               { return nil }
func zI64s() []int64                { return nil }
func zNodes() []nodeid.NodeID       { return nil }
func zCids() []cid.ContentID        { return nil }
func zMsgs() []FCRMessage           { return nil }
func zMsgp() *FCRMessage            { return CreateFCRMessage(1, nil) }
func zSubs() []cidoffer.SubCIDOffer { return nil }
func zOffers() []cidoffer.CIDOffer  { return nil }
func zVerp() *fcrcrypto.KeyVersion  { return fcrcrypto.InitialKeyVersion() }
func zOfferp() *cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(zNodep(), []cid.ContentID{*zCidp()}, 1, 1, 1)
	sym.Assume(err == nil)
	return o
}
func zProofp() *fcrmerkletree.FCRMerkleProof {
	o := zOfferp()
	s, err := o.GenerateSubCIDOffer(zCidp())
	sym.Assume(err == nil)
	return s.GetMerkleProof()
}
func zKeyp() *fcrcrypto.KeyPair {
	k, _ := kit.Key(0)
	return k
}

// texts of the wrong length, of the longest good one, and one too long
func hText(l string) string {
	return sym.String(l, []int{2, 0, 3, 4, 66}[sym.Choose(l+" length", sym.Bound("text lengths", 4, 5))])
}
func hCID(l string, good *bool, omit bool) string {
	if omit {
		return ""
	}
	s := hText(l)
	_, err := cid.NewContentIDFromHexString(s)
	*good = *good && err == nil
	return s
}
func hNode(l string, good *bool, omit bool) string {
	if omit {
		return ""
	}
	s := hText(l)
	_, err := nodeid.NewNodeIDFromHexString(s)
	*good = *good && err == nil
	return s
}
func hKey(l string, good *bool, omit bool) string {
	if omit {
		return ""
	}
	var s string
	if sym.Bool(l + " good") {
		k, _ := kit.Key(0)
		s = k.EncodePrivateKey()
	} else {
		s = sym.String(l, []int{2, 0, 3, 4}[sym.Choose(l+" length", 4)])
	}
	*good = *good && len(s) == 66
	return s
}
func hNodes(l string, good *bool, omit bool) []string {
	r := []string{}
	for i, n := 0, sym.Choose(l+" count", 3); i < n && !omit; i++ {
		s := sym.String(l, 2)
		_, err := nodeid.NewNodeIDFromHexString(s)
		*good = *good && err == nil
		r = append(r, s)
	}
	return r
}
func hCIDs(l string, good *bool, omit bool) []string {
	r := []string{}
	for i, n := 0, sym.Choose(l+" count", 3); i < n && !omit; i++ {
		s := sym.String(l, 2)
		_, err := cid.NewContentIDFromHexString(s)
		*good = *good && err == nil
		r = append(r, s)
	}
	return r
}
func hStr(l string, good *bool, omit bool) string    { return sym.String(l, 2) }
func hInt64(l string, good *bool, omit bool) int64   { return sym.Int64(l) }
func hInt32(l string, good *bool, omit bool) int32   { return int32(sym.Uint32(l)) }
func hU64(l string, good *bool, omit bool) uint64    { return sym.Uint64(l) }
func hU32(l string, good *bool, omit bool) uint32    { return sym.Uint32(l) }
func hBool(l string, good *bool, omit bool) bool     { return sym.Bool(l) }
func hStrs(l string, good *bool, omit bool) []string { return []string{sym.String(l, 2)} }
func hStrss(l string, good *bool, omit bool) [][]string {
	return [][]string{{sym.String(l, 2)}, {}}
}
func hBools(l string, good *bool, omit bool) []bool   { return []bool{sym.Bool(l)} }
func hU64s(l string, good *bool, omit bool) []uint64  { return []uint64{sym.Uint64(l)} }
func hI64s(l string, good *bool, omit bool) []int64   { return []int64{sym.Int64(l)} }
func hMsg(l string, good *bool, omit bool) FCRMessage { return *zMsgp() }
func hMsgs(l string, good *bool, omit bool) []FCRMessage {
	return []FCRMessage{*zMsgp()}
}
func hProof(l string, good *bool, omit bool) fcrmerkletree.FCRMerkleProof { return *zProofp() }
func hOffer(l string, good *bool, omit bool) map[string]interface{} {
	return map[string]interface{}{"provider_id": hNode(l+" provider", good, omit), "cids": []string{hCID(l+" cid", good, omit)},
		"price": sym.Uint64(l + " price"), "expiry": sym.Int64(l + " expiry"), "qos": sym.Uint64(l + " qos"), "signature": sym.String(l+" signature", 2)}
}
func hOffers(l string, good *bool, omit bool) (r []map[string]interface{}) {
	for i, n := 0, sym.Choose(l+" count", 2); i < n && !omit; i++ {
		r = append(r, hOffer(l, good, false))
	}
	return
}
func hSubs(l string, good *bool, omit bool) (r []map[string]interface{}) {
	for i, n := 0, sym.Choose(l+" count", 2); i < n && !omit; i++ {
		w := map[string]interface{}{"provider_id": hNode(l+" provider", good, false), "sub_cid": hCID(l+" cid", good, false),
			"merkle_root": sym.String(l+" root", 2), "signature": sym.String(l+" signature", 2)}
		if sym.Bool(l + " proof") {
			w["merkle_proof"] = *zProofp()
		}
		r = append(r, w)
	}
	return
}

func useCidp(c *cid.ContentID) {
	sym.Assert(len(c.ToBytes()) == 32, "accepted content id is a 32 byte id")
}
func useNodep(c *nodeid.NodeID) {
	sym.Assert(len(c.ToBytes()) == 32, "accepted node id is a 32 byte id")
}
func useNode(c nodeid.NodeID) { useNodep(&c) }
func useCids(l []cid.ContentID) {
	for i := range l {
		useCidp(&l[i])
	}
}
func useNodes(l []nodeid.NodeID) {
	for i := range l {
		useNodep(&l[i])
	}
}
func useInt64(int64)                  {}
func useInt32(int32)                  {}
func useU64(uint64)                   {}
func useBool(bool)                    {}
func useStr(string)                   {}
func useStrs([]string)                {}
func useStrss([][]string)             {}
func useBools([]bool)                 {}
func useU64s([]uint64)                {}
func useI64s([]int64)                 {}
func useVerp(v *fcrcrypto.KeyVersion) { v.EncodeKeyVersion() }
func useKeyp(k *fcrcrypto.KeyPair) {
	sym.Assert(len(k.EncodePrivateKey()) == 66, "accepted key is a key")
}
func useMsgp(m *FCRMessage)  { m.GetMessageType() }
func useMsgs(l []FCRMessage) {}
func useOfferp(o *cidoffer.CIDOffer) {
	useNodep(o.GetProviderID())
	sym.Assert(len(o.GetCIDs()) > 0, "accepted offer has a CID")
	o.GetMessageDigest()
	_, err := o.MarshalToSign()
	sym.Assert(err == nil, "accepted offer has a signed form")
}
func useOffers(l []cidoffer.CIDOffer) {
	for i := range l {
		useOfferp(&l[i])
	}
}
func useSubs(l []cidoffer.SubCIDOffer) {
	for i := range l {
		useNodep(l[i].GetProviderID())
		useCidp(l[i].GetSubCID())
		l[i].VerifyMerkleProof()
	}
}
func useProofp(p *fcrmerkletree.FCRMerkleProof) { p.VerifyContent(zCidp(), "00") }
