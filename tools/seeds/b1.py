C="common/pkg/"
S("c03_expiry32","C03","common","pkg/cidoffer",[
 (C+"cidoffer/cidoffer.go","	Expiry     int64         `json:\"expiry\"`\n	QoS        uint64        `json:\"qos\"`\n}","	Expiry     int32         `json:\"expiry\"`\n	QoS        uint64        `json:\"qos\"`\n}"),
 (C+"cidoffer/cidoffer.go","		MerkleRoot: c.merkleRoot,\n		Price:      c.price,\n		Expiry:     c.expiry,","		MerkleRoot: c.merkleRoot,\n		Price:      c.price,\n		Expiry:     int32(c.expiry),"),
 (C+"cidoffer/subcidoffer.go","	Expiry     int64         `json:\"expiry\"`\n	QoS        uint64        `json:\"qos\"`\n}","	Expiry     int32         `json:\"expiry\"`\n	QoS        uint64        `json:\"qos\"`\n}"),
 (C+"cidoffer/subcidoffer.go","		MerkleRoot: c.merkleRoot,\n		Price:      c.price,\n		Expiry:     c.expiry,\n		QoS:        c.qos,\n	})\n}","		MerkleRoot: c.merkleRoot,\n		Price:      c.price,\n		Expiry:     int32(c.expiry),\n		QoS:        c.qos,\n	})\n}"),
],'''
package cidoffer

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestDemoExpiry(t *testing.T) {
	key, _ := fcrcrypto.GenerateRetrievalV1KeyPair()
	s, _ := key.EncodePublicKey()
	pub, _ := fcrcrypto.DecodePublicKey(s)
	id, _ := nodeid.NewNodeIDFromHexString("01")
	a, _ := cid.NewContentIDFromHexString("0a")
	b, _ := cid.NewContentIDFromHexString("0b")
	o, err := NewCIDOffer(id, []cid.ContentID{*a, *b}, 5, 1700000000, 7)
	if err != nil || o.Sign(key, fcrcrypto.InitialKeyVersion()) != nil {
		t.Fatal("no offer")
	}
	sub, err := o.GenerateSubCIDOffer(a)
	if err != nil || sub.Verify(pub) != nil {
		t.Fatal("the offer does not verify")
	}
	forged := NewSubCIDOffer(id, a, sub.GetMerkleRoot(), sub.GetMerkleProof(), 5, 1700000000+1<<32, 7, sub.GetSignature())
	if forged.Verify(pub) == nil {
		t.Fatal("an offer with another expiry verifies")
	}
}
''',"two offers whose expiries differ by a multiple of 2^32","the signature of an offer binds only the low 32 bits of its expiry, in the offer and in its sub offers alike")
S("c04_empty_sibling","C04","common","pkg/fcrmerkletree",[
 (C+"fcrmerkletree/proof.go","	for i, path := range mp.path {\n","	for i, path := range mp.path {\n		if len(path) == 0 {\n			// a node without sibling is its own parent\n			continue\n		}\n")],'''
package fcrmerkletree

import (
	"crypto/sha256"
	"encoding/hex"
	"testing"

	"github.com/cbergoon/merkletree"
)

type leaf string

func (l leaf) CalculateHash() ([]byte, error)                  { h := sha256.Sum256([]byte(l)); return h[:], nil }
func (l leaf) Equals(o merkletree.Content) (bool, error)        { return l == o.(leaf), nil }

func TestDemoProof(t *testing.T) {
	a, b := sha256.Sum256([]byte("a")), sha256.Sum256([]byte("b"))
	root := sha256.Sum256(append(append([]byte{}, a[:]...), b[:]...))
	p := FCRMerkleProof{path: [][]byte{b[:]}, index: []int64{1}}
	if !p.VerifyContent(leaf("a"), hex.EncodeToString(root[:])) {
		t.Fatal("a good proof fails")
	}
	p = FCRMerkleProof{path: [][]byte{{}, b[:]}, index: []int64{0, 1}}
	if p.VerifyContent(leaf("a"), hex.EncodeToString(root[:])) {
		t.Fatal("a changed proof verifies")
	}
}
''',"a proof with an empty sibling put in","a Merkle proof that was changed by adding empty siblings still verifies")
S("c06_versions","C06","common","pkg/fcrmessages",[
 (C+"fcrmessages/fcrmessage.go","	return json.Marshal(fcrMessageJson{\n		MessageType:       fcrMsg.messageType,\n		ProtocolVersion:   fcrMsg.protocolVersion,\n		ProtocolSupported: fcrMsg.protocolSupported,\n		MessageBody:       fcrMsg.messageBody,\n	})","	supported := fcrMsg.protocolSupported\n	if len(supported) > 1 {\n		// the version in use and one to change to are what counts\n		supported = supported[:2]\n	}\n	return json.Marshal(fcrMessageJson{\n		MessageType:       fcrMsg.messageType,\n		ProtocolVersion:   fcrMsg.protocolVersion,\n		ProtocolSupported: supported,\n		MessageBody:       fcrMsg.messageBody,\n	})")],'''
package fcrmessages

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
)

func TestDemoVersions(t *testing.T) {
	key, _ := fcrcrypto.GenerateRetrievalV1KeyPair()
	m := &FCRMessage{messageType: 1, protocolVersion: 1, protocolSupported: []int32{1, 2, 3}, messageBody: []byte("x")}
	if m.Sign(key, fcrcrypto.InitialKeyVersion()) != nil || m.Verify(key) != nil {
		t.Fatal("not signed")
	}
	m.protocolSupported = []int32{1, 2, 4}
	if m.Verify(key) == nil {
		t.Fatal("a changed message verifies")
	}
}
''',"a message with three or more supported versions, changed from the third on","the signature does not bind the whole list of supported versions")
S("c08_alg_mask","C08","common","pkg/fcrcrypto",[
 (C+"fcrcrypto/keypair_retrieval.go","	if len(algKeyBytes) < lengthOfSigAlgInBytes {\n		return nil, fmt.Errorf(\"public key is empty\")\n	}\n\n	alg := algKeyBytes[0]\n","	if len(algKeyBytes) < lengthOfSigAlgInBytes {\n		return nil, fmt.Errorf(\"public key is empty\")\n	}\n\n	// the high bit tells that the key is not compressed\n	alg := algKeyBytes[0] &^ 0x80\n")],'''
package fcrcrypto

import "testing"

func TestDemoAlg(t *testing.T) {
	key, _ := GenerateRetrievalV1KeyPair()
	s, _ := key.EncodePublicKey()
	if _, err := DecodePublicKey(s); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodePublicKey("8" + s[1:]); err == nil {
		t.Fatal("a key of an unknown algorithm is read")
	}
}
''',"a public key with algorithm number 129","text with an unknown algorithm number is accepted as a public key")
S("c13_expired_shared","C13","common","pkg/fcroffermgr",[
 (C+"fcroffermgr/offer_storage.go","	o.lock.RLock()\n	for _, offer := range toRemove {","	o.lock.Lock()\n	for _, offer := range toRemove {"),
 (C+"fcroffermgr/offer_storage.go","			digestMap.lock.Lock()\n			delete(digestMap.dMap, digest)\n			digestMap.lock.Unlock()\n			// After this deletion, it is possible this cid entry has no offers.\n			// This shouldn't be a problem, since this cid entry will be used in the future.\n		}\n	}\n	o.lock.RUnlock()","			digestMap.lock.Lock()\n			delete(digestMap.dMap, digest)\n			digestMap.lock.Unlock()\n			if contentID.ToString() != cidStr {\n				// no need to keep its entry\n				delete(o.cidMap, contentID.ToString())\n			}\n		}\n	}\n	o.lock.Unlock()"),
 (C+"fcroffermgr/offer_storage.go","				// Something is wrong\n				panic(\"Internal error: Try to remove cid offer that are not existed in cid map\")","				continue"),
 ],'''
package fcroffermgr

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestDemoShared(t *testing.T) {
	id, _ := nodeid.NewNodeIDFromHexString("01")
	a, _ := cid.NewContentIDFromHexString("0a")
	b, _ := cid.NewContentIDFromHexString("0b")
	c, _ := cid.NewContentIDFromHexString("0c")
	soon, _ := cidoffer.NewCIDOffer(id, []cid.ContentID{*a, *b}, 5, time.Now().Unix()+2, 7)
	late, _ := cidoffer.NewCIDOffer(id, []cid.ContentID{*b, *c}, 5, time.Now().Unix()+1000, 7)
	m := NewFCROfferMgr()
	if m.AddGroupOffer(soon) != nil || m.AddGroupOffer(late) != nil {
		t.Fatal("not added")
	}
	time.Sleep(4 * time.Second)
	if l, _ := m.GetGroupOffers(a); len(l) != 0 {
		t.Fatal("an expired offer is found")
	}
	if l, _ := m.GetGroupOffers(b); len(l) != 1 {
		t.Fatal("an offer that has not expired is lost")
	}
}
''',"an expired offer and a live one share a piece, and another piece of the expired one is looked up first","removing an expired offer removes the live offers that share a piece with it")
S("c15_lane_balance","C15","common","pkg/fcrpaymentmgr",[
 (C+"fcrpaymentmgr/payment_manager.go","	cs.redeemed.Add(&cs.redeemed, amount)\n	return cs.addr.String(), voucher, false, nil","	if cs.redeemed.Cmp(&ls.redeemed) < 0 {\n		// the channel has at least what its lanes have\n		cs.redeemed.Set(&ls.redeemed)\n	}\n	return cs.addr.String(), voucher, false, nil")],'''
package fcrpaymentmgr

import (
	"encoding/hex"
	"math/big"
	"testing"

	"github.com/filecoin-project/go-address"
)

func TestDemoLanes(t *testing.T) {
	key, _ := hex.DecodeString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20")
	m, err := NewFCRPaymentMgr(hex.EncodeToString(key), "http://127.0.0.1:1", "")
	if err != nil {
		t.Fatal(err)
	}
	ch, _ := address.NewIDAddress(101)
	m.outboundChs["t01"] = &channelState{addr: ch, balance: *big.NewInt(10), redeemed: *big.NewInt(0), laneStates: map[uint64]*laneState{}}
	for lane := uint64(0); lane < 2; lane++ {
		if _, _, topup, err := m.Pay("t01", lane, big.NewInt(5)); err != nil || topup {
			t.Fatal("not paid", err)
		}
	}
	if _, _, topup, _ := m.Pay("t01", 2, big.NewInt(5)); !topup {
		t.Fatal("paid 15 of 10")
	}
}
''',"payments on two or more lanes of one channel","what is drawn on several lanes together exceeds the channel's balance")
S("c18_floor","C18","gateway","internal/reputation",[
 ("gateway/internal/reputation/reputation_store.go","	newVal := val + amount\n","	r.clientsMapLock.Unlock()\n	newVal := val + amount\n"),
 ("gateway/internal/reputation/reputation_store.go","	r.clients[clientNodeIDStr] = newVal\n	r.clientsMapLock.Unlock()\n","	r.clientsMapLock.Lock()\n	r.clients[clientNodeIDStr] = newVal\n	r.clientsMapLock.Unlock()\n")],'''
package reputation

import (
	"runtime"
	"sync"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestDemoThreads(t *testing.T) {
	id, _ := nodeid.NewNodeIDFromHexString("01")
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	for i := 0; i < 200; i++ {
		r := newInstance()
		r.SetClientReputation(id, 0)
		var w sync.WaitGroup
		for k := 0; k < 4; k++ {
			w.Add(1)
			go func() {
				for j := 0; j < 200; j++ {
					r.ClientMicroPayment(id)
				}
				w.Done()
			}()
		}
		w.Wait()
		if v, _ := r.GetClientReputation(id); v != 800 {
			t.Fatal("events were lost", v)
		}
	}
}
''',"two events of a client at the same time, interleaved between reading and writing its reputation","an event of a client is lost")
