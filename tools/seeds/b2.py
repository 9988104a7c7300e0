C="common/pkg/"
RING='''
package dhtring

import (
	"fmt"
	"testing"
)

func hexID(v int) string { return fmt.Sprintf("%064x", v) }

func ringOf(v ...int) *Ring {
	r := CreateRing()
	for _, x := range v {
		r.Insert(hexID(x))
	}
	return r
}

'''
S("c09_exclude_self","C09","common","pkg/dhtring",[
 (C+"dhtring/dhtring.go","		before := r.size\n		r.remove(exclude)\n		if r.size != before {\n			defer r.insert(exclude)\n		}","		before := r.size\n		r.remove(exclude)\n		// hex is taken out again at the end\n		if r.size != before && exclude != hex {\n			defer r.insert(exclude)\n		}")],
 RING+'''func TestDemo(t *testing.T) {
	r := ringOf(1, 5, 9)
	r.GetClosest(hexID(5), 2, hexID(5))
	if r.Size() != 3 {
		t.Fatal("a lookup changes the ring", r.Size())
	}
}
''',"a lookup near an entry that is excluded itself","the entry is lost from the ring")
S("c10_stale_distance","C10","common","pkg/dhtring",[
 (C+"dhtring/dhtring.go","					next.prv = prv\n					next.distPrv = getDist(prv.key, next.key)","					next.prv = prv")],
 RING+'''func TestDemo(t *testing.T) {
	r := ringOf(10, 20, 30, 40)
	r.Remove(hexID(20))
	// from 41: 40 (1), 30 (11), 10 (31); clockwise 10 is far
	r.Insert(hexID(70))
	// from 35: 30 (5), 40 (5), 10 (25), 70 (35)
	got, _ := r.GetClosest(hexID(42), 3, "")
	// distances: 40 2, 30 12, 70 28, 10 32
	want := []string{hexID(30), hexID(40), hexID(70)}
	if len(got) != 3 || got[0] != want[0] || got[1] != want[1] || got[2] != want[2] {
		t.Fatal(got)
	}
	got, _ = r.GetClosest(hexID(45), 3, "")
	// distances: 40 5, 30 15, 70 25, 10 35
	if len(got) != 3 || got[0] != hexID(30) {
		t.Fatal(got)
	}
	// removing 20 left 30 with the distance to 20: 10 seems 10 closer than it is
	got, _ = r.GetClosest(hexID(44), 3, "")
	if len(got) != 3 || got[0] != hexID(30) || got[2] != hexID(70) {
		t.Fatal(got)
	}
	r = ringOf(0, 20, 30, 63)
	r.Remove(hexID(20))
	got, _ = r.GetClosest(hexID(31), 2, "")
	// distances: 30 1, 0 31, 63 32
	if len(got) != 2 || got[0] != hexID(0) {
		t.Fatal(got)
	}
	got, _ = r.GetClosest(hexID(33), 2, "")
	// distances: 30 3, 63 30, 0 33
	if len(got) != 2 || got[1] != hexID(63) {
		t.Fatal(got)
	}
}
''',"a removal between two entries, and a lookup after it that goes past the gap","the lookup uses the distance to the removed entry and finds entries that are not the closest")
S("c11_leak_end","C11","common","pkg/dhtring",[
 (C+"dhtring/dhtring.go","		defer r.remove(endHex)\n","		if startHex < endHex {\n			defer r.remove(endHex)\n		}\n")],
 RING+'''func TestDemo(t *testing.T) {
	r := ringOf(10, 20, 30)
	r.GetWithinRange(hexID(12), hexID(25))
	if r.Size() != 3 {
		t.Fatal("a range changes the ring")
	}
	r.GetWithinRange(hexID(25), hexID(15))
	if r.Size() != 3 {
		t.Fatal("a range that wraps changes the ring")
	}
}
''',"a range that wraps round and whose second bound is no entry","the bound stays in the ring as an entry")
S("c12_int64","C12","common","pkg/math",[
 (C+"math/distance.go","	c := dist1.Cmp(dist2)\n","	c := dist1.Cmp(dist2)\n	if dist1.IsUint64() && dist2.IsUint64() {\n		// small circle\n		c = int(dist1.Int64() - dist2.Int64())\n	}\n")],
 '''
package math

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	card := new(big.Int).Lsh(big.NewInt(1), 64)
	a, b := []byte{0}, []byte{0xc0, 0, 0, 0, 0, 0, 0, 0}
	d, err := GetDistance(a, b, card)
	if err != nil || d.Cmp(new(big.Int).Lsh(big.NewInt(1), 62)) != 0 {
		t.Fatal(d)
	}
	d, _ = GetDistance([]byte{0}, []byte{200}, big.NewInt(256))
	if d.Int64() != 56 {
		t.Fatal(d)
	}
}
''',"a circle of about 2^64 and values more than half of it apart","the distance of the longer way round")
S("c14_skip_unfit","C14","common","pkg/fcroffermgr",[
 (C+"fcroffermgr/offer_manager.go","		offersTemp := mgr.dhtOffers.get(contentID)\n","		offersTemp := mgr.dhtOffers.get(contentID)\n		if len(offers) > 0 && len(offers)+len(offersTemp) > maxOffers {\n			// the offers of a content id go together\n			continue\n		}\n")],
 '''
package fcroffermgr

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestDemo(t *testing.T) {
	id, _ := nodeid.NewNodeIDFromHexString("01")
	m := NewFCROfferMgr()
	cids := []string{"0a", "0b", "0b", "0c"}
	for i, s := range cids {
		c, _ := cid.NewContentIDFromHexString(s)
		o, _ := cidoffer.NewCIDOffer(id, []cid.ContentID{*c}, uint64(i), time.Now().Unix()+1000, 7)
		if m.AddDHTOffer(o) != nil {
			t.Fatal("not added")
		}
	}
	a, _ := cid.NewContentIDFromHexString("0a")
	c, _ := cid.NewContentIDFromHexString("0c")
	l, ok := m.GetDHTOffersWithinRange(a, c, 2)
	if !ok || len(l) != 2 || l[1].GetCIDs()[0].ToString()[62:] != "0b" {
		t.Fatal("not cut off at the limit")
	}
}
''',"a content id with two offers or more at the limit","offers are left out before the limit is reached and later ones come instead")
PAY='''
package fcrpaymentmgr

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	"github.com/filecoin-project/lotus/lib/sigs"
	_ "github.com/filecoin-project/lotus/lib/sigs/secp"
)

// node is a lotus node with one payment channel t0101 (f2 address robust) of the given balance
func node(t *testing.T, balance string, payer, payee address.Address, robust address.Address) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			ID     int
			Method string
			Params []json.RawMessage
		}
		json.NewDecoder(r.Body).Decode(&q)
		var res interface{}
		switch q.Method {
		case "Filecoin.StateReadState":
			res = map[string]interface{}{"Balance": balance, "State": map[string]interface{}{"From": payer.String(), "To": payee.String()}}
		case "Filecoin.StateLookupID":
			res = "t0101"
		case "Filecoin.StateAccountKey":
			res = q.Params[0]
		}
		b, _ := json.Marshal(res)
		fmt.Fprintf(w, "{\\"jsonrpc\\":\\"2.0\\",\\"id\\":%d,\\"result\\":%s}", q.ID, b)
	}))
}

func voucher(t *testing.T, priv []byte, ch address.Address, lane, nonce uint64, amount int64) string {
	sv := &paych.SignedVoucher{ChannelAddr: ch, Lane: lane, Nonce: nonce, Amount: types.NewInt(uint64(amount))}
	vb, _ := sv.SigningBytes()
	sig, err := sigs.Sign(crypto2.SigTypeSecp256k1, priv, vb)
	if err != nil {
		t.Fatal(err)
	}
	sv.Signature = sig
	v, err := encodedVoucher(sv)
	if err != nil {
		t.Fatal(err)
	}
	return v
}

func key(b byte) ([]byte, address.Address) {
	k := bytes.Repeat([]byte{b}, 32)
	pub, _ := sigs.ToPublic(crypto2.SigTypeSecp256k1, k)
	a, _ := address.NewSecp256k1Address(pub)
	return k, a
}

var _ = big.NewInt
var _ = hex.EncodeToString
'''
S("c16_early_update","C16","common","pkg/fcrpaymentmgr",[
 (C+"fcrpaymentmgr/payment_manager.go","	// Voucher validated, update lane state\n	ls.nonce = sv.Nonce\n	ls.redeemed","	// Voucher validated, update lane state\n	ls.redeemed"),
 (C+"fcrpaymentmgr/payment_manager.go","	// Verify channel balance\n	newRedeemed := big.NewInt(0).Add(&cs.redeemed, paymentValue)","	ls.nonce = sv.Nonce\n	// Verify channel balance\n	newRedeemed := big.NewInt(0).Add(&cs.redeemed, paymentValue)")],
 PAY+'''
func TestDemo(t *testing.T) {
	payerKey, payer := key(1)
	payeeKey, payee := key(2)
	ch, _ := address.NewIDAddress(101)
	s := node(t, "10", payer, payee, ch)
	defer s.Close()
	m, err := NewFCRPaymentMgr(hex.EncodeToString(payeeKey), s.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	if a, err := m.Receive(ch.String(), voucher(t, payerKey, ch, 0, 0, 4)); err != nil || a.Int64() != 4 {
		t.Fatal("a good voucher is refused", err)
	}
	if _, err := m.Receive(ch.String(), voucher(t, payerKey, ch, 0, 5, 40)); err == nil {
		t.Fatal("credited over the balance")
	}
	if a, err := m.Receive(ch.String(), voucher(t, payerKey, ch, 0, 1, 6)); err != nil || a.Int64() != 2 {
		t.Fatal("a refused voucher changed the lane", err)
	}
}
''',"a voucher over the channel's balance, refused, and then a good one with a lower nonce on its lane","a refused voucher changes the lane, so that good vouchers are refused later")
S("c17_lost_payment","C17","common","pkg/fcrpaymentmgr",[
 (C+"fcrpaymentmgr/payment_manager.go","	// Lock channel state to make sure only one thread can read/write channel state\n	cs.lock.Lock()\n	defer cs.lock.Unlock()\n	// Check balance\n	newRedeemed := big.NewInt(0).Add(&cs.redeemed, amount)\n","	// Lock channel state to make sure only one thread can read/write channel state\n	cs.lock.RLock()\n	// Check balance\n	newRedeemed := big.NewInt(0).Add(&cs.redeemed, amount)\n	cs.lock.RUnlock()\n	cs.lock.Lock()\n	defer cs.lock.Unlock()\n")],
 '''
package fcrpaymentmgr

import (
	"encoding/hex"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/filecoin-project/go-address"
)

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(8))
	for round := 0; round < 200; round++ {
		m, err := NewFCRPaymentMgr(hex.EncodeToString([]byte(strings.Repeat("k", 32))), "http://127.0.0.1:1", "")
		if err != nil {
			t.Fatal(err)
		}
		ch, _ := address.NewIDAddress(101)
		m.outboundChs["t01"] = &channelState{addr: ch, balance: *big.NewInt(10), redeemed: *big.NewInt(0), laneStates: map[uint64]*laneState{}}
		var w sync.WaitGroup
		var lock sync.Mutex
		paid := 0
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			w.Add(1)
			go func() {
				defer w.Done()
				<-start
				if _, v, topup, err := m.Pay("t01", 0, big.NewInt(6)); err == nil && !topup && v != "" {
					lock.Lock()
					paid++
					lock.Unlock()
				}
			}()
		}
		close(start)
		w.Wait()
		if paid != 1 {
			t.Fatal("paid", paid, "times 6 of 10")
		}
	}
}
''',"two payments of the same channel at the same time, the second one between the check and the update of the first","together they draw more than was put into the channel")
S("c28_stale_connection","C28","common","pkg/fcrp2pserver",[
 (C+"fcrp2pserver/tcp_comms.go","	// Read the data, the buffer grows with what is received as the length can't be trusted\n	data := bytes.Buffer{}\n	_, err = io.CopyN(&data, conn, int64(binary.BigEndian.Uint32(length)))\n	if err != nil {\n		if isTimeoutError(err) {\n			return nil, errIncompleteMessage\n		}\n		return nil, err\n	}","	// Read the data, the buffer grows with what is received as the length can't be trusted\n	data := bytes.Buffer{}\n	_, err = io.CopyN(&data, conn, int64(binary.BigEndian.Uint32(length)))\n	if err != nil {\n		return nil, err\n	}"),
 ],'''
package fcrp2pserver

import (
	"encoding/binary"
	"net"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	s := NewFCRP2PServer(nil, nil, 300*time.Millisecond)
	got := make(chan int32, 8)
	done := make(chan bool)
	go func() {
		s.handleIncomingConnection(b, map[int32]func(*FCRServerReader, *FCRServerWriter, *fcrmessages.FCRMessage) error{
			7: func(r *FCRServerReader, w *FCRServerWriter, m *fcrmessages.FCRMessage) error {
				got <- m.GetMessageType()
				return nil
			}})
		close(done)
	}()
	m, _ := fcrmessages.CreateFCRMessage(7, []byte("{}")).FCRMsgToBytes()
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(m)+5))
	a.Write(l)
	a.Write([]byte("{"))
	time.Sleep(900 * time.Millisecond)
	// the rest of the broken message is taken for a message
	binary.BigEndian.PutUint32(l, uint32(len(m)))
	a.SetDeadline(time.Now().Add(time.Second))
	a.Write(l)
	a.Write(m)
	select {
	case <-got:
		t.Fatal("handled a message behind a broken one")
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the connection is kept")
	}
}
''',"a peer that stops within a message for longer than the timeout and goes on later","what comes behind the broken message is read as messages")
S("c28_double_conn","C28","common","pkg/fcrp2pserver",[
 (C+"fcrp2pserver/pool.go","	if c.activeProviders[id.ToString()] == nil {\n		comm = &communicationChannel{","	if comm == nil {\n		comm = &communicationChannel{"),
 ],'''
package fcrp2pserver

import (
	"net"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"net/http"
	"net/http/httptest"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	var lock sync.Mutex
	open := 0
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			lock.Lock()
			open++
			lock.Unlock()
			go func() {
				b := make([]byte, 1)
				c.Read(b)
				lock.Lock()
				open--
				lock.Unlock()
			}()
		}
	}()
	id, _ := nodeid.NewNodeIDFromHexString("0a")
	reg := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("[{\\"nodeId\\":\\"" + id.ToString() + "\\",\\"networkInfoGateway\\":\\"" + ln.Addr().String() + "\\"}]"))
	}))
	mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL, true, false, time.Hour)
	mgr.Start()
	mgr.Refresh()
	if mgr.GetProvider(id) == nil {
		t.Fatal("no provider")
	}
	s := NewFCRP2PServer(nil, mgr, time.Second)
	s.AddRequester(7, func(r *FCRServerReader, w *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
		time.Sleep(20 * time.Millisecond)
		return nil, nil
	})
	s.Start()
	var w sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() { defer w.Done(); <-start; s.RequestProvider(id, 7) }()
	}
	close(start)
	w.Wait()
	time.Sleep(300 * time.Millisecond)
	lock.Lock()
	defer lock.Unlock()
	if open != 1 {
		t.Fatal("open connections", open)
	}
}
''',"two first requests to a provider at the same time","more than one connection to the provider is left open")
S("c30_stale_info","C30","common","pkg/fcrregistermgr",[
 (C+"fcrregistermgr/register_manager.go","				if gateway != storedInfo {\n					// Need update","				if gateway.GetNetworkInfoClient() != storedInfo.GetNetworkInfoClient() || gateway.GetNetworkInfoAdmin() != storedInfo.GetNetworkInfoAdmin() || gateway.GetAddress() != storedInfo.GetAddress() || gateway.GetRegionCode() != storedInfo.GetRegionCode() {\n					// Need update")],
 '''
package fcrregistermgr

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestDemo(t *testing.T) {
	id, _ := nodeid.NewNodeIDFromHexString("0a")
	addr := "one:1"
	reg := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("[{\\"nodeId\\":\\"" + id.ToString() + "\\",\\"networkInfoGateway\\":\\"" + addr + "\\"}]"))
	}))
	mgr := NewFCRRegisterMgr(reg.URL, false, true, time.Hour)
	mgr.Start()
	mgr.Refresh()
	addr = "two:2"
	mgr.Refresh()
	if g := mgr.GetGateway(id); g == nil || g.GetNetworkInfoGateway() != "two:2" {
		t.Fatal("the gateway's new address is not used")
	}
}
''',"a gateway that registers again with another address for gateways only","the register manager goes on with the old address")
S("c30_ring_race","C30","common","pkg/fcrregistermgr",[
 (C+"fcrregistermgr/register_manager.go","				mgr.registeredGatewaysMapLock.Lock()\n				mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway\n				mgr.registeredGatewaysMapLock.Unlock()\n				mgr.closestGatewaysIDsLock.Lock()\n				mgr.closestGatewaysIDs.Insert(gateway.GetNodeID())\n				mgr.closestGatewaysIDsLock.Unlock()\n","				mgr.closestGatewaysIDsLock.Lock()\n				mgr.closestGatewaysIDs.Insert(gateway.GetNodeID())\n				mgr.closestGatewaysIDsLock.Unlock()\n				mgr.registeredGatewaysMapLock.Lock()\n				mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway\n				mgr.registeredGatewaysMapLock.Unlock()\n")],
 '''
package fcrregistermgr

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
)

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(8))
	n := 1
	reg := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var l []map[string]string
		for i := 1; i <= n; i++ {
			l = append(l, map[string]string{"nodeId": fmt.Sprintf("%064x", i)})
		}
		b, _ := json.Marshal(l)
		w.Write(b)
	}))
	mgr := NewFCRRegisterMgr(reg.URL, false, true, time.Hour)
	mgr.Start()
	mgr.Refresh()
	c, _ := cid.NewContentIDFromHexString("01")
	stop, bad := make(chan bool), make(chan error, 8)
	for k := 0; k < 7; k++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					if _, err := mgr.GetGatewaysNearCID(c, 16, nil); err != nil {
						select {
						case bad <- err:
						default:
						}
						return
					}
				}
			}
		}()
	}
	for n = 2; n < 1500; n += 40 {
		mgr.Refresh()
	}
	close(stop)
	select {
	case err := <-bad:
		t.Fatal(err)
	default:
	}
}
''',"a search between the two steps in which a refresh adds a new gateway","the search fails with an internal error")
S("c29_accept_2xx","C29","common","pkg/request",[
 (C+"request/request.go","	if r.StatusCode != 200 {\n","	if r.StatusCode < http.StatusOK || r.StatusCode >= http.StatusMultipleChoices {\n")],
 '''
package request

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestDemo(t *testing.T) {
	m := fcrmessages.CreateFCRMessage(7, []byte("{}"))
	b, _ := m.FCRMsgToBytes()
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(202)
		w.Write(b)
	}))
	defer s.Close()
	if _, err := NewHttpCommunicator().SendMessage(strings.TrimPrefix(s.URL, "http://"), m); err == nil {
		t.Fatal("a status other than 200 passes for success")
	}
}
''',"an answer with a status such as 202 and a message in it","a status other than 200 passes for success")
