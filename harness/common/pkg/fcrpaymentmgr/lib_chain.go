package fcrpaymentmgr

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"math/big"
	"net/http"
	"sync"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-jsonrpc"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/api"
	"github.com/filecoin-project/lotus/api/apistruct"
	"github.com/filecoin-project/lotus/chain/actors"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	"github.com/filecoin-project/lotus/lib/sigs"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	"github.com/ipfs/go-cid"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:redirect github.com/filecoin-project/go-jsonrpc.NewMergeClient verifMergeClient

// chain stands in for the lotus node: it knows payment channels.
type chain struct {
	lock     sync.Mutex
	channels []*onChain
	sent     []sentMsg
	down     bool // the node cannot be reached
	fail     bool // messages fail to execute
}

type onChain struct {
	id, robust address.Address
	from, to   address.Address
	balance    *big.Int
	state      interface{} // if not that of a payment channel
}

type sentMsg struct {
	to     address.Address
	value  *big.Int
	method uint64
	params []byte
}

var theChain *chain

// open adds a payment channel
func (c *chain) open(from, to address.Address, balance *big.Int) *onChain {
	n := len(c.channels)
	robust, err := address.NewActorAddress([]byte{1, byte(n)})
	sym.Assume(err == nil)
	ch := &onChain{id: idAddress(uint64(1001 + n)), robust: robust, from: from, to: to, balance: balance}
	c.channels = append(c.channels, ch)
	return ch
}

func (c *chain) find(a address.Address) *onChain {
	for _, ch := range c.channels {
		if ch.id == a || ch.robust == a {
			return ch
		}
	}
	return nil
}

func verifMergeClient(ctx context.Context, addr, ns string, outs []interface{}, h http.Header, opts ...jsonrpc.Option) (jsonrpc.ClientCloser, error) {
	var full apistruct.FullNodeStruct
	c := theChain
	down := errors.New("the node is down")
	if c.down {
		return nil, down
	}
	full.Internal.StateReadState = func(ctx context.Context, a address.Address, k types.TipSetKey) (*api.ActorState, error) {
		ch := c.find(a)
		if ch == nil {
			return nil, errors.New("no such actor")
		}
		state := ch.state
		if state == nil {
			state = map[string]interface{}{"From": ch.from.String(), "To": ch.to.String()}
		}
		return &api.ActorState{Balance: lotusbig.NewFromGo(ch.balance), State: state}, nil
	}
	full.Internal.StateLookupID = func(ctx context.Context, a address.Address, k types.TipSetKey) (address.Address, error) {
		ch := c.find(a)
		if ch == nil {
			return address.Undef, errors.New("no such actor")
		}
		return ch.id, nil
	}
	full.Internal.StateAccountKey = func(ctx context.Context, a address.Address, k types.TipSetKey) (address.Address, error) {
		return a, nil
	}
	full.Internal.MpoolGetNonce = func(context.Context, address.Address) (uint64, error) { return 7, nil }
	full.Internal.GasEstimateGasLimit = func(context.Context, *types.Message, types.TipSetKey) (int64, error) { return 100, nil }
	full.Internal.GasEstimateGasPremium = func(context.Context, uint64, address.Address, int64, types.TipSetKey) (types.BigInt, error) {
		return lotusbig.NewInt(1), nil
	}
	full.Internal.GasEstimateFeeCap = func(context.Context, *types.Message, int64, types.TipSetKey) (types.BigInt, error) {
		return lotusbig.NewInt(1), nil
	}
	full.Internal.MpoolPush = func(ctx context.Context, m *types.SignedMessage) (cid.Cid, error) {
		c.lock.Lock()
		defer c.lock.Unlock()
		c.sent = append(c.sent, sentMsg{m.Message.To, m.Message.Value.Int, uint64(m.Message.Method), m.Message.Params})
		return receiptID(len(c.sent) - 1), nil
	}
	full.Internal.StateGetReceipt = func(ctx context.Context, id cid.Cid, k types.TipSetKey) (*types.MessageReceipt, error) {
		c.lock.Lock()
		defer c.lock.Unlock()
		if c.fail {
			return &types.MessageReceipt{ExitCode: 1}, nil
		}
		var last sentMsg
		for i, m := range c.sent {
			if receiptID(i) == id {
				last = m
			}
		}
		if last.method == 0 {
			if ch := c.find(last.to); ch != nil {
				ch.balance = new(big.Int).Add(ch.balance, last.value)
			}
			return &types.MessageReceipt{}, nil
		}
		ch := c.open(address.Undef, address.Undef, last.value)
		buf := new(bytes.Buffer)
		r := init4.ExecReturn{IDAddress: ch.id, RobustAddress: ch.robust}
		sym.Assume(r.MarshalCBOR(buf) == nil)
		return &types.MessageReceipt{Return: buf.Bytes()}, nil
	}
	for _, o := range outs {
		sym.Assign(o, &full.Internal)
	}
	return func() {}, nil
}

func receiptID(n int) cid.Cid {
	hash := make([]byte, 34)
	hash[0], hash[1], hash[2] = 0x12, 0x20, byte(n)
	return cid.NewCidV1(cid.Raw, hash)
}

// creates: whether the message creates a channel between the two
func (m sentMsg) creates(from, to address.Address) bool {
	want, err := paych.Message(actors.Version4, from).Create(to, lotusbig.NewFromGo(m.value))
	sym.Assume(err == nil)
	return m.method == uint64(want.Method) && bytes.Equal(m.params, want.Params)
}

func idAddress(n uint64) address.Address {
	a, err := address.NewIDAddress(n)
	sym.Assume(err == nil)
	return a
}

func keyBytes(k int) []byte {
	key, err := hex.DecodeString(sym.Key(k))
	sym.Assume(err == nil)
	return key
}

// wallet: the address of the k-th test key
func wallet(k int) address.Address {
	pub, err := SecpSigner{}.ToPublic(keyBytes(k))
	sym.Assume(err == nil)
	a, err := address.NewSecp256k1Address(pub)
	sym.Assume(err == nil)
	return a
}

func manager(k int) *FCRPaymentMgr {
	m, err := NewFCRPaymentMgr(sym.Key(k), "http://127.0.0.1:1", "token")
	sym.Assume(err == nil && m != nil)
	return m
}

// voucher: a voucher made outside of the payment manager, signed with the k-th key
func voucher(k int, ch address.Address, lane, nonce uint64, amount *big.Int) string {
	sv := &paych.SignedVoucher{ChannelAddr: ch, Lane: lane, Nonce: nonce, Amount: lotusbig.NewFromGo(amount)}
	vb, err := sv.SigningBytes()
	sym.Assume(err == nil)
	sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, keyBytes(k), vb)
	sym.Assume(err == nil)
	return encodeVoucher(sv)
}

func encodeVoucher(sv *paych.SignedVoucher) string {
	s, err := encodedVoucher(sv)
	sym.Assume(err == nil)
	return s
}

type laneRec struct {
	nonce  uint64 // of the last voucher
	amount *big.Int
}
