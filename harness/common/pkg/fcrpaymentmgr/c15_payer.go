package fcrpaymentmgr

import (
	"math/big"

	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/lib/sigs"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// account is what a payer should know of a recipient
type account struct {
	to     string
	wallet address.Address
	ch     *onChain
	funded *big.Int
	issued *big.Int
	lanes  map[uint64]*laneRec
}

func newAccount(k int) *account {
	return &account{to: wallet(k).String(), wallet: wallet(k), funded: new(big.Int), issued: new(big.Int), lanes: map[uint64]*laneRec{}}
}

func (a *account) topup(m *FCRPaymentMgr, label string) {
	amount := sym.BigInt(label+".topup", 64)
	kept := new(big.Int).Set(amount)
	channels, sent := len(theChain.channels), len(theChain.sent)
	err := m.Topup(a.to, amount)
	sym.Assert(amount.Cmp(kept) == 0, "topping up changes the caller's amount")
	if theChain.down || theChain.fail {
		sym.Assert(err != nil, "a failed top up is reported as done")
		return
	}
	sym.Assert(err == nil, "a top up that went through is reported as failed")
	sym.Assert(len(theChain.sent) == sent+1, "a top up sends other than one message")
	last := theChain.sent[sent]
	sym.Assert(last.value.Cmp(kept) == 0, "a top up sends another amount")
	if a.ch == nil {
		sym.Assert(len(theChain.channels) == channels+1, "the first top up creates no channel")
		sym.Assert(last.creates(wallet(0), a.wallet), "the first top up creates a channel for others")
		a.ch = theChain.channels[channels]
	} else {
		sym.Assert(len(theChain.channels) == channels, "a later top up creates a channel")
		sym.Assert(last.to == a.ch.robust || last.to == a.ch.id, "a top up goes to another channel")
	}
	a.funded = new(big.Int).Add(a.funded, kept)
	sym.Cover("topped up")
}

func (a *account) pay(m *FCRPaymentMgr, label string, lane uint64) {
	amount := sym.BigInt(label+".pay", 64)
	kept := new(big.Int).Set(amount)
	channel, voucher, topup, err := m.Pay(a.to, lane, amount)
	sym.Assert(amount.Cmp(kept) == 0, "paying changes the caller's amount")
	sym.Assert(err == nil, "a payment fails")
	total := new(big.Int).Add(a.issued, kept)
	if a.ch == nil || a.funded.Cmp(total) < 0 {
		sym.Assert(topup, "a payment over the balance asks for no top up")
		sym.Assert(voucher == "" && channel == "", "a payment over the balance gives a voucher")
		sym.Cover("over the balance")
		return
	}
	sym.Assert(!topup, "a payment within the balance asks for a top up")
	sv, err := paych.DecodeSignedVoucher(voucher)
	sym.Assert(err == nil && sv != nil, "the voucher cannot be read")
	ca, err := address.NewFromString(channel)
	sym.Assert(err == nil && ca == a.ch.robust, "a payment names another channel")
	sym.Assert(sv.ChannelAddr == a.ch.robust, "a voucher names another channel")
	sym.Assert(sv.Lane == lane, "a voucher is for another lane")
	rec := a.lanes[lane]
	if rec == nil {
		rec = &laneRec{amount: new(big.Int)}
		a.lanes[lane] = rec
	} else {
		sym.Assert(sv.Nonce > rec.nonce, "the nonce of a voucher is not above that of the voucher before it")
		sym.Cover("second voucher")
	}
	rec.nonce = sv.Nonce
	rec.amount = new(big.Int).Add(rec.amount, kept)
	sym.Assert(sv.Amount.Int.Cmp(rec.amount) == 0, "a voucher is not for what was paid on its lane so far")
	vb, err := sv.SigningBytes()
	sym.Assert(err == nil, "a voucher has no signing bytes")
	sym.Assert(sv.Signature != nil && sv.Signature.Type == crypto2.SigTypeSecp256k1 && sigs.Verify(sv.Signature, wallet(0), vb) == nil, "a voucher is not signed by the payer")
	a.issued = total
	sym.Cover("paid")
}

// one recipient: any history of payments and top ups
func VerifC15_history() {
	theChain = &chain{}
	m := manager(0)
	a := newAccount(1)
	for i := 0; i < sym.Bound("operations", 5, 6); i++ {
		if sym.Bool("op.topup") {
			theChain.fail = sym.Bool("op.fails")
			a.topup(m, "op")
		} else {
			lane := uint64(0)
			if sym.Bool("op.lane1") {
				lane = 1
			}
			a.pay(m, "op", lane)
		}
	}
}

// lanes may have any numbers
func VerifC15_lanes() {
	theChain = &chain{}
	m := manager(0)
	a := newAccount(1)
	a.topup(m, "first")
	l1, l2 := sym.Uint64("lane1"), sym.Uint64("lane2")
	a.pay(m, "a", l1)
	a.pay(m, "b", l2)
	a.pay(m, "c", l1)
}

// two recipients with a channel each
func VerifC15_recipients() {
	theChain = &chain{}
	m := manager(0)
	as := []*account{newAccount(1), newAccount(2)}
	for i := 0; i < sym.Bound("operations", 5, 6); i++ {
		a := as[0]
		if sym.Bool("op.second") {
			a = as[1]
		}
		if sym.Bool("op.topup") {
			a.topup(m, "op")
		} else {
			a.pay(m, "op", 0)
		}
	}
}

// a payment of less than nothing
func VerifC15_negative() {
	theChain = &chain{}
	m := manager(0)
	a := newAccount(1)
	if sym.Bool("channel") {
		a.topup(m, "first")
		a.pay(m, "one", 0)
	}
	amount := sym.BigInt("amount", 64)
	sym.Assume(amount.Sign() > 0)
	amount = new(big.Int).Neg(amount)
	_, voucher, _, err := m.Pay(a.to, 0, amount)
	sym.Assert(err != nil && voucher == "", "a negative payment is made")
	sym.Cover("refused")
	a.pay(m, "two", 0)
}

// the node fails in the middle
func VerifC15_node() {
	theChain = &chain{down: sym.Bool("down")}
	m := manager(0)
	a := newAccount(1)
	a.topup(m, "first")
	a.pay(m, "one", 0)
	theChain.down = sym.Bool("down later")
	a.topup(m, "second")
	a.pay(m, "two", 0)
}
