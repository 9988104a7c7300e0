package fcrpaymentmgr

import (
	"math/big"

	"github.com/filecoin-project/go-state-types/abi"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/lib/sigs"
	"github.com/filecoin-project/specs-actors/actors/builtin"
	paych0 "github.com/filecoin-project/specs-actors/actors/builtin/paych"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// ledger is what a payee should know of a channel
type ledger struct {
	ch    *onChain
	total *big.Int
	lanes map[uint64]*laneRec
}

func newLedger(ch *onChain) *ledger {
	return &ledger{ch: ch, total: new(big.Int), lanes: map[uint64]*laneRec{}}
}

// receive hands in a voucher of the payer that should be credited if, and only if, it is good.
func (l *ledger) receive(m *FCRPaymentMgr, name string, lane, nonce uint64, amount *big.Int) bool {
	got, err := m.Receive(name, voucher(1, l.ch.robust, lane, nonce, amount))
	rec := l.lanes[lane]
	fresh := true
	if rec == nil {
		rec = &laneRec{amount: new(big.Int)}
	} else {
		fresh = nonce > rec.nonce
	}
	more := new(big.Int).Sub(amount, rec.amount)
	total := new(big.Int).Add(l.total, more)
	if !fresh || more.Sign() <= 0 || total.Cmp(l.ch.balance) > 0 {
		if !fresh {
			sym.Assert(err != nil, "a voucher is credited after one with the same or a higher nonce")
		} else if more.Sign() <= 0 {
			sym.Assert(err != nil, "a voucher that adds nothing is credited")
		} else {
			sym.Assert(err != nil, "more is credited than the channel holds")
		}
		sym.Cover("refused")
		return false
	}
	sym.Assert(err == nil, "a good voucher is refused")
	sym.Assert(got != nil && got.Cmp(more) == 0, "a voucher is credited with other than what it adds")
	rec.nonce, rec.amount = nonce, amount
	l.lanes[lane] = rec
	l.total = total
	sym.Cover("credited")
	return true
}

func payee() (*FCRPaymentMgr, *ledger) {
	theChain = &chain{}
	return manager(0), newLedger(theChain.open(wallet(1), wallet(0), sym.BigInt("balance", 64)))
}

// any vouchers on one lane, any growth of the channel
func VerifC16_lane() {
	m, l := payee()
	for i := 0; i < sym.Bound("vouchers", 3, 4); i++ {
		if i > 0 {
			l.ch.balance = new(big.Int).Add(l.ch.balance, sym.BigInt("growth", 64))
		}
		l.receive(m, l.ch.robust.String(), 0, sym.Uint64("nonce"), sym.BigInt("amount", 64))
	}
}

// any lanes
func VerifC16_lanes() {
	m, l := payee()
	for i := 0; i < sym.Bound("vouchers", 3, 4); i++ {
		l.receive(m, l.ch.robust.String(), sym.Uint64("lane"), sym.Uint64("nonce"), sym.BigInt("amount", 64))
	}
}

// amounts below nothing
func VerifC16_negative() {
	m, l := payee()
	l.receive(m, l.ch.robust.String(), 0, 0, sym.BigInt("amount", 64))
	l.receive(m, l.ch.robust.String(), sym.Uint64("lane"), 1, new(big.Int).Neg(sym.BigInt("less", 64)))
	l.receive(m, l.ch.robust.String(), 0, 2, sym.BigInt("amount", 64))
}

// the same voucher again, under any spelling of any address of the channel
func VerifC16_again() {
	m, l := payee()
	names := []string{l.ch.robust.String(), l.ch.id.String()}
	for _, n := range names[:2] {
		names = append(names, "f"+n[1:], "t"+n[1:])
	}
	nonce, amount := sym.Uint64("nonce"), sym.BigInt("amount", 64)
	v := voucher(1, l.ch.robust, 0, nonce, amount)
	first := names[sym.Choose("first", len(names))]
	got, err := m.Receive(first, v)
	sym.Assume(err == nil)
	sym.Assert(got.Cmp(amount) == 0, "a voucher is credited with other than what it adds")
	_, err = m.Receive(names[sym.Choose("second", len(names))], v)
	sym.Assert(err != nil, "a voucher is credited twice")
	other := voucher(1, l.ch.id, 1, 0, sym.BigInt("other", 64))
	got, err = m.Receive(names[sym.Choose("third", len(names))], other)
	if err == nil {
		sym.Assert(new(big.Int).Add(got, amount).Cmp(l.ch.balance) <= 0, "more is credited than the channel holds")
		sym.Cover("credited by ID")
	}
}

// vouchers that are not the payer's, or not on this channel
func VerifC16_foreign() {
	m, l := payee()
	mine := theChain.open(wallet(2), wallet(0), sym.BigInt("other balance", 64))
	theirs := theChain.open(wallet(1), wallet(2), sym.BigInt("their balance", 64))
	amount := sym.BigInt("amount", 64)
	nonce := sym.Uint64("nonce")
	if sym.Bool("known") {
		l.receive(m, l.ch.robust.String(), 0, 0, sym.BigInt("before", 64))
	}
	var err error
	switch sym.Choose("case", 6) {
	case 0:
		_, err = m.Receive(l.ch.robust.String(), voucher(2, l.ch.robust, 0, nonce, amount))
		sym.Assert(err != nil, "a voucher that the payer did not sign is credited")
	case 1:
		_, err = m.Receive(l.ch.robust.String(), voucher(0, l.ch.robust, 0, nonce, amount))
		sym.Assert(err != nil, "a voucher that the payer did not sign is credited")
	case 2:
		_, err = m.Receive(l.ch.robust.String(), voucher(1, mine.robust, 0, nonce, amount))
		sym.Assert(err != nil, "a voucher of another channel is credited")
	case 3:
		_, err = m.Receive(mine.robust.String(), voucher(1, mine.robust, 0, nonce, amount))
		sym.Assert(err != nil, "a voucher that the payer did not sign is credited")
	case 4:
		_, err = m.Receive(theirs.robust.String(), voucher(1, theirs.robust, 0, nonce, amount))
		sym.Assert(err != nil, "a voucher for another payee is credited")
	case 5:
		_, err = m.Receive(l.ch.robust.String(), voucher(1, idAddress(77), 0, nonce, amount))
		sym.Assert(err != nil, "a voucher of no channel is credited")
	}
	sym.Cover("refused foreign")
	// and is as if it had not been there
	l.receive(m, l.ch.robust.String(), 0, sym.Uint64("later nonce"), sym.BigInt("later", 64))
}

// vouchers changed after they were signed
func VerifC16_changed() {
	m, l := payee()
	sv := &paych.SignedVoucher{ChannelAddr: l.ch.robust, Lane: sym.Uint64("lane"), Nonce: sym.Uint64("nonce"), Amount: lotusbig.NewFromGo(sym.BigInt("amount", 64))}
	vb, err := sv.SigningBytes()
	sym.Assume(err == nil)
	key := keyBytes(1)
	sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, key, vb)
	sym.Assume(err == nil)
	lane, nonce, amount := sv.Lane, sv.Nonce, sv.Amount.Int
	sv.Lane, sv.Nonce = sym.Uint64("lane2"), sym.Uint64("nonce2")
	sv.Amount = lotusbig.NewFromGo(sym.BigInt("amount2", 64))
	same := sv.Lane == lane && sv.Nonce == nonce && sv.Amount.Int.Cmp(amount) == 0
	if sym.Bool("unsigned") {
		sv.Signature = nil
		same = false
	}
	_, err = m.Receive(l.ch.robust.String(), encodeVoucher(sv))
	if err == nil {
		sym.Assert(same, "a voucher that the payer did not sign is credited")
		sym.Cover("unchanged")
	}
}

// vouchers that cannot be redeemed as they are
func VerifC16_conditions() {
	m, l := payee()
	sv := &paych.SignedVoucher{ChannelAddr: l.ch.robust, Amount: lotusbig.NewFromGo(sym.BigInt("amount", 64))}
	sv.TimeLockMin = abi.ChainEpoch(sym.IntRange("lock min", 0, 1<<40))
	sv.TimeLockMax = abi.ChainEpoch(sym.IntRange("lock max", 0, 1<<40))
	sv.MinSettleHeight = abi.ChainEpoch(sym.IntRange("settle", 0, 1<<40))
	if sym.Bool("secret") {
		sv.SecretPreimage = []byte{1, 2, 3}
	}
	if sym.Bool("extra") {
		sv.Extra = &paych0.ModVerifyParams{Actor: idAddress(5), Method: builtin.MethodSend}
	}
	if sym.Bool("merge") {
		sv.Merges = []paych0.Merge{{Lane: 1, Nonce: 1}}
	}
	plain := sv.TimeLockMin == 0 && sv.TimeLockMax == 0 && sv.MinSettleHeight == 0 && len(sv.SecretPreimage) == 0 && sv.Extra == nil && len(sv.Merges) == 0
	vb, err := sv.SigningBytes()
	sym.Assume(err == nil)
	sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, keyBytes(1), vb)
	sym.Assume(err == nil)
	_, err = m.Receive(l.ch.robust.String(), encodeVoucher(sv))
	if err == nil {
		sym.Assert(plain, "a voucher with conditions is credited")
		sym.Cover("plain")
	}
}

// channels that are none, and nodes that do not answer
func VerifC16_node() {
	theChain = &chain{}
	m := manager(0)
	var state interface{}
	switch sym.Choose("state", 5) {
	case 0:
		state = map[string]interface{}{"Address": wallet(1).String()}
	case 1:
		state = map[string]interface{}{"From": wallet(1).String()}
	case 2:
		state = map[string]interface{}{"From": wallet(1).String(), "To": 7.0}
	case 3:
		state = "none"
	case 4:
		state = map[string]interface{}{"From": wallet(1).String(), "To": "x"}
	}
	ch := theChain.open(wallet(1), wallet(0), sym.BigInt("balance", 64))
	ch.state = state
	v := voucher(1, ch.robust, 0, 0, sym.BigInt("amount", 64))
	err, panicked := tryReceive(m, ch.robust.String(), v)
	sym.Assert(!panicked, "receiving on what is no payment channel panics")
	sym.Assert(err != nil, "a voucher on what is no payment channel is credited")
	err, panicked = tryReceive(m, []string{"", "t", "t01009", "x01001", "t2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}[sym.Choose("name", 5)], v)
	sym.Assert(!panicked && err != nil, "a voucher on no channel is credited")
	err, panicked = tryReceive(m, ch.robust.String(), []string{"", "x", "!!", "gA"}[sym.Choose("voucher", 4)])
	sym.Assert(!panicked && err != nil, "what is no voucher is credited")
	theChain.down = true
	err, panicked = tryReceive(m, ch.robust.String(), v)
	sym.Assert(!panicked && err != nil, "a voucher is credited without the chain")
}

func tryReceive(m *FCRPaymentMgr, name, v string) (err error, panicked bool) {
	panicked = sym.Try(func() { _, err = m.Receive(name, v) })
	return
}
