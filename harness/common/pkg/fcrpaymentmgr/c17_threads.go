package fcrpaymentmgr

import (
	"math/big"

	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// amount of a voucher, nil if there is none
func drawn(voucher string) (*big.Int, uint64) {
	if voucher == "" {
		return nil, 0
	}
	sv, err := paych.DecodeSignedVoucher(voucher)
	sym.Assume(err == nil && sv.Amount.Int != nil)
	return sv.Amount.Int, sv.Nonce
}

// vouchers handed in by two threads
func VerifC17_receive() {
	theChain = &chain{}
	m := manager(0)
	ch := theChain.open(wallet(1), wallet(0), sym.BigInt("balance", 64))
	a1, a2 := sym.BigInt("amount1", 64), sym.BigInt("amount2", 64)
	zero := new(big.Int)
	credited := new(big.Int)
	if sym.Bool("known") {
		a0 := sym.BigInt("amount0", 64)
		got, err := m.Receive(ch.robust.String(), voucher(1, ch.robust, 3, 0, a0))
		sym.Assume(err == nil)
		credited.Add(credited, got)
	}
	var v1, v2 string
	same := false
	switch sym.Choose("vouchers", 3) {
	case 0:
		v1 = voucher(1, ch.robust, 0, 5, a1)
		v2, same = v1, true
	case 1:
		v1, v2 = voucher(1, ch.robust, 0, 5, a1), voucher(1, ch.robust, 0, 6, a2)
		same = true
	case 2:
		v1, v2 = voucher(1, ch.robust, 0, 5, a1), voucher(1, ch.robust, 1, 5, a2)
	}
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var g1, g2 *big.Int
	var e1, e2 error
	sym.Par(func() { g1, e1 = m.Receive(ch.robust.String(), v1) }, func() { g2, e2 = m.Receive(ch.robust.String(), v2) })
	if e1 != nil {
		g1 = zero
	}
	if e2 != nil {
		g2 = zero
	}
	if v1 == v2 {
		sym.Assert(e1 != nil || e2 != nil, "two threads are credited the same voucher")
	}
	if same {
		top := a1
		if v1 != v2 && a2.Cmp(a1) > 0 {
			top = a2
		}
		sym.Assert(new(big.Int).Add(g1, g2).Cmp(top) <= 0, "two threads are credited more than the vouchers of a lane are for")
	}
	credited = new(big.Int).Add(credited, new(big.Int).Add(g1, g2))
	sym.Assert(credited.Cmp(ch.balance) <= 0, "two threads are credited more than the channel holds")
	if e1 == nil || e2 == nil {
		sym.Cover("credited")
	}
	// both are on the books afterwards
	_, err := m.Receive(ch.robust.String(), v1)
	sym.Assert(e1 != nil || err != nil, "a voucher is credited again after two threads handed in vouchers")
	_, err = m.Receive(ch.robust.String(), v2)
	sym.Assert(e2 != nil || err != nil, "a voucher is credited again after two threads handed in vouchers")
}

// payments made by two threads
func VerifC17_pay() {
	theChain = &chain{}
	m := manager(0)
	to := wallet(1).String()
	funded := sym.BigInt("funded", 64)
	sym.Assume(m.Topup(to, funded) == nil)
	a1, a2 := sym.BigInt("amount1", 64), sym.BigInt("amount2", 64)
	l2 := uint64(0)
	if sym.Bool("two lanes") {
		l2 = 1
	}
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var v1, v2 string
	var e1, e2 error
	sym.Par(func() { _, v1, _, e1 = m.Pay(to, 0, a1) }, func() { _, v2, _, e2 = m.Pay(to, l2, a2) })
	sym.Assert(e1 == nil && e2 == nil, "a payment next to another fails")
	d1, n1 := drawn(v1)
	d2, n2 := drawn(v2)
	sum := new(big.Int).Add(a1, a2)
	switch {
	case d1 != nil && d2 != nil:
		sym.Assert(sum.Cmp(funded) <= 0, "two threads pay more than the channel holds")
		if l2 != 0 {
			sym.Assert(d1.Cmp(a1) == 0 && d2.Cmp(a2) == 0, "a voucher made next to another is not for what was paid on its lane")
		} else if n1 < n2 {
			sym.Assert(d1.Cmp(a1) == 0 && d2.Cmp(sum) == 0, "a voucher made next to another is not for what was paid on its lane")
		} else {
			sym.Assert(n1 > n2, "two threads make vouchers with the same nonce")
			sym.Assert(d2.Cmp(a2) == 0 && d1.Cmp(sum) == 0, "a voucher made next to another is not for what was paid on its lane")
		}
		sym.Cover("both paid")
	case d1 != nil:
		sym.Assert(d1.Cmp(a1) == 0 && sum.Cmp(funded) > 0, "a payment within the balance is not made next to another")
	case d2 != nil:
		sym.Assert(d2.Cmp(a2) == 0 && sum.Cmp(funded) > 0, "a payment within the balance is not made next to another")
	}
}

// top ups made by two threads
func VerifC17_topup() {
	theChain = &chain{}
	m := manager(0)
	to := wallet(1).String()
	funded := new(big.Int)
	if sym.Bool("known") {
		funded = sym.BigInt("funded", 64)
		sym.Assume(m.Topup(to, funded) == nil)
	}
	a1, a2 := sym.BigInt("amount1", 64), sym.BigInt("amount2", 64)
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var e1, e2 error
	sym.Par(func() { e1 = m.Topup(to, a1) }, func() { e2 = m.Topup(to, a2) })
	sym.Assert(e1 == nil && e2 == nil, "a top up next to another fails")
	sym.Assert(len(theChain.channels) == 1, "two threads create a channel each for one recipient")
	funded = new(big.Int).Add(funded, new(big.Int).Add(a1, a2))
	check(m, to, funded, "two top ups")
}

// the whole of funded can be paid, and no more
func check(m *FCRPaymentMgr, to string, funded *big.Int, when string) {
	_, _, topup, err := m.Pay(to, 9, new(big.Int).Add(funded, big.NewInt(1)))
	sym.Assert(err == nil && topup, "more than was put in can be paid after "+when)
	_, v, topup, err := m.Pay(to, 9, funded)
	sym.Assert(err == nil && !topup && v != "", "what was put in cannot be paid after "+when)
}

// a payment next to a top up
func VerifC17_payTopup() {
	theChain = &chain{}
	m := manager(0)
	to, other := wallet(1).String(), wallet(2).String()
	funded := sym.BigInt("funded", 64)
	sym.Assume(m.Topup(to, funded) == nil)
	a1, a2 := sym.BigInt("amount1", 64), sym.BigInt("amount2", 64)
	elsewhere := sym.Bool("elsewhere")
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var v string
	var e1, e2 error
	sym.Par(func() { _, v, _, e1 = m.Pay(to, 0, a1) }, func() {
		if elsewhere {
			e2 = m.Topup(other, a2)
		} else {
			e2 = m.Topup(to, a2)
		}
	})
	sym.Assert(e1 == nil && e2 == nil, "a payment next to a top up fails")
	left := funded
	if !elsewhere {
		left = new(big.Int).Add(left, a2)
	}
	if d, _ := drawn(v); d != nil {
		sym.Assert(d.Cmp(a1) == 0, "a voucher made next to a top up is not for what was paid")
		left = new(big.Int).Sub(left, a1)
		sym.Assert(left.Sign() >= 0, "more than was put in is paid next to a top up")
		sym.Cover("paid")
	} else {
		sym.Assert(a1.Cmp(funded) > 0, "a payment within the balance is not made next to a top up")
	}
	check(m, to, left, "a payment next to a top up")
}

// vouchers on a new channel while others come in on another
func VerifC17_channels() {
	theChain = &chain{}
	m := manager(0)
	x := theChain.open(wallet(1), wallet(0), sym.BigInt("balance", 64))
	y := theChain.open(wallet(1), wallet(0), sym.BigInt("balance", 64))
	a1, a2 := sym.BigInt("amount1", 64), sym.BigInt("amount2", 64)
	v1, v2 := voucher(1, x.robust, 0, 0, a1), voucher(1, y.robust, 0, 0, a2)
	sym.Race()
	sym.Threads(sym.Bound("preemptions", 2, 3))
	var g1, g2 *big.Int
	var e1, e2 error
	sym.Par(func() { g1, e1 = m.Receive(x.robust.String(), v1) }, func() { g2, e2 = m.Receive(y.robust.String(), v2) })
	good := func(a *big.Int, ch *onChain) bool { return a.Sign() > 0 && a.Cmp(ch.balance) <= 0 }
	sym.Assert((e1 == nil) == good(a1, x) && (e2 == nil) == good(a2, y), "vouchers on two channels come in each other's way")
	sym.Assert(e1 != nil || g1.Cmp(a1) == 0, "vouchers on two channels come in each other's way")
	sym.Assert(e2 != nil || g2.Cmp(a2) == 0, "vouchers on two channels come in each other's way")
	_, err := m.Receive(x.robust.String(), v1)
	sym.Assert(err != nil, "a voucher is credited again after vouchers on two channels")
	_, err = m.Receive(y.robust.String(), v2)
	sym.Assert(err != nil, "a voucher is credited again after vouchers on two channels")
}
