package fcrpaymentmgr

import (
	"errors"
	"math/big"
)

//verif:replace NewFCRPaymentMgr
//verif:replace FCRPaymentMgr.Topup
//verif:replace FCRPaymentMgr.Pay
//verif:replace FCRPaymentMgr.Receive

// VerifPayments stands in for the payment channels.
var VerifPayments struct {
	New     func(privateKey, lotusAPIAddr, authToken string) error
	Topup   func(recipient string, amount *big.Int) error
	Pay     func(recipient string, lane uint64, amount *big.Int) (channel, voucher string, needTopup bool, err error)
	Receive func(channel, voucher string) (*big.Int, error)
}

var errVerifChain = errors.New("no payment channels")

func NewFCRPaymentMgr(privateKey, lotusAPIAddr, authToken string) (*FCRPaymentMgr, error) {
	if VerifPayments.New == nil {
		return nil, errVerifChain
	}
	if err := VerifPayments.New(privateKey, lotusAPIAddr, authToken); err != nil {
		return nil, err
	}
	return &FCRPaymentMgr{}, nil
}

func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
	mgr.check()
	if VerifPayments.Topup == nil {
		return errVerifChain
	}
	return VerifPayments.Topup(recipient, new(big.Int).Set(amount))
}

func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
	mgr.check()
	if VerifPayments.Pay == nil {
		return "", "", false, errVerifChain
	}
	return VerifPayments.Pay(recipient, lane, new(big.Int).Set(amount))
}

func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, error) {
	mgr.check()
	if VerifPayments.Receive == nil {
		return nil, errVerifChain
	}
	return VerifPayments.Receive(channel, voucher)
}

func (mgr *FCRPaymentMgr) check() {
	if mgr == nil {
		panic("the payment manager is not initialised")
	}
}
