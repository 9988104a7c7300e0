package offermgr

import (
	"errors"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
)

//verif:replace NewFCROfferMgr
//verif:replace FCROfferMgr.AddGroupOffer
//verif:replace FCROfferMgr.AddDHTOffer
//verif:replace FCROfferMgr.GetGroupOffers
//verif:replace FCROfferMgr.GetDHTOffers
//verif:replace FCROfferMgr.GetDHTOffersWithinRange
//verif:replace FCROfferMgr.GetOffers
//verif:replace FCROfferMgr.GetOfferByDigest

// VerifOffers stands in for the database: the offers that are stored. None of them expires.
var VerifOffers []cidoffer.CIDOffer

// VerifOffersFull makes adding offers fail.
var VerifOffersFull bool

func NewFCROfferMgr() *FCROfferMgr { return &FCROfferMgr{} }

func (mgr *FCROfferMgr) AddGroupOffer(offer *cidoffer.CIDOffer) error { return verifAdd(offer) }
func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error   { return verifAdd(offer) }

func verifAdd(offer *cidoffer.CIDOffer) error {
	if VerifOffersFull {
		return errors.New("database is full")
	}
	for i := range VerifOffers {
		if VerifOffers[i].GetMessageDigest() == offer.GetMessageDigest() {
			return nil
		}
	}
	VerifOffers = append(VerifOffers, *offer)
	return nil
}

func (mgr *FCROfferMgr) GetGroupOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
	return mgr.GetOffers(c)
}

func (mgr *FCROfferMgr) GetDHTOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
	return mgr.GetOffers(c)
}

func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) (res []cidoffer.CIDOffer, find bool) {
	for _, o := range VerifOffers {
		in := false
		for _, k := range o.GetCIDs() {
			in = in || (k.ToString() >= cidMin.ToString() && k.ToString() <= cidMax.ToString())
		}
		if in && (maxOffers <= 0 || len(res) < maxOffers) {
			res = append(res, o)
		}
	}
	return res, len(res) > 0
}

func (mgr *FCROfferMgr) GetOffers(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
	for _, o := range VerifOffers {
		in := false
		for _, k := range o.GetCIDs() {
			in = in || k.ToString() == c.ToString()
		}
		if in {
			res = append(res, o)
		}
	}
	return res, len(res) > 0
}

func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
	for i := range VerifOffers {
		if VerifOffers[i].GetMessageDigest() == digest {
			o := VerifOffers[i]
			return &o, true
		}
	}
	return nil, false
}
