P("C35", "The gateway's offer database tells exactly the unexpired offers added to it",
  "Every offer added to the gateway's offer database is found, until it expires, by each of its pieces, by its digest and (DHT offers) in ranges that contain its piece, with every term unchanged, and nothing else is found; nothing is lost when the gateway restarts or when offers are added and looked up at the same time.",
  ["inputs", "histories"], "any sequence of additions, lookups and restarts",
  "The tests add a few fixed offers and look them up.",
  ["common/pkg/offermgr/offer_manager.go"],
  [("AddGroupOffer, AddDHTOffer, GetGroupOffers, GetDHTOffers, GetDHTOffersWithinRange, GetOfferByDigest", "common/pkg/offermgr/offer_manager.go")],
  na="What is stored and found is decided by SQL text that the sqlite C library parses and executes (through cgo): comparison of blobs, joins, datetime() and expiry are no Go code, so an encoding of the Go functions would check a model of sqlite written by hand and not the code. The in-memory offer store of providers is decided by C13 and C14.")
