F=["common/pkg/fcroffermgr/offer_manager.go","common/pkg/fcroffermgr/offer_storage.go"]
P("C13", "The offer store finds exactly the added, unexpired offers",
  "Every offer that was added to the offer store and has not expired is found under each of its content ids, once, and by its digest; no other offer is. Group offers (several content ids) and DHT offers (one content id) are kept and reported apart and an offer of the other kind, or an expired one, is refused and leaves nothing behind. Adding an offer again is no error and changes nothing, looking up changes nothing, and an expired offer stays out of every lookup. Threads that add and look up offers at the same time lose none and race for no data.",
  ["inputs", "histories", "schedules", "time"], "up to 2 (3) offers of either kind over 3 arbitrary content ids, any prices and providers, any expiry and any advance of the clock between the steps, groups that share pieces, two threads with up to 2 (3) preemptions",
  "Tests add one or two fixed offers from one thread and wait for one of them to expire.",
  F, [("AddGroupOffer, AddDHTOffer, GetOffers, GetOfferByDigest", F[0])])
P("C14", "A range of DHT offers is filled clockwise from its start, up to the limit",
  "A lookup of the DHT offers within a range returns the unexpired DHT offers whose content id lies clockwise from the first bound to the second, both included and wrapping round, in that order of content ids and each once, cut off at the number asked for; asking for no or fewer offers finds none. Group offers are not in it and expired offers take no place in it.",
  ["inputs", "time"], "up to 3 (4) offers over 3 (4) content ids that differ in their two high bytes, any bounds, any limit from -1 to one above the number of offers",
  "Tests use a fixed store and one or two ranges.",
  F, [("GetDHTOffersWithinRange", F[0])])
F=["common/pkg/fcrpaymentmgr/payment_manager.go"]
P("C15", "A payer draws no more from a channel than was put into it",
  "After any history of top ups and payments, a payment to a recipient yields a voucher exactly when what was drawn before plus the amount is at most what was put into that recipient's channel; otherwise it asks for a top up, yields no voucher and changes nothing. The first top up creates a channel to the recipient with the amount, each later one sends the amount to that channel, and a top up that the node refuses or that fails on the chain is reported and counts for nothing. A voucher names the channel and the lane, has a nonce above the one before on its lane, is for everything paid on the lane so far, and carries the payer's signature. Recipients do not share balances, nor lanes amounts. A negative payment is refused. The caller's amounts stay as they are.",
  ["histories", "inputs", "faults"], "histories of up to 4 (5) operations on one recipient and two lanes, of 5 (6) on two recipients, any 64 bit amounts, any lane numbers, failing node or chain at any top up; ideal signatures, a lossless voucher encoding",
  "The only test of payments needs a running Filecoin node and makes a fixed sequence of payments.",
  F, [("FCRPaymentMgr.Topup", F[0]), ("FCRPaymentMgr.Pay", F[0])])
P("C16", "A payee credits exactly what fresh, good vouchers add",
  "A voucher is credited exactly when it is drawn on the channel named with it, the channel's payee is the receiver, it carries the signature of the channel's payer over its content, it has no conditions (time locks, secrets, merges), its nonce is above that of the last one credited on its lane, it is for more than the last one, and everything credited on the channel stays within its balance on the chain. The amount credited is what the voucher adds on its lane. A voucher is credited once, whichever address or spelling of the channel it comes with. A refused voucher changes nothing. What is no voucher, no address or no payment channel is refused with an error and crashes nothing.",
  ["inputs", "histories", "faults"], "histories of up to 3 (4) vouchers with any lanes, nonces and 64 bit amounts, any balance that grows in between, vouchers changed after signing; ideal signatures, a lossless voucher encoding",
  "Tests of receipts need a running Filecoin node and hand in good vouchers in order.",
  F, [("FCRPaymentMgr.Receive", F[0])])
P("C17", "Threads that pay and are paid at the same time keep the books straight",
  "When two threads hand in vouchers, no voucher is credited twice and no more than the vouchers of a lane are for, or the channel holds, is credited; vouchers on different channels do not interfere. When two threads pay, their vouchers have different nonces, add up, and stay within the balance. When two threads top up a recipient, there is one channel that has both amounts; a payment next to a top up loses neither. There are no data races.",
  ["schedules", "inputs"], "two threads, one operation each, with up to 2 (3) preemptions at any shared access, new and known channels, any amounts",
  "The tests use one thread.",
  F, [("channel state locking", F[0])])
