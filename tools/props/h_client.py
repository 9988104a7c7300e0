A="client/pkg/api/clientapi/"
F=["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/fcrclient/register_validation.go"]+sorted(A+f for f in __import__("os").listdir("/repo/"+A) if f.endswith(".go") and not f.endswith("_test.go"))
C="client/pkg/fcrclient/filecoin_retrieval_client.go"
P("C25", "A client returns only offers for the asked piece that their provider signed",
  "Whatever gateways answer, each offer that a discovery (standard or DHT, free or paid) returns is for the asked piece, has a valid Merkle proof for it, and has the valid signature of the provider that it names, whose registration is complete; and the offers of an answer that are such are returned in their order (up to the limit of a paid search), whatever else is in the answer. An answer counts only if it is signed with the registered key of the gateway that was asked, is of the kind asked for, and has the nonce of the request and, where it names a piece, that piece; otherwise the discovery fails. What other gateways found in a DHT discovery counts, for each of them on its own, only if it is a message of the right kind signed with the key that the gateway named for it has registered, in a complete registration: the offers of a free discovery are listed under that gateway, and in a paid discovery each such gateway, and no other, is asked for just the offers that it found, and the offers are listed under the gateways that the asked gateway's signed answer names.",
  ["inputs", "faults"], "three gateways and two complete providers; up to 2 (3) offers of 8 kinds (two of them good) with any price in an answer, in DHT discoveries one for the first gateway (any kind) and one for the second (4 kinds); six kinds of answer for each request, five kinds of relayed answer; each detail of a registration missing; one schedule; the HTTP connection, the register server and the payment manager are stand-ins",
  "The functions need running gateways; the tests do not call them.",
  F, [("FindOffersStandardDiscovery, FindOffersDHTDiscovery, FindOffersStandardDiscoveryV2, FindOffersDHTDiscoveryV2", C), ("RequestStandardDiscover and the other requests", A)])
P("C26", "A client uses registered gateways, and as active ones those that answered it",
  "The gateways to use are those added and not removed since, each with a complete registration; the active gateways are those among them that answered, and were not removed since, when they were made active: removing a gateway to use removes it from the active ones. Each call tells the number of gateways that it added or removed; nil, unknown and repeated ids do not count and do no harm. A gateway is contacted at its client port only to become active while it is to be used and not active; it answers with its registered key's signature, its id and the challenge, which is of 32 bytes and not that of an earlier request; any other answer leaves it inactive. Discoveries ask active gateways only. This holds while gateways are removed or listed during the contact, without data races. Gateways located for a region are registered ones of that region, each once, as many as there are but no more than asked for (none for zero or less).",
  ["inputs", "faults", "histories", "schedules"], "two gateways, one with any one detail of its registration missing, and one that is not registered; histories of an addition and three more calls with one of 3 (5) lists of ids; six kinds of answer, a change of any character of the challenge; one random draw for the challenge of an earlier request; two threads with up to 2 (3) preemptions; three gateways and one with a bad id in a region, any number asked for; the HTTP connection and register server are stand-ins",
  "The functions need running gateways; the tests do not call them.",
  F, [("AddGatewaysToUse, AddActiveGateways, RemoveGatewaysToUse, RemoveActiveGateways, FindGateways", C), ("RequestEstablishment", A+"establishment_requester.go"), ("validateGatewayInfo", "client/pkg/fcrclient/register_validation.go")])
P("C27", "A client pays its gateway the price of what it asks for, and nothing else",
  "For a paid search a client pays its search price (for a DHT search, times the number of gateways to search) to the registered address of the gateway that it asks, and sends the channel and voucher of that payment with the request. If the gateway answers that payment is required, it tops up, pays the same once more and repeats the request with that voucher; if that is answered so again, the search fails. It then pays its offer price times the number of the offers found, but no more of them than its limit, and asks for exactly these, once, with that voucher; it pays and asks for nothing if there are none. It tops up its channel to that address by the set amount, and only when the payment manager or the gateway asks for it. If a payment fails, or the channel is still too low after two top-ups, the search fails and nothing is asked for. No more offers are returned than the limit. The payment manager is made once, with the wallet of the settings, also by concurrent calls, which do not race; if it cannot be made, a paid search fails, nothing is asked for, and it can be made later.",
  ["inputs", "faults", "schedules"], "up to three offers found by one gateway and two by each of two, any limit from -1 to 4, any number of gateways to search below 2^40; up to three payments that want a top-up at the first payment; at most one payment that fails; up to two answers that want payment; two threads with up to 2 (3) preemptions; the HTTP connection, the register server and the payment manager are stand-ins",
  "The functions need running gateways and a blockchain; the tests do not call them.",
  F, [("FindOffersStandardDiscoveryV2, FindOffersDHTDiscoveryV2, topupAndPay, PaymentMgr", C)])
P("C31", "A client believes an acknowledgement only of provider and gateway together",
  "A client that asks a provider for the acknowledgement by a gateway of an offer for a piece is told that there is one if and only if the provider's answer, signed with its registered key, says so and has a message of the provider with DHT offers, signed by it, of which one is for the piece, and the gateway's acknowledgement, signed by it, with its signature of that message; both registrations are complete. Anything else that is answered is not believed and does no harm.",
  ["inputs", "faults"], "17 kinds of answer, with any price of the offer and any nonce; messages with up to two offers of one piece each; each detail of a registration missing; the HTTP connection and the register server are stand-ins",
  "The function needs a running provider; the tests do not call it.",
  F, [("FindDHTOfferAck", C), ("RequestDHTOfferAck", A+"dht_offer_ack_requester.go")])
