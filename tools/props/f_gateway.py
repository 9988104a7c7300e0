R="gateway/internal/api/clientapi/"
G="gateway/internal/api/gatewayapi/"
import os
F=sorted(["gateway/internal/api/"+d+"/"+f for d in ("clientapi","gatewayapi") for f in os.listdir("/repo/gateway/internal/api/"+d) if f.endswith(".go") and not f.endswith("_test.go")])
P("C19", "A gateway sells searches and offers at its prices, and spends only what it got",
  "A gateway that has its key and wallet serves a paid request only if it accepts the voucher of the request and that is worth at least the price: the search price for a search, that price for each gateway to be asked for a DHT search, the offer price for each digest of a purchase. Otherwise the requester is asked for the payment (or gets an error), is told and sold nothing, and nobody is contacted, paid or topped up. The voucher of a request is taken once, and prices stay the same. A client's search or DHT search that expired is not served. A paid search, of a client or of a gateway, is answered with the digests of the stored offers for the piece, a paid purchase with the sub offers, for that piece, of the stored offers with those digests in their order; a digest of no offer for the piece is left out. For a paid DHT search as many of the closest gateways as were asked for are each asked once, for a paid DHT purchase each gateway that was named (at most once) is sent the digests for it; each message is signed, and carries a voucher made for that gateway and worth exactly the search price or the offer price for each of its digests, after topping up the channel by the configured amount if it lacks funds. The gateway never pays more than the voucher was worth. A gateway's answer is passed on as it is if it is signed by that gateway, and not otherwise. Answers are signed and repeat the nonce and piece they are for. Unknown gateways, missing lists and payments that fail crash nothing.",
  ["inputs", "faults", "histories"], "one gateway with its real main, two providers and three other gateways, three offers, three pieces; vouchers of any value below 2^64, accepted or not; any nonce and time to live; up to 2 (3) digests of five kinds; -2^62 to 2^40 gateways asked for (seven values); peers that answer, are silent, or answer with another's signature; up to three top ups, failing payments; histories of 2 (3) sales; one schedule; the payment manager, sockets, the HTTP server and the offer database (without expiry) are stand-ins",
  "The gateway's handlers have next to no tests, since they need peers, a register and a payment chain.",
  F, [("HandleClientStandardCIDDiscoverRequestV2, HandleClientStandardCIDDiscoverOfferRequest, HandleClientDHTCIDDiscoverRequestV2, HandleClientDHTCIDDiscoverOfferRequest", R), ("the handlers and requesters of DHT searches and purchases", G)])
V="gateway/internal/api/providerapi/"
A="gateway/internal/api/adminapi/"
def ls(*ds): return sorted([d+f for d in ds for f in os.listdir("/repo/"+d) if f.endswith(".go") and not f.endswith("_test.go") and f!="doc.go"])
P("C20", "A gateway stores and acknowledges only a provider's own signed offers",
  "An offer that a gateway gets from a provider, published to it or listed on its request, is stored only if the message, and for a list also the part of it with the offer, names a registered provider and is signed by it, and the offer names that provider and is signed by it. The signed acknowledgement of a group offer (with its digest) or of a message with DHT offers (with the gateway's signature of the message and its nonce) is sent if and only if all offers of the message are such and are stored; otherwise the provider gets an error, and for a list no acknowledgement of that part. On the admin's request (and not if it asks for no refresh) the gateway asks each provider, with its id and in a signed message, for the DHT offers of its own range of pieces, and acknowledges in one signed message, in their order and each in a message that it signs, the parts of which all offers are stored. Nobody else is contacted.",
  ["inputs", "faults"], "up to 2 (3) offers in a message, 2 parts of up to 1 (2) offers each in a list; offers of six kinds: own, another's, another's signed by this provider, signed by another, with another offer's signature, unsigned; registered and unregistered providers and signers; any nonce; a store that is full or not; one schedule; the SQL offer database is a stand-in",
  "The handlers need a running provider and a database; the tests do not call them.",
  ls(V)+["gateway/internal/api/gatewayapi/list_dht_offer_requester.go", A+"list_dht_offer_handler.go"], [("HandleProviderPublishGroupOfferRequest, HandleProviderPublishDHTOfferRequest", V), ("RequestListCIDOffer", G)])
P("C21", "A gateway's answers are its stored offers and other gateways' own signed answers",
  "A gateway answers a free search of a client, or of a registered gateway that signed the request, that has not expired, with the sub offers for the piece of exactly its stored offers for it, and a paid search of a gateway likewise with their digests; the answer is signed and repeats nonce and piece. The time to live decides: a request whose time has passed is refused, as is a gateway's request that names an unregistered node or is signed by another one, whose voucher is not taken either. Establishment is answered with the client's challenge and the gateway's id, signed. For a DHT search of a client that has not expired, the closest other gateways, as many as asked for (or all there are), are each asked once in a signed request for the same piece that has not expired; the client is given, for each of them, its answer as it is if it is signed by it, and its id as one out of reach otherwise. For none of these is anybody else contacted or anything paid.",
  ["inputs", "faults"], "three other gateways, two providers, three offers, three pieces; any nonce, time to live, challenge of up to 4 characters; four named nodes and four signers; -5 to 2^40 gateways asked for (six values); peers that answer, are silent or answer with another's signature; one schedule; sockets, the HTTP server and the offer database (without expiry) are stand-ins",
  "The handlers need peers and a database; the tests do not call them.",
  F, [("the handlers of searches and establishment", R), ("HandleGatewayDHTDiscoverRequest, HandleGatewayDHTDiscoverRequestV2, RequestGatewayDHTDiscover", G)])
P("C22", "A gateway serves each caller at its own port, and only with its admin's key",
  "A gateway without its key refuses every request of clients, of gateways and providers, and of the admin other than to give it a key, and one without its wallet refuses every paid request: such a request crashes nothing, changes and contacts nothing, and the gateway can be set up afterwards. A gateway with key and wallet serves requests of clients, of the admin, of gateways and of providers only at the port for these; at another port they are refused and do nothing. The wallet is made from what the admin gives; if that fails, the request is refused and the gateway keeps the key (or none) that it had; otherwise it has the id, key and key version of the admin's last request, and signs with it. The admin reads and sets the reputation of clients that are known (and is told which are not), has the register read again before it is answered (if it wants that), and has each listed provider told once, in a signed message, that its group offers are supported, and no other told so.",
  ["inputs", "faults", "histories"], "17 kinds of request at four ports; three states before a change of key, wallets that work or not; up to 2 (3) reputation requests for two clients, any value; three providers, listed or not, that confirm, deny or are silent; one schedule; sockets, the HTTP server, the payment manager and the offer database are stand-ins",
  "The tests start no gateway, and never send a request to the wrong port or too early.",
  F+ls(V,A)+["gateway/cmd/gateway/main.go"], [("main", "gateway/cmd/gateway/main.go"), ("HandleGatewayAdmin...", A)])
