import os
D="provider/internal/api/"
F=sorted([D+d+"/"+f for d in os.listdir("/repo/"+D) if os.path.isdir("/repo/"+D+d) for f in os.listdir("/repo/"+D+d) if f.endswith(".go") and not f.endswith("_test.go")])
P("C23", "A provider publishes what its admin asks and believes only verified answers",
  "An offer that the admin has published has the provider's id, the admin's pieces, price, expiry and quality of service, and the provider's valid signature. A group offer (of two pieces or more, not expired) is stored and sent once to each registered gateway; of DHT offers, each one is stored, and sent once to each of the 16 gateways nearest to its piece and to no other; messages to gateways are signed and name the provider. An offer is listed as published at a gateway, once, if and only if the gateway answered: a group offer with an answer that it signed, a DHT offer with an answer that it signed and that carries its signature of the message it was sent; silence, another's signature, a signature of another message or another kind of answer do not count for a DHT offer, nor for a group offer silence, another's signature, another offer's digest or another kind of answer. A client that asks for the acknowledgement of a piece by a gateway is told in a signed answer that there is one only if the gateway acknowledged an offer for that piece, and is then given the provider's signed message with the offer and the gateway's signature of it. Lists of different lengths, or none, are refused and publish nothing.",
  ["inputs", "faults"], "two gateways (18 for the nearest ones); a group offer of one or two pieces with any price, expiry and quality of service, 1 to 3 (4) DHT offers with any of these (expiries from 2^60 on, different prices); six kinds of answer for each gateway, a change of a digest anywhere; lists of 0 to 2; one schedule; sockets and the HTTP server are stand-ins",
  "The handlers need running gateways; the tests do not call them.",
  F, [("HandleProviderAdminPublishGroupOfferRequest, HandleProviderAdminPublishDHTOfferRequest, HandleProviderAdminGetPublishedOfferRequest", D+"adminapi"), ("RequestProviderPublishGroupOffer, RequestProviderPublishDHTOffer", D+"providerapi"), ("HandleClientDHTOfferAckRequest", D+"clientapi")])
P("C24", "A provider lists offers to registered gateways, and serves with its admin's key",
  "A registered gateway that asks in a signed request for the DHT offers of a range of pieces is given, in a signed answer of messages that the provider signed, exactly the stored offers of the range, each once (up to 500); others are refused. If the gateway's signed answer has one acknowledgement for each of the messages, clients are told afterwards, as acknowledged, of each piece with an offer in those messages up to the first one whose acknowledgement lacks the gateway's signature of it; with anything else nothing is acknowledged. A gateway that says, in a message it signed, that it supports the provider's group offers or does not, is kept or dropped accordingly. A provider without its key refuses every request of clients, gateways and the admin other than to give it a key; this crashes and changes nothing, and it can be set up afterwards. A provider with its key serves requests of clients, of the admin and of gateways only at the port for these. The wallet is made from what the admin gives; if that fails, the request is refused and the provider keeps the key (or none) that it had; otherwise it signs with the key and its version, and publishes under the id, of the admin's last request. On request (and not otherwise) the register is read again before the admin is answered.",
  ["inputs", "faults", "histories"], "up to three stored offers, and 49, 50, 51, 101 and 501; any range of the first byte of a piece; seven kinds of acknowledgement; three named nodes and three signers; histories of 3 (4) messages on support; 9 kinds of request at three ports; three states before a change of key, wallets that work or not; one schedule; sockets, the HTTP server and the payment manager are stand-ins",
  "The handlers need running gateways; the tests do not call them.",
  F+["provider/cmd/provider/main.go"], [("HandleGatewayListDHTOfferRequest, HandleGatewayNotifyProviderGroupCIDOfferSupportRequest", D+"gatewayapi"), ("main", "provider/cmd/provider/main.go")])
