G="gateway-admin/pkg/"
V="provider-admin/pkg/"
def files(d):
    import os
    return sorted(os.path.join(p,f)[len("/repo/"):] for p,_,l in os.walk("/repo/"+d) for f in l if f.endswith(".go") and not f.endswith("_test.go") and f not in("version.go","defaults.go"))
P("C32", "A gateway admin's call succeeds only if the gateway named, by its key, says so",
  "Each call of the gateway admin library (initialise a gateway with its key, with or without a wallet; set the providers whose group offers it supports; refresh; list DHT offers; get and set a reputation) sends one request to the admin address registered for the gateway that is named. The request is signed with the admin's key and carries exactly the data of the call, for an initialisation with the id of that gateway. The call succeeds if and only if the answer is of the right kind, is signed with the signing key registered for that gateway and says yes; for a reputation it must be about the client asked for, who exists, and for setting it must tell the value that was set; getting returns the value told. The gateways that the admin can later refresh or have list offers, by their id (nil is an error), are those for which an initialisation or setting of providers succeeded once, as they were registered when it succeeded last, whatever failed before or after; for another gateway such a call fails and sends nothing. Concurrent calls do not race.",
  ["inputs", "faults", "histories", "schedules"], "any id, key version, reputation, and wallet texts of up to 3 characters, up to 2 (4) providers; seven kinds of bad answer (another gateway's or the root key's signature, none, that of a refusal, another kind, a refusal, none at all); registered ids in lower or upper case; histories of 3 (4) calls about two gateways; three threads with up to 1 (2) preemptions; the HTTP connection is a stand-in",
  "The calls need a running gateway; no test calls them.",
  files(G), [("InitialiseGateway, InitialiseGatewayV2, ForceUpdate, ListDHTOffer, UpdateGatewaySupportedFeatures", G+"fcrgatewayadmin/filecoin-gateway-admin.go"), ("RequestInitialiseKey and the other requests", G+"api/adminapi/")])
P("C33", "A provider admin's call succeeds only if the provider named, by its key, says so",
  "Each call of the provider admin library (initialise a provider with its key, with or without a wallet; publish a group offer or DHT offers; get the published offers for gateways; refresh) sends one request to the admin address registered for the provider that is named. The request is signed with the admin's key and carries exactly the data of the call, in its order, for an initialisation with the id of that provider. The call succeeds if and only if the answer is of the right kind, is signed with the signing key registered for that provider and says yes; getting published offers succeeds with any answer that is of the right kind and so signed, and returns the offers, and whether there are any, as the answer tells them. The providers that can be used by their id (nil is an error) are those that were initialised once, as they were registered when that succeeded last, whatever failed before or after; for another provider a call fails and sends nothing. Concurrent calls do not race.",
  ["inputs", "faults", "histories", "schedules"], "any id, piece, price, expiry, quality, key version, and wallet texts of up to 3 characters; up to 2 (4) pieces, gateways and offers; seven kinds of bad answer (another provider's or the root key's signature, none, that of a refusal, another kind, a refusal, none at all); registered ids in lower or upper case; histories of 3 (4) calls about two providers; three threads with up to 1 (2) preemptions; the HTTP connection is a stand-in",
  "The calls need a running provider; the only test calls one of them with a mock and ignores its result.",
  files(V), [("InitialiseProvider, InitialiseProviderV2, PublishGroupCID, PublishDHTCID, GetGroupCIDOffer, ForceUpdate", V+"fcrprovideradmin/filecoin_provider_admin.go"), ("RequestInitialiseKey and the other requests", V+"api/adminapi/")])
R="register/internal/handlers/"
P("C34", "The register tells each node's entry as it was last registered",
  "An entry that the register service acknowledges is, with every detail, in the list of its kind (gateways or providers) and is what a request by its id tells, in the JSON form in which the other services send and read entries, until another entry of its kind is registered under its id or all of its kind are deleted; nothing else is listed, each id once, and an unknown id is not found. Gateways and providers, also with the same id, do not mix. When the store fails, no request is answered with a success.",
  ["histories", "faults"], "histories of 4 (5) registrations (two ids of either kind, with any details of two characters) and deletions; the store fails at any one request; the Redis server is a stand-in behind the real client library; the generated HTTP routing and the parsing of requests are not covered",
  "The handlers need a Redis server; no test calls them.",
  [R+"gateways_handler.go", R+"providers_handler.go", "register/models/gateway_register.go", "register/models/provider_register.go"], [("AddGatewayRegister, GetGatewayRegisters, GetGatewayRegisterByID, DeleteGatewayRegisters", R+"gateways_handler.go"), ("AddProviderRegister, GetProviderRegisters, GetProviderRegisterByID, DeleteProviderRegisters", R+"providers_handler.go")])
