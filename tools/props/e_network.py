F=["gateway/internal/reputation/reputation.go","gateway/internal/reputation/reputation_store.go","gateway/internal/reputation/reputation_constants.go"]
P("C18", "A client's reputation is what its events add up to, within the limits",
  "A client has a reputation exactly once it was challenged or one was set for it; it starts at 10. Each event changes the reputation of its client, and of no other, by the amount the reputation table gives for it (challenge -1, deposit +1000, standard and DHT discovery with an offer +10, without offers or late +1, unpaid -100 and -300, micro-payment +1, invalid message -10), and an event leaves it no higher than 10000 and no lower than -10000, whatever it was before. A reputation that is set is that value. No event is lost when threads handle events of the same or of different clients, and there are no data races.",
  ["histories", "inputs", "schedules"], "histories of 2 (3) events or settings on two clients, any 64 bit reputation to start from, two threads of up to 3 operations with up to 2 (3) preemptions",
  "The tests apply each event once to a client with one particular reputation, from one thread.",
  F, [("ClientEstablishmentChallenge and the other events", F[0]), ("changeClientReputation", F[1])])
F=["common/pkg/fcrregistermgr/register_manager.go"]
P("C30", "The register manager answers with what the register lists",
  "After a refresh every gateway and provider that the register listed under a well formed id (64 lower case hex digits) is found by its id with the information listed last, and once among all of them; an id that was never listed is answered with none, as often as it is asked, and a gateway that is new in the register is found at once. A search near a content id returns the closest listed gateways, without the excluded one, as many as there are up to the number asked for and sixteen; the range of a gateway goes from the first to the last of its closest neighbours and is refused when it has fewer than two. A register that is down, answers with no list, or lists entries that are null or have bad ids changes nothing else and crashes nothing. A manager that was not started or was shut down, or does not discover that kind of node, knows none. Registering sends the node's own information. Threads that look up and refresh at the same time do not race, lose an update or wait for each other for ever.",
  ["histories", "inputs", "faults", "schedules"], "histories of 2 (3) refreshes with two nodes, a change of any one detail, searches among 3 (4) gateways at any distances and 18 fixed ones, twelve malformed answers, the update thread and two more threads with up to 1 (2) preemptions; one schedule elsewhere; the timer does not fire and HTTP is a stand-in",
  "Tests use a mocked connection, one fixed list and one thread, and call the update code with hand made state.",
  F, [("Refresh, updateGateways, updateProviders", F[0]), ("GetGateway, GetProvider, GetAllGateways, GetAllProviders", F[0]), ("GetGatewaysNearCID, GetGatewayCIDRange", F[0])])
D="common/pkg/fcrp2pserver/"
F=[D+"server.go",D+"pool.go",D+"tcp_comms.go",D+"server_reader.go",D+"server_writer.go"]
P("C28", "Peers exchange whole messages over TCP, and each request gets its own answer",
  "Messages that a peer sends over a connection are handled once each, in order and as they were sent, however the bytes are cut into pieces or joined, and pauses between messages do no harm; each goes to the handler of its type at the address it came in, what a handler writes is sent as it is, and a message of a type without handler is answered with an invalid message response and the connection is kept. A message that stops for longer than the timeout, breaks off or is no message, and a handler that fails, end the connection: it is closed once and nothing behind is handled, other connections are served as before, and no more memory is taken than what arrives. A connection is served while others are busy, and one that cannot be accepted does not end the server. A request goes to the address that the register has for that node and use, over the open connection if there is one and otherwise over a new one, and returns what the requester made of the answer; when the requester fails the connection is closed and forgotten and the next request makes a new one. Requests of a server that was not started, of a type without requester, or to nodes that are not registered or cannot be reached are refused with an error. Threads that request at the same time get their own answers (or an error if their connection broke), leave one connection for each peer, do not race, crash or wait for ever.",
  ["inputs", "faults", "schedules", "histories"], "2 (3) messages of any type; streams of three fixed messages cut at any byte, with up to two timeouts and whole messages after these, ended or reset at any byte, or in pieces of 1 to 9 (40) bytes; any announced length over 2048; histories of 3 (4) requests to two nodes with six kinds of failure; two threads with up to 1 (2) preemptions; net.Listen and net.Dial are stand-ins",
  "The only test starts a server. Loopback tests see the cuts and timeouts that the kernel happens to produce.",
  F, [("readTCPMessage, sendTCPMessage", D+"tcp_comms.go"), ("handleIncomingConnection, RequestGatewayFromGateway, RequestGatewayFromProvider, RequestProvider", D+"server.go"), ("getGatewayConn, getProviderConn, removeActiveGateway, removeActiveProvider", D+"pool.go")])
F=["common/pkg/fcrrestserver/server.go","common/pkg/request/request.go"]
P("C29", "HTTP requests reach the handler of their type, and only success passes for it",
  "A message that is posted to /v1 at an address of a REST server is given once, as it was sent, to the handler of its type at that address, and the status and body that the handler writes are what is answered; an empty body, one that breaks off or is no message, and a message without handler at that address are answered with status 400 and reach no handler, and other paths and methods are refused. Handlers are fixed when the server starts, and a server starts once. A message that is sent over HTTP is posted once and unchanged to /v1 of its host as JSON and its answer is returned unchanged; a host that cannot be reached, a status other than 200, and an answer that breaks off or is no message are errors, after which the next message is sent as before. Getting, posting and deleting a resource is done once, returns it unchanged, and is an error when the host cannot be reached or answers with an error status; what is not JSON is not sent. Every response is closed, and threads that send at the same time get their own answers.",
  ["inputs", "faults", "schedules"], "2 (3) messages of any type and 3 byte body at two addresses, 11 malformed bodies, five kinds of failing exchange, every status from 100 to 599, two threads with up to 2 (3) preemptions; middlewares, the path trie and net/http's client and server are stand-ins",
  "The tests start a server and ask hosts that are not there.",
  F, [("msgRouter, AddHandler, Start", F[0]), ("SendMessage, GetJSON, SendJSON, Delete", F[1])])
