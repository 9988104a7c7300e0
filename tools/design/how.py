HOW = {
"C01": "Real constructors and encoders on arbitrary bytes, texts and integers; oracle: the 32-byte value padded on the left. Text is any ASCII text, so that malformed hex is included.",
"C02": "Offers with arbitrary fields are encoded and decoded by the real MarshalJSON/UnmarshalJSON; the digest of two arbitrary offers is compared (ideal hash) with the equality of their fields; hostile documents have any text in the id fields and any kind of value elsewhere.",
"C03": "Two arbitrary offers: a signature of one is asserted to verify for the other only if every field agrees. Tampering is an arbitrary non-zero mask over the 64 signature bytes.",
"C04": "Trees are built by the real code over arbitrary CIDs; soundness: an arbitrary path of siblings and sides for an arbitrary content verifies only if the content is one of the leaves (and, separately, reshaped versions of real proofs: a sibling dropped, added, cut, lengthened).",
"C05": "Arbitrary bytes are decoded and checked; framing is an arbitrary length word; well formed proofs are cut at every byte.",
"C06": "Arbitrary messages signed with arbitrary keys; any differing field, key or signature byte must make verification fail; a message goes over the wire first.",
"C07": "For each of the 60 kinds (harnesses generated by `tools/gen_c07.py`): arbitrary values are encoded and decoded and compared one by one; the type number is replaced by any other; each field is left out, and ids, keys are replaced by arbitrary text.",
"C08": "Key and version texts of arbitrary bytes and characters against a direct reading of their format; signatures by the ideal scheme.",
"C09": "Histories of insertions, removals and lookups of arbitrary ids against a set; a harness with two goroutines and symbolic schedule looks for lost updates, deadlocks and races.",
"C10": "Rings over arbitrary ids; the result of a search is compared with distances that are computed in the harness by 256-bit subtraction: nothing closer is left out, none twice, as many as there are.",
"C11": "As C10, with two arbitrary bounds; oracle: x is in the range iff (x-a) mod 2^256 <= (b-a) mod 2^256.",
"C12": "Arbitrary integers on a circle of arbitrary size; oracle by comparison of the two ways round; the operands must not change.",
"C13": "Histories of additions with arbitrary content ids, expiries and clock advances against a list; two threads with symbolic schedules.",
"C14": "Offers over arbitrary content ids; the range is compared with a walk clockwise from the start computed by sorting in the harness.",
"C15": "Histories of pay and top-up operations with arbitrary amounts; the sum of the vouchers that the peer could redeem (highest per lane) is asserted not to exceed what was put in, and each voucher to be for what was asked.",
"C16": "Histories of arbitrary vouchers, signed by the peer, changed, replayed, foreign, with conditions; the credit of each must be the increase of what could be redeemed.",
"C17": "Two goroutines with one operation each on the same manager and every schedule within the preemption bound: the result must be that of one of the two orders.",
"C18": "Histories of events against saturating arithmetic; threads with symbolic schedules.",
"C19": "The gateway's real `main` sets up the servers; requests are posted to its client and gateway ports with vouchers of arbitrary value. What is answered, to whom it pays and what it asks other gateways is compared with the prices.",
"C20": "Publishing messages with lists of genuine and not genuine offers arrive at the provider port or in the answer to the gateway's own request; what is stored and acknowledged is compared with what was genuine.",
"C21": "As C19 for the free searches, establishment and relaying; answers of other gateways are signed by any of several keys.",
"C22": "Each kind of request is posted to each of the gateway's ports before and after it has a key; re-initialisation with working and failing wallets.",
"C23": "The provider's real `main`; publishing through its admin port with gateways that answer in six ways each; published and acknowledged offers are then asked for through the admin and client ports. `near` has 18 gateways.",
"C24": "As C23 for listing (with the batches of 50), acknowledgements of lists, support messages, initialisation and ports.",
"C25": "The real client library with active gateways whose answers carry offers of eight kinds; what is returned is compared with the list of those that are genuine.",
"C26": "Histories of the list calls against sets; establishment answers of six kinds; a gateway is removed by another goroutine at any moment of the contact.",
"C27": "A recording payment manager that pays, wants top-ups or fails, and gateways that want payment again; payments, vouchers and requests are compared with the prices and limits; concurrent first use of the manager with symbolic schedules.",
"C28": "The real reader, writer and connection pool over a stand-in `net.Conn` whose pieces, timeouts, end and reset are symbolic; concurrent requests with symbolic schedules.",
"C29": "The real server's dispatch and the real HTTP communicator over stand-in request/response objects: arbitrary status, body, failing reads.",
"C30": "The real manager over a stand-in register: arbitrary histories of lists with arbitrary changes between refreshes; its update goroutine and other threads with symbolic schedules.",
"C31": "The real client library with 17 kinds of answer of the provider: each part wrong once.",
"C32": "The real admin library against a gateway that is recorded; answers are good or one of seven bad ones; histories of calls against a set of initialised gateways.",
"C33": "As C32 for the provider admin.",
"C34": "The register's real handlers and the real Redis client library with a stand-in for the server; histories against a map.",
"C36": "The real mapping of the configuration, with symbolic texts and digits, against the number or time that the digits stand for; the builders of the libraries with histories of symbolic calls against the last value of each.",
}
MISSED = {}
