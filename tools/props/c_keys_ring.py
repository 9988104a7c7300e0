P("C08", "Keys, key versions and raw signatures are exact and malformed ones are refused",
  "A private key comes back unchanged from both of its text forms and a public key from its text and from JSON; text is accepted as a key exactly when it is hex of the right length with the one known algorithm number. A key version keeps its number through bytes and text, versions are equal exactly when their numbers are, and the next version is one higher and leaves the old one alone. A detached signature verifies over exactly the bytes that were signed, under the signer's public key and no other, and starts with its key version; only a private key can sign. The identity of a key is the same for the pair and its public half, differs between keys, and recovery of a signer accepts exactly that identity. No key text, version bytes or signature bytes crash the code.",
  ["inputs"], "every 32/65 byte key value, every key version, every text of up to 8 (16) characters, key texts of every length up to 36/70 (70/100) bytes, signatures of every length up to 64 (70) bytes, messages of up to 3 (7) bytes",
  "Tests use two or three fixed keys and version numbers and only well formed signatures.",
  ["common/pkg/fcrcrypto/keypair_retrieval.go", "common/pkg/fcrcrypto/key_version.go", "common/pkg/fcrcrypto/msg_signing.go"],
  [("KeyPair encoders and decoders", "common/pkg/fcrcrypto/keypair_retrieval.go"), ("KeyVersion", "common/pkg/fcrcrypto/key_version.go"), ("SignMessage, VerifyMessage", "common/pkg/fcrcrypto/msg_signing.go")])
P("C09", "The DHT ring holds exactly the ids inserted and not removed",
  "After any history of insertions and removals the ring holds each id that was inserted and not removed since, once, in ascending order, and its size is their number. Text that is not 64 hex digits changes nothing and never crashes it, and a lookup with such text is refused with an error. Lookups leave the ring as it is. Threads that look up and change the ring at the same time do so without a data race and see only entries that were in it.",
  ["histories", "inputs", "schedules"], "histories of up to 4 (6) steps over 3 (4) arbitrary ids, rings of up to 4 (5) entries filled in every order followed by a removal and an insertion of arbitrary ids, or by searches and ranges with any ids, texts of 60 to 67 characters, two threads with up to 2 (3) preemptions",
  "The tests insert a handful of ids in one order and remove one; the historic bugs were in particular positions and counts.",
  ["common/pkg/dhtring/dhtring.go"],
  [("Insert, Remove, Size", "common/pkg/dhtring/dhtring.go")])
P("C10", "A DHT lookup finds the closest entries of the circle, as many as there are",
  "A search for the entries closest to an id returns min(n, entries not excluded) different entries, none of them the excluded one, such that no entry left out is closer on the circle of 2^256 ids, either way round, than one that was found; they come in clockwise order. An entry is closest to itself. A search for no or fewer than no entries finds none.",
  ["inputs"], "rings of up to 3 (4) entries, any id searched for, any excluded id, any number from -1 to entries+1, also after a removal and an insertion; ids that differ in their two (four) highest bytes, and in the first and last byte",
  "Tests use a few hand-made rings; which neighbour is closer, wrap-around, ties and exclusion only meet in particular constellations of the values.",
  ["common/pkg/dhtring/dhtring.go"],
  [("GetClosest", "common/pkg/dhtring/dhtring.go")])
P("C11", "A DHT range is exactly the entries from one bound round to the other",
  "A range of the ring returns exactly the entries that lie clockwise from the first bound to the second, both included, in that order; the range wraps round when the first bound is above the second, and the range from an entry to itself is that entry. The ring stays as it is.",
  ["inputs"], "rings of up to 4 (5) entries filled in every order, any two bounds",
  "Tests fix the ring and some bounds; off-by-one errors show at bounds that are entries, that wrap or that hit nothing.",
  ["common/pkg/dhtring/dhtring.go"],
  [("GetWithinRange", "common/pkg/dhtring/dhtring.go")])
P("C12", "Circular distance is the shorter way round and symmetric",
  "The distance of two values on a circle is the shorter of the two ways round; it is the same in both directions, zero exactly between equal values, and computing it leaves its inputs alone.",
  ["inputs"], "all values of 1, 2, 4, 8, 9 and 32 bytes on the circle of that many bytes, all values of 4 and 8 bytes on any circle",
  "Tests sample a few pairs.",
  ["common/pkg/math/distance.go"],
  [("GetDistance", "common/pkg/math/distance.go")])
