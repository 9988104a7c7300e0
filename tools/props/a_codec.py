P("C01", "Content and node ids keep their value through every form",
  "A content id or node id built from bytes, hex text, an integer or JSON names the 32-byte value it was given, left-padded with zeros, and turning it back into any of these forms and reading that again gives the same id. Input that is too long or is not valid hex is refused with an error and never crashes the caller. Two ids are the same in one form exactly when they are the same in every other, and lists of ids keep their length and order.",
  ["inputs"], "every byte string up to 70 bytes, every ASCII text up to 66 characters, integers up to 320 bits, lists of up to 6 ids",
  "Tests use a handful of fixed ids; the guarantee is about every length and every byte value, including malformed text a peer may send.",
  ["common/pkg/cid/cid.go", "common/pkg/nodeid/nodeid.go"],
  [("constructors and encoders", "common/pkg/cid/cid.go"), ("constructors and encoders, clockwise sort", "common/pkg/nodeid/nodeid.go")])
P("C02", "Offers survive the wire and their digest identifies them",
  "An offer or a sub-offer that is encoded and decoded again has the same provider, CIDs in order, price, expiry, quality of service, signature, digest and signed bytes. Two offers have the same digest exactly when provider, CIDs, price, expiry and quality of service agree, whatever their signatures, and the digest's text form decodes to it. Any received offer with malformed ids is refused without a crash, and an offer counts as expired exactly when its expiry time lies before the current time.",
  ["inputs"], "every value of every field, offers of 1 to 8 CIDs, every ASCII text up to 67 characters in the id fields, every clock value",
  "Tests round-trip a few fixed offers and compare some fields; a field dropped, truncated or swapped for particular values is not sampled.",
  ["common/pkg/cidoffer/cidoffer.go", "common/pkg/cidoffer/subcidoffer.go"],
  [("MarshalJSON/UnmarshalJSON, GetMessageDigest, HasExpired", "common/pkg/cidoffer/cidoffer.go"), ("MarshalJSON/UnmarshalJSON", "common/pkg/cidoffer/subcidoffer.go")])
P("C03", "A provider's signature binds every term of its offer",
  "An offer signed by a provider verifies under that provider's key, before and after the wire, and so does every sub-offer made from it. The signature verifies under no other key, for no changed provider id, CID list, price, expiry or quality of service (for a sub-offer: provider id, Merkle root and those terms), and not after any change to the 64 bytes of the signature value (the key version before it and the recovery byte after it are not part of it). A missing or malformed signature is refused with an error and never crashes the verifier.",
  ["inputs"], "every pair of offers of up to 4 CIDs, every difference between them, every non-zero change to the signature bytes, every short signature text",
  "Tests verify one signed offer and one wrong key; that no field can be changed under a valid signature is a statement about all pairs of offers.",
  ["common/pkg/cidoffer/cidoffer.go", "common/pkg/cidoffer/subcidoffer.go", "common/pkg/fcrcrypto/msg_signing.go"],
  [("Sign, Verify, MarshalToSign", "common/pkg/cidoffer/cidoffer.go"), ("Verify, MarshalToSign", "common/pkg/cidoffer/subcidoffer.go")],
  note="CID lists are compared as the tree sees them: a tree of an odd number of leaves repeats the last one.")
P("C04", "A Merkle proof proves exactly the CIDs of its offer",
  "For every CID of an offer the generated proof verifies against the offer's Merkle root, and still does after being encoded and decoded. No proof of any shape verifies for a content id that is not in the offer, nor for another root, and changing any part of a proof makes it fail. The root is determined by the list of CIDs and differs when the list differs.",
  ["inputs"], "trees of up to 9 CIDs with arbitrary values, every CID position, every foreign CID and root, arbitrary proof paths up to 5 siblings, real proofs with a sibling of 0, 1, 31, 33 or 64 bytes, one put in, left out or added, or a side changed",
  "Tests check proofs in small fixed trees; soundness is a claim about every forged path and every CID.",
  ["common/pkg/fcrmerkletree/tree.go", "common/pkg/fcrmerkletree/proof.go", "common/pkg/cidoffer/subcidoffer.go"],
  [("CreateMerkleTree, GenerateMerkleProof", "common/pkg/fcrmerkletree/tree.go"), ("VerifyContent, EncodeProof", "common/pkg/fcrmerkletree/proof.go")])
P("C05", "A received Merkle proof of any shape never crashes the receiver",
  "Decoding arbitrary bytes as a Merkle proof, and checking a proof that was accepted, never crashes. A proof that is cut short, followed by extra bytes, has inconsistent lengths or a different number of siblings than sides is refused with an error.",
  ["inputs"], "arbitrary proof bytes up to 20 bytes, arbitrary length words, every truncation of well formed proofs, paths of up to 4 siblings of various lengths",
  "Tests decode a valid proof and one or two malformed ones; a hostile peer can send any bytes.",
  ["common/pkg/fcrmerkletree/proof.go"],
  [("UnmarshalJSON, VerifyContent", "common/pkg/fcrmerkletree/proof.go")])
