P("C06", "A message signature binds everything the message says",
  "A message signed with a key verifies under that key's public half and under no other, before and after the wire and as often as it is checked, and the signature names the key version it was made with. The signature does not verify for a message with another type, protocol version, list of supported versions or body, nor after any change to the 64 bytes of the signature value. Checking never changes the message, whether the check succeeds or fails, and a missing or malformed signature is refused with an error and never crashes the receiver. An encoded message decodes to the same type, versions, body and signature.",
  ["inputs"], "every message type and protocol version, up to 4 (6) supported versions, bodies of up to 8 arbitrary bytes, two keys, every key version, every non-zero change of the signature, every short signature text",
  "Tests sign one message and verify it once; that no field escapes the signature and that a failed check leaves no trace is a statement about all pairs of messages.",
  ["common/pkg/fcrmessages/fcrmessage.go", "common/pkg/fcrcrypto/msg_signing.go"],
  [("Sign, Verify, MarshalJSON, UnmarshalJSON", "common/pkg/fcrmessages/fcrmessage.go"), ("SignMessage, VerifyMessage", "common/pkg/fcrcrypto/msg_signing.go")])
P("C07", "Every kind of message delivers what was put into it and nothing else",
  "For each of the sixty kinds of message, decoding an encoded message returns exactly the values it was built from: ids, nonces, prices, times to live, flags, keys and key versions, lists in order, offers and embedded signed messages with their signatures. A message of another type is refused by every decoder. A message body that lacks a field or carries ids or keys that are not well formed never crashes the decoder, never decodes to missing ids, offers or messages, and is refused when an id or a key is malformed. No two kinds of message have the same type number.",
  ["inputs"], "every value of every scalar field, lists of up to 2 (thorough 3) elements, every other type number, each field absent, ids of arbitrary text",
  "Tests encode and decode one fixed message per kind, mostly with small positive numbers and true flags.",
  ["common/pkg/fcrmessages/fcrmessage.go", "common/pkg/fcrmessages/type.go"],
  [("Encode* and Decode* functions", "common/pkg/fcrmessages"), ("type numbers", "common/pkg/fcrmessages/type.go")])
