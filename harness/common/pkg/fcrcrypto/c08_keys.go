package fcrcrypto

import (
	"bytes"
	"encoding/hex"
	"encoding/json"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// a private key comes back from both of its text forms
func VerifC08_privateKeyText() {
	raw := sym.Bytes("key", 32)
	text := hex.EncodeToString(raw)
	k, err := DecodeRawPrivateKey(text)
	sym.Assert(err == nil && k != nil, "32 bytes are a private key")
	got, err := k.EncodeRawPrivateKey()
	sym.Assert(err == nil && got == text, "raw text kept")
	full := k.EncodePrivateKey()
	sym.Assert(len(full) == 66, "private key text has an algorithm and 32 bytes")
	k2, err := DecodePrivateKey(full)
	sym.Assert(err == nil && k2 != nil, "encoded private key decodes")
	got, err = k2.EncodeRawPrivateKey()
	sym.Assert(err == nil && got == text, "key kept through the text with algorithm")
	sym.Assert(k2.EncodePrivateKey() == full, "text with algorithm kept")
}

// a public key comes back from its text and from JSON, and only 65 bytes with the right algorithm are one
func VerifC08_publicKeyText() {
	raw := sym.Bytes("key", 65)
	text := "01" + hex.EncodeToString(raw)
	k, err := DecodePublicKey(text)
	sym.Assert(err == nil && k != nil, "algorithm and 65 bytes are a public key")
	got, err := k.EncodePublicKey()
	sym.Assert(err == nil && got == text, "text kept")
	data, err := json.Marshal(*k)
	sym.Assert(err == nil, "public key marshals")
	var j KeyPair
	sym.Assert(json.Unmarshal(data, &j) == nil, "public key unmarshals")
	got, err = j.EncodePublicKey()
	sym.Assert(err == nil && got == text, "text kept through JSON")
}

// keys of another length or algorithm are refused, without a crash
func VerifC08_malformedPrivate() {
	n := sym.Choose("bytes", sym.Bound("key bytes", 36, 70))
	raw := sym.Bytes("key", n)
	text := hex.EncodeToString(raw)
	var k *KeyPair
	var err error
	sym.Assert(!sym.Try(func() { k, err = DecodePrivateKey(text) }), "no panic on any private key text")
	ok := n == 33 && raw[0] == SigAlgEcdsaSecP256K1Blake2b
	sym.Assert((err == nil) == ok, "private key accepted exactly with algorithm 1 and 32 bytes")
	sym.Assert((k != nil) == (err == nil), "a key or an error")
	sym.Assert(!sym.Try(func() { k, err = DecodeRawPrivateKey(text) }), "no panic on any raw private key text")
	sym.Assert((err == nil) == (n == 32), "raw private key accepted exactly with 32 bytes")
	sym.Assert((k != nil) == (err == nil), "a raw key or an error")
}

func VerifC08_malformedPublic() {
	n := sym.Choose("bytes", sym.Bound("key bytes", 70, 100))
	raw := sym.Bytes("key", n)
	text := hex.EncodeToString(raw)
	var k *KeyPair
	var err error
	sym.Assert(!sym.Try(func() { k, err = DecodePublicKey(text) }), "no panic on any public key text")
	ok := n == 66 && raw[0] == SigAlgEcdsaSecP256K1Blake2b
	sym.Assert((err == nil) == ok, "public key accepted exactly with algorithm 1 and 65 bytes")
	sym.Assert((k != nil) == (err == nil), "a key or an error")
	data, merr := json.Marshal(text)
	sym.Assert(merr == nil, "marshals")
	var j KeyPair
	sym.Assert(!sym.Try(func() { err = json.Unmarshal(data, &j) }), "no panic on any public key JSON")
	sym.Assert((err == nil) == ok, "public key JSON accepted exactly with algorithm 1 and 65 bytes")
}

// text that is not hex is refused, without a crash
func VerifC08_notHex() {
	n := sym.Choose("length", sym.Bound("text length", 8, 16))
	s := sym.String("text", n)
	_, herr := hex.DecodeString(s)
	for i := 0; i < 4; i++ {
		var err error
		sym.Assert(!sym.Try(func() {
			switch i {
			case 0:
				_, err = DecodePrivateKey(s)
			case 1:
				_, err = DecodeRawPrivateKey(s)
			case 2:
				_, err = DecodePublicKey(s)
			case 3:
				_, err = ExtractKeyVersionFromMessage(s)
			}
		}), "no panic on any short text")
		if i < 3 {
			sym.Assert(err != nil, "short text is not a key")
		} else {
			sym.Assert(err != nil || herr == nil, "a key version is not read from text that is not hex")
			sym.Assert(err != nil || n == 0 || n >= 8, "a key version is not read from fewer than four bytes")
		}
	}
	long := s + hex.EncodeToString(make([]byte, 33))
	_, err := DecodePrivateKey(long)
	sym.Assert(err != nil || n == 0, "text with extra characters is not a private key")
}

// key versions keep their number through every form and are equal exactly when their numbers are
func VerifC08_version() {
	v, w := sym.Uint32("v"), sym.Uint32("w")
	a, b := DecodeKeyVersion(v), DecodeKeyVersion(w)
	sym.Assert(a.EncodeKeyVersion() == v, "number kept")
	enc := a.EncodeKeyVersionAsBytes()
	sym.Assert(len(enc) == 4, "a key version is four bytes")
	r, err := DecodeKeyVersionFromBytes(enc)
	sym.Assert(err == nil && r.EncodeKeyVersion() == v, "number kept through bytes")
	same := v == w
	sym.Assert(a.Equals(b) == same && b.Equals(a) == same && a.NotEquals(b) == !same, "versions are equal exactly when their numbers are")
	sym.Assert(a.EqualsRaw(w) == same && a.NotEqualsRaw(w) == !same, "versions match exactly their number")
	sym.Assert(bytes.Equal(enc, b.EncodeKeyVersionAsBytes()) == same, "versions have the same bytes exactly when their numbers agree")
	n := a.NextKeyVersion()
	sym.Assert(a.EncodeKeyVersion() == v, "the next version leaves the version")
	sym.Assert(n.EncodeKeyVersion() == v+1, "the next version is one higher")
	sym.Assert(InitialKeyVersion().EncodeKeyVersion() == 1, "versions start at 1")
	l := sym.Choose("bytes", 8)
	var r2 *KeyVersion
	raw := sym.Bytes("raw", l)
	sym.Assert(!sym.Try(func() { r2, err = DecodeKeyVersionFromBytes(raw) }), "no panic on any version bytes")
	sym.Assert((err == nil) == (l >= 4), "a key version needs four bytes")
	if err == nil {
		sym.Assert(bytes.Equal(r2.EncodeKeyVersionAsBytes(), raw[:4]), "version bytes kept")
	}
}

// a detached signature: the key version comes first, and the signature verifies over that text only
func VerifC08_sign() {
	k := sym.Choose("key", 2)
	priv, err := DecodeRawPrivateKey(sym.Key(k))
	sym.Assert(err == nil, "key decodes")
	enc, err := priv.EncodePublicKey()
	sym.Assert(err == nil, "public key encodes")
	pub, err := DecodePublicKey(enc)
	sym.Assert(err == nil, "public key decodes")
	o, err := DecodeRawPrivateKey(sym.Key(1 - k))
	sym.Assert(err == nil, "key decodes")
	msg := sym.Bytes("msg", sym.Choose("len", sym.Bound("message bytes", 4, 8)))
	msg2 := sym.Bytes("msg2", sym.Choose("len2", sym.Bound("message bytes", 4, 8)))
	ver := sym.Uint32("ver")
	before := append([]byte{}, msg...)
	sig, err := SignMessage(priv, DecodeKeyVersion(ver), msg)
	sym.Assert(err == nil, "message can be signed")
	sym.Assert(bytes.Equal(before, msg), "signing leaves the message")
	got, err := ExtractKeyVersionFromMessage(sig)
	sym.Assert(err == nil && got.EncodeKeyVersion() == ver, "signature carries the key version")
	ok, err := VerifyMessage(pub, sig, msg)
	sym.Assert(err == nil && ok, "signature verifies under the public key")
	ok, err = VerifyMessage(priv, sig, msg)
	sym.Assert(err == nil && ok, "signature verifies under the pair")
	ok, err = VerifyMessage(pub, sig, msg2)
	sym.Assert(err == nil && ok == bytes.Equal(msg, msg2), "signature verifies over exactly the signed bytes")
	ok, _ = VerifyMessage(o, sig, msg)
	sym.Assert(!ok, "signature does not verify under another key")
	_, err = SignMessage(pub, DecodeKeyVersion(ver), msg)
	sym.Assert(err != nil, "a public key cannot sign")
}

// the identity of a key depends on the public key alone; recovery agrees with it
func VerifC08_identity() {
	k := sym.Choose("key", 3)
	priv, err := DecodeRawPrivateKey(sym.Key(k))
	sym.Assert(err == nil, "key decodes")
	o, err := DecodeRawPrivateKey(sym.Key((k + 1) % 3))
	sym.Assert(err == nil, "key decodes")
	h, err := priv.HashPublicKey()
	sym.Assert(err == nil && len(h) == 32, "a key has an identity of 32 bytes")
	enc, _ := priv.EncodePublicKey()
	pub, err := DecodePublicKey(enc)
	sym.Assert(err == nil, "public key decodes")
	h2, err := pub.HashPublicKey()
	sym.Assert(err == nil && bytes.Equal(h, h2), "both halves of a key have the same identity")
	h3, err := o.HashPublicKey()
	sym.Assert(err == nil && !bytes.Equal(h, h3), "different keys have different identities")
	msg := sym.Bytes("msg", 3)
	msg2 := sym.Bytes("msg2", 3)
	sig, err := priv.Sign(msg)
	sym.Assert(err == nil && len(sig) == 65, "a raw signature is 65 bytes")
	ok, err := RetrievalV1Verify(sig, msg, h)
	sym.Assert(err == nil && ok, "the signer is recovered")
	ok, err = RetrievalV1Verify(sig, msg, h3)
	sym.Assert(err == nil && !ok, "nobody else is recovered")
	if !bytes.Equal(msg, msg2) {
		ok, err = RetrievalV1Verify(sig, msg2, h)
		sym.Assert(err != nil || !ok, "the signer is not recovered from another message")
	}
	want := sym.Bytes("want", sym.Choose("want len", 3)*16)
	ok, err = RetrievalV1Verify(sig, msg, want)
	sym.Assert(err == nil && ok == bytes.Equal(want, h), "exactly the signer's identity is accepted")
}

// malformed raw signatures are refused, without a crash
func VerifC08_malformedRawSignature() {
	priv, err := DecodeRawPrivateKey(sym.Key(0))
	sym.Assert(err == nil, "key decodes")
	sig := sym.Bytes("sig", sym.Choose("len", sym.Bound("signature bytes", 64, 70)))
	msg := sym.Bytes("msg", 2)
	h, _ := priv.HashPublicKey()
	var ok bool
	sym.Assert(!sym.Try(func() { ok, err = priv.Verify(sig, msg) }), "no panic verifying any signature")
	sym.Assert(!ok, "a malformed signature does not verify")
	sym.Assert(!sym.Try(func() { ok, err = RetrievalV1Verify(sig, msg, h) }), "no panic recovering from any signature")
	sym.Assert(err != nil || !ok, "nobody is recovered from a malformed signature")
	// and garbage keys verify nothing
	k, err := DecodePublicKey("01" + hex.EncodeToString(sym.Bytes("garbage", 65)))
	sym.Assert(err == nil, "public key decodes")
	good, err := priv.Sign(msg)
	sym.Assert(err == nil, "signs")
	mine, _ := priv.EncodePublicKey()
	theirs, _ := k.EncodePublicKey()
	sym.Assert(!sym.Try(func() { ok, err = k.Verify(good, msg) }), "no panic with any public key")
	sym.Assert(err != nil || ok == (mine == theirs), "a signature verifies under no other public key")
}
