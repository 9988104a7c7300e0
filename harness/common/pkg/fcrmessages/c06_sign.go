package fcrmessages

import (
	"encoding/hex"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

// a message survives the wire, signed or not
func VerifC06_wire() {
	m := vMsg("m", sym.Bound("body bytes", 3, 8))
	sym.Assert(m.GetSignature() == "", "a new message has no signature")
	if sym.Bool("signed") {
		priv, _ := kit.Key(0)
		sym.Assert(m.Sign(priv, kit.Version("ver")) == nil, "message can be signed")
	}
	r := vWire(m)
	sym.Assert(m.GetMessageType() == r.GetMessageType(), "type kept")
	sym.Assert(m.GetProtocolVersion() == r.GetProtocolVersion(), "protocol version kept")
	sym.Assert(vSameInts(m.GetProtocolSupported(), r.GetProtocolSupported()), "supported versions kept")
	sym.Assert(string(m.GetMessageBody()) == string(r.GetMessageBody()), "body kept")
	sym.Assert(m.GetSignature() == r.GetSignature(), "signature kept")
}

// signed messages verify under the signer's key, before and after the wire, as often as one likes
func VerifC06_signedVerifies() {
	m := vMsg("m", sym.Bound("body bytes", 3, 8))
	k := sym.Choose("key", 2)
	priv, pub := kit.Key(k)
	_, other := kit.Key(1 - k)
	ver := kit.Version("ver")
	sym.Assert(m.Verify(pub) != nil, "unsigned message is refused")
	sym.Assert(m.Sign(priv, ver) == nil, "message can be signed")
	sig := m.GetSignature()
	got, err := fcrcrypto.ExtractKeyVersionFromMessage(sig)
	sym.Assert(err == nil && got.Equals(ver), "signature names the key version")
	if sym.Bool("other first") {
		sym.Assert(m.Verify(other) != nil, "another key is refused")
		sym.Assert(m.GetSignature() == sig, "a failed check leaves the signature")
	}
	sym.Assert(m.Verify(pub) == nil, "signed message verifies")
	sym.Assert(m.GetSignature() == sig, "a check leaves the signature")
	r := vWire(m)
	sym.Assert(r.Verify(other) != nil, "another key is refused after the wire")
	sym.Assert(r.Verify(pub) == nil, "received message verifies")
	sym.Assert(r.Verify(pub) == nil, "received message verifies again")
	sym.Assert(vSameMsg(m, r), "checking leaves the message as it is")
}

// signing twice: the later signature counts, and an earlier one does not enter it
func VerifC06_resign() {
	m := vMsg("m", 2)
	priv, pub := kit.Key(0)
	priv2, pub2 := kit.Key(1)
	sym.Assert(m.Sign(priv, kit.Version("ver")) == nil && m.Sign(priv2, kit.Version("ver2")) == nil, "message can be signed")
	sym.Assert(m.Verify(pub2) == nil, "the later signer's key verifies")
	sym.Assert(m.Verify(pub) != nil, "the earlier signer's key is refused")
}

// a signature moved to a message that differs in type, versions or body is refused
func VerifC06_bindsEveryField() {
	n := sym.Bound("body bytes", 3, 6)
	a, b := vMsg("a", n), vMsg("b", n)
	priv, pub := kit.Key(0)
	sym.Assert(a.Sign(priv, kit.Version("ver")) == nil, "message can be signed")
	b = vForge(b, a.GetSignature())
	ok := b.Verify(pub) == nil
	if ok {
		sym.Assert(a.GetMessageType() == b.GetMessageType(), "type is signed")
		sym.Assert(a.GetProtocolVersion() == b.GetProtocolVersion(), "protocol version is signed")
		sym.Assert(vSameInts(a.GetProtocolSupported(), b.GetProtocolSupported()), "supported versions are signed")
		sym.Assert(string(a.GetMessageBody()) == string(b.GetMessageBody()), "body is signed")
	} else {
		sym.Assert(!vSameUnsigned(a, b), "an equal message verifies")
	}
}

func VerifC06_tamperedSignature() {
	m := vMsg("m", 2)
	priv, pub := kit.Key(0)
	sym.Assert(m.Sign(priv, kit.Version("ver")) == nil, "message can be signed")
	raw, err := hex.DecodeString(m.GetSignature())
	sym.Assert(err == nil && len(raw) == 69, "signature is key version and 65 bytes")
	diff := byte(0)
	for i, x := range sym.Bytes("mask", 64) {
		raw[4+i] ^= x
		diff |= x
	}
	m = vForge(m, hex.EncodeToString(raw))
	sym.Assert((m.Verify(pub) == nil) == (diff == 0), "changed signature is refused")
}

func VerifC06_malformedSignature() {
	m := vMsg("m", 1)
	_, pub := kit.Key(0)
	m = vForge(m, sym.String("sig", sym.Choose("len", sym.Bound("signature text", 12, 40))))
	sig := m.GetSignature()
	var err error
	sym.Assert(!sym.Try(func() { err = m.Verify(pub) }), "no panic on any signature")
	sym.Assert(err != nil, "short signature is refused")
	sym.Assert(m.GetSignature() == sig, "a failed check leaves the signature")
	sym.Assert(!sym.Try(func() { fcrcrypto.ExtractKeyVersionFromMessage(sig) }), "no panic reading the key version of any signature")
}
