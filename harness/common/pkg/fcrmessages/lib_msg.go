package fcrmessages

import (
	"bytes"
	"encoding/json"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// vMsg is an unsigned message of any type, version and body.
func vMsg(label string, maxBody int) *FCRMessage {
	v, sup := GetCurrentProtocolVersion()
	defer SetCurrentProtocolVersion(v, sup)
	var list []int32
	for i, n := 0, sym.Choose(label+" versions", 1+sym.Bound("supported versions", 4, 6)); i < n; i++ {
		list = append(list, int32(sym.Uint32(label+" version")))
	}
	SetCurrentProtocolVersion(int32(sym.Uint32(label+" protocol")), list)
	return CreateFCRMessage(int32(sym.Uint32(label+" type")), sym.Bytes(label+" body", sym.Choose(label+" body length", maxBody+1)))
}

func vSameInts(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vSameUnsigned(a, b *FCRMessage) bool {
	return a.GetMessageType() == b.GetMessageType() && a.GetProtocolVersion() == b.GetProtocolVersion() &&
		vSameInts(a.GetProtocolSupported(), b.GetProtocolSupported()) && bytes.Equal(a.GetMessageBody(), b.GetMessageBody())
}

func vSameMsg(a, b *FCRMessage) bool {
	return vSameUnsigned(a, b) && a.GetSignature() == b.GetSignature()
}

// vForge is m as received with another signature text.
func vForge(m *FCRMessage, sig string) *FCRMessage {
	data, err := json.Marshal(map[string]interface{}{
		"message_type":       m.GetMessageType(),
		"protocol_version":   m.GetProtocolVersion(),
		"protocol_supported": m.GetProtocolSupported(),
		"message_body":       m.GetMessageBody(),
		"message_signature":  sig,
	})
	sym.Assume(err == nil)
	r, err := FCRMsgFromBytes(data)
	sym.Assert(err == nil && r != nil, "message decodes")
	return r
}

func vWire(m *FCRMessage) *FCRMessage {
	data, err := m.FCRMsgToBytes()
	sym.Assert(err == nil, "message encodes")
	r, err := FCRMsgFromBytes(data)
	sym.Assert(err == nil && r != nil, "message decodes")
	return r
}
