package fcrmessages

import sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"

// no message of one kind carries the type number of another
func VerifC07_kindsDiffer() {
	kinds, msgs := vKinds()
	i := sym.Choose("kind", len(msgs))
	for j := range msgs {
		if j == i || ping(kinds[i]) && notify(kinds[j]) || ping(kinds[j]) && notify(kinds[i]) {
			continue
		}
		sym.Assert(msgs[i].GetMessageType() != msgs[j].GetMessageType(), "message kinds have different types")
	}
}

func ping(k string) bool { return k == "GatewayPingRequest" || k == "GatewayPingResponse" }
func notify(k string) bool {
	return k == "GatewayNotifyProviderGroupCIDOfferSupportRequest" || k == "GatewayNotifyProviderGroupCIDOfferSupportResponse"
}

// a ping must not be taken for a notification
func VerifC07_pingIsNotNotification() {
	m, err := EncodeGatewayPingRequest(zNodep(), sym.Int64("nonce"), sym.Int64("ttl"))
	sym.Assume(err == nil)
	_, _, err = DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
	sym.Assert(err != nil, "a ping is not a group offer notification")
}
