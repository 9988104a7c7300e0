package fcrmessages

// Written by tools/gen_c07.py.

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

var _, _, _ = json.Marshal, cid.NewContentID, nodeid.NewNodeID

func VerifC07_rtInvalidMessageResponse() {
	m, err := EncodeInvalidMessageResponse()
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	err = DecodeInvalidMessageResponse(m)
	sym.Assert(err == nil, "message decodes")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	err = DecodeInvalidMessageResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_rtProtocolChangeRequest() {
	a0 := vInt32("desiredVersion")
	m, err := EncodeProtocolChangeRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProtocolChangeRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqInt32(a0, r0), "desiredVersion kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProtocolChangeRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProtocolChangeRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["desired_version"] = hInt32("desired_version", &good, omit == 0)
	if omit == 0 {
		delete(w, "desired_version")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProtocolChangeRequest(zInt32())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProtocolChangeRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useInt32(r0)
	}), "no panic on any body")
}

func VerifC07_rtProtocolChangeResponse() {
	a0 := vBool("success")
	m, err := EncodeProtocolChangeResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProtocolChangeResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "success kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProtocolChangeResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProtocolChangeResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["success"] = hBool("success", &good, omit == 0)
	if omit == 0 {
		delete(w, "success")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProtocolChangeResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProtocolChangeResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverOfferRequest() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vStrss("gatewaysDigests")
	a3 := vNodes("gatewayIDs")
	a4 := vStr("paychAddr")
	a5 := vStr("voucher")
	m, err := EncodeClientDHTDiscoverOfferRequest(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeClientDHTDiscoverOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqStrss(a2, r2), "gatewaysDigests kept")
	sym.Assert(vEqNodes(a3, r3), "gatewayIDs kept")
	sym.Assert(vEqStr(a4, r4), "paychAddr kept")
	sym.Assert(vEqStr(a5, r5), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeClientDHTDiscoverOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["gateways_digests"] = hStrss("gateways_digests", &good, omit == 2)
	if omit == 2 {
		delete(w, "gateways_digests")
	}
	w["gateway_ids"] = hNodes("gateway_ids", &good, omit == 3)
	if omit == 3 {
		delete(w, "gateway_ids")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 5)
	if omit == 5 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverOfferRequest(zCidp(), zInt64(), zStrss(), zNodes(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeClientDHTDiscoverOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useStrss(r2)
		useNodes(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverOfferResponse() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vNodes("gatewayIDs")
	a3 := vMsgs("response")
	a4 := vBool("paymentRequired")
	a5 := vStr("paymentChannel")
	m, err := EncodeClientDHTDiscoverOfferResponse(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeClientDHTDiscoverOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqNodes(a2, r2), "gatewayIDs kept")
	sym.Assert(vEqMsgs(a3, r3), "response kept")
	sym.Assert(vEqBool(a4, r4), "paymentRequired kept")
	sym.Assert(vEqStr(a5, r5), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeClientDHTDiscoverOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["gateway_ids"] = hNodes("gateway_ids", &good, omit == 2)
	if omit == 2 {
		delete(w, "gateway_ids")
	}
	w["response"] = hMsgs("response", &good, omit == 3)
	if omit == 3 {
		delete(w, "response")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverOfferResponse(zCidp(), zInt64(), zNodes(), zMsgs(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeClientDHTDiscoverOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useNodes(r2)
		useMsgs(r3)
		useBool(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverRequest() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	a3 := vInt64("numDHT")
	a4 := vBool("incrementalResults")
	a5 := vStr("paychAddr")
	a6 := vStr("voucher")
	m, err := EncodeClientDHTDiscoverRequest(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeClientDHTDiscoverRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	sym.Assert(vEqInt64(a3, r3), "numDHT kept")
	sym.Assert(vEqBool(a4, r4), "incrementalResults kept")
	sym.Assert(vEqStr(a5, r5), "paychAddr kept")
	sym.Assert(vEqStr(a6, r6), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeClientDHTDiscoverRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	w["num_dht"] = hInt64("num_dht", &good, omit == 3)
	if omit == 3 {
		delete(w, "num_dht")
	}
	w["incremental_results"] = hBool("incremental_results", &good, omit == 4)
	if omit == 4 {
		delete(w, "incremental_results")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 6)
	if omit == 6 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverRequest(zCidp(), zInt64(), zInt64(), zInt64(), zBool(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeClientDHTDiscoverRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useInt64(r2)
		useInt64(r3)
		useBool(r4)
		useStr(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverRequestV2() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	a3 := vInt64("numDHT")
	a4 := vBool("incrementalResults")
	a5 := vStr("paychAddr")
	a6 := vStr("voucher")
	m, err := EncodeClientDHTDiscoverRequestV2(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeClientDHTDiscoverRequestV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	sym.Assert(vEqInt64(a3, r3), "numDHT kept")
	sym.Assert(vEqBool(a4, r4), "incrementalResults kept")
	sym.Assert(vEqStr(a5, r5), "paychAddr kept")
	sym.Assert(vEqStr(a6, r6), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeClientDHTDiscoverRequestV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverRequestV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	w["num_dht"] = hInt64("num_dht", &good, omit == 3)
	if omit == 3 {
		delete(w, "num_dht")
	}
	w["incremental_results"] = hBool("incremental_results", &good, omit == 4)
	if omit == 4 {
		delete(w, "incremental_results")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 6)
	if omit == 6 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverRequestV2(zCidp(), zInt64(), zInt64(), zInt64(), zBool(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeClientDHTDiscoverRequestV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useInt64(r2)
		useInt64(r3)
		useBool(r4)
		useStr(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverResponse() {
	a0 := vNodes("contacted")
	a1 := vMsgs("response")
	a2 := vNodes("unContactable")
	a3 := vInt64("nonce")
	a4 := vBool("paymentRequired")
	a5 := vStr("paymentChannel")
	m, err := EncodeClientDHTDiscoverResponse(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeClientDHTDiscoverResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodes(a0, r0), "contacted kept")
	sym.Assert(vEqMsgs(a1, r1), "response kept")
	sym.Assert(vEqNodes(a2, r2), "unContactable kept")
	sym.Assert(vEqInt64(a3, r3), "nonce kept")
	sym.Assert(vEqBool(a4, r4), "paymentRequired kept")
	sym.Assert(vEqStr(a5, r5), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeClientDHTDiscoverResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["contacted_gateways"] = hNodes("contacted_gateways", &good, omit == 0)
	if omit == 0 {
		delete(w, "contacted_gateways")
	}
	w["response"] = hMsgs("response", &good, omit == 1)
	if omit == 1 {
		delete(w, "response")
	}
	w["uncontactable_gateways"] = hNodes("uncontactable_gateways", &good, omit == 2)
	if omit == 2 {
		delete(w, "uncontactable_gateways")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 3)
	if omit == 3 {
		delete(w, "nonce")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverResponse(zNodes(), zMsgs(), zNodes(), zInt64(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeClientDHTDiscoverResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodes(r0)
		useMsgs(r1)
		useNodes(r2)
		useInt64(r3)
		useBool(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTDiscoverResponseV2() {
	a0 := vNodes("contacted")
	a1 := vMsgs("response")
	a2 := vNodes("unContactable")
	a3 := vInt64("nonce")
	a4 := vBool("paymentRequired")
	a5 := vStr("paymentChannel")
	m, err := EncodeClientDHTDiscoverResponseV2(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeClientDHTDiscoverResponseV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodes(a0, r0), "contacted kept")
	sym.Assert(vEqMsgs(a1, r1), "response kept")
	sym.Assert(vEqNodes(a2, r2), "unContactable kept")
	sym.Assert(vEqInt64(a3, r3), "nonce kept")
	sym.Assert(vEqBool(a4, r4), "paymentRequired kept")
	sym.Assert(vEqStr(a5, r5), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeClientDHTDiscoverResponseV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTDiscoverResponseV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["contacted_gateways"] = hNodes("contacted_gateways", &good, omit == 0)
	if omit == 0 {
		delete(w, "contacted_gateways")
	}
	w["response"] = hMsgs("response", &good, omit == 1)
	if omit == 1 {
		delete(w, "response")
	}
	w["uncontactable_gateways"] = hNodes("uncontactable_gateways", &good, omit == 2)
	if omit == 2 {
		delete(w, "uncontactable_gateways")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 3)
	if omit == 3 {
		delete(w, "nonce")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTDiscoverResponseV2(zNodes(), zMsgs(), zNodes(), zInt64(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeClientDHTDiscoverResponseV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodes(r0)
		useMsgs(r1)
		useNodes(r2)
		useInt64(r3)
		useBool(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTOfferAckRequest() {
	a0 := vCidp("pieceCID")
	a1 := vNodep("gatewayID")
	m, err := EncodeClientDHTOfferAckRequest(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeClientDHTOfferAckRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqNodep(a1, r1), "gatewayID kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeClientDHTOfferAckRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTOfferAckRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["gateway_id"] = hNode("gateway_id", &good, omit == 1)
	if omit == 1 {
		delete(w, "gateway_id")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTOfferAckRequest(zCidp(), zNodep())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeClientDHTOfferAckRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useNodep(r1)
	}), "no panic on any body")
}

func VerifC07_rtClientDHTOfferAckResponse() {
	a0 := vCidp("pieceCID")
	a1 := vNodep("gatewayID")
	a2 := vBool("found")
	a3 := vMsgp("publishDHTOfferRequest")
	a4 := vMsgp("publishDHTOfferResponse")
	m, err := EncodeClientDHTOfferAckResponse(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeClientDHTOfferAckResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqNodep(a1, r1), "gatewayID kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqMsgp(a3, r3), "publishDHTOfferRequest kept")
	sym.Assert(vEqMsgp(a4, r4), "publishDHTOfferResponse kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeClientDHTOfferAckResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientDHTOfferAckResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["gateway_id"] = hNode("gateway_id", &good, omit == 1)
	if omit == 1 {
		delete(w, "gateway_id")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["publish_dht_offer_request"] = hMsg("publish_dht_offer_request", &good, omit == 3)
	if omit == 3 {
		delete(w, "publish_dht_offer_request")
	}
	w["publish_dht_offer_response"] = hMsg("publish_dht_offer_response", &good, omit == 4)
	if omit == 4 {
		delete(w, "publish_dht_offer_response")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientDHTOfferAckResponse(zCidp(), zNodep(), zBool(), zMsgp(), zMsgp())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeClientDHTOfferAckResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useNodep(r1)
		useBool(r2)
		useMsgp(r3)
		useMsgp(r4)
	}), "no panic on any body")
}

func VerifC07_rtClientEstablishmentRequest() {
	a0 := vNodep("clientID")
	a1 := vStr("challenge")
	a2 := vInt64("ttl")
	m, err := EncodeClientEstablishmentRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeClientEstablishmentRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "clientID kept")
	sym.Assert(vEqStr(a1, r1), "challenge kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeClientEstablishmentRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientEstablishmentRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["client_id"] = hNode("client_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "client_id")
	}
	w["challenge"] = hStr("challenge", &good, omit == 1)
	if omit == 1 {
		delete(w, "challenge")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientEstablishmentRequest(zNodep(), zStr(), zInt64())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeClientEstablishmentRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useStr(r1)
		useInt64(r2)
	}), "no panic on any body")
}

func VerifC07_rtClientEstablishmentResponse() {
	a0 := vNodep("gatewayID")
	a1 := vStr("challenge")
	m, err := EncodeClientEstablishmentResponse(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeClientEstablishmentResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqStr(a1, r1), "challenge kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeClientEstablishmentResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientEstablishmentResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["challenge"] = hStr("challenge", &good, omit == 1)
	if omit == 1 {
		delete(w, "challenge")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientEstablishmentResponse(zNodep(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeClientEstablishmentResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useStr(r1)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverOfferRequest() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	a3 := vStrs("offerDigests")
	a4 := vStr("paychAddr")
	a5 := vStr("voucher")
	m, err := EncodeClientStandardDiscoverOfferRequest(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeClientStandardDiscoverOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	sym.Assert(vEqStrs(a3, r3), "offerDigests kept")
	sym.Assert(vEqStr(a4, r4), "paychAddr kept")
	sym.Assert(vEqStr(a5, r5), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeClientStandardDiscoverOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	w["offer_digests"] = hStrs("offer_digests", &good, omit == 3)
	if omit == 3 {
		delete(w, "offer_digests")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 5)
	if omit == 5 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverOfferRequest(zCidp(), zInt64(), zInt64(), zStrs(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeClientStandardDiscoverOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useInt64(r2)
		useStrs(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverOfferResponse() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vSubs("offers")
	a4 := vBools("fundedPaymentChannel")
	a5 := vBool("paymentRequired")
	a6 := vStr("paymentChannel")
	m, err := EncodeClientStandardDiscoverOfferResponse(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeClientStandardDiscoverOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqSubs(a3, r3), "offers kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	sym.Assert(vEqBool(a5, r5), "paymentRequired kept")
	sym.Assert(vEqStr(a6, r6), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeClientStandardDiscoverOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offers"] = hSubs("sub_cid_offers", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offers")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 6)
	if omit == 6 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverOfferResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeClientStandardDiscoverOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useSubs(r3)
		useBools(r4)
		useBool(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverRequest() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	a3 := vStr("paychAddr")
	a4 := vStr("voucher")
	m, err := EncodeClientStandardDiscoverRequest(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeClientStandardDiscoverRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	sym.Assert(vEqStr(a3, r3), "paychAddr kept")
	sym.Assert(vEqStr(a4, r4), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeClientStandardDiscoverRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 3)
	if omit == 3 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 4)
	if omit == 4 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverRequest(zCidp(), zInt64(), zInt64(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeClientStandardDiscoverRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useInt64(r2)
		useStr(r3)
		useStr(r4)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverRequestV2() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	a3 := vStr("paychAddr")
	a4 := vStr("voucher")
	m, err := EncodeClientStandardDiscoverRequestV2(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeClientStandardDiscoverRequestV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	sym.Assert(vEqStr(a3, r3), "paychAddr kept")
	sym.Assert(vEqStr(a4, r4), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeClientStandardDiscoverRequestV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverRequestV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 3)
	if omit == 3 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 4)
	if omit == 4 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverRequestV2(zCidp(), zInt64(), zInt64(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeClientStandardDiscoverRequestV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useInt64(r2)
		useStr(r3)
		useStr(r4)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverResponse() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vSubs("offers")
	a4 := vBools("fundedPaymentChannel")
	m, err := EncodeClientStandardDiscoverResponse(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeClientStandardDiscoverResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqSubs(a3, r3), "offers kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeClientStandardDiscoverResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offers"] = hSubs("sub_cid_offers", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offers")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeClientStandardDiscoverResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useSubs(r3)
		useBools(r4)
	}), "no panic on any body")
}

func VerifC07_rtClientStandardDiscoverResponseV2() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vStrs("offersDigests")
	a4 := vBools("fundedPaymentChannel")
	a5 := vBool("paymentRequired")
	a6 := vStr("paymentChannel")
	m, err := EncodeClientStandardDiscoverResponseV2(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeClientStandardDiscoverResponseV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqStrs(a3, r3), "offersDigests kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	sym.Assert(vEqBool(a5, r5), "paymentRequired kept")
	sym.Assert(vEqStr(a6, r6), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeClientStandardDiscoverResponseV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileClientStandardDiscoverResponseV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offer_digests"] = hStrs("sub_cid_offer_digests", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offer_digests")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 6)
	if omit == 6 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeClientStandardDiscoverResponseV2(zCidp(), zInt64(), zBool(), zStrs(), zBools(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeClientStandardDiscoverResponseV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useStrs(r3)
		useBools(r4)
		useBool(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverOfferRequest() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vStrs("offerDigests")
	a3 := vStr("paychAddr")
	a4 := vStr("voucher")
	m, err := EncodeGatewayDHTDiscoverOfferRequest(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeGatewayDHTDiscoverOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqStrs(a2, r2), "offerDigests kept")
	sym.Assert(vEqStr(a3, r3), "paychAddr kept")
	sym.Assert(vEqStr(a4, r4), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeGatewayDHTDiscoverOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["offer_digests"] = hStrs("offer_digests", &good, omit == 2)
	if omit == 2 {
		delete(w, "offer_digests")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 3)
	if omit == 3 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 4)
	if omit == 4 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverOfferRequest(zCidp(), zInt64(), zStrs(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeGatewayDHTDiscoverOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useStrs(r2)
		useStr(r3)
		useStr(r4)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverOfferResponse() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vSubs("offers")
	a4 := vBools("fundedPaymentChannel")
	a5 := vBool("paymentRequired")
	a6 := vStr("paymentChannel")
	m, err := EncodeGatewayDHTDiscoverOfferResponse(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeGatewayDHTDiscoverOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqSubs(a3, r3), "offers kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	sym.Assert(vEqBool(a5, r5), "paymentRequired kept")
	sym.Assert(vEqStr(a6, r6), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeGatewayDHTDiscoverOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offers"] = hSubs("sub_cid_offers", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offers")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 6)
	if omit == 6 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverOfferResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeGatewayDHTDiscoverOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useSubs(r3)
		useBools(r4)
		useBool(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverRequest() {
	a0 := vNodep("gatewayID")
	a1 := vCidp("pieceCID")
	a2 := vInt64("nonce")
	a3 := vInt64("ttl")
	a4 := vStr("paychAddr")
	a5 := vStr("voucher")
	m, err := EncodeGatewayDHTDiscoverRequest(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeGatewayDHTDiscoverRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqCidp(a1, r1), "pieceCID kept")
	sym.Assert(vEqInt64(a2, r2), "nonce kept")
	sym.Assert(vEqInt64(a3, r3), "ttl kept")
	sym.Assert(vEqStr(a4, r4), "paychAddr kept")
	sym.Assert(vEqStr(a5, r5), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeGatewayDHTDiscoverRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["piece_cid"] = hCID("piece_cid", &good, omit == 1)
	if omit == 1 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 2)
	if omit == 2 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 3)
	if omit == 3 {
		delete(w, "ttl")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 5)
	if omit == 5 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverRequest(zNodep(), zCidp(), zInt64(), zInt64(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeGatewayDHTDiscoverRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useCidp(r1)
		useInt64(r2)
		useInt64(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverRequestV2() {
	a0 := vNodep("gatewayID")
	a1 := vCidp("pieceCID")
	a2 := vInt64("nonce")
	a3 := vInt64("ttl")
	a4 := vStr("paychAddr")
	a5 := vStr("voucher")
	m, err := EncodeGatewayDHTDiscoverRequestV2(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeGatewayDHTDiscoverRequestV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqCidp(a1, r1), "pieceCID kept")
	sym.Assert(vEqInt64(a2, r2), "nonce kept")
	sym.Assert(vEqInt64(a3, r3), "ttl kept")
	sym.Assert(vEqStr(a4, r4), "paychAddr kept")
	sym.Assert(vEqStr(a5, r5), "voucher kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeGatewayDHTDiscoverRequestV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverRequestV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["piece_cid"] = hCID("piece_cid", &good, omit == 1)
	if omit == 1 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 2)
	if omit == 2 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 3)
	if omit == 3 {
		delete(w, "ttl")
	}
	w["payment_channel_address"] = hStr("payment_channel_address", &good, omit == 4)
	if omit == 4 {
		delete(w, "payment_channel_address")
	}
	w["voucher"] = hStr("voucher", &good, omit == 5)
	if omit == 5 {
		delete(w, "voucher")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverRequestV2(zNodep(), zCidp(), zInt64(), zInt64(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeGatewayDHTDiscoverRequestV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useCidp(r1)
		useInt64(r2)
		useInt64(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverResponse() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vSubs("offers")
	a4 := vBools("fundedPaymentChannel")
	m, err := EncodeGatewayDHTDiscoverResponse(a0, a1, a2, a3, a4)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, err := DecodeGatewayDHTDiscoverResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqSubs(a3, r3), "offers kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, err = DecodeGatewayDHTDiscoverResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 6)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offers"] = hSubs("sub_cid_offers", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offers")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, e2 := DecodeGatewayDHTDiscoverResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 5 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useSubs(r3)
		useBools(r4)
	}), "no panic on any body")
}

func VerifC07_rtGatewayDHTDiscoverResponseV2() {
	a0 := vCidp("pieceCID")
	a1 := vInt64("nonce")
	a2 := vBool("found")
	a3 := vStrs("offers")
	a4 := vBools("fundedPaymentChannel")
	a5 := vBool("paymentRequired")
	a6 := vStr("paymentChannel")
	m, err := EncodeGatewayDHTDiscoverResponseV2(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeGatewayDHTDiscoverResponseV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCidp(a0, r0), "pieceCID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqBool(a2, r2), "found kept")
	sym.Assert(vEqStrs(a3, r3), "offers kept")
	sym.Assert(vEqBools(a4, r4), "fundedPaymentChannel kept")
	sym.Assert(vEqBool(a5, r5), "paymentRequired kept")
	sym.Assert(vEqStr(a6, r6), "paymentChannel kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeGatewayDHTDiscoverResponseV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayDHTDiscoverResponseV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["piece_cid"] = hCID("piece_cid", &good, omit == 0)
	if omit == 0 {
		delete(w, "piece_cid")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["found"] = hBool("found", &good, omit == 2)
	if omit == 2 {
		delete(w, "found")
	}
	w["sub_cid_offer_digest"] = hStrs("sub_cid_offer_digest", &good, omit == 3)
	if omit == 3 {
		delete(w, "sub_cid_offer_digest")
	}
	w["funded_payment_channel"] = hBools("funded_payment_channel", &good, omit == 4)
	if omit == 4 {
		delete(w, "funded_payment_channel")
	}
	w["payment_required"] = hBool("payment_required", &good, omit == 5)
	if omit == 5 {
		delete(w, "payment_required")
	}
	w["payment_channel"] = hStr("payment_channel", &good, omit == 6)
	if omit == 6 {
		delete(w, "payment_channel")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayDHTDiscoverResponseV2(zCidp(), zInt64(), zBool(), zStrs(), zBools(), zBool(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeGatewayDHTDiscoverResponseV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCidp(r0)
		useInt64(r1)
		useBool(r2)
		useStrs(r3)
		useBools(r4)
		useBool(r5)
		useStr(r6)
	}), "no panic on any body")
}

func VerifC07_rtGatewayListDHTOfferAck() {
	a0 := vMsgs("publishedDHTOffersAck")
	m, err := EncodeGatewayListDHTOfferAck(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayListDHTOfferAck(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqMsgs(a0, r0), "publishedDHTOffersAck kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayListDHTOfferAck(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayListDHTOfferAck() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["published_dht_offers_ack"] = hMsgs("published_dht_offers_ack", &good, omit == 0)
	if omit == 0 {
		delete(w, "published_dht_offers_ack")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayListDHTOfferAck(zMsgs())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayListDHTOfferAck(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useMsgs(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayListDHTOfferRequest() {
	a0 := vNodep("gatewayID")
	a1 := vCidp("cidMin")
	a2 := vCidp("cidMax")
	a3 := vStr("blockHash")
	a4 := vStr("transactionReceipt")
	a5 := vStr("merkleRoot")
	a6 := vProofp("merkleProof")
	m, err := EncodeGatewayListDHTOfferRequest(a0, a1, a2, a3, a4, a5, a6)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, r6, err := DecodeGatewayListDHTOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqCidp(a1, r1), "cidMin kept")
	sym.Assert(vEqCidp(a2, r2), "cidMax kept")
	sym.Assert(vEqStr(a3, r3), "blockHash kept")
	sym.Assert(vEqStr(a4, r4), "transactionReceipt kept")
	sym.Assert(vEqStr(a5, r5), "merkleRoot kept")
	sym.Assert(vEqProofp(a6, r6), "merkleProof kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, _, err = DecodeGatewayListDHTOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayListDHTOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 8)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["cid_min"] = hCID("cid_min", &good, omit == 1)
	if omit == 1 {
		delete(w, "cid_min")
	}
	w["cid_max"] = hCID("cid_max", &good, omit == 2)
	if omit == 2 {
		delete(w, "cid_max")
	}
	w["block_hash"] = hStr("block_hash", &good, omit == 3)
	if omit == 3 {
		delete(w, "block_hash")
	}
	w["transaction_receipt"] = hStr("transaction_receipt", &good, omit == 4)
	if omit == 4 {
		delete(w, "transaction_receipt")
	}
	w["merkle_root"] = hStr("merkle_root", &good, omit == 5)
	if omit == 5 {
		delete(w, "merkle_root")
	}
	w["merkle_proof"] = hProof("merkle_proof", &good, omit == 6)
	if omit == 6 {
		delete(w, "merkle_proof")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayListDHTOfferRequest(zNodep(), zCidp(), zCidp(), zStr(), zStr(), zStr(), zProofp())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, r6, e2 := DecodeGatewayListDHTOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 7 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useCidp(r1)
		useCidp(r2)
		useStr(r3)
		useStr(r4)
		useStr(r5)
		useProofp(r6)
	}), "no panic on any body")
}

func VerifC07_rtGatewayListDHTOfferResponse() {
	a0 := vMsgs("publishedDHTOffers")
	m, err := EncodeGatewayListDHTOfferResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayListDHTOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqMsgs(a0, r0), "publishedDHTOffers kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayListDHTOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayListDHTOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["published_dht_offers"] = hMsgs("published_dht_offers", &good, omit == 0)
	if omit == 0 {
		delete(w, "published_dht_offers")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayListDHTOfferResponse(zMsgs())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayListDHTOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useMsgs(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayNotifyProviderGroupCIDOfferSupportRequest() {
	a0 := vNodep("gatewayID")
	a1 := vBool("groupCIDOfferSupported")
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqBool(a1, r1), "groupCIDOfferSupported kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayNotifyProviderGroupCIDOfferSupportRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["group_cid_offer_supported"] = hBool("group_cid_offer_supported", &good, omit == 1)
	if omit == 1 {
		delete(w, "group_cid_offer_supported")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(zNodep(), zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useBool(r1)
	}), "no panic on any body")
}

func VerifC07_rtGatewayNotifyProviderGroupCIDOfferSupportResponse() {
	a0 := vBool("acknowledged")
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "acknowledged kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayNotifyProviderGroupCIDOfferSupportResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["acknowledged"] = hBool("acknowledged", &good, omit == 0)
	if omit == 0 {
		delete(w, "acknowledged")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayPingRequest() {
	a0 := vNodep("gatewayID")
	a1 := vInt64("nonce")
	a2 := vInt64("ttl")
	m, err := EncodeGatewayPingRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeGatewayPingRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqInt64(a2, r2), "ttl kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeGatewayPingRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayPingRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["ttl"] = hInt64("ttl", &good, omit == 2)
	if omit == 2 {
		delete(w, "ttl")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayPingRequest(zNodep(), zInt64(), zInt64())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeGatewayPingRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
		useInt64(r2)
	}), "no panic on any body")
}

func VerifC07_rtGatewayPingResponse() {
	a0 := vInt64("nonce")
	a1 := vBool("alive")
	m, err := EncodeGatewayPingResponse(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeGatewayPingResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqInt64(a0, r0), "nonce kept")
	sym.Assert(vEqBool(a1, r1), "alive kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeGatewayPingResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayPingResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["nonce"] = hInt64("nonce", &good, omit == 0)
	if omit == 0 {
		delete(w, "nonce")
	}
	w["isAlive"] = hBool("isAlive", &good, omit == 1)
	if omit == 1 {
		delete(w, "isAlive")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayPingResponse(zInt64(), zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeGatewayPingResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useInt64(r0)
		useBool(r1)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminForceRefreshRequest() {
	a0 := vBool("refresh")
	m, err := EncodeGatewayAdminForceRefreshRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminForceRefreshRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refresh kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminForceRefreshRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminForceRefreshRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refresh"] = hBool("refresh", &good, omit == 0)
	if omit == 0 {
		delete(w, "refresh")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminForceRefreshRequest(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminForceRefreshRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminForceRefreshResponse() {
	a0 := vBool("refreshed")
	m, err := EncodeGatewayAdminForceRefreshResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminForceRefreshResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refreshed kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminForceRefreshResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminForceRefreshResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refreshed"] = hBool("refreshed", &good, omit == 0)
	if omit == 0 {
		delete(w, "refreshed")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminForceRefreshResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminForceRefreshResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminGetReputationRequest() {
	a0 := vNodep("clientID")
	m, err := EncodeGatewayAdminGetReputationRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminGetReputationRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "clientID kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminGetReputationRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminGetReputationRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["client_id"] = hNode("client_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "client_id")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminGetReputationRequest(zNodep())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminGetReputationRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminGetReputationResponse() {
	a0 := vNodep("clientID")
	a1 := vInt64("reputation")
	a2 := vBool("exists")
	m, err := EncodeGatewayAdminGetReputationResponse(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeGatewayAdminGetReputationResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "clientID kept")
	sym.Assert(vEqInt64(a1, r1), "reputation kept")
	sym.Assert(vEqBool(a2, r2), "exists kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeGatewayAdminGetReputationResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminGetReputationResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["client_id"] = hNode("client_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "client_id")
	}
	w["reputation"] = hInt64("reputation", &good, omit == 1)
	if omit == 1 {
		delete(w, "reputation")
	}
	w["exists"] = hBool("exists", &good, omit == 2)
	if omit == 2 {
		delete(w, "exists")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminGetReputationResponse(zNodep(), zInt64(), zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeGatewayAdminGetReputationResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
		useBool(r2)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminInitialiseKeyRequest() {
	a0 := vNodep("nodeID")
	a1 := vKeyp("privateKey")
	a2 := vVerp("keyVersion")
	m, err := EncodeGatewayAdminInitialiseKeyRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeGatewayAdminInitialiseKeyRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "nodeID kept")
	sym.Assert(vEqKeyp(a1, r1), "privateKey kept")
	sym.Assert(vEqVerp(a2, r2), "keyVersion kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeGatewayAdminInitialiseKeyRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminInitialiseKeyRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["private_key"] = hKey("private_key", &good, omit == 1)
	if omit == 1 {
		delete(w, "private_key")
	}
	w["private_key_version"] = hU32("private_key_version", &good, omit == 2)
	if omit == 2 {
		delete(w, "private_key_version")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminInitialiseKeyRequest(zNodep(), zKeyp(), zVerp())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeGatewayAdminInitialiseKeyRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useKeyp(r1)
		useVerp(r2)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminInitialiseKeyRequestV2() {
	a0 := vNodep("nodeID")
	a1 := vKeyp("privateKey")
	a2 := vVerp("keyVersion")
	a3 := vStr("walletPrivateKey")
	a4 := vStr("lotusAP")
	a5 := vStr("lotusAuthToken")
	m, err := EncodeGatewayAdminInitialiseKeyRequestV2(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeGatewayAdminInitialiseKeyRequestV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "nodeID kept")
	sym.Assert(vEqKeyp(a1, r1), "privateKey kept")
	sym.Assert(vEqVerp(a2, r2), "keyVersion kept")
	sym.Assert(vEqStr(a3, r3), "walletPrivateKey kept")
	sym.Assert(vEqStr(a4, r4), "lotusAP kept")
	sym.Assert(vEqStr(a5, r5), "lotusAuthToken kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeGatewayAdminInitialiseKeyRequestV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminInitialiseKeyRequestV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["private_key"] = hKey("private_key", &good, omit == 1)
	if omit == 1 {
		delete(w, "private_key")
	}
	w["private_key_version"] = hU32("private_key_version", &good, omit == 2)
	if omit == 2 {
		delete(w, "private_key_version")
	}
	w["wallet_private_key"] = hStr("wallet_private_key", &good, omit == 3)
	if omit == 3 {
		delete(w, "wallet_private_key")
	}
	w["lotus_ap"] = hStr("lotus_ap", &good, omit == 4)
	if omit == 4 {
		delete(w, "lotus_ap")
	}
	w["lotus_auth_token"] = hStr("lotus_auth_token", &good, omit == 5)
	if omit == 5 {
		delete(w, "lotus_auth_token")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminInitialiseKeyRequestV2(zNodep(), zKeyp(), zVerp(), zStr(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeGatewayAdminInitialiseKeyRequestV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useKeyp(r1)
		useVerp(r2)
		useStr(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminInitialiseKeyResponse() {
	a0 := vBool("success")
	m, err := EncodeGatewayAdminInitialiseKeyResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminInitialiseKeyResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "success kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminInitialiseKeyResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminInitialiseKeyResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["success"] = hBool("success", &good, omit == 0)
	if omit == 0 {
		delete(w, "success")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminInitialiseKeyResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminInitialiseKeyResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminListDHTOfferRequest() {
	a0 := vBool("refresh")
	m, err := EncodeGatewayAdminListDHTOfferRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminListDHTOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refresh kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminListDHTOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminListDHTOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refresh"] = hBool("refresh", &good, omit == 0)
	if omit == 0 {
		delete(w, "refresh")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminListDHTOfferRequest(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminListDHTOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminListDHTOfferResponse() {
	a0 := vBool("refreshed")
	m, err := EncodeGatewayAdminListDHTOfferResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeGatewayAdminListDHTOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refreshed kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeGatewayAdminListDHTOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminListDHTOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refreshed"] = hBool("refreshed", &good, omit == 0)
	if omit == 0 {
		delete(w, "refreshed")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminListDHTOfferResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeGatewayAdminListDHTOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminSetReputationRequest() {
	a0 := vNodep("clientID")
	a1 := vInt64("reputation")
	m, err := EncodeGatewayAdminSetReputationRequest(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeGatewayAdminSetReputationRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "clientID kept")
	sym.Assert(vEqInt64(a1, r1), "reputation kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeGatewayAdminSetReputationRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminSetReputationRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["client_id"] = hNode("client_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "client_id")
	}
	w["reputation"] = hInt64("reputation", &good, omit == 1)
	if omit == 1 {
		delete(w, "reputation")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminSetReputationRequest(zNodep(), zInt64())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeGatewayAdminSetReputationRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
	}), "no panic on any body")
}

func VerifC07_rtGatewayAdminSetReputationResponse() {
	a0 := vNodep("clientID")
	a1 := vInt64("reputation")
	a2 := vBool("exists")
	m, err := EncodeGatewayAdminSetReputationResponse(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeGatewayAdminSetReputationResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "clientID kept")
	sym.Assert(vEqInt64(a1, r1), "reputation kept")
	sym.Assert(vEqBool(a2, r2), "exists kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeGatewayAdminSetReputationResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileGatewayAdminSetReputationResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["client_id"] = hNode("client_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "client_id")
	}
	w["reputation"] = hInt64("reputation", &good, omit == 1)
	if omit == 1 {
		delete(w, "reputation")
	}
	w["exists"] = hBool("exists", &good, omit == 2)
	if omit == 2 {
		delete(w, "exists")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeGatewayAdminSetReputationResponse(zNodep(), zInt64(), zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeGatewayAdminSetReputationResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
		useBool(r2)
	}), "no panic on any body")
}

func VerifC07_rtUpdateGatewayGroupCIDOfferSupportRequest() {
	a0 := vNodep("nodeID")
	a1 := vNodes("providerIDs")
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportRequest(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeUpdateGatewayGroupCIDOfferSupportRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "nodeID kept")
	sym.Assert(vEqNodes(a1, r1), "providerIDs kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeUpdateGatewayGroupCIDOfferSupportRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileUpdateGatewayGroupCIDOfferSupportRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["provider_ids"] = hNodes("provider_ids", &good, omit == 1)
	if omit == 1 {
		delete(w, "provider_ids")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportRequest(zNodep(), zNodes())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeUpdateGatewayGroupCIDOfferSupportRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useNodes(r1)
	}), "no panic on any body")
}

func VerifC07_rtUpdateGatewayGroupCIDOfferSupportResponse() {
	a0 := vBool("success")
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeUpdateGatewayGroupCIDOfferSupportResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "success kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeUpdateGatewayGroupCIDOfferSupportResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileUpdateGatewayGroupCIDOfferSupportResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["success"] = hBool("success", &good, omit == 0)
	if omit == 0 {
		delete(w, "success")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeUpdateGatewayGroupCIDOfferSupportResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderPublishDHTOfferRequest() {
	a0 := vNodep("providerID")
	a1 := vInt64("nonce")
	a2 := vOffers("offers")
	m, err := EncodeProviderPublishDHTOfferRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeProviderPublishDHTOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "providerID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqOffers(a2, r2), "offers kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeProviderPublishDHTOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderPublishDHTOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 5)
	w["provider_id"] = hNode("provider_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "provider_id")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["num_of_offers"] = hInt64("num_of_offers", &good, omit == 2)
	if omit == 2 {
		delete(w, "num_of_offers")
	}
	w["single_offers"] = hOffers("single_offers", &good, omit == 3)
	if omit == 3 {
		delete(w, "single_offers")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderPublishDHTOfferRequest(zNodep(), zInt64(), zOffers())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeProviderPublishDHTOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 4 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
		useOffers(r2)
	}), "no panic on any body")
}

func VerifC07_rtProviderPublishDHTOfferResponse() {
	a0 := vInt64("nonce")
	a1 := vStr("signature")
	m, err := EncodeProviderPublishDHTOfferResponse(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeProviderPublishDHTOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqInt64(a0, r0), "nonce kept")
	sym.Assert(vEqStr(a1, r1), "signature kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeProviderPublishDHTOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderPublishDHTOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["nonce"] = hInt64("nonce", &good, omit == 0)
	if omit == 0 {
		delete(w, "nonce")
	}
	w["signature"] = hStr("signature", &good, omit == 1)
	if omit == 1 {
		delete(w, "signature")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderPublishDHTOfferResponse(zInt64(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeProviderPublishDHTOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useInt64(r0)
		useStr(r1)
	}), "no panic on any body")
}

func VerifC07_rtProviderPublishGroupOfferRequest() {
	a0 := vNodep("providerID")
	a1 := vInt64("nonce")
	a2 := vOfferp("offer")
	m, err := EncodeProviderPublishGroupOfferRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeProviderPublishGroupOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "providerID kept")
	sym.Assert(vEqInt64(a1, r1), "nonce kept")
	sym.Assert(vEqOfferp(a2, r2), "offer kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeProviderPublishGroupOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderPublishGroupOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["provider_id"] = hNode("provider_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "provider_id")
	}
	w["nonce"] = hInt64("nonce", &good, omit == 1)
	if omit == 1 {
		delete(w, "nonce")
	}
	w["offer"] = hOffer("offer", &good, omit == 2)
	if omit == 2 {
		delete(w, "offer")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderPublishGroupOfferRequest(zNodep(), zInt64(), zOfferp())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeProviderPublishGroupOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useInt64(r1)
		useOfferp(r2)
	}), "no panic on any body")
}

func VerifC07_rtProviderPublishGroupOfferResponse() {
	a0 := vNode("gatewayID")
	a1 := vStr("digest")
	m, err := EncodeProviderPublishGroupOfferResponse(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeProviderPublishGroupOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "gatewayID kept")
	sym.Assert(vEqStr(a1, r1), "digest kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeProviderPublishGroupOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderPublishGroupOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["gateway_id"] = hNode("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	w["digest"] = hStr("digest", &good, omit == 1)
	if omit == 1 {
		delete(w, "digest")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderPublishGroupOfferResponse(zNode(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeProviderPublishGroupOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useStr(r1)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminForceRefreshRequest() {
	a0 := vBool("refresh")
	m, err := EncodeProviderAdminForceRefreshRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminForceRefreshRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refresh kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminForceRefreshRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminForceRefreshRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refresh"] = hBool("refresh", &good, omit == 0)
	if omit == 0 {
		delete(w, "refresh")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminForceRefreshRequest(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminForceRefreshRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminForceRefreshResponse() {
	a0 := vBool("refreshed")
	m, err := EncodeProviderAdminForceRefreshResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminForceRefreshResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "refreshed kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminForceRefreshResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminForceRefreshResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["refreshed"] = hBool("refreshed", &good, omit == 0)
	if omit == 0 {
		delete(w, "refreshed")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminForceRefreshResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminForceRefreshResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminGetPublishedOfferRequest() {
	a0 := vNodes("gatewayIDs")
	m, err := EncodeProviderAdminGetPublishedOfferRequest(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminGetPublishedOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodes(a0, r0), "gatewayIDs kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminGetPublishedOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminGetPublishedOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["gateway_id"] = hNodes("gateway_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "gateway_id")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminGetPublishedOfferRequest(zNodes())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminGetPublishedOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodes(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminGetPublishedOfferResponse() {
	a0 := vBool("exists")
	a1 := vOffers("offers")
	m, err := EncodeProviderAdminGetPublishedOfferResponse(a0, a1)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, err := DecodeProviderAdminGetPublishedOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "exists kept")
	sym.Assert(vEqOffers(a1, r1), "offers kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, err = DecodeProviderAdminGetPublishedOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminGetPublishedOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 3)
	w["exists"] = hBool("exists", &good, omit == 0)
	if omit == 0 {
		delete(w, "exists")
	}
	w["cid_offers"] = hOffers("cid_offers", &good, omit == 1)
	if omit == 1 {
		delete(w, "cid_offers")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminGetPublishedOfferResponse(zBool(), zOffers())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, e2 := DecodeProviderAdminGetPublishedOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 2 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
		useOffers(r1)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminInitialiseKeyRequest() {
	a0 := vNodep("nodeID")
	a1 := vKeyp("privateKey")
	a2 := vVerp("keyVersion")
	m, err := EncodeProviderAdminInitialiseKeyRequest(a0, a1, a2)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, err := DecodeProviderAdminInitialiseKeyRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "nodeID kept")
	sym.Assert(vEqKeyp(a1, r1), "privateKey kept")
	sym.Assert(vEqVerp(a2, r2), "keyVersion kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, err = DecodeProviderAdminInitialiseKeyRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminInitialiseKeyRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 4)
	w["provider_id"] = hNode("provider_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "provider_id")
	}
	w["private_key"] = hKey("private_key", &good, omit == 1)
	if omit == 1 {
		delete(w, "private_key")
	}
	w["private_key_version"] = hU32("private_key_version", &good, omit == 2)
	if omit == 2 {
		delete(w, "private_key_version")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminInitialiseKeyRequest(zNodep(), zKeyp(), zVerp())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, e2 := DecodeProviderAdminInitialiseKeyRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 3 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useKeyp(r1)
		useVerp(r2)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminInitialiseKeyRequestV2() {
	a0 := vNodep("nodeID")
	a1 := vKeyp("privateKey")
	a2 := vVerp("keyVersion")
	a3 := vStr("walletPrivateKey")
	a4 := vStr("lotusAP")
	a5 := vStr("lotusAuthToken")
	m, err := EncodeProviderAdminInitialiseKeyRequestV2(a0, a1, a2, a3, a4, a5)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, r4, r5, err := DecodeProviderAdminInitialiseKeyRequestV2(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqNodep(a0, r0), "nodeID kept")
	sym.Assert(vEqKeyp(a1, r1), "privateKey kept")
	sym.Assert(vEqVerp(a2, r2), "keyVersion kept")
	sym.Assert(vEqStr(a3, r3), "walletPrivateKey kept")
	sym.Assert(vEqStr(a4, r4), "lotusAP kept")
	sym.Assert(vEqStr(a5, r5), "lotusAuthToken kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, _, _, err = DecodeProviderAdminInitialiseKeyRequestV2(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminInitialiseKeyRequestV2() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 7)
	w["provider_id"] = hNode("provider_id", &good, omit == 0)
	if omit == 0 {
		delete(w, "provider_id")
	}
	w["private_key"] = hKey("private_key", &good, omit == 1)
	if omit == 1 {
		delete(w, "private_key")
	}
	w["private_key_version"] = hU32("private_key_version", &good, omit == 2)
	if omit == 2 {
		delete(w, "private_key_version")
	}
	w["wallet_private_key"] = hStr("wallet_private_key", &good, omit == 3)
	if omit == 3 {
		delete(w, "wallet_private_key")
	}
	w["lotus_ap"] = hStr("lotus_ap", &good, omit == 4)
	if omit == 4 {
		delete(w, "lotus_ap")
	}
	w["lotus_auth_token"] = hStr("lotus_auth_token", &good, omit == 5)
	if omit == 5 {
		delete(w, "lotus_auth_token")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminInitialiseKeyRequestV2(zNodep(), zKeyp(), zVerp(), zStr(), zStr(), zStr())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, r4, r5, e2 := DecodeProviderAdminInitialiseKeyRequestV2(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 6 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useNodep(r0)
		useKeyp(r1)
		useVerp(r2)
		useStr(r3)
		useStr(r4)
		useStr(r5)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminInitialiseKeyResponse() {
	a0 := vBool("success")
	m, err := EncodeProviderAdminInitialiseKeyResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminInitialiseKeyResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "success kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminInitialiseKeyResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminInitialiseKeyResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["success"] = hBool("success", &good, omit == 0)
	if omit == 0 {
		delete(w, "success")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminInitialiseKeyResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminInitialiseKeyResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminPublishDHTOfferRequest() {
	a0 := vCids("cids")
	a1 := vU64s("price")
	a2 := vI64s("expiry")
	a3 := vU64s("qos")
	m, err := EncodeProviderAdminPublishDHTOfferRequest(a0, a1, a2, a3)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, err := DecodeProviderAdminPublishDHTOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCids(a0, r0), "cids kept")
	sym.Assert(vEqU64s(a1, r1), "price kept")
	sym.Assert(vEqI64s(a2, r2), "expiry kept")
	sym.Assert(vEqU64s(a3, r3), "qos kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, err = DecodeProviderAdminPublishDHTOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminPublishDHTOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 5)
	w["cids"] = hCIDs("cids", &good, omit == 0)
	if omit == 0 {
		delete(w, "cids")
	}
	w["price"] = hU64s("price", &good, omit == 1)
	if omit == 1 {
		delete(w, "price")
	}
	w["expiry"] = hI64s("expiry", &good, omit == 2)
	if omit == 2 {
		delete(w, "expiry")
	}
	w["qos"] = hU64s("qos", &good, omit == 3)
	if omit == 3 {
		delete(w, "qos")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminPublishDHTOfferRequest(zCids(), zU64s(), zI64s(), zU64s())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, e2 := DecodeProviderAdminPublishDHTOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 4 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCids(r0)
		useU64s(r1)
		useI64s(r2)
		useU64s(r3)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminPublishDHTOfferResponse() {
	a0 := vBool("received")
	m, err := EncodeProviderAdminPublishDHTOfferResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminPublishDHTOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "received kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminPublishDHTOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminPublishDHTOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["received"] = hBool("received", &good, omit == 0)
	if omit == 0 {
		delete(w, "received")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminPublishDHTOfferResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminPublishDHTOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminPublishGroupOfferRequest() {
	a0 := vCids("cids")
	a1 := vU64("price")
	a2 := vInt64("expiry")
	a3 := vU64("qos")
	m, err := EncodeProviderAdminPublishGroupOfferRequest(a0, a1, a2, a3)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, r1, r2, r3, err := DecodeProviderAdminPublishGroupOfferRequest(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqCids(a0, r0), "cids kept")
	sym.Assert(vEqU64(a1, r1), "price kept")
	sym.Assert(vEqInt64(a2, r2), "expiry kept")
	sym.Assert(vEqU64(a3, r3), "qos kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, _, _, _, err = DecodeProviderAdminPublishGroupOfferRequest(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminPublishGroupOfferRequest() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 5)
	w["cids"] = hCIDs("cids", &good, omit == 0)
	if omit == 0 {
		delete(w, "cids")
	}
	w["price"] = hU64("price", &good, omit == 1)
	if omit == 1 {
		delete(w, "price")
	}
	w["expiry"] = hInt64("expiry", &good, omit == 2)
	if omit == 2 {
		delete(w, "expiry")
	}
	w["qos"] = hU64("qos", &good, omit == 3)
	if omit == 3 {
		delete(w, "qos")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminPublishGroupOfferRequest(zCids(), zU64(), zInt64(), zU64())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, r1, r2, r3, e2 := DecodeProviderAdminPublishGroupOfferRequest(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 4 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useCids(r0)
		useU64(r1)
		useInt64(r2)
		useU64(r3)
	}), "no panic on any body")
}

func VerifC07_rtProviderAdminPublishGroupOfferResponse() {
	a0 := vBool("received")
	m, err := EncodeProviderAdminPublishGroupOfferResponse(a0)
	sym.Assert(err == nil && m != nil, "message encodes")
	m = vWire(m)
	r0, err := DecodeProviderAdminPublishGroupOfferResponse(m)
	sym.Assert(err == nil, "message decodes")
	sym.Assert(vEqBool(a0, r0), "received kept")
	t := int32(sym.Uint32("another type"))
	sym.Assume(t != m.GetMessageType())
	_, err = DecodeProviderAdminPublishGroupOfferResponse(CreateFCRMessage(t, m.GetMessageBody()))
	sym.Assert(err != nil, "another message type is refused")
}

func VerifC07_hostileProviderAdminPublishGroupOfferResponse() {
	w := map[string]interface{}{}
	good := true
	omit := sym.Choose("omitted field", 2)
	w["received"] = hBool("received", &good, omit == 0)
	if omit == 0 {
		delete(w, "received")
	}
	body, err := json.Marshal(w)
	sym.Assert(err == nil, "marshals")
	m, err := EncodeProviderAdminPublishGroupOfferResponse(zBool())
	sym.Assume(err == nil)
	sym.Assert(!sym.Try(func() {
		var e error
		r0, e2 := DecodeProviderAdminPublishGroupOfferResponse(CreateFCRMessage(m.GetMessageType(), body))
		e = e2
		if omit == 1 {
			sym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")
		}
		if e != nil {
			return
		}
		useBool(r0)
	}), "no panic on any body")
}

func vKinds() (kinds []string, msgs []*FCRMessage) {
	add := func(k string, m *FCRMessage, err error) {
		sym.Assume(err == nil)
		kinds, msgs = append(kinds, k), append(msgs, m)
	}
	{
		m, err := EncodeInvalidMessageResponse()
		add("InvalidMessageResponse", m, err)
	}
	{
		m, err := EncodeProtocolChangeRequest(zInt32())
		add("ProtocolChangeRequest", m, err)
	}
	{
		m, err := EncodeProtocolChangeResponse(zBool())
		add("ProtocolChangeResponse", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverOfferRequest(zCidp(), zInt64(), zStrss(), zNodes(), zStr(), zStr())
		add("ClientDHTDiscoverOfferRequest", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverOfferResponse(zCidp(), zInt64(), zNodes(), zMsgs(), zBool(), zStr())
		add("ClientDHTDiscoverOfferResponse", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverRequest(zCidp(), zInt64(), zInt64(), zInt64(), zBool(), zStr(), zStr())
		add("ClientDHTDiscoverRequest", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverRequestV2(zCidp(), zInt64(), zInt64(), zInt64(), zBool(), zStr(), zStr())
		add("ClientDHTDiscoverRequestV2", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverResponse(zNodes(), zMsgs(), zNodes(), zInt64(), zBool(), zStr())
		add("ClientDHTDiscoverResponse", m, err)
	}
	{
		m, err := EncodeClientDHTDiscoverResponseV2(zNodes(), zMsgs(), zNodes(), zInt64(), zBool(), zStr())
		add("ClientDHTDiscoverResponseV2", m, err)
	}
	{
		m, err := EncodeClientDHTOfferAckRequest(zCidp(), zNodep())
		add("ClientDHTOfferAckRequest", m, err)
	}
	{
		m, err := EncodeClientDHTOfferAckResponse(zCidp(), zNodep(), zBool(), zMsgp(), zMsgp())
		add("ClientDHTOfferAckResponse", m, err)
	}
	{
		m, err := EncodeClientEstablishmentRequest(zNodep(), zStr(), zInt64())
		add("ClientEstablishmentRequest", m, err)
	}
	{
		m, err := EncodeClientEstablishmentResponse(zNodep(), zStr())
		add("ClientEstablishmentResponse", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverOfferRequest(zCidp(), zInt64(), zInt64(), zStrs(), zStr(), zStr())
		add("ClientStandardDiscoverOfferRequest", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverOfferResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools(), zBool(), zStr())
		add("ClientStandardDiscoverOfferResponse", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverRequest(zCidp(), zInt64(), zInt64(), zStr(), zStr())
		add("ClientStandardDiscoverRequest", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverRequestV2(zCidp(), zInt64(), zInt64(), zStr(), zStr())
		add("ClientStandardDiscoverRequestV2", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools())
		add("ClientStandardDiscoverResponse", m, err)
	}
	{
		m, err := EncodeClientStandardDiscoverResponseV2(zCidp(), zInt64(), zBool(), zStrs(), zBools(), zBool(), zStr())
		add("ClientStandardDiscoverResponseV2", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverOfferRequest(zCidp(), zInt64(), zStrs(), zStr(), zStr())
		add("GatewayDHTDiscoverOfferRequest", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverOfferResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools(), zBool(), zStr())
		add("GatewayDHTDiscoverOfferResponse", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverRequest(zNodep(), zCidp(), zInt64(), zInt64(), zStr(), zStr())
		add("GatewayDHTDiscoverRequest", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverRequestV2(zNodep(), zCidp(), zInt64(), zInt64(), zStr(), zStr())
		add("GatewayDHTDiscoverRequestV2", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverResponse(zCidp(), zInt64(), zBool(), zSubs(), zBools())
		add("GatewayDHTDiscoverResponse", m, err)
	}
	{
		m, err := EncodeGatewayDHTDiscoverResponseV2(zCidp(), zInt64(), zBool(), zStrs(), zBools(), zBool(), zStr())
		add("GatewayDHTDiscoverResponseV2", m, err)
	}
	{
		m, err := EncodeGatewayListDHTOfferAck(zMsgs())
		add("GatewayListDHTOfferAck", m, err)
	}
	{
		m, err := EncodeGatewayListDHTOfferRequest(zNodep(), zCidp(), zCidp(), zStr(), zStr(), zStr(), zProofp())
		add("GatewayListDHTOfferRequest", m, err)
	}
	{
		m, err := EncodeGatewayListDHTOfferResponse(zMsgs())
		add("GatewayListDHTOfferResponse", m, err)
	}
	{
		m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(zNodep(), zBool())
		add("GatewayNotifyProviderGroupCIDOfferSupportRequest", m, err)
	}
	{
		m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(zBool())
		add("GatewayNotifyProviderGroupCIDOfferSupportResponse", m, err)
	}
	{
		m, err := EncodeGatewayPingRequest(zNodep(), zInt64(), zInt64())
		add("GatewayPingRequest", m, err)
	}
	{
		m, err := EncodeGatewayPingResponse(zInt64(), zBool())
		add("GatewayPingResponse", m, err)
	}
	{
		m, err := EncodeGatewayAdminForceRefreshRequest(zBool())
		add("GatewayAdminForceRefreshRequest", m, err)
	}
	{
		m, err := EncodeGatewayAdminForceRefreshResponse(zBool())
		add("GatewayAdminForceRefreshResponse", m, err)
	}
	{
		m, err := EncodeGatewayAdminGetReputationRequest(zNodep())
		add("GatewayAdminGetReputationRequest", m, err)
	}
	{
		m, err := EncodeGatewayAdminGetReputationResponse(zNodep(), zInt64(), zBool())
		add("GatewayAdminGetReputationResponse", m, err)
	}
	{
		m, err := EncodeGatewayAdminInitialiseKeyRequest(zNodep(), zKeyp(), zVerp())
		add("GatewayAdminInitialiseKeyRequest", m, err)
	}
	{
		m, err := EncodeGatewayAdminInitialiseKeyRequestV2(zNodep(), zKeyp(), zVerp(), zStr(), zStr(), zStr())
		add("GatewayAdminInitialiseKeyRequestV2", m, err)
	}
	{
		m, err := EncodeGatewayAdminInitialiseKeyResponse(zBool())
		add("GatewayAdminInitialiseKeyResponse", m, err)
	}
	{
		m, err := EncodeGatewayAdminListDHTOfferRequest(zBool())
		add("GatewayAdminListDHTOfferRequest", m, err)
	}
	{
		m, err := EncodeGatewayAdminListDHTOfferResponse(zBool())
		add("GatewayAdminListDHTOfferResponse", m, err)
	}
	{
		m, err := EncodeGatewayAdminSetReputationRequest(zNodep(), zInt64())
		add("GatewayAdminSetReputationRequest", m, err)
	}
	{
		m, err := EncodeGatewayAdminSetReputationResponse(zNodep(), zInt64(), zBool())
		add("GatewayAdminSetReputationResponse", m, err)
	}
	{
		m, err := EncodeUpdateGatewayGroupCIDOfferSupportRequest(zNodep(), zNodes())
		add("UpdateGatewayGroupCIDOfferSupportRequest", m, err)
	}
	{
		m, err := EncodeUpdateGatewayGroupCIDOfferSupportResponse(zBool())
		add("UpdateGatewayGroupCIDOfferSupportResponse", m, err)
	}
	{
		m, err := EncodeProviderPublishDHTOfferRequest(zNodep(), zInt64(), zOffers())
		add("ProviderPublishDHTOfferRequest", m, err)
	}
	{
		m, err := EncodeProviderPublishDHTOfferResponse(zInt64(), zStr())
		add("ProviderPublishDHTOfferResponse", m, err)
	}
	{
		m, err := EncodeProviderPublishGroupOfferRequest(zNodep(), zInt64(), zOfferp())
		add("ProviderPublishGroupOfferRequest", m, err)
	}
	{
		m, err := EncodeProviderPublishGroupOfferResponse(zNode(), zStr())
		add("ProviderPublishGroupOfferResponse", m, err)
	}
	{
		m, err := EncodeProviderAdminForceRefreshRequest(zBool())
		add("ProviderAdminForceRefreshRequest", m, err)
	}
	{
		m, err := EncodeProviderAdminForceRefreshResponse(zBool())
		add("ProviderAdminForceRefreshResponse", m, err)
	}
	{
		m, err := EncodeProviderAdminGetPublishedOfferRequest(zNodes())
		add("ProviderAdminGetPublishedOfferRequest", m, err)
	}
	{
		m, err := EncodeProviderAdminGetPublishedOfferResponse(zBool(), zOffers())
		add("ProviderAdminGetPublishedOfferResponse", m, err)
	}
	{
		m, err := EncodeProviderAdminInitialiseKeyRequest(zNodep(), zKeyp(), zVerp())
		add("ProviderAdminInitialiseKeyRequest", m, err)
	}
	{
		m, err := EncodeProviderAdminInitialiseKeyRequestV2(zNodep(), zKeyp(), zVerp(), zStr(), zStr(), zStr())
		add("ProviderAdminInitialiseKeyRequestV2", m, err)
	}
	{
		m, err := EncodeProviderAdminInitialiseKeyResponse(zBool())
		add("ProviderAdminInitialiseKeyResponse", m, err)
	}
	{
		m, err := EncodeProviderAdminPublishDHTOfferRequest(zCids(), zU64s(), zI64s(), zU64s())
		add("ProviderAdminPublishDHTOfferRequest", m, err)
	}
	{
		m, err := EncodeProviderAdminPublishDHTOfferResponse(zBool())
		add("ProviderAdminPublishDHTOfferResponse", m, err)
	}
	{
		m, err := EncodeProviderAdminPublishGroupOfferRequest(zCids(), zU64(), zInt64(), zU64())
		add("ProviderAdminPublishGroupOfferRequest", m, err)
	}
	{
		m, err := EncodeProviderAdminPublishGroupOfferResponse(zBool())
		add("ProviderAdminPublishGroupOfferResponse", m, err)
	}
	return
}
