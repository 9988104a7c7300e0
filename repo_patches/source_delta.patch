From f0dc41d21adcec95d5e9379325c428274e6fff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 01/62] fix: refuse offers and id lists whose ids are not valid
 hex instead of panicking

---
 common/pkg/cid/cid.go                                 | 11 +++++++----
 common/pkg/cidoffer/cidoffer.go                       | 11 +++++++++--
 common/pkg/cidoffer/subcidoffer.go                    | 10 ++++++++--
 .../fcrmessages/client_dht_discover_offer_request.go  |  6 +++++-
 .../fcrmessages/client_dht_discover_offer_response.go |  6 +++++-
 .../pkg/fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../fcrmessages/client_dht_discover_response_v2.go    | 10 +++++++++-
 ...wayadmin_update_group_cid_offer_support_request.go |  6 +++++-
 .../provideradmin_get_published_offer_request.go      |  6 +++++-
 .../provideradmin_publish_dht_offer_request.go        |  6 +++++-
 .../provideradmin_publish_group_offer_request.go      |  6 +++++-
 common/pkg/nodeid/nodeid.go                           | 11 +++++++----
 12 files changed, 79 insertions(+), 20 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..7bbf5ac 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -134,12 +134,15 @@ func MapCIDToString(cids []ContentID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+// Map - used to returns a new slice containing the CIDs named by string values
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..76485ec 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -75,5 +75,9 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 		return nil, 0, nil, nil, "", "", err
 	}
 	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..ff80bad 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -75,5 +75,9 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 		return nil, 0, nil, nil, false, "", err
 	}
 	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..ac05821 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -55,5 +55,9 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 		return nil, nil, err
 	}
 	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..200db9d 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -178,12 +178,15 @@ func MapNodeIDToString(cids []NodeID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+// Map - used to returns a new slice containing the node IDs named by string values
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From ebea67bd00c27d34bc23f2a76f38aaca006408ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 02/62] fix: refuse messages whose node or content ids are not
 valid hex

---
 .../client_dht_discover_offer_request.go          |  5 ++++-
 .../client_dht_discover_offer_response.go         |  5 ++++-
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go |  5 ++++-
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 35 files changed, 164 insertions(+), 41 deletions(-)

diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index 76485ec..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,7 +74,10 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
 	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index ff80bad..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,7 +74,10 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
 	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index ac05821..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,7 +54,10 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
 	if err != nil {
 		return nil, nil, err
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
-- 
2.43.0


From 55d816e5a2573012423936afb464861dbc4da71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:40 +0000
Subject: [PATCH 03/62] fix: refuse Merkle proofs with fewer sides than
 siblings instead of panicking on them

---
 common/pkg/fcrmerkletree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..6c71e8c 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -114,6 +114,9 @@ func (mp *FCRMerkleProof) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(path) != len(index) {
+		return fmt.Errorf("FCRMerkleProof: path has %d entries but index has %d", len(path), len(index))
+	}
 	mp.path = path
 	mp.index = index
 	return nil
-- 
2.43.0


From 69fc5d80572747c949dadf19f4e8dd2ebbcb1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 04/62] fix: refuse empty keys and too short signatures instead
 of panicking on them

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 8 ++++++++
 common/pkg/fcrcrypto/msg_signing.go       | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..45fc1d1 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -63,6 +63,10 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("private key is empty")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
@@ -112,6 +116,10 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("public key is empty")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..17cc49a 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,13 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) == 0 {
+		// A message that has not been signed has no key version.
+		return DecodeKeyVersion(0), nil
+	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to contain a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
-- 
2.43.0


From 7bb7b54c7a07a623288e3b68bd7ba35e4f1b302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 05/62] fix: checking a message leaves it as it is, also when
 the check fails

---
 common/pkg/fcrmessages/fcrmessage.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..7aa55b2 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -103,22 +103,18 @@ func (fcrMsg *FCRMessage) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.Key
 
 // Verify is used to verify the offer with a given public key.
 func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
-	// Clear signature
-	sig := fcrMsg.signature
-	fcrMsg.signature = ""
+	// Note that the signature is not part of the signed bytes
 	raw, err := fcrMsg.MarshalToSign()
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
 	}
-	res, err := fcrcrypto.VerifyMessage(pubKey, sig, raw)
+	res, err := fcrcrypto.VerifyMessage(pubKey, fcrMsg.signature, raw)
 	if err != nil {
 		return fmt.Errorf("failed to verify message, error: %s", err.Error())
 	}
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From 19c3d3168ef0f7a50937fe518f60293c1750b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 06/62] fix: decode what group offer, ping and notify messages
 say

The decoders of a ping response and of a group CID offer support response
answered true whatever the message said, and a group offer request without an
offer was decoded into an offer without a provider, which handlers dereference.
---
 ...teway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 common/pkg/fcrmessages/gateway_ping_response.go                | 2 +-
 common/pkg/fcrmessages/provider_publish_group_offer_request.go | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..bc86129 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -66,5 +66,8 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if msg.Offer.GetProviderID() == nil {
+		return nil, 0, nil, errors.New("offer is missing")
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
-- 
2.43.0


From bbe67cea34988704cce0d54019c97f504632099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 07/62] fix: removing an entry from the DHT ring removes that
 entry and no other

Removing the first of three or more entries left the last one linked to it, so
that it was still found, and removing anything from a ring of one entry removed
that entry. Lookups insert and remove the value looked for and left it behind.
---
 common/pkg/dhtring/dhtring.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..9b0281a 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,8 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.val == hex {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
@@ -174,17 +176,16 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.head.val == hex {
-		oldHead := r.head
+		tail := r.head.prv
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		r.head.prv = tail
+		tail.next = r.head
 		// update distances
 		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
 		r.head.prv.distNext = tailToNewHeadDistance
-		// help GC
-		oldHead = nil
 		r.size--
 		return
 	}
-- 
2.43.0


From 0f7e1655bf66fe1e456217407f8018bea666ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 08/62] fix: a search for more ring entries than there are
 finds all of them

It left out the first entry, and a single entry was not found when another one
was excluded. A negative number found every entry.
---
 common/pkg/dhtring/dhtring.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 9b0281a..cb904ac 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -232,7 +232,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num <= 0 || r.size == 0 {
 		return res, nil
 	}
 	// Consider exclusion
@@ -243,17 +243,13 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			defer r.Insert(exclude)
 		}
 	}
-	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
-		current := r.head.next
-		for current != nil && current.val != r.head.val {
-			res = append(res, current.val)
-			current = current.next
-		}
+	if r.size == 0 {
 		return res, nil
 	}
+	if num > r.size {
+		// There are no more than this
+		num = r.size
+	}
 	// Insert & Search & Remove
 	before := r.size
 	r.Insert(hex)
-- 
2.43.0


From 83382b8692b388c9865c28508ccf8c2da9c070bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 09/62] fix: a ring range from an entry to itself is that entry

It was the whole ring with the bound added, and crashed on an empty ring.
---
 common/pkg/dhtring/dhtring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cb904ac..07a70ae 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -313,6 +313,12 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
+	if startHex == endHex {
+		if r.get(startHex) != nil {
+			res = append(res, startHex)
+		}
+		return res, nil
+	}
 	var startNode *ringNode
 	var endNode *ringNode
 	addStart := false
-- 
2.43.0


From 04e6d0bf99611f83e451b3cb3f647fbdc33cdffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 10/62] fix: lock the DHT ring while it is used

The register manager searches it in several threads under a read lock and the
provider's offer manager under none, but a search inserts into the ring.
---
 common/pkg/dhtring/dhtring.go | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 07a70ae..e4ca4d7 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 )
@@ -40,6 +41,8 @@ type ringNode struct {
 
 // Ring is a struct to store the DHT Ring to store 32-bytes hex
 type Ring struct {
+	// Lookups change the ring while they run, so that they need the lock as well.
+	lock sync.Mutex
 	head *ringNode
 	size int
 }
@@ -54,6 +57,13 @@ func CreateRing() *Ring {
 
 // Insert inserts a hex string into the ring
 func (r *Ring) Insert(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.insert(hex)
+}
+
+// insert needs the lock
+func (r *Ring) insert(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -144,6 +154,13 @@ func (r *Ring) Insert(hex string) {
 
 // Remove inserts a given hex string out of the ring
 func (r *Ring) Remove(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.remove(hex)
+}
+
+// remove needs the lock
+func (r *Ring) remove(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -231,6 +248,8 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		logging.Error("Ring invalid hex: %v %v", hex, exclude)
 		return nil, errors.New("invalid input")
 	}
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	res := make([]string, 0)
 	if num <= 0 || r.size == 0 {
 		return res, nil
@@ -238,9 +257,9 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	// Consider exclusion
 	if exclude != "" {
 		before := r.size
-		r.Remove(exclude)
+		r.remove(exclude)
 		if r.size != before {
-			defer r.Insert(exclude)
+			defer r.insert(exclude)
 		}
 	}
 	if r.size == 0 {
@@ -252,7 +271,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	}
 	// Insert & Search & Remove
 	before := r.size
-	r.Insert(hex)
+	r.insert(hex)
 	if r.size == before {
 		// This already exists
 		res = append(res, hex)
@@ -261,7 +280,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			return res, nil
 		}
 	} else {
-		defer r.Remove(hex)
+		defer r.remove(hex)
 	}
 	// Now search
 	current := r.head
@@ -312,6 +331,8 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		logging.Error("Ring invalid hex: %v %v", startHex, endHex)
 		return nil, errors.New("invalid input")
 	}
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	res := make([]string, 0)
 	if startHex == endHex {
 		if r.get(startHex) != nil {
@@ -327,24 +348,24 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		startNode = temp
 		addStart = true
 	} else {
-		r.Insert(startHex)
+		r.insert(startHex)
 		startNode = r.get(startHex)
 		if startNode == nil {
 			return res, errors.New("internal error")
 		}
-		defer r.Remove(startHex)
+		defer r.remove(startHex)
 	}
 
 	if temp := r.get(endHex); temp != nil {
 		endNode = temp
 		addEnd = true
 	} else {
-		r.Insert(endHex)
+		r.insert(endHex)
 		endNode = r.get(endHex)
 		if endNode == nil {
 			return res, errors.New("internal error")
 		}
-		defer r.Remove(endHex)
+		defer r.remove(endHex)
 	}
 
 	if addStart {
@@ -366,11 +387,15 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 
 // Size gets the size of the ring
 func (r *Ring) Size() int {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	return r.size
 }
 
 // Dump is for debugging use ONLY
 func (r *Ring) Dump() {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	fmt.Printf("\nSize: %v [\n", r.size)
 	if r.head == nil {
 		fmt.Println("]")
-- 
2.43.0


From 13ec3dd5b1f0e93e7029561609ed7126abd83836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 11/62] fix: adding offers in several threads loses none of
 them

---
 common/pkg/fcroffermgr/offer_storage.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..a55942d 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -53,9 +53,9 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	}
 	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
-	o.lock.RLock()
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	digestMap, exists := o.cidMap[testCIDStr]
-	o.lock.RUnlock()
 	if exists {
 		digestMap.lock.RLock()
 		_, exists = digestMap.dMap[digest]
@@ -72,18 +72,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
-		o.lock.RLock()
 		digestMap, exists = o.cidMap[cidStr]
-		o.lock.RUnlock()
 		if !exists {
 			// Need a new entry in cid map
-			o.lock.Lock()
 			digestMap = &digestOffer{
 				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
 				lock: sync.RWMutex{},
 			}
 			o.cidMap[cidStr] = digestMap
-			o.lock.Unlock()
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-- 
2.43.0


From b8d8031d2c1196e562cf1be69686c1b5777be64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 12/62] fix: a DHT offer range of at most no offers is empty

---
 common/pkg/fcroffermgr/offer_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..e966483 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -92,10 +92,10 @@ func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, m
 		}
 		offersTemp := mgr.dhtOffers.get(contentID)
 		for _, offer := range offersTemp {
-			offers = append(offers, offer)
 			if len(offers) >= maxOffers {
 				return offers, len(offers) > 0
 			}
+			offers = append(offers, offer)
 		}
 	}
 
-- 
2.43.0


From 6cc33d1bb358ae4ecd5472b629c3f310a53beb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 13/62] fix: looking up an offer by its digest locks the group
 offers and finds no expired offer

---
 common/pkg/fcroffermgr/offer_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index e966483..d5e515f 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -117,16 +117,18 @@ func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byt
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
 	// look in Group offers
+	mgr.groupOffers.lock.RLock()
+	defer mgr.groupOffers.lock.RUnlock()
 	for _, digestAndOffer := range mgr.groupOffers.cidMap {
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
-- 
2.43.0


From 840dcc38233934820525c527b5051b8b710ee3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 14/62] fix: refuse to pay a negative amount

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..6c9b431 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -213,6 +213,9 @@ func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (s
 	if err != nil {
 		return "", "", false, err
 	}
+	if amount.Sign() < 0 {
+		return "", "", false, errors.New("amount to pay is negative")
+	}
 	// Get channel state
 	mgr.outboundChsLock.RLock()
 	defer mgr.outboundChsLock.RUnlock()
-- 
2.43.0


From ed2a8e4f5aa05a40418838d31f383eaa2b92f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 15/62] fix: paying and being paid in several threads makes one
 state per channel

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 6c9b431..ad845da 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -131,11 +131,17 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	mgr.outboundChsLock.RLock()
 	cs, ok := mgr.outboundChs[recipient]
 	if !ok {
-		logging.Debug("debug Topup, recipient is new")
-		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
 		defer mgr.outboundChsLock.Unlock()
+		// Another thread may have created the channel in the meantime
+		cs, ok = mgr.outboundChs[recipient]
+	} else {
+		defer mgr.outboundChsLock.RUnlock()
+	}
+	if !ok {
+		logging.Debug("debug Topup, recipient is new")
+		// Need to create a channel
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
 		if err != nil {
@@ -175,7 +181,6 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	} else {
 		logging.Debug("debug Topup, recipient is known")
 		// No need to create a channel
-		defer mgr.outboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		// Top up msg
@@ -309,13 +314,10 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Get channel state from local storage
-	mgr.inboundChsLock.RLock()
+	mgr.inboundChsLock.Lock()
 	cs, ok := mgr.inboundChs[channel]
 	if !ok {
 		// Need to create a entry in local storage
-		mgr.inboundChsLock.RUnlock()
-		mgr.inboundChsLock.Lock()
-		defer mgr.inboundChsLock.Unlock()
 		cs = &channelState{
 			addr:       channelAddr,
 			balance:    *state.Balance.Int,
@@ -324,11 +326,12 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 			laneStates: make(map[uint64]*laneState),
 		}
 		mgr.inboundChs[channel] = cs
-	} else {
+	}
+	mgr.inboundChsLock.Unlock()
+	cs.lock.Lock()
+	defer cs.lock.Unlock()
+	if ok {
 		// Need to update the channel state
-		defer mgr.inboundChsLock.RUnlock()
-		cs.lock.Lock()
-		defer cs.lock.Unlock()
 		if cs.balance.Cmp(state.Balance.Int) > 0 {
 			// No possible to happen
 			return nil, errors.New("on chain state has smaller balance than local chain state")
-- 
2.43.0


From 67c31cb4c7196c4ff991073216a7774fa7c499c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 16/62] fix: the balance of a channel does not change with the
 caller's amount

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index ad845da..bb5a926 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -173,7 +173,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *big.NewInt(0).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From 8e31584187875b908e29f283881c635033f22f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 17/62] fix: refuse channels that are not payment channels
 instead of panicking on them

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index bb5a926..9204187 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -341,8 +341,13 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		}
 	}
 
+	toAddr, toOK := paychState["To"].(string)
+	fromAddr, fromOK := paychState["From"].(string)
+	if !toOK || !fromOK {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	to, err := address.NewFromString(toAddr)
 	if err != nil {
 		return nil, err
 	}
@@ -355,7 +360,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	f, err := address.NewFromString(fromAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fcd1e8a840db268359ad6d38089ff12327b691b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 18/62] fix: receive only vouchers that are drawn on the
 channel, whatever its address

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 9204187..2f32a3f 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -61,7 +61,7 @@ type FCRPaymentMgr struct {
 	// map[recipient addr] -> channel state
 	outboundChs     map[string]*channelState
 	outboundChsLock sync.RWMutex
-	// map[paych addr] -> channel state
+	// map[paych ID addr] -> channel state
 	inboundChs     map[string]*channelState
 	inboundChsLock sync.RWMutex
 }
@@ -313,9 +313,22 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
 
+	// The voucher has to be drawn on this channel. A channel has several addresses, but only one ID.
+	channelID, err := api.StateLookupID(context.Background(), channelAddr, types.EmptyTSK)
+	if err != nil {
+		return nil, fmt.Errorf("receive voucher method failed, error reading channel ID: %s", err.Error())
+	}
+	voucherChannelID, err := api.StateLookupID(context.Background(), sv.ChannelAddr, types.EmptyTSK)
+	if err != nil {
+		return nil, fmt.Errorf("receive voucher method failed, error reading voucher channel ID: %s", err.Error())
+	}
+	if voucherChannelID != channelID {
+		return nil, fmt.Errorf("voucher channel verification failed: wrong channel; expected: %s, actual: %s", channelAddr.String(), sv.ChannelAddr.String())
+	}
+
 	// Get channel state from local storage
 	mgr.inboundChsLock.Lock()
-	cs, ok := mgr.inboundChs[channel]
+	cs, ok := mgr.inboundChs[channelID.String()]
 	if !ok {
 		// Need to create a entry in local storage
 		cs = &channelState{
@@ -325,7 +338,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
 		}
-		mgr.inboundChs[channel] = cs
+		mgr.inboundChs[channelID.String()] = cs
 	}
 	mgr.inboundChsLock.Unlock()
 	cs.lock.Lock()
-- 
2.43.0


From 312d53fa1071c17a208c9a62266a11859961bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 19/62] fix: a voucher with the highest nonce is the last one
 of its lane

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 2f32a3f..a751bc6 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -80,7 +80,7 @@ type channelState struct {
 
 // laneState represents the state of a lane
 type laneState struct {
-	nonce    uint64
+	nonce    uint64 // outbound: of the next voucher, inbound: of the last voucher
 	redeemed big.Int
 	vouchers []string
 }
@@ -401,9 +401,9 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		}
 		cs.laneStates[sv.Lane] = ls
 	}
-	if ls.nonce > sv.Nonce {
+	if len(ls.vouchers) > 0 && ls.nonce >= sv.Nonce {
 		// Nonce not match.
-		return nil, errors.New("nonce is smaller than local stored value")
+		return nil, errors.New("nonce is not above local stored value")
 	}
 	if ls.redeemed.Cmp(sv.Amount.Int) >= 0 {
 		// Amount in voucher is smaller than redeemed in storage
@@ -418,7 +418,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		return nil, errors.New("not enough channel balance")
 	}
 	// Voucher validated, update lane state
-	ls.nonce = sv.Nonce + 1
+	ls.nonce = sv.Nonce
 	ls.redeemed = *sv.Amount.Int
 	ls.vouchers = append(ls.vouchers, voucher)
 	// Update channel state
-- 
2.43.0


From c4070502f4558d345e5618afbe5fa467885da6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 20/62] fix: receive no vouchers that cannot be redeemed as
 they are

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index a751bc6..48740a5 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -390,6 +390,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		return nil, fmt.Errorf("voucher signature verification failed, error: %s", err.Error())
 	}
 
+	// Verify that the voucher can be redeemed as it is
+	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || sv.MinSettleHeight != 0 || len(sv.SecretPreimage) != 0 || sv.Extra != nil || len(sv.Merges) != 0 {
+		return nil, errors.New("voucher has conditions")
+	}
+
 	// Verify lane state
 	ls, ok := cs.laneStates[sv.Lane]
 	if !ok {
-- 
2.43.0


From c8d5aab445700eb5e7a81558fa6df99daf3d697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 21/62] fix: a reputation near the ends of int64 must not wrap
 around

---
 gateway/internal/reputation/reputation_store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..d80b345 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -35,6 +35,13 @@ func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount
 		panic("changeClientReputation for non-existant client: " + clientNodeIDStr)
 	}
 	newVal := val + amount
+	if amount > 0 && newVal < val {
+		// The sum is above the highest int64
+		newVal = clientMaxReputation
+	} else if amount < 0 && newVal > val {
+		// The sum is below the lowest int64
+		newVal = clientMinReputaiton
+	}
 	if newVal > clientMaxReputation {
 		newVal = clientMaxReputation
 	} else if newVal < clientMinReputaiton {
-- 
2.43.0


From e333a5a4a458e97d53c9d37ee0f6adf60d5683e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 22/62] fix: two first challenges of a client at the same time
 must not reset its reputation

---
 gateway/internal/reputation/reputation.go       | 9 +++------
 gateway/internal/reputation/reputation_store.go | 9 +++++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..72ed400 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,9 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client that has none yet
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.setClientReputationIfMissing(clientNodeID, clientInitialReputation)
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
@@ -82,10 +82,7 @@ func (r *Reputation) GetClientReputation(clientNodeID *nodeid.NodeID) (val int64
 // Establishment Challenge being received. The reputation is created for the Retrival
 // Client if the client doesn't have a reputation yet
 func (r *Reputation) ClientEstablishmentChallenge(clientNodeID *nodeid.NodeID) int64 {
-	_, exists := r.getClientReputation(clientNodeID)
-	if !exists {
-		r.establishClientReputation(clientNodeID)
-	}
+	r.establishClientReputation(clientNodeID)
 	return r.changeClientReputation(clientNodeID, clientEstablishmentChallenge)
 }
 
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index d80b345..a0ddbe3 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -24,6 +24,15 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 	r.clientsMapLock.Unlock()
 }
 
+func (r *Reputation) setClientReputationIfMissing(clientNodeID *nodeid.NodeID, val int64) {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = val
+	}
+	r.clientsMapLock.Unlock()
+}
+
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
 	var val int64
-- 
2.43.0


From a0f7d2b96ad44ecc514f9617288da5b7f6c100a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 23/62] fix: looking up an unknown provider must not keep the
 provider list locked

---
 common/pkg/fcrregistermgr/register_manager.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..a483a26 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -201,18 +201,13 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
-		mgr.registeredProvidersMapLock.RUnlock()
 		// TODO: Do we call refresh here, if can't find a provider?
 		// mgr.Refresh()
-		mgr.registeredProvidersMapLock.RLock()
-		provider, ok = mgr.registeredProvidersMap[id.ToString()]
-		if !ok {
-			return nil
-		}
+		return nil
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From 449e8f5da6f57cd73222fec51a2183ff7d3358fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 24/62] fix: a manager that discovers no gateways must not
 crash when asked for gateways near a content id

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a483a26..350b243 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -322,6 +322,9 @@ func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, no
 	if numDHT > 16 {
 		numDHT = 16
 	}
+	if !mgr.gatewayDiscv {
+		return nil, errors.New("gateway discovery is not enabled")
+	}
 	mgr.closestGatewaysIDsLock.RLock()
 	defer mgr.closestGatewaysIDsLock.RUnlock()
 	mgr.registeredGatewaysMapLock.RLock()
-- 
2.43.0


From 6917e4516d609f70076afd412a5f7da3f89f53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 25/62] fix: null entries in the answer of the register must
 not crash the manager

---
 common/pkg/fcrregistermgr/register_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 350b243..f135b1f 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -261,6 +261,10 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			logging.Error("error updating gateways, null entry in response")
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -284,6 +288,10 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			logging.Error("error updating providers, null entry in response")
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
-- 
2.43.0


From 6c87359fe23180255e1f139828ba57f408d2d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 26/62] fix: a shutdown must clear the DHT ring together with
 the gateways

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index f135b1f..6073a33 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -470,9 +470,12 @@ func (mgr *FCRRegisterMgr) shutdownGateways() {
 		logging.Error("method removeAllGatewaysFromRegisterSrv called, gateway discovery is not enabled")
 		return
 	}
+	mgr.closestGatewaysIDsLock.Lock()
 	mgr.registeredGatewaysMapLock.Lock()
+	mgr.closestGatewaysIDs = dhtring.CreateRing()
 	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
 	mgr.registeredGatewaysMapLock.Unlock()
+	mgr.closestGatewaysIDsLock.Unlock()
 	mgr.removeAllGatewaysFromRegisterSrv()
 }
 
-- 
2.43.0


From 9aa8cf5a2b13d33802cd7701200c0692717fe370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 27/62] fix: getting the range of a gateway must not lock the
 DHT ring twice

---
 common/pkg/fcrregistermgr/register_manager.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 6073a33..040eedf 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -299,9 +299,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 206ea262103fb959061dd582d4e668b076f27041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 28/62] fix: refreshes at the same time must not take each
 other's answer

---
 common/pkg/fcrregistermgr/register_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 040eedf..32c38f2 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -56,6 +56,9 @@ type FCRRegisterMgr struct {
 	gatewayRefreshCh   chan bool
 	providerRefreshCh  chan bool
 
+	// refreshLock makes sure that only one refresh waits for an answer at a time
+	refreshLock sync.Mutex
+
 	// registeredGatewaysMap stores mapping from gateway id (big int in string repr) to its registration info
 	registeredGatewaysMap     map[string]register.GatewayRegistrar
 	registeredGatewaysMapLock sync.RWMutex
@@ -151,6 +154,8 @@ func (mgr *FCRRegisterMgr) Refresh() {
 	if !mgr.start {
 		return
 	}
+	mgr.refreshLock.Lock()
+	defer mgr.refreshLock.Unlock()
 	if mgr.gatewayDiscv {
 		mgr.gatewayRefreshCh <- true
 		<-mgr.gatewayRefreshCh
-- 
2.43.0


From 86b5865dcdb3ccd5ead607ff778ddd0c435da0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 29/62] fix: read exactly one message from a TCP connection,
 and take memory only for what arrives

A buffered reader per message lost the start of the next message, a timeout in
the middle of a message was taken for an idle connection, and a hostile length
made the server allocate up to 4 GB.
---
 common/pkg/fcrp2pserver/tcp_comms.go | 34 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..000223f 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -17,7 +17,9 @@ package fcrp2pserver
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -25,6 +27,9 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 )
 
+// errIncompleteMessage is the error of a message that is not received completely in time
+var errIncompleteMessage = errors.New("timeout in the middle of a message")
+
 // isTimeoutError checks if the given error is a timeout error
 func isTimeoutError(err error) bool {
 	neterr, ok := err.(net.Error)
@@ -32,30 +37,35 @@ func isTimeoutError(err error) bool {
 }
 
 // readTCPMessage read the tcp message from a given connection.
+// It returns a timeout error only if nothing has been read, so that the connection can still be used.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
-	// Read the length
+	// Read the length, directly from the connection as a buffered reader could take a part of the next message
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
-	_, err := io.ReadFull(reader, length)
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 && isTimeoutError(err) {
+			return nil, errIncompleteMessage
+		}
 		return nil, err
 	}
-	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
-	_, err = io.ReadFull(reader, data)
+	// Read the data, the buffer grows with what is received as the length can't be trusted
+	data := bytes.Buffer{}
+	_, err = io.CopyN(&data, conn, int64(binary.BigEndian.Uint32(length)))
 	if err != nil {
+		if isTimeoutError(err) {
+			return nil, errIncompleteMessage
+		}
 		return nil, err
 	}
-	return fcrmessages.FCRMsgFromBytes(data)
+	return fcrmessages.FCRMsgFromBytes(data.Bytes())
 }
 
 // sendTCPMessage sends a tcp message to a given connection.
@@ -71,7 +81,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -79,7 +89,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From 3b73cbf60e14d4f9e180dc56d1fb9a4243f72b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 30/62] fix: a closed p2p connection must not crash the
 process, nor a failed request close a newer connection

---
 common/pkg/fcrp2pserver/pool.go   | 24 ++++++++++++------------
 common/pkg/fcrp2pserver/server.go |  8 ++++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..97b6a39 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -95,7 +95,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	} else {
 		comm = c.activeGateways[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeGatewaysLock.Unlock()
@@ -135,38 +135,38 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	} else {
 		comm = c.activeProviders[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeProvidersLock.Unlock()
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// removeActiveGateway remove a given connection of a given gateway, and close it.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
+	// Another thread may have removed it, and there may be a new connection already.
+	if c.activeGateways[id.ToString()] == comm {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// removeActiveProvider remove a given connection of a given provider, and close it.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
+	// Another thread may have removed it, and there may be a new connection already.
+	if c.activeProviders[id.ToString()] == comm {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeProviders, id.ToString())
 	}
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..e9d16a0 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -121,7 +121,7 @@ func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int3
 	// Close connection on exit.
 	defer func() {
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P Server has error closing connection: %s", err.Error())
 		}
 	}()
 
@@ -182,7 +182,7 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -210,7 +210,7 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -238,7 +238,7 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
+		s.pool.removeActiveProvider(id, comm)
 		return nil, err
 	}
 	return response, err
-- 
2.43.0


From 04adc99ab251b6bf1de6999af7aacd1f0a6914bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 31/62] fix: an HTTP error status must not pass for success,
 and every response must be closed

---
 common/pkg/request/request.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..d73151e 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -55,6 +55,13 @@ func NewHttpCommunicator() HttpCommunications {
 	}
 }
 
+// closeBody closes the body of a response, so that its connection can be used again or is released.
+func closeBody(r *http.Response) {
+	if err := r.Body.Close(); err != nil {
+		logging.Error("Can't close response body: %s", err.Error())
+	}
+}
+
 // GetJSON request Get JSON
 func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	c.Lock()
@@ -63,13 +70,13 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer closeBody(r)
 	result, readErr := ioutil.ReadAll(r.Body)
 	if readErr != nil {
 		return nil, fmt.Errorf("can't read from JSON response, error: %s", readErr.Error())
 	}
-
-	if closeErr := r.Body.Close(); closeErr != nil {
-		return nil, closeErr
+	if r.StatusCode >= http.StatusBadRequest {
+		return nil, errors.New("GetJSON receive error code: " + r.Status)
 	}
 	return result, nil
 }
@@ -78,7 +85,10 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	c.Lock()
 	defer c.Unlock()
-	jsonData, _ := json.Marshal(data)
+	jsonData, err := json.Marshal(data)
+	if err != nil {
+		return err
+	}
 	req, err := http.NewRequest("POST", url, bytes.NewReader(jsonData))
 	if req == nil {
 		return errors.New("SendJSON error, can't create request")
@@ -89,8 +99,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err != nil {
 		return err
 	}
-	if err := r.Body.Close(); err != nil {
-		return err
+	defer closeBody(r)
+	if r.StatusCode >= http.StatusBadRequest {
+		return errors.New("SendJSON receive error code: " + r.Status)
 	}
 	return nil
 }
@@ -113,6 +124,7 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	if err != nil {
 		return nil, err
 	}
+	defer closeBody(r)
 
 	bodyBytes, err := ioutil.ReadAll(r.Body)
 	if err != nil {
@@ -127,9 +139,6 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	if err := json.Unmarshal(bodyBytes, &data); err != nil {
 		return nil, errors.New("SendMessage error, can't unmarshal request body")
 	}
-	if err := r.Body.Close(); err != nil {
-		return &data, errors.New("SendMessage error, can't close request body")
-	}
 	logging.Debug("SendMessage - received response type: %d; HTTP status code: %d", data.GetMessageType(), r.StatusCode)
 	return &data, nil
 }
@@ -146,6 +155,7 @@ func (c *HttpCommunicator) Delete(url string) error {
 	if err != nil {
 		return err
 	}
+	defer closeBody(r)
 	if r.StatusCode != http.StatusOK {
 		return fmt.Errorf("can't delete, got http status: %d", r.StatusCode)
 	}
-- 
2.43.0


From cda1bce1d0d77e8a41e5803fe186d67012349e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 32/62] fix: an underpaid DHT search or purchase must not be
 served

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go     | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go  | 1 +
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go    | 2 +-
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..39b3eaf 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -84,7 +84,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From 80f192fa0e7ceb533697f1466238f5cf4e1bef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 33/62] fix: the offer price must not change with each purchase

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 39b3eaf..575ae0a 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,7 +62,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
 	fundedPaymentChannel := make([]bool, len(offerDigests))
-- 
2.43.0


From 00a1a2603daaea9d1e3cf1758c742124c3908c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 34/62] fix: a digest of no offer of the piece must not crash
 the gateway

---
 .../clientapi/standard_discover_offer_handler.go | 16 +++++++++-------
 .../api/gatewayapi/dht_discover_offer_handler.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..2af5b41 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, exist)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 575ae0a..3bcba75 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -64,22 +64,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0)
+	fundedPaymentChannel := make([]bool, 0)
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, exist)
 	}
+	found := len(subOffers) > 0
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
-- 
2.43.0


From c709b6ae6b90c4ee9a9dd6f720c06bfb73dc7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 35/62] fix: pay a gateway the price of its offers also after a
 top up

---
 .../api/clientapi/dht_discover_offer_handler.go  | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..70c420b 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -69,25 +69,19 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
-		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
+		paychAddr, voucher, needTopup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), defaultPaymentLane, toPay)
 		if err != nil {
 			s := "Fail to pay recipient."
 			logging.Error(s + err.Error())
 			rest.Error(w, s, http.StatusBadRequest)
 			return
 		}
-		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+		if needTopup {
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
-				s := "Fail to pay recipient."
+				s := "Internal error: Failure to topup the gateway: " + targetGateway.GetAddress()
 				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
+				rest.Error(w, s, http.StatusInternalServerError)
 				return
 			}
 		}
-- 
2.43.0


From 3afe8f5285fd4bb52fe326b1a1141f0aacec1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 36/62] fix: a purchase for unknown gateways or without lists
 must not crash the handler

---
 .../api/clientapi/dht_discover_offer_handler.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 70c420b..78876f3 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "Number of digest lists and gateways differ."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
@@ -67,6 +74,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Gateway information not found for %s", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, needTopup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), defaultPaymentLane, toPay)
-- 
2.43.0


From e45e96ffc20b3385801cdcbc08a9d40374099068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 37/62] fix: there is no sub offer for a CID that is not part
 of the offer

---
 common/pkg/cidoffer/cidoffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 75c744f..6b8ec5e 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -178,6 +178,9 @@ func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error)
 	if err != nil {
 		return nil, err
 	}
+	if !proof.VerifyContent(cid, c.merkleRoot) {
+		return nil, errors.New("CID is not part of the offer")
+	}
 	return NewSubCIDOffer(c.providerID, cid, c.merkleRoot, proof, c.price, c.expiry, c.qos, c.signature), nil
 }
 
-- 
2.43.0


From eb5323f1269470a8286b0e77dffd88d01587be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 38/62] fix: a gateway stores and acknowledges only the offers
 of the provider that sends them

---
 .../api/gatewayapi/list_dht_offer_requester.go | 18 +++++++++++++++++-
 .../providerapi/publish_dht_offer_handler.go   |  4 ++++
 .../providerapi/publish_group_offer_handler.go |  4 ++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..3975c72 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -104,23 +104,39 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			logging.Error("Fail to verify the sub message")
 			continue
 		}
-		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
+		publisherID, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
 		if err != nil {
 			logging.Error("Fail to decode message")
 			continue
 		}
+		if publisherID.ToString() != providerID.ToString() {
+			logging.Error("The sub message names another provider")
+			continue
+		}
 		// Verify the offers
+		stored := true
 		for _, cidOffer := range cidOffers {
+			if cidOffer.GetProviderID() == nil || cidOffer.GetProviderID().ToString() != providerID.ToString() {
+				logging.Error("The offer names another provider")
+				stored = false
+				continue
+			}
 			if cidOffer.Verify(pubKey) != nil {
 				logging.Error("Fail to verify the offer")
+				stored = false
 				continue
 			}
 			// Store the offer
 			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
 				logging.Error("Fail to store the offer")
+				stored = false
 				continue
 			}
 		}
+		if !stored {
+			// Do not acknowledge offers that are not stored
+			continue
+		}
 
 		// Sign the offer message
 		sig, err := fcrcrypto.SignMessage(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, cidOfferMsg.GetMessageBody())
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..b1d9698 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -58,6 +58,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetProviderID() == nil || offer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Warn("Offer from %s names another provider", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..4d814a8 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -54,6 +54,10 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
+	if offer.GetProviderID() == nil || offer.GetProviderID().ToString() != providerID.ToString() {
+		logging.Warn("Offer from %s names another provider", providerID.ToString())
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 	if offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From 9049fd89466d94adbee6ffbeba60e4387c0a869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 39/62] fix: a gateway without its key or wallet refuses
 requests instead of crashing

---
 gateway/internal/api/clientapi/dht_discover_handler.go     | 7 +++++++
 gateway/internal/api/clientapi/dht_discover_handler_v2.go  | 7 +++++++
 .../internal/api/clientapi/dht_discover_offer_handler.go   | 7 +++++++
 gateway/internal/api/clientapi/establishment_handler.go    | 7 +++++++
 .../internal/api/clientapi/standard_discover_handler.go    | 7 +++++++
 .../internal/api/clientapi/standard_discover_handler_v2.go | 7 +++++++
 .../api/clientapi/standard_discover_offer_handler.go       | 7 +++++++
 gateway/internal/api/gatewayapi/dht_discover_handler.go    | 5 +++++
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go | 5 +++++
 .../internal/api/gatewayapi/dht_discover_offer_handler.go  | 5 +++++
 .../internal/api/providerapi/publish_dht_offer_handler.go  | 5 +++++
 .../api/providerapi/publish_group_offer_handler.go         | 5 +++++
 12 files changed, 74 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler.go b/gateway/internal/api/clientapi/dht_discover_handler.go
index 00f2989..96d3c89 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler.go
@@ -37,6 +37,13 @@ func HandleClientDHTCIDDiscoverRequest(w rest.ResponseWriter, request *fcrmessag
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..bf79d50 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -36,6 +36,13 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 78876f3..73d4d96 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -32,6 +32,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, allGatewaysOfferDigests, targetGatewayIDs, paymentChannel, voucher, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..b5b72f1 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler.go b/gateway/internal/api/clientapi/standard_discover_handler.go
index cf1613d..823597f 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardCIDDiscoverRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index 1fd911f..76a426e 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -32,6 +32,13 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index 2af5b41..d791c22 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler.go b/gateway/internal/api/gatewayapi/dht_discover_handler.go
index 3d00290..7356ad4 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler.go
@@ -35,6 +35,11 @@ func HandleGatewayDHTDiscoverRequest(_ *fcrp2pserver.FCRServerReader, writer *fc
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 2b6a782..dfb4b78 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 3bcba75..027b450 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil || c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO, Need to have an id
 	pieceCID, nonce, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index b1d9698..cb174ef 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -33,6 +33,11 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 4d814a8..844ec2a 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -29,6 +29,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
 	if err != nil {
-- 
2.43.0


From 1d09aeb9e2bbaaf6d77f56df59d53a1f7dc3147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 40/62] fix: a gateway does not take its key when its wallet
 cannot be set up

---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..3bab996 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
+	c.GatewayID = nodeID
+	c.GatewayPrivateKey = privKey
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From ba5080c0f71916d6ce01a0ed5c19560631087274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 41/62] fix: tell providers whether the gateway supports their
 group offers

---
 .../api/adminapi/set_group_cid_support.go     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..4bf43d5 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,14 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
@@ -42,7 +50,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
@@ -63,25 +71,32 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
     logging.Error("can't write JSON during HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest %s", err.Error())
   }
 
-	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, c.GatewayID)
+	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, providerIDs)
 }
 
-func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, callerGatewayId *nodeid.NodeID) {
+func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, supportedProviderIDs []nodeid.NodeID) {
 	for _, pvd := range providers {
 		providerID, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
 		if err != nil {
 			logging.Error("Error in generating node id")
 			continue
 		}
-		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+		thisGatewaySupportsGroupCIDOffer := false
+		for _, supportedID := range supportedProviderIDs {
+			if supportedID.ToString() == providerID.ToString() {
+				thisGatewaySupportsGroupCIDOffer = true
+				break
+			}
+		}
+		go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, thisGatewaySupportsGroupCIDOffer)
 	}
 }
 
-func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
+func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, thisGatewaySupportsGroupCIDOffer bool) {
+  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer)
   if err != nil {
-    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
+    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID.ToString())
+    return
   }
   logging.Info("Provider response: %v", providerResponse)
 }
-- 
2.43.0


From dc7e98b8550a1f6fdfefd8528fc9775878758835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 42/62] fix: a provider does not take its key when its wallet
 cannot be set up

---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..c813b56 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
+	c.ProviderID = nodeID
+	c.ProviderPrivateKey = privKey
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From e0eb63fc2142f2f9452bbd1f497f268c51792443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 43/62] fix: a provider stores each DHT offer and sends it
 once, to the gateways near its piece

---
 .../api/adminapi/publish_dht_offer_handler.go | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..9e04796 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -76,14 +76,17 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	}
 
 	// Add offers
-	for _, offer := range offers {
-		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
-      logging.Error("can't add DHT offer: %v", offer)
+	for i := range offers {
+		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
+      logging.Error("can't add DHT offer: %v", offers[i])
     }
 	}
 
-	for _, contendID := range cids {
-		gateways, err := c.RegisterMgr.GetGatewaysNearCID(&contendID, 16, nil)
+	// Each gateway is sent the offers whose cid is near to it
+	gatewayOffers := make(map[string][]cidoffer.CIDOffer)
+	gatewayIDs := make([]string, 0)
+	for i := range cids {
+		gateways, err := c.RegisterMgr.GetGatewaysNearCID(&cids[i], 16, nil)
 		if err != nil {
 			s := "Internal error: Fail to get gateways near the given cid."
 			logging.Error(s + err.Error())
@@ -91,18 +94,25 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 			return
 		}
 		for _, gw := range gateways {
-			logging.Info("Published to: %v", gw.GetNodeID())
-			gatewayID, err := nodeid.NewNodeIDFromHexString(gw.GetNodeID())
-			if err != nil {
-				s := "Fail to generate node id."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers, gatewayID)
-			if err != nil {
-				logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
+			if _, ok := gatewayOffers[gw.GetNodeID()]; !ok {
+				gatewayIDs = append(gatewayIDs, gw.GetNodeID())
 			}
+			gatewayOffers[gw.GetNodeID()] = append(gatewayOffers[gw.GetNodeID()], offers[i])
+		}
+	}
+
+	for _, id := range gatewayIDs {
+		logging.Info("Published to: %v", id)
+		gatewayID, err := nodeid.NewNodeIDFromHexString(id)
+		if err != nil {
+			s := "Fail to generate node id."
+			logging.Error(s + err.Error())
+			rest.Error(w, s, http.StatusBadRequest)
+			return
+		}
+		_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, gatewayOffers[id], gatewayID)
+		if err != nil {
+			logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
 		}
 	}
 
-- 
2.43.0


From dba4e8060ed952769d2bf87e8e546ddea5637779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 44/62] fix: a provider without its key refuses requests
 instead of crashing

---
 provider/internal/api/clientapi/dht_offer_ack_handler.go   | 7 +++++++
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 5 +++++
 .../api/gatewayapi/notify_group_cid_offer_supported.go     | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..a41182e 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..dd6d495 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -34,6 +34,11 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, cidMin, cidMax, registrationBlock, registrationTransactionReceipt, registrationMerkleRoot, registrationMerkleProof, err := fcrmessages.DecodeGatewayListDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..1908d5c 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -28,6 +28,11 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, groupCIDOfferSupported, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		// Reply with invalid message
-- 
2.43.0


From b9e3a235295c4bfb97e4e8a683826db454491599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 45/62] fix: a provider records acknowledgements of listed
 offers for pieces it has none for

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index dd6d495..6fa8d04 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -155,7 +155,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 17650811ce58989fe0bdaa7cfbefea6fb5c324fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 46/62] fix: a provider keeps which gateways support its group
 offers

---
 .../notify_group_cid_offer_supported.go       | 25 +++++++++++--------
 provider/internal/core/core.go                |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 1908d5c..c4fc003 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -20,7 +20,6 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/slice"
 	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
 )
 
@@ -57,7 +56,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -78,26 +79,30 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	return nil
 }
 
-// updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
-	if err != nil {
-		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
+// updateGatewaysSupportingGroupCIDOffer returns the updated collection of Gateway IDs supporting Group CID Offer
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	foundIndex := -1
+	for i := range savedGateways {
+		if savedGateways[i].ToString() == gatewayID.ToString() {
+			foundIndex = i
+			break
+		}
 	}
 
 	if groupCIDOfferSupported {
-		if !exists {
+		if foundIndex < 0 {
 			// add new
 			savedGateways = append(savedGateways, *gatewayID)
 		}
-		return
+		return savedGateways
 	}
 
 	// groupCIDOfferSupported == false
 	// Group CID Offer should NOT be supported for this Provider
-	if exists {
+	if foundIndex >= 0 {
 		// remove existing
 		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
 		savedGateways = savedGateways[:len(savedGateways)-1]
 	}
+	return savedGateways
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..33fc68d 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.Mutex
 }
 
 // Single instance of the provider
-- 
2.43.0


From d6c8f28916e28f503e613aa6a5a59f1e7dbb4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 47/62] fix: the client returns only offers for the asked cid
 that it verified

---
 .../fcrclient/filecoin_retrieval_client.go    | 105 +++++-------------
 1 file changed, 26 insertions(+), 79 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..5140f1d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,38 +305,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
-	// Verify the offer one by one
-	for _, offer := range offers {
-		// Get provider's pubkey
-		provider := c.registerMgr.GetProvider(offer.GetProviderID())
-		if provider == nil {
-			logging.Error("Error getting provider info.")
-			continue
-		}
-		if !validateProviderInfo(provider) {
-			logging.Error("Provider register info not valid.")
-			continue
-		}
-		pubKey, err := provider.GetSigningKey()
-		if err != nil {
-			logging.Error("Fail to obtain public key.")
-			continue
-		}
-		// Verify the offer sig
-		err = offer.Verify(pubKey)
-		if err != nil {
-			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
-		// Now Verify the merkle proof
-		if offer.VerifyMerkleProof() != nil {
-			logging.Error("Merkle proof verification failed.")
-			continue
-		}
-		// Offer pass verification
-		logging.Info("Offer pass every verification, added to result")
-	}
-	return offers, nil
+	return c.verifiedOffers(contentID, offers), nil
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
@@ -388,38 +357,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 			logging.Error("Fail to decode response")
 			continue
 		}
-		entry := make([]cidoffer.SubCIDOffer, 0)
-		for _, offer := range offers {
-			// Get provider's pubkey
-			provider := c.registerMgr.GetProvider(offer.GetProviderID())
-			if provider == nil {
-				logging.Error("Error getting provider info.")
-				continue
-			}
-			if !validateProviderInfo(provider) {
-				logging.Error("Provider register info not valid.")
-				continue
-			}
-			pubKey, err := provider.GetSigningKey()
-			if err != nil {
-				logging.Error("Fail to obtain public key.")
-				continue
-			}
-			// Verify the offer sig
-			err = offer.Verify(pubKey)
-			if err != nil {
-				logging.Error("Offer signature fail to verify 5, with error: " + fmt.Sprintf("%v", err))
-				continue
-			}
-			// Now Verify the merkle proof
-			if offer.VerifyMerkleProof() != nil {
-				logging.Error("Merkle proof verification failed.")
-				continue
-			}
-			// Offer pass verification
-			entry = append(entry, offer)
-			logging.Info("Offer pass every verification, added to result")
-		}
+		entry := c.verifiedOffers(contentID, offers)
 		offersMap[id.ToString()] = &entry
 	}
 
@@ -556,7 +494,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
 	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		offers := c.verifiedOffers(contentID, entry.SubOffers)
+		offersMap[entry.GatewayID.ToString()] = &offers
 	}
 
 	return offersMap, nil
@@ -720,9 +659,26 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
 
-	var validOffers []cidoffer.SubCIDOffer
-	// Verify the offer one by one
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
+
+	validOffers := c.verifiedOffers(contentID, offers)
+	if len(validOffers) > maxOffers {
+		validOffers = validOffers[:maxOffers]
+	}
+
+	return validOffers, nil
+}
+
+// verifiedOffers returns those of the offers that are for the given cid, are signed by a registered provider and have a valid merkle proof
+func (c *FilecoinRetrievalClient) verifiedOffers(contentID *cid.ContentID, offers []cidoffer.SubCIDOffer) []cidoffer.SubCIDOffer {
+	res := make([]cidoffer.SubCIDOffer, 0)
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is for another cid.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -733,10 +689,6 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("Provider register info not valid.")
 			continue
 		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
 		pubKey, err := provider.GetSigningKey()
 		if err != nil {
 			logging.Error("Fail to obtain public key.")
@@ -745,7 +697,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		// Verify the offer sig
 		err = offer.Verify(pubKey)
 		if err != nil {
-			logging.Error("Offer signature fail to verify 2, with error: " + fmt.Sprintf("%v", err))
+			logging.Error("Offer signature fail to verify, with error: " + fmt.Sprintf("%v", err))
 			continue
 		}
 		// Now Verify the merkle proof
@@ -754,15 +706,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			continue
 		}
 		// Offer pass verification
+		res = append(res, offer)
 		logging.Info("Offer pass every verification, added to result")
-
-		validOffers = append(validOffers, offer)
-		if len(validOffers) == maxOffers {
-			break
-		}
 	}
-
-	return validOffers, nil
+	return res
 }
 
 func (c *FilecoinRetrievalClient) topupAndPay(recipient string, paymentLane uint64, amount *big.Int) (paymentChannel string, voucher string, err error) {
-- 
2.43.0


From faf3a43b984f3f3d88d548abc64043d884726b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 48/62] fix: the client checks that the answer to a paid DHT
 offer request is to that request

---
 .../api/clientapi/dht_discover_offer_requester.go   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..e47e76b 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -70,10 +70,16 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	cID, nonceRecv, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
 	}
+	if cID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID Mismatch")
+	}
+	if nonce != nonceRecv {
+		return nil, errors.New("nonce mismatch")
+	}
 	if len(gatewayIDs) != len(fcrMessages) {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
 	}
@@ -81,10 +87,11 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopupCl)
 	}
 	var result []GatewaySubOffers
-	for idx, fcrMessage := range fcrMessages {
-		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
+	for idx := range fcrMessages {
+		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessages[idx])
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
 		}
 		if paymentRequired {
 			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
-- 
2.43.0


From 2910bb53dc3f0ffb7cef0837a4f9bab11e65670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 49/62] fix: the client asks each gateway for the offers that
 this gateway found

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 5140f1d..672caab 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -419,6 +419,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 
 	var addedSubOffersCount int
+	var offersGateways []nodeid.NodeID
 	var offersDigestsFromAllGateways [][]string
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
@@ -452,13 +453,14 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
 		}
 		if !found {
-			return offersMap, nil
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
 			offerDigests = offerDigests[:(offersNumberLimit - addedSubOffersCount)]
 		}
 
+		offersGateways = append(offersGateways, contactedGatewayID)
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
 		addedSubOffersCount += len(offerDigests)
 
@@ -489,7 +491,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, offersGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From 22a30d273249e93db0fb963c502d44ac7bcc02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 50/62] fix: the client pays its search price to the gateway
 for a DHT search, also when asked to pay again

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 672caab..23c54a2 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -378,7 +378,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
@@ -400,7 +400,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
-- 
2.43.0


From bfe68d85dcf81034bfdec152fbf87b4a31ef14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 51/62] fix: a search that is not paid for after a second
 payment is an error

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 23c54a2..dfcee58 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -411,7 +411,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 		}
 		if paymentRequired {
-			logging.Error("gateway DHT discovery error: received 'payment required' twice")
+			return nil, errors.New("gateway DHT discovery error: received 'payment required' twice")
 		}
 	}
 	for i := 0; i < len(uncontactable); i++ {
@@ -629,7 +629,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			return make([]cidoffer.SubCIDOffer, 0), fmt.Errorf("error getting offer from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
 		}
 		if paymentRequired {
-			logging.Error("find offers standard discovery - received 'payment required' twice")
+			return make([]cidoffer.SubCIDOffer, 0), errors.New("find offers standard discovery - received 'payment required' twice")
 		}
 	}
 	if len(offerDigests) == 0 {
-- 
2.43.0


From 92156e6ae600173110650cf5d1a7ecc33f284852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 52/62] fix: the client does not pay for offers when the
 gateways found none

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index dfcee58..635cd46 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -475,7 +475,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		unit += len(entry)
 	}
 	if unit == 0 {
-		logging.Warn("have zero offer digests from all gateways, about to pay amount of 0")
+		return offersMap, nil
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
-- 
2.43.0


From 8905c737b5731517410b5a5982becad8b47e43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 53/62] fix: the client returns at most the number of offers
 asked for, also when that is none or negative

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 635cd46..f0e4a29 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -368,6 +368,9 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 // offersNumberLimit - maximum number of offers the client asking to have
 func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.ContentID, gatewayID *nodeid.NodeID, numDHT int64, offersNumberLimit int) (map[string]*[]cidoffer.SubCIDOffer, error) {
 	offersMap := make(map[string]*[]cidoffer.SubCIDOffer)
+	if offersNumberLimit < 0 {
+		offersNumberLimit = 0
+	}
 
 	c.ActiveGatewaysLock.RLock()
 	defer c.ActiveGatewaysLock.RUnlock()
@@ -497,6 +500,10 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	for _, entry := range allGatewaysOffers {
 		offers := c.verifiedOffers(contentID, entry.SubOffers)
+		if len(offers) > offersNumberLimit {
+			offers = offers[:offersNumberLimit]
+		}
+		offersNumberLimit -= len(offers)
 		offersMap[entry.GatewayID.ToString()] = &offers
 	}
 
@@ -595,6 +602,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
+	if maxOffers < 0 {
+		maxOffers = 0
+	}
 
 	// It will call the payment manager to pay for the initial request
 	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
@@ -642,6 +652,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	if len(offerDigests) > maxOffers {
 		offerDigests = offerDigests[:maxOffers]
 	}
+	if len(offerDigests) == 0 {
+		// No offer wanted
+		return cidOffers, nil
+	}
 
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
-- 
2.43.0


From dd6f145c92bdec6631423c8d0f6480e5450c10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 54/62] fix: a paid search without a payment manager is an
 error and no crash

---
 .../pkg/fcrclient/filecoin_retrieval_client.go   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index f0e4a29..e31210d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -382,7 +382,11 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
-	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
+	paymentMgr := c.PaymentMgr()
+	if paymentMgr == nil {
+		return nil, errors.New("payment manager is not available")
+	}
+	paymentChannel, voucher, needTopup, err := paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
 	}
@@ -482,7 +486,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
-	paymentChannel, voucher, needTopup, err = c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
+	paymentChannel, voucher, needTopup, err = paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
 	}
@@ -607,7 +611,11 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paymentMgr := c.PaymentMgr()
+	if paymentMgr == nil {
+		return cidOffers, errors.New("payment manager is not available")
+	}
+	paychAddr, voucher, topup, err := paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -660,7 +668,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From dd4d248c0ab87a284619673d9a22b5477412c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 55/62] fix: the payment manager is read under its lock

---
 .../pkg/fcrclient/filecoin_retrieval_client.go   | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index e31210d..37a336e 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -77,17 +77,15 @@ func NewFilecoinRetrievalClient(settings ClientSettings, registerMgr *fcrregiste
 
 func (c *FilecoinRetrievalClient) PaymentMgr() *fcrpaymentmgr.FCRPaymentMgr {
 	// lazy init
+	c.paymentMgrLock.Lock()
+	defer c.paymentMgrLock.Unlock()
 	if c.paymentMgr == nil {
-		c.paymentMgrLock.Lock()
-		defer c.paymentMgrLock.Unlock()
-		if c.paymentMgr == nil {
-			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
-			if err != nil {
-				logging.Error("Error initializing payment manager.")
-				return nil
-			}
-			c.paymentMgr = mgr
+		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
+		if err != nil {
+			logging.Error("Error initializing payment manager.")
+			return nil
 		}
+		c.paymentMgr = mgr
 	}
 
 	return c.paymentMgr
-- 
2.43.0


From 1332157c330f23aec826a18e6ee4bbb91e47d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 56/62] fix: no gateways are located when none are asked for

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 37a336e..207cfc7 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -104,6 +104,9 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 	res := make([]*nodeid.NodeID, 0)
 	count := 0
 	for _, info := range gateways {
+		if count >= maxNumToLocate {
+			break
+		}
 		if info.GetRegionCode() == location {
 			nodeID, err := nodeid.NewNodeIDFromHexString(info.GetNodeID())
 			if err != nil {
@@ -112,9 +115,6 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 			}
 			res = append(res, nodeID)
 			count++
-			if count >= maxNumToLocate {
-				break
-			}
 		}
 	}
 	return res, nil
-- 
2.43.0


From 6a71cfe9cc4548ee52c6c9fa4c880c4e0303713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 57/62] fix: nil gateway ids are skipped, as they are when
 gateways to use are added

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 207cfc7..a8b3b07 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -160,6 +160,10 @@ func (c *FilecoinRetrievalClient) RemoveGatewaysToUse(gwNodeIDs []*nodeid.NodeID
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove a gateway, a nil was given")
+			continue
+		}
 		_, exist := c.GatewaysToUse[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.GatewaysToUse, gwToRemoveID.ToString())
@@ -211,6 +215,10 @@ func (c *FilecoinRetrievalClient) GetGatewaysToUse() []*nodeid.NodeID {
 func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID) int {
 	numAdded := 0
 	for _, gwToAddID := range gwNodeIDs {
+		if gwToAddID == nil {
+			logging.Error("can't add an active gateway, a nil was given")
+			continue
+		}
 		c.ActiveGatewaysLock.RLock()
 		_, exist := c.ActiveGateways[gwToAddID.ToString()]
 		c.ActiveGatewaysLock.RUnlock()
@@ -249,6 +257,10 @@ func (c *FilecoinRetrievalClient) RemoveActiveGateways(gwNodeIDs []*nodeid.NodeI
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove a gateway, a nil was given")
+			continue
+		}
 		_, exist := c.ActiveGateways[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.ActiveGateways, gwToRemoveID.ToString())
-- 
2.43.0


From a30d14165e2743aaec45d45b1e45d8de695815bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 58/62] fix: a gateway that is removed while it is contacted
 does not become active

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index a8b3b07..da9521d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -242,9 +242,16 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			continue
 		}
 		// It is success
+		c.GatewaysToUseLock.RLock()
+		if _, exist = c.GatewaysToUse[gwToAddID.ToString()]; !exist {
+			// It was removed in the meantime
+			c.GatewaysToUseLock.RUnlock()
+			continue
+		}
 		c.ActiveGatewaysLock.Lock()
 		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
 		c.ActiveGatewaysLock.Unlock()
+		c.GatewaysToUseLock.RUnlock()
 		numAdded++
 	}
 	return numAdded
-- 
2.43.0


From 6e448366301fc093562ddc762a7e9ce1e9eb29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 59/62] fix: the acknowledgement of a listed DHT offer is
 signed, so that clients can verify it

---
 gateway/internal/api/gatewayapi/list_dht_offer_requester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index 3975c72..378efa9 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -147,6 +147,10 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 		if err != nil {
 			return nil, err
 		}
+		// Sign the ack, it is what a client verifies
+		if cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion) != nil {
+			return nil, errors.New("error in signing the ack")
+		}
 		cidOfferMsgAcks = append(cidOfferMsgAcks, *cidOfferMsgAck)
 	}
 	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(cidOfferMsgAcks)
-- 
2.43.0


From 9a13c57af427b0dd61a854da97db2c3cae225c50 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 60/62] fix: the admins find a node again whose registered id
 is in upper case

---
 .../fcrgatewayadmin/filecoin-gateway-admin.go | 25 +++++++++++--------
 .../filecoin_provider_admin.go                | 18 ++++++++-----
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go b/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
index 6a3d3de..7271c0f 100644
--- a/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
+++ b/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
@@ -57,10 +57,7 @@ func (c *FilecoinRetrievalGatewayAdmin) InitialiseGateway(gatewayRegistrar regis
 	}
 
 	// Add this gateway to the active gateways list
-	c.ActiveGatewaysLock.Lock()
-	c.ActiveGateways[gatewayRegistrar.GetNodeID()] = gatewayRegistrar
-  c.ActiveGatewaysLock.Unlock()
-	return nil
+	return c.addActiveGateway(gatewayRegistrar)
 }
 
 // InitialiseGatewayV2 initialise a given v2 gateway
@@ -87,10 +84,7 @@ func (c *FilecoinRetrievalGatewayAdmin) InitialiseGatewayV2(
 	}
 
 	// Add this gateway to the active gateways list
-	c.ActiveGatewaysLock.Lock()
-	c.ActiveGateways[gatewayRegistrar.GetNodeID()] = gatewayRegistrar
-	c.ActiveGatewaysLock.Unlock()
-	return nil
+	return c.addActiveGateway(gatewayRegistrar)
 }
 
 // ResetClientReputation requests a Gateway to initialise a client's reputation to the default value.
@@ -131,13 +125,22 @@ func (c *FilecoinRetrievalGatewayAdmin) ListDHTOffer(gatewayID *nodeid.NodeID) e
 }
 
 func (c *FilecoinRetrievalGatewayAdmin) UpdateGatewaySupportedFeatures(gatewayRegistrar register.GatewayRegistrar, providers []nodeid.NodeID) error {
-	c.ActiveGatewaysLock.Lock()
-	defer c.ActiveGatewaysLock.Unlock()
 	err := c.AdminApiCaller.SetGroupCIDOfferSupportedForProviders(gatewayRegistrar, providers, c.Settings.gatewayAdminPrivateKey, c.Settings.gatewayAdminPrivateKeyVer)
 	if err != nil {
 		return err
 	}
 
-	c.ActiveGateways[gatewayRegistrar.GetNodeID()] = gatewayRegistrar
+	return c.addActiveGateway(gatewayRegistrar)
+}
+
+// addActiveGateway adds the gateway to the active gateways list, by its id in the form in which it is looked up
+func (c *FilecoinRetrievalGatewayAdmin) addActiveGateway(gatewayRegistrar register.GatewayRegistrar) error {
+	gatewayID, err := nodeid.NewNodeIDFromHexString(gatewayRegistrar.GetNodeID())
+	if err != nil {
+		return err
+	}
+	c.ActiveGatewaysLock.Lock()
+	defer c.ActiveGatewaysLock.Unlock()
+	c.ActiveGateways[gatewayID.ToString()] = gatewayRegistrar
 	return nil
 }
diff --git a/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go b/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
index 5597b88..2f088fe 100644
--- a/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
+++ b/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
@@ -57,10 +57,7 @@ func (c *FilecoinRetrievalProviderAdmin) InitialiseProvider(providerRegistrar re
 	}
 
 	// Add this provider to the active providers list
-	c.ActiveProvidersLock.Lock()
-	c.ActiveProviders[providerRegistrar.GetNodeID()] = providerRegistrar
-	c.ActiveProvidersLock.Unlock()
-	return nil
+	return c.addActiveProvider(providerRegistrar)
 }
 
 // InitialiseProviderV2 initialise a given v2 provider
@@ -87,9 +84,18 @@ func (c *FilecoinRetrievalProviderAdmin) InitialiseProviderV2(
 	}
 
 	// Add this provider to the active providers list
+	return c.addActiveProvider(providerRegistrar)
+}
+
+// addActiveProvider adds the provider to the active providers list, by its id in the form in which it is looked up
+func (c *FilecoinRetrievalProviderAdmin) addActiveProvider(providerRegistrar register.ProviderRegistrar) error {
+	providerID, err := nodeid.NewNodeIDFromHexString(providerRegistrar.GetNodeID())
+	if err != nil {
+		return err
+	}
 	c.ActiveProvidersLock.Lock()
-	c.ActiveProviders[providerRegistrar.GetNodeID()] = providerRegistrar
-	c.ActiveProvidersLock.Unlock()
+	defer c.ActiveProvidersLock.Unlock()
+	c.ActiveProviders[providerID.ToString()] = providerRegistrar
 	return nil
 }
 
-- 
2.43.0


From 83785f0271d62dbd0d1561d183798b08f0753ef2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 61/62] fix: a missing node id is an error of the admins and no
 crash

---
 .../pkg/fcrgatewayadmin/filecoin-gateway-admin.go    |  6 ++++++
 .../pkg/fcrprovideradmin/filecoin_provider_admin.go  | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go b/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
index 7271c0f..980c0f4 100644
--- a/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
+++ b/gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go
@@ -104,6 +104,9 @@ func (c *FilecoinRetrievalGatewayAdmin) GetCIDOffersList() ([]cidoffer.CIDOffer,
 
 // ForceUpdate forces the provider to update its internal register
 func (c *FilecoinRetrievalGatewayAdmin) ForceUpdate(gatewayID *nodeid.NodeID) error {
+	if gatewayID == nil {
+		return errors.New("no gateway id")
+	}
 	c.ActiveGatewaysLock.RLock()
 	defer c.ActiveGatewaysLock.RUnlock()
   gatewayRegistrar, exists := c.ActiveGateways[gatewayID.ToString()]
@@ -115,6 +118,9 @@ func (c *FilecoinRetrievalGatewayAdmin) ForceUpdate(gatewayID *nodeid.NodeID) er
 
 // ListDHTOffer asks the gateway to list dht offer from providers
 func (c *FilecoinRetrievalGatewayAdmin) ListDHTOffer(gatewayID *nodeid.NodeID) error {
+	if gatewayID == nil {
+		return errors.New("no gateway id")
+	}
 	c.ActiveGatewaysLock.RLock()
 	defer c.ActiveGatewaysLock.RUnlock()
   gatewayRegistrar, exists := c.ActiveGateways[gatewayID.ToString()]
diff --git a/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go b/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
index 2f088fe..0e9dd02 100644
--- a/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
+++ b/provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go
@@ -101,6 +101,9 @@ func (c *FilecoinRetrievalProviderAdmin) addActiveProvider(providerRegistrar reg
 
 // PublishGroupCID publish a group cid offer to a given provider
 func (c *FilecoinRetrievalProviderAdmin) PublishGroupCID(providerID *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) error {
+	if providerID == nil {
+		return errors.New("no provider id")
+	}
 	c.ActiveProvidersLock.RLock()
 	defer c.ActiveProvidersLock.RUnlock()
 	providerRegistrar, exists := c.ActiveProviders[providerID.ToString()]
@@ -112,6 +115,9 @@ func (c *FilecoinRetrievalProviderAdmin) PublishGroupCID(providerID *nodeid.Node
 
 // PublishDHTCID publish a dht cid offer to a given provider
 func (c *FilecoinRetrievalProviderAdmin) PublishDHTCID(providerID *nodeid.NodeID, cids []cid.ContentID, price []uint64, expiry []int64, qos []uint64) error {
+	if providerID == nil {
+		return errors.New("no provider id")
+	}
 	c.ActiveProvidersLock.RLock()
 	defer c.ActiveProvidersLock.RUnlock()
 	providerRegistrar, exists := c.ActiveProviders[providerID.ToString()]
@@ -123,6 +129,9 @@ func (c *FilecoinRetrievalProviderAdmin) PublishDHTCID(providerID *nodeid.NodeID
 
 // GetGroupCIDOffer checks the group offer stored in the provider
 func (c *FilecoinRetrievalProviderAdmin) GetGroupCIDOffer(providerID *nodeid.NodeID, gatewayIDs []nodeid.NodeID) (bool, []cidoffer.CIDOffer, error) {
+	if providerID == nil {
+		return false, nil, errors.New("no provider id")
+	}
 	c.ActiveProvidersLock.RLock()
 	defer c.ActiveProvidersLock.RUnlock()
 	providerRegistrar, exists := c.ActiveProviders[providerID.ToString()]
@@ -134,6 +143,9 @@ func (c *FilecoinRetrievalProviderAdmin) GetGroupCIDOffer(providerID *nodeid.Nod
 
 // ForceUpdate forces the provider to update its internal register
 func (c *FilecoinRetrievalProviderAdmin) ForceUpdate(providerID *nodeid.NodeID) error {
+	if providerID == nil {
+		return errors.New("no provider id")
+	}
 	c.ActiveProvidersLock.RLock()
 	defer c.ActiveProvidersLock.RUnlock()
 	providerRegistrar, exists := c.ActiveProviders[providerID.ToString()]
-- 
2.43.0


From 1a42b846dbefe60dab4469e599607491195846d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 62/62] fix: a price that is not a whole number gives the
 default, not its first digits

---
 gateway/config/config.go  | 16 ++++++----------
 provider/config/config.go | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/gateway/config/config.go b/gateway/config/config.go
index 435b399..7d5de88 100644
--- a/gateway/config/config.go
+++ b/gateway/config/config.go
@@ -5,7 +5,6 @@ package config
 
 import (
   "flag"
-  "fmt"
   "math/big"
   "time"
 
@@ -41,23 +40,20 @@ func Map(conf *viper.Viper) settings.AppSettings {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(conf.GetString("SEARCH_PRICE"), 0)
+	if !ok {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(conf.GetString("OFFER_PRICE"), 0)
+	if !ok {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(conf.GetString("TOPUP_AMOUNT"), 0)
+	if !ok {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
diff --git a/provider/config/config.go b/provider/config/config.go
index 4535063..95bebcc 100644
--- a/provider/config/config.go
+++ b/provider/config/config.go
@@ -5,7 +5,6 @@ package config
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"math/big"
 	"strconv"
@@ -51,23 +50,20 @@ func Map(conf *viper.Viper) settings.AppSettings {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(conf.GetString("SEARCH_PRICE"), 0)
+	if !ok {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(conf.GetString("OFFER_PRICE"), 0)
+	if !ok {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(conf.GetString("TOPUP_AMOUNT"), 0)
+	if !ok {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
-- 
2.43.0

