From 9dc720b77b2f31c526205a5c16f982345dda116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 001/107] fix: dhtring Remove of an absent entry must not empty
 a single entry ring

---
 common/pkg/dhtring/dhtring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..38a8628 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,6 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
+		if r.head.val != hex {
+			// Not existed
+			return
+		}
 		r.head = nil
 		r.size = 0
 		return
-- 
2.43.0


From 1b01ecbc3663cd5d0f2a3c8f64f73d9d84ba727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 002/107] fix: dhtring Remove of the head must unlink it from
 the tail

---
 common/pkg/dhtring/dhtring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 38a8628..d360f81 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -182,7 +182,8 @@ func (r *Ring) Remove(hex string) {
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		oldHead.prv.next = r.head
+		r.head.prv = oldHead.prv
 		// update distances
 		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-- 
2.43.0


From 69df456359b521dddcc50414de03121628d5d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 003/107] fix: dhtring GetClosest must not drop entries when
 asked for more than the ring holds

---
 common/pkg/dhtring/dhtring.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index d360f81..050c5c2 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -236,7 +236,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num == 0 || r.size == 0 || (r.size == 1 && r.head.val == exclude) {
 		return res, nil
 	}
 	// Consider exclusion
@@ -248,9 +248,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		}
 	}
 	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
+		res = append(res, r.head.val)
 		current := r.head.next
 		for current != nil && current.val != r.head.val {
 			res = append(res, current.val)
-- 
2.43.0


From 12623f51620b48962d617c68b68be4acfe9cab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 004/107] fix: dhtring GetWithinRange with equal ends must
 return that entry once, or nothing

---
 common/pkg/dhtring/dhtring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 050c5c2..aa09c6f 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -319,6 +319,13 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
+	if startHex == endHex {
+		// The range has a single point
+		if r.get(startHex) != nil {
+			res = append(res, startHex)
+		}
+		return res, nil
+	}
 	var startNode *ringNode
 	var endNode *ringNode
 	addStart := false
-- 
2.43.0


From 9d7ebf79bc4a8a634a0549c4a4122773d1755f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 005/107] fix: payment manager must not share its balance with
 the amount of the caller

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..dcebcbe 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -167,7 +167,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *new(big.Int).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From 80091cfc0dfa844c0ab0eac38311a9797d30c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 006/107] fix: Receive must reject a state that is not a
 payment channel instead of panicking

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index dcebcbe..78846b1 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -304,6 +304,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if !ok {
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
+	toStr, okTo := paychState["To"].(string)
+	fromStr, okFrom := paychState["From"].(string)
+	if !okTo || !okFrom || state.Balance.Int == nil {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
 
 	// Get channel state from local storage
 	mgr.inboundChsLock.RLock()
@@ -336,7 +341,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	to, err := address.NewFromString(toStr)
 	if err != nil {
 		return nil, err
 	}
@@ -349,7 +354,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	f, err := address.NewFromString(fromStr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8159675db7e541686fdcf65706d46c4a369b4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 007/107] fix: Receive must credit a voucher only on the
 channel it was signed for

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 78846b1..41b4cb7 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -287,6 +287,14 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// The voucher is only redeemable on the channel it names. The channel must be given by its
+	// actor address, so that one channel has one local state and vouchers cannot be credited twice.
+	if channelAddr.Protocol() != address.Actor {
+		return nil, fmt.Errorf("receive voucher method failed, not a payment channel address: %s", channelAddr.String())
+	}
+	if sv.ChannelAddr != channelAddr {
+		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s, not %s", sv.ChannelAddr.String(), channelAddr.String())
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 7c90883ed27b540e7a14fedade725892286ebf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 008/107] fix: Receive must keep one state per channel however
 its address is written

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 41b4cb7..234f991 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -320,7 +320,8 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 
 	// Get channel state from local storage
 	mgr.inboundChsLock.RLock()
-	cs, ok := mgr.inboundChs[channel]
+	channelKey := channelAddr.String()
+	cs, ok := mgr.inboundChs[channelKey]
 	if !ok {
 		// Need to create a entry in local storage
 		mgr.inboundChsLock.RUnlock()
@@ -333,7 +334,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
 		}
-		mgr.inboundChs[channel] = cs
+		mgr.inboundChs[channelKey] = cs
 	} else {
 		// Need to update the channel state
 		defer mgr.inboundChsLock.RUnlock()
-- 
2.43.0


From a573f2c0c9651b698f72708a84af752847cb08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 009/107] fix: Receive must not let the highest nonce wrap the
 lane nonce around

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 234f991..a0c9821 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -27,6 +27,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"net/http"
 	"sync"
@@ -391,6 +392,10 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		}
 		cs.laneStates[sv.Lane] = ls
 	}
+	if sv.Nonce == math.MaxUint64 {
+		// There is no nonce after this one.
+		return nil, errors.New("nonce is too big")
+	}
 	if ls.nonce > sv.Nonce {
 		// Nonce not match.
 		return nil, errors.New("nonce is smaller than local stored value")
-- 
2.43.0


From 8f726c4582c5fa3e0d9ac448b08344d78328b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 010/107] fix: concurrent first top ups of a recipient must
 create one channel

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index a0c9821..69b2888 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -136,6 +136,11 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
+		if _, ok := mgr.outboundChs[recipient]; ok {
+			// The channel has been created in the meantime
+			mgr.outboundChsLock.Unlock()
+			return mgr.Topup(recipient, amount)
+		}
 		defer mgr.outboundChsLock.Unlock()
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
-- 
2.43.0


From a8cbbb877829addcc9b0f9e5df39b849bd5ad499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 011/107] fix: concurrent first vouchers on a channel must
 share one channel state

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 69b2888..ce22daa 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -332,6 +332,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		// Need to create a entry in local storage
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
+		if _, ok := mgr.inboundChs[channelKey]; ok {
+			// The local state has been created in the meantime
+			mgr.inboundChsLock.Unlock()
+			return mgr.Receive(channel, voucher)
+		}
 		defer mgr.inboundChsLock.Unlock()
 		cs = &channelState{
 			addr:       channelAddr,
-- 
2.43.0


From d4c31034d6abd8338e5c948850932521ffd7195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 012/107] fix: concurrent top ups must not sign chain messages
 with the same nonce

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 36 +++++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index ce22daa..1f13b42 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -65,6 +65,8 @@ type FCRPaymentMgr struct {
 	// map[paych addr] -> channel state
 	inboundChs     map[string]*channelState
 	inboundChsLock sync.RWMutex
+	// pushLock serialises messages sent to the chain
+	pushLock sync.Mutex
 }
 
 // channelState represents the state of a channel
@@ -148,15 +150,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			logging.Debug("error in Topup Create %s", err.Error())
 			return err
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.pushMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -191,15 +187,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			Value:  lotusbig.NewFromGo(amount),
 			Method: 0,
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.pushMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -446,6 +436,24 @@ func encodedVoucher(sv *paych.SignedVoucher) (string, error) {
 	return base64.RawURLEncoding.EncodeToString(buf.Bytes()), nil
 }
 
+// pushMsg fills, signs and sends a given message. One message at a time, because the nonce of the
+// next message is only known once the previous one has been sent.
+func (mgr *FCRPaymentMgr) pushMsg(api *apistruct.FullNodeStruct, msg *types.Message) (cid.Cid, error) {
+	mgr.pushLock.Lock()
+	defer mgr.pushLock.Unlock()
+	signedMsg, err := fillMsg(mgr.privKey, api, msg)
+	if err != nil {
+		logging.Debug("error in Topup fillMsg: %s", err.Error())
+		return cid.Undef, err
+	}
+	contentID, err := api.MpoolPush(context.Background(), signedMsg)
+	if err != nil {
+		logging.Debug("error in Topup MpoolPush: %s", err.Error())
+		return cid.Undef, err
+	}
+	return contentID, nil
+}
+
 // fillMsg will fill the gas and sign a given message
 func fillMsg(privKey []byte, api *apistruct.FullNodeStruct, msg *types.Message) (*types.SignedMessage, error) {
 	//TODO: pass context to here?
-- 
2.43.0


From 3ba2b81c86023d3949f2b7ad06a1fbc7333642c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 013/107] fix: listing DHT offers within a range must respect a
 limit of zero

---
 common/pkg/fcroffermgr/offer_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..d2bb5c3 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -79,6 +79,9 @@ func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, b
 func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) ([]cidoffer.CIDOffer, bool) {
 	offers := make([]cidoffer.CIDOffer, 0)
 
+	if maxOffers <= 0 {
+		return offers, false
+	}
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
 	if err != nil {
 		return offers, false
-- 
2.43.0


From 66feae321c6b893b0eaac6a958cb6e1d13187288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 014/107] fix: offer look up by digest must not return an
 expired offer

---
 common/pkg/fcroffermgr/offer_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index d2bb5c3..a296c4c 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -120,7 +120,7 @@ func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byt
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
@@ -129,7 +129,7 @@ func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byt
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
-- 
2.43.0


From 7ec6d7ee0402d8a1fa49ab72b9c4a633bbdc7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 015/107] fix: operations on the offer store must be atomic

---
 common/pkg/fcroffermgr/offer_manager.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index a296c4c..118210f 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -23,6 +23,7 @@ package fcroffermgr
 
 import (
 	"errors"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -35,6 +36,8 @@ type FCROfferMgr struct {
 	dhtOffers    *offerStorage
 	dhtOfferRing *dhtring.Ring
 	groupOffers  *offerStorage
+	// lock makes every operation on the storages and the ring atomic. Querying the ring changes it.
+	lock sync.RWMutex
 }
 
 // NewFCROfferMgr returns
@@ -51,6 +54,8 @@ func (mgr *FCROfferMgr) AddGroupOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) <= 1 {
 		return errors.New("not a group offer")
 	}
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	return mgr.groupOffers.add(offer)
 }
 
@@ -59,18 +64,24 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
 	return mgr.dhtOffers.add(offer)
 }
 
 // GetGroupOffers returns a list of group offers that contain the given cid
 func (mgr *FCROfferMgr) GetGroupOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.RLock()
+	defer mgr.lock.RUnlock()
 	res := mgr.groupOffers.get(cid)
 	return res, len(res) > 0
 }
 
 // GetDHTOffers returns a list of dht offers that contain the given cid
 func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.RLock()
+	defer mgr.lock.RUnlock()
 	res := mgr.dhtOffers.get(cid)
 	return res, len(res) > 0
 }
@@ -82,6 +93,8 @@ func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, m
 	if maxOffers <= 0 {
 		return offers, false
 	}
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
 	if err != nil {
 		return offers, false
@@ -107,12 +120,16 @@ func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, m
 
 // GetOffers returns a list of all offers (group or dht) that contain the given cid
 func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.RLock()
+	defer mgr.lock.RUnlock()
 	res := append(mgr.groupOffers.get(cid), mgr.dhtOffers.get(cid)...)
 	return res, len(res) > 0
 }
 
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
+	mgr.lock.RLock()
+	defer mgr.lock.RUnlock()
 	// first, look in DHT offers
 	mgr.dhtOffers.lock.RLock()
 	defer mgr.dhtOffers.lock.RUnlock()
-- 
2.43.0


From dde80230bff63e12f18c2c416a6dabfd7b18b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 016/107] fix: offer expiry in the database must not depend on
 the time zone or stop at year 9999

---
 common/pkg/offermgr/offer_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..85c04bc 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -112,7 +112,7 @@ func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CID
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o join content c on o.digest=c.digest 
 		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
 }
@@ -124,7 +124,7 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
 }
@@ -135,7 +135,7 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
 	if !exist {
-- 
2.43.0


From 116b7c26312b32ab2e12f9e264a32f3ee8963596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 017/107] fix: an offer listing a CID twice must be returned
 once

---
 common/pkg/offermgr/offer_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 85c04bc..fe6ae96 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -110,8 +110,8 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
-		from offer o join content c on o.digest=c.digest 
-		where c.content_id=?
+		from offer o
+		where o.digest in (select digest from content where content_id=?)
 		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
-- 
2.43.0


From a2a0f3fbd834f591d10f93ae0b9e0c26195f6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 018/107] fix: an offer and its CIDs must be stored together or
 not at all

---
 common/pkg/offermgr/offer_manager.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index fe6ae96..347ce6f 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -89,7 +89,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	// Does nothing once the transaction is committed
+	defer tx.Rollback()
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
 		offer.GetPrice(),
@@ -100,10 +106,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	}
 	i := 0
 	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 		i++
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
-- 
2.43.0


From 29f639c8e0df352b893fe3b5c083ba0c9e9af384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 019/107] fix: offer queries must release their database
 connections

---
 common/pkg/offermgr/offer_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 347ce6f..4f816c7 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -159,6 +159,7 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	if err != nil {
 		return
 	}
+	defer offerRows.Close()
 	var cnt int
 	sqlSelectContent := `select content_id from content where digest=? order by content_no`
 	for offerRows.Next() {
-- 
2.43.0


From aafaf2539215f7075abdf2c409867f7dde13c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 020/107] fix: concurrent establishment challenges must not
 reset a client's reputation

---
 gateway/internal/reputation/reputation.go     | 11 +-------
 .../internal/reputation/reputation_store.go   | 27 ++++++++++++++-----
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..e0f4207 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,11 +56,6 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
-func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
-}
-
 // SetClientReputation sets the reputation of a Retrieval Client
 func (r *Reputation) SetClientReputation(clientNodeID *nodeid.NodeID, newReputation int64) {
 	r.setClientReputation(clientNodeID, newReputation)
@@ -82,11 +77,7 @@ func (r *Reputation) GetClientReputation(clientNodeID *nodeid.NodeID) (val int64
 // Establishment Challenge being received. The reputation is created for the Retrival
 // Client if the client doesn't have a reputation yet
 func (r *Reputation) ClientEstablishmentChallenge(clientNodeID *nodeid.NodeID) int64 {
-	_, exists := r.getClientReputation(clientNodeID)
-	if !exists {
-		r.establishClientReputation(clientNodeID)
-	}
-	return r.changeClientReputation(clientNodeID, clientEstablishmentChallenge)
+	return r.establishAndChangeClientReputation(clientNodeID, clientEstablishmentChallenge)
 }
 
 // OnChainDeposit updates a Retrieval Client's reputation based on an
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..2a758c0 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -26,15 +26,29 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
-	var val int64
-	var exists bool
 	r.clientsMapLock.Lock()
-	val, exists = r.clients[clientNodeIDStr]
-	if !exists {
-		r.clientsMapLock.Unlock()
+	defer r.clientsMapLock.Unlock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
 		panic("changeClientReputation for non-existant client: " + clientNodeIDStr)
 	}
-	newVal := val + amount
+	return r.addClientReputation(clientNodeIDStr, amount)
+}
+
+// establishAndChangeClientReputation changes the reputation of a client, which is given the initial
+// reputation first if it has none. Both happen in one step, so that no change made by others is lost.
+func (r *Reputation) establishAndChangeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	defer r.clientsMapLock.Unlock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = clientInitialReputation
+	}
+	return r.addClientReputation(clientNodeIDStr, amount)
+}
+
+// addClientReputation must be called with the lock of the clients held.
+func (r *Reputation) addClientReputation(clientNodeIDStr string, amount int64) int64 {
+	newVal := r.clients[clientNodeIDStr] + amount
 	if newVal > clientMaxReputation {
 		newVal = clientMaxReputation
 	} else if newVal < clientMinReputaiton {
@@ -42,7 +56,6 @@ func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount
 	}
 
 	r.clients[clientNodeIDStr] = newVal
-	r.clientsMapLock.Unlock()
 
 	return newVal
 }
-- 
2.43.0


From 61dc65b520490357bf9ba3f7185530204de1620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 021/107] fix: reading the key version of a short signature
 must not panic

---
 common/pkg/fcrcrypto/msg_signing.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..181bcb8 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,13 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) == 0 {
+		// Not signed yet
+		return DecodeKeyVersion(0), nil
+	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to contain a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
-- 
2.43.0


From 7dbe137fd654a8ec91c06ce032d38b14b5611740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 022/107] fix: decoding an empty key must return an error
 instead of panicking

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..a922317 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -62,6 +62,9 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty private key")
+	}
 
 	alg := algKeyBytes[0]
 	switch alg {
@@ -111,6 +114,9 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty public key")
+	}
 
 	alg := algKeyBytes[0]
 	switch alg {
-- 
2.43.0


From bb734bfcfa9a8344c5e01c28964d3f8841a09729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 023/107] fix: private keys outside the range of the curve must
 be rejected when decoded

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 3 +++
 common/pkg/fcrcrypto/secp256k1.go         | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index a922317..d2e0f6f 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -92,6 +92,9 @@ func decodeSecP256K1PrivateKey(keyBytes []byte) (*KeyPair, error) {
 	if len(key.pKey) != secp256k1PrivateKeyBytes {
 		return nil, fmt.Errorf("incorrect secp256k1 private key length: %d", len(key.pKey))
 	}
+	if !secp256k1ValidPrivateKey(key.pKey) {
+		return nil, fmt.Errorf("secp256k1 private key out of range")
+	}
 	return &key, nil
 }
 
diff --git a/common/pkg/fcrcrypto/secp256k1.go b/common/pkg/fcrcrypto/secp256k1.go
index 66fcc68..96b0951 100644
--- a/common/pkg/fcrcrypto/secp256k1.go
+++ b/common/pkg/fcrcrypto/secp256k1.go
@@ -20,6 +20,7 @@ import (
 	"crypto/ecdsa"
 	"crypto/elliptic"
 	"io"
+	"math/big"
 
 	"github.com/ipsn/go-secp256k1"
 )
@@ -44,6 +45,12 @@ func secp256k1PublicKey(sk []byte) []byte {
 	return elliptic.Marshal(secp256k1.S256(), x, y)
 }
 
+// secp256k1ValidPrivateKey returns true if the private key is within the range of the curve.
+func secp256k1ValidPrivateKey(sk []byte) bool {
+	d := new(big.Int).SetBytes(sk)
+	return d.Sign() > 0 && d.Cmp(secp256k1.S256().Params().N) < 0
+}
+
 // Sign signs the given message, which must be 32 bytes long.
 func secp256k1Sign(sk, msg []byte) ([]byte, error) {
 	return secp256k1.Sign(msg, sk)
-- 
2.43.0


From 5b9f1188fe655cf987f5754bce9a9e2cffa081c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 024/107] fix: random number generators must be safe for
 concurrent use

---
 common/pkg/fcrcrypto/prng.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..cd71a5a 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -46,6 +47,7 @@ type Random interface {
 
 // RandomImpl holds the underlying DRBG and the PRF state.
 type randomImpl struct {
+	lock       sync.Mutex
 	drbg       *drbg.DRBG
 	prfHasher  hash.Hash
 	prfState   []byte
@@ -71,6 +73,9 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +120,9 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
-- 
2.43.0


From 3b0bef322fa86259ab13118f2ec9bbbfb8e648cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 025/107] fix: adding to and reseeding the pool of random
 number generators must not race

---
 common/pkg/fcrcrypto/prng_pool.go    | 14 ++++++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..20e3222 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,20 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import (
+	"sync"
+)
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.Mutex
+
+// addToPRNGPool makes the global quick reseed include a PRNG.
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +36,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From f92feea6d0c2631e58a13f36e305c8bc3181e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 026/107] fix: identifiers must not be made from negative
 numbers

---
 common/pkg/cid/cid.go       | 3 +++
 common/pkg/nodeid/nodeid.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..7d88232 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -40,6 +40,9 @@ type ContentID struct {
 
 // NewContentID creates a ContentID object.
 func NewContentID(id *big.Int) (*ContentID, error) {
+	if id.Sign() < 0 {
+		return nil, fmt.Errorf("ContentID: Negative number")
+	}
 	b := id.Bytes()
 	l := len(b)
 	if l > WordSize {
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..1012325 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -41,6 +41,9 @@ type NodeID struct {
 
 // NewNodeID creates a NodeID object.
 func NewNodeID(id *big.Int) (*NodeID, error) {
+	if id.Sign() < 0 {
+		return nil, fmt.Errorf("NodeID: Negative number")
+	}
 	var n = NodeID{}
 	b := id.Bytes()
 	l := len(b)
-- 
2.43.0


From f2f54b94877c89eb62feeff3bd74280a6f9f18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:51 +0000
Subject: [PATCH 027/107] fix: malformed identifiers in messages and offers
 must be rejected instead of crashing

---
 common/pkg/cid/cid.go                             | 11 +++++++----
 common/pkg/cidoffer/cidoffer.go                   | 11 ++++++++---
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       | 11 +++++++----
 43 files changed, 238 insertions(+), 61 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 7d88232..3a7a263 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -137,12 +137,15 @@ func MapCIDToString(cids []ContentID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+// Map - used to returns a new slice containing CIDs from their string values
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..7e26b63 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,14 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
-	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.providerID, err = nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	c.cids, err = cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..f95552e 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index 1012325..571798e 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -181,12 +181,15 @@ func MapNodeIDToString(cids []NodeID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+// Map - used to returns a new slice containing node IDs from their string values
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 99c3c3f632bf57d272dff7abb9c9ff97cc7016b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 028/107] fix: a group offer publication without an offer must
 be rejected

---
 common/pkg/fcrmessages/provider_publish_group_offer_request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..066ba96 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if len(msg.Offer.GetCIDs()) < 1 {
+		return nil, 0, nil, errors.New("message contains no offer")
+	}
 	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
 	if err != nil {
 		return nil, 0, nil, err
-- 
2.43.0


From fbb5ddee6c1c24b36920b70275622df8233ad038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 029/107] fix: a merkle proof whose index does not match its
 path must not verify

---
 common/pkg/fcrmerkletree/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..9c5f75a 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,6 +36,14 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
+	if len(mp.index) != len(mp.path) {
+		return false
+	}
+	for _, index := range mp.index {
+		if index != 0 && index != 1 {
+			return false
+		}
+	}
 	currentHash, _ := content.CalculateHash()
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
-- 
2.43.0


From 95667a06e593c327aa5bf3798d6e51d6d7d2de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 030/107] fix: verifying a message must not remove its
 signature

---
 common/pkg/fcrmessages/fcrmessage.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..daa5219 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -103,22 +103,17 @@ func (fcrMsg *FCRMessage) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.Key
 
 // Verify is used to verify the offer with a given public key.
 func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
-	// Clear signature
-	sig := fcrMsg.signature
-	fcrMsg.signature = ""
 	raw, err := fcrMsg.MarshalToSign()
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
 	}
-	res, err := fcrcrypto.VerifyMessage(pubKey, sig, raw)
+	res, err := fcrcrypto.VerifyMessage(pubKey, fcrMsg.signature, raw)
 	if err != nil {
 		return fmt.Errorf("failed to verify message, error: %s", err.Error())
 	}
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From fcffc64c0ec8b750e11cf46d9cc1bea61a84868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 031/107] fix: an offer with an expiry in the far future must
 not count as expired

---
 common/pkg/cidoffer/cidoffer.go    | 4 ++--
 common/pkg/cidoffer/subcidoffer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 7e26b63..d291b23 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -137,9 +137,9 @@ func (c *CIDOffer) SetSignature(s string) {
 
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *CIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
+	// Compare numbers, as time.Unix overflows for an expiry in the far future
 	now := time.Now()
-	return expiryTime.Before(now)
+	return c.expiry < now.Unix() || (c.expiry == now.Unix() && now.Nanosecond() > 0)
 }
 
 // Sign is used to sign the offer with a given private key and a key version.
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index f95552e..8447e4c 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -117,9 +117,9 @@ func (c *SubCIDOffer) GetSignature() string {
 
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *SubCIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
+	// Compare numbers, as time.Unix overflows for an expiry in the far future
 	now := time.Now()
-	return expiryTime.Before(now)
+	return c.expiry < now.Unix() || (c.expiry == now.Unix() && now.Nanosecond() > 0)
 }
 
 // Verify is used to verify the offer with a given public key.
-- 
2.43.0


From 0bf59847844c8b175ed66243b5285106331f452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 032/107] fix: a refused group offer notification must not be
 decoded as acknowledged

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
-- 
2.43.0


From 498f4925fc88fb24bf5e7094089c3bcf3ba640d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 033/107] fix: a ping response must not always be decoded as
 alive

---
 common/pkg/fcrmessages/gateway_ping_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From eefbc44876806fb3f8dbe1502b15c83fca4057f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 034/107] fix: a ping for a malformed gateway identifier must
 be rejected

---
 common/pkg/fcrmessages/gateway_ping_request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..3a2e47d 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, fmt.Errorf("invalid gateway id: %s", err)
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
-- 
2.43.0


From c56ff58f2c7864d9c81336c493c723f7b64a24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 035/107] fix: the register must close its database connections

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..7b03973 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -46,6 +47,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil {
@@ -106,6 +109,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..51878d8 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil {
@@ -108,6 +111,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 297acd4bea329776dd9361753a7cba58fff8b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 036/107] fix: storage errors of the register must be answered
 with an error instead of a panic

---
 register/internal/handlers/gateways_handler.go  | 10 ++++++----
 register/internal/handlers/providers_handler.go |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 7b03973..6c8485d 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -29,8 +29,9 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
-		log.Error("Unable to set Redis value")
-		panic(err)
+		msg := "Unable to set Redis value"
+		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
+		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
@@ -124,8 +125,9 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		log.Info("register deleted a gateway record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeGateway, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to delete Redis value"
+			log.Error("%s, error in DeleteGatewayRegisters: %s", msg, err.Error())
+			return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 51878d8..caac752 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -126,8 +126,9 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		log.Info("register deleted a provider record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeProvider, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to delete Redis value"
+			log.Error("%s, error in DeleteProviderRegisters: %s", msg, err.Error())
+			return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
-- 
2.43.0


From 856cc08e51ed1eed118d9b5522ee5a4d548c43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 037/107] fix: an unreadable gateway record must not be
 answered as an empty registration

---
 register/internal/handlers/gateways_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 6c8485d..a805016 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -94,7 +94,9 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 
 	registerData := models.GatewayRegister{}
 	if unmarshallErr := json.Unmarshal([]byte(gatewayRegister), &registerData); unmarshallErr != nil {
-		log.Error("inside GetGatewayRegisterByID - can't unmarshall JSON: %s", unmarshallErr.Error())
+		msg := "can't unmarshall JSON"
+		log.Error("inside GetGatewayRegisterByID - %s: %s", msg, unmarshallErr.Error())
+		return op.NewGetGatewayRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	payload := registerData
-- 
2.43.0


From e7bbf6e917a2a85ea202a062dfc2fa96bb43ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 038/107] fix: looking up an unknown provider must not leave
 the providers locked

---
 common/pkg/fcrregistermgr/register_manager.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..a483a26 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -201,18 +201,13 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
-		mgr.registeredProvidersMapLock.RUnlock()
 		// TODO: Do we call refresh here, if can't find a provider?
 		// mgr.Refresh()
-		mgr.registeredProvidersMapLock.RLock()
-		provider, ok = mgr.registeredProvidersMap[id.ToString()]
-		if !ok {
-			return nil
-		}
+		return nil
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From 5fe346536199aeec27fb1a6793369b12a4a6d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 039/107] fix: gateway range look up must not lock the gateways
 twice

---
 common/pkg/fcrregistermgr/register_manager.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a483a26..2278a1f 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -291,9 +291,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 282e8e4e305e4712ad6ba17d462fafc1d3313039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 040/107] fix: a nearest gateway look up changes the ring while
 searching and must hold its lock exclusively

---
 common/pkg/fcrregistermgr/register_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 2278a1f..e805936 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -319,8 +319,8 @@ func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, no
 	if numDHT > 16 {
 		numDHT = 16
 	}
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
+	mgr.closestGatewaysIDsLock.Lock()
+	defer mgr.closestGatewaysIDsLock.Unlock()
 	mgr.registeredGatewaysMapLock.RLock()
 	defer mgr.registeredGatewaysMapLock.RUnlock()
 
-- 
2.43.0


From 0a96d1245052f5b7c6c7f2d67255c6dace88fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 041/107] fix: a nearest gateway look up without gateway
 discovery must return an error

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index e805936..a40c4b6 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -316,6 +316,9 @@ func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.Co
 
 // GetGatewaysNearCID returns a list of gatewayRegisters whose id is close to the given cid.
 func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, notAllowed *nodeid.NodeID) ([]register.GatewayRegistrar, error) {
+	if !mgr.start || !mgr.gatewayDiscv {
+		return nil, errors.New("register manager is not started or gateway discovery is not enabled")
+	}
 	if numDHT > 16 {
 		numDHT = 16
 	}
-- 
2.43.0


From e951390fa4bb56d116f74d84fe0a900ce873c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 042/107] fix: shutting down must empty the ring of gateways
 together with the map

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a40c4b6..85ba8a5 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -459,9 +459,12 @@ func (mgr *FCRRegisterMgr) shutdownGateways() {
 		logging.Error("method removeAllGatewaysFromRegisterSrv called, gateway discovery is not enabled")
 		return
 	}
+	mgr.closestGatewaysIDsLock.Lock()
 	mgr.registeredGatewaysMapLock.Lock()
 	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
+	mgr.closestGatewaysIDs = dhtring.CreateRing()
 	mgr.registeredGatewaysMapLock.Unlock()
+	mgr.closestGatewaysIDsLock.Unlock()
 	mgr.removeAllGatewaysFromRegisterSrv()
 }
 
-- 
2.43.0


From 6442bd010c1c24de5726554a9930eed091d7ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 043/107] fix: an empty entry in the answer of the register
 must not crash

---
 common/pkg/fcrregistermgr/register_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 85ba8a5..3e165f8 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -261,6 +261,9 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -284,6 +287,9 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
-- 
2.43.0


From c78dba50e0862f01e62bb1b8271b269b3021c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 044/107] fix: concurrent refreshes and shutdowns of the
 register manager must not take each other's signals

---
 common/pkg/fcrregistermgr/register_manager.go | 135 ++++++++++++------
 1 file changed, 91 insertions(+), 44 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 3e165f8..6b18070 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -38,7 +38,11 @@ import (
 // FCRRegisterMgr Register Manager manages the internal storage of registered nodes.
 type FCRRegisterMgr struct {
 	// Boolean indicates if the manager has started
-	start bool
+	start     bool
+	startLock sync.RWMutex
+
+	// lifecycleLock lets only one start or shutdown happen at any time
+	lifecycleLock sync.Mutex
 
 	// API for the register
 	registerAPI string
@@ -53,8 +57,10 @@ type FCRRegisterMgr struct {
 	// Channels to control the threads
 	gatewayShutdownCh  chan bool
 	providerShutdownCh chan bool
-	gatewayRefreshCh   chan bool
-	providerRefreshCh  chan bool
+	gatewayRefreshCh   chan chan bool
+	providerRefreshCh  chan chan bool
+	gatewayStoppedCh   chan bool
+	providerStoppedCh  chan bool
 
 	// registeredGatewaysMap stores mapping from gateway id (big int in string repr) to its registration info
 	registeredGatewaysMap     map[string]register.GatewayRegistrar
@@ -85,7 +91,7 @@ func NewFCRRegisterMgr(registerAPI string, providerDiscv bool, gatewayDiscv bool
 		res.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
 		res.registeredGatewaysMapLock = sync.RWMutex{}
 		res.gatewayShutdownCh = make(chan bool)
-		res.gatewayRefreshCh = make(chan bool)
+		res.gatewayRefreshCh = make(chan chan bool)
 		res.closestGatewaysIDs = dhtring.CreateRing()
 		res.closestGatewaysIDsLock = sync.RWMutex{}
 	}
@@ -93,71 +99,106 @@ func NewFCRRegisterMgr(registerAPI string, providerDiscv bool, gatewayDiscv bool
 		res.registeredProvidersMap = make(map[string]register.ProviderRegistrar)
 		res.registeredProvidersMapLock = sync.RWMutex{}
 		res.providerShutdownCh = make(chan bool)
-		res.providerRefreshCh = make(chan bool)
+		res.providerRefreshCh = make(chan chan bool)
 	}
 	return res
 }
 
 // Start starts a thread to auto update the internal map every given duration.
 func (mgr *FCRRegisterMgr) Start() error {
-	if mgr.start {
+	mgr.lifecycleLock.Lock()
+	defer mgr.lifecycleLock.Unlock()
+	if mgr.started() {
 		return errors.New("manager has already started")
 	}
+	// Threads of an earlier start must have stopped
+	mgr.waitStopped()
+	mgr.startLock.Lock()
 	mgr.start = true
 	if mgr.gatewayDiscv {
-		go mgr.updateGateways()
+		mgr.gatewayStoppedCh = make(chan bool)
+		go mgr.updateGateways(mgr.gatewayStoppedCh)
 	}
 	if mgr.providerDiscv {
-		go mgr.updateProviders()
+		mgr.providerStoppedCh = make(chan bool)
+		go mgr.updateProviders(mgr.providerStoppedCh)
 	}
+	mgr.startLock.Unlock()
 	return nil
 }
 
-// Shutdown will shutdown the register manager.
-func (mgr *FCRRegisterMgr) Shutdown() {
-	if !mgr.start {
+// started tells if the manager has started.
+func (mgr *FCRRegisterMgr) started() bool {
+	mgr.startLock.RLock()
+	defer mgr.startLock.RUnlock()
+	return mgr.start
+}
+
+// waitStopped waits until the threads of the manager have stopped.
+func (mgr *FCRRegisterMgr) waitStopped() {
+	if mgr.gatewayStoppedCh != nil {
+		<-mgr.gatewayStoppedCh
+	}
+	if mgr.providerStoppedCh != nil {
+		<-mgr.providerStoppedCh
+	}
+}
+
+// stop tells the threads of the manager to stop.
+func (mgr *FCRRegisterMgr) stop() {
+	if !mgr.started() {
 		return
 	}
+	mgr.startLock.Lock()
+	mgr.start = false
+	mgr.startLock.Unlock()
 	if mgr.gatewayDiscv {
 		mgr.gatewayShutdownCh <- true
 	}
 	if mgr.providerDiscv {
 		mgr.providerShutdownCh <- true
 	}
-	mgr.start = false
+}
+
+// Shutdown will shutdown the register manager.
+func (mgr *FCRRegisterMgr) Shutdown() {
+	mgr.lifecycleLock.Lock()
+	defer mgr.lifecycleLock.Unlock()
+	mgr.stop()
 }
 
 // ShutdownAndWait stop the register manager
 // Initiates register manager blocking shutdown (waiting for all parties before return)
 func (mgr *FCRRegisterMgr) ShutdownAndWait() {
-	if !mgr.start {
-		return
-	}
-	if mgr.gatewayDiscv {
-		mgr.shutdownGateways()
-		// stop the main loop
-		mgr.gatewayShutdownCh <- true
-	}
-	if mgr.providerDiscv {
-		mgr.shutdownProviders()
-		// stop the main loop
-		mgr.providerShutdownCh <- true
-	}
-	mgr.start = false
+	mgr.lifecycleLock.Lock()
+	defer mgr.lifecycleLock.Unlock()
+	mgr.stop()
+	mgr.waitStopped()
 }
 
 // Refresh refreshes the internal map immediately.
 func (mgr *FCRRegisterMgr) Refresh() {
-	if !mgr.start {
+	mgr.startLock.RLock()
+	start, gatewayStopped, providerStopped := mgr.start, mgr.gatewayStoppedCh, mgr.providerStoppedCh
+	mgr.startLock.RUnlock()
+	if !start {
 		return
 	}
 	if mgr.gatewayDiscv {
-		mgr.gatewayRefreshCh <- true
-		<-mgr.gatewayRefreshCh
+		mgr.refresh(mgr.gatewayRefreshCh, gatewayStopped)
 	}
 	if mgr.providerDiscv {
-		mgr.providerRefreshCh <- true
-		<-mgr.providerRefreshCh
+		mgr.refresh(mgr.providerRefreshCh, providerStopped)
+	}
+}
+
+// refresh asks a thread for a refresh and waits until it is done, or the thread has stopped.
+func (mgr *FCRRegisterMgr) refresh(refreshCh chan chan bool, stopped chan bool) {
+	refreshed := make(chan bool)
+	select {
+	case refreshCh <- refreshed:
+		<-refreshed
+	case <-stopped:
 	}
 }
 
@@ -175,7 +216,7 @@ func (mgr *FCRRegisterMgr) RegisterProvider(providerRegistrar register.ProviderR
 
 // GetGateway returns a gateway register if found.
 func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetGateway called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -196,7 +237,7 @@ func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistr
 
 // GetProvider returns a provider register if found.
 func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetProvider called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -213,7 +254,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 
 // GetAllGateways returns  all discovered gateways.
 func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetAllGateways called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -228,7 +269,7 @@ func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
 
 // GetAllProviders returns  all discovered providers.
 func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetAllProviders called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -243,7 +284,7 @@ func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
 
 // pullGatewaysFromRegisterSrv calls remote service to synchronize discovered Gateway nodes
 func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method pullGatewaysFromRegisterSrv called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -271,7 +312,7 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 // pullProvidersFromRegisterSrv calls remote service to synchronize discovered Provider nodes
 func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		return nil
 	}
 	url := mgr.registerAPI + "/registers/provider/"
@@ -322,7 +363,7 @@ func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.Co
 
 // GetGatewaysNearCID returns a list of gatewayRegisters whose id is close to the given cid.
 func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, notAllowed *nodeid.NodeID) ([]register.GatewayRegistrar, error) {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		return nil, errors.New("register manager is not started or gateway discovery is not enabled")
 	}
 	if numDHT > 16 {
@@ -364,8 +405,11 @@ func (mgr *FCRRegisterMgr) mapNodeIDs(nodsIDs []*nodeid.NodeID) map[string]strin
 
 // updateGateways updates gateways.
 // TODO: Support removal of gateways
-func (mgr *FCRRegisterMgr) updateGateways() {
+func (mgr *FCRRegisterMgr) updateGateways(stopped chan bool) {
+	defer close(stopped)
 	refreshForce := false
+	// Channel to close when a forced refresh is done
+	var refreshed chan bool
 	for {
 		gateways := mgr.pullGatewaysFromRegisterSrv()
 		// Check for update
@@ -393,12 +437,12 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 		}
 
 		if refreshForce {
-			mgr.gatewayRefreshCh <- true
+			close(refreshed)
 			refreshForce = false
 		}
 		afterChan := time.After(mgr.refreshDuration)
 		select {
-		case <-mgr.gatewayRefreshCh:
+		case refreshed = <-mgr.gatewayRefreshCh:
 			// Need to refresh
 			logging.Info("Register manager force update internal gateway map.")
 			refreshForce = true
@@ -414,8 +458,11 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 }
 
 // updateProviders updates providers.
-func (mgr *FCRRegisterMgr) updateProviders() {
+func (mgr *FCRRegisterMgr) updateProviders(stopped chan bool) {
+	defer close(stopped)
 	refreshForce := false
+	// Channel to close when a forced refresh is done
+	var refreshed chan bool
 	for {
 		providers := mgr.pullProvidersFromRegisterSrv()
 		// Check for update
@@ -440,12 +487,12 @@ func (mgr *FCRRegisterMgr) updateProviders() {
 		}
 
 		if refreshForce {
-			mgr.providerRefreshCh <- true
+			close(refreshed)
 			refreshForce = false
 		}
 		afterChan := time.After(mgr.refreshDuration)
 		select {
-		case <-mgr.providerRefreshCh:
+		case refreshed = <-mgr.providerRefreshCh:
 			// Need to refresh
 			logging.Info("Register manager force update internal provider map.")
 			refreshForce = true
-- 
2.43.0


From 117c67ac12e2ce9659e902565e6c8e34dd328922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 045/107] fix: a P2P connection must not lose the bytes of
 messages that arrive together, in pieces or late

---
 common/pkg/fcrp2pserver/pool.go          |  6 +--
 common/pkg/fcrp2pserver/server.go        |  3 +-
 common/pkg/fcrp2pserver/server_reader.go |  3 +-
 common/pkg/fcrp2pserver/tcp_comms.go     | 58 +++++++++++++++++-------
 4 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..cda2b58 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -42,7 +42,7 @@ const (
 // conn is the net connection for sending outgoing TCP requests.
 type communicationChannel struct {
 	lock sync.RWMutex
-	conn net.Conn
+	conn *messageConn
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -89,7 +89,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	if c.activeGateways[id.ToString()] == nil {
 		comm = &communicationChannel{
 			lock: sync.RWMutex{},
-			conn: conn,
+			conn: newMessageConn(conn),
 		}
 		c.activeGateways[id.ToString()] = comm
 	} else {
@@ -129,7 +129,7 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	if c.activeProviders[id.ToString()] == nil {
 		comm = &communicationChannel{
 			lock: sync.RWMutex{},
-			conn: conn,
+			conn: newMessageConn(conn),
 		}
 		c.activeProviders[id.ToString()] = comm
 	} else {
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..2ed9777 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -117,7 +117,8 @@ func (s *FCRP2PServer) Start() error {
 }
 
 // handleIncomingConnection handles incomming connection using given handlers.
-func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int32]func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error) {
+func (s *FCRP2PServer) handleIncomingConnection(netConn net.Conn, handlers map[int32]func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error) {
+	conn := newMessageConn(netConn)
 	// Close connection on exit.
 	defer func() {
 		if err := conn.Close(); err != nil {
diff --git a/common/pkg/fcrp2pserver/server_reader.go b/common/pkg/fcrp2pserver/server_reader.go
index 7b1cc07..607e04e 100644
--- a/common/pkg/fcrp2pserver/server_reader.go
+++ b/common/pkg/fcrp2pserver/server_reader.go
@@ -16,7 +16,6 @@ package fcrp2pserver
  */
 
 import (
-	"net"
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -24,7 +23,7 @@ import (
 
 // FCRServerReader stores the connection to read from.
 type FCRServerReader struct {
-	conn net.Conn
+	conn *messageConn
 }
 
 // Write reads a message.
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..38ec3d2 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -31,30 +31,56 @@ func isTimeoutError(err error) bool {
 	return ok && neterr.Timeout()
 }
 
-// readTCPMessage read the tcp message from a given connection.
-func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
-	// Read the length
-	length := make([]byte, 4)
+// messageConn is a connection carrying messages.
+// It keeps the bytes received ahead, and those of a message that has not yet arrived completely,
+// so that neither the end of a read nor a timeout loses any of them.
+type messageConn struct {
+	net.Conn
+	reader  *bufio.Reader
+	pending []byte
+}
+
+// newMessageConn creates a messageConn from a given connection.
+func newMessageConn(conn net.Conn) *messageConn {
+	return &messageConn{Conn: conn, reader: bufio.NewReader(conn)}
+}
+
+// fill reads from the connection until the given number of bytes of the current message are there.
+func (c *messageConn) fill(n int, timeout time.Duration) error {
 	// Set timeout
-	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+	if err := c.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(reader, length)
-	if err != nil {
+	chunk := make([]byte, 4096)
+	for len(c.pending) < n {
+		if n-len(c.pending) < len(chunk) {
+			chunk = chunk[:n-len(c.pending)]
+		}
+		read, err := c.reader.Read(chunk)
+		c.pending = append(c.pending, chunk[:read]...)
+		if err != nil && len(c.pending) < n {
+			if err == io.EOF && len(c.pending) > 0 {
+				return io.ErrUnexpectedEOF
+			}
+			return err
+		}
+	}
+	return nil
+}
+
+// readTCPMessage read the tcp message from a given connection.
+func readTCPMessage(conn *messageConn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
+	// Read the length
+	if err := conn.fill(4, timeout); err != nil {
 		return nil, err
 	}
 	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
-	// Set timeout
-	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
-	}
-	_, err = io.ReadFull(reader, data)
-	if err != nil {
+	length := int(binary.BigEndian.Uint32(conn.pending))
+	if err := conn.fill(4+length, timeout); err != nil {
 		return nil, err
 	}
+	data := conn.pending[4:]
+	conn.pending = nil
 	return fcrmessages.FCRMsgFromBytes(data)
 }
 
-- 
2.43.0


From 4db3f76ce6a807b1c2b282bbb43e48b33b419439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 046/107] fix: a P2P message of absurd length must end its
 connection, not be waited for

---
 common/pkg/fcrp2pserver/tcp_comms.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 38ec3d2..1fa136d 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -31,6 +32,9 @@ func isTimeoutError(err error) bool {
 	return ok && neterr.Timeout()
 }
 
+// maxMessageLength is the length beyond which a message is not accepted.
+const maxMessageLength = 256 * 1024 * 1024
+
 // messageConn is a connection carrying messages.
 // It keeps the bytes received ahead, and those of a message that has not yet arrived completely,
 // so that neither the end of a read nor a timeout loses any of them.
@@ -75,8 +79,11 @@ func readTCPMessage(conn *messageConn, timeout time.Duration) (*fcrmessages.FCRM
 		return nil, err
 	}
 	// Read the data
-	length := int(binary.BigEndian.Uint32(conn.pending))
-	if err := conn.fill(4+length, timeout); err != nil {
+	length := int64(binary.BigEndian.Uint32(conn.pending))
+	if length > maxMessageLength {
+		return nil, errors.New("message is too long")
+	}
+	if err := conn.fill(4+int(length), timeout); err != nil {
 		return nil, err
 	}
 	data := conn.pending[4:]
-- 
2.43.0


From fdee483183d24412ae1cf96dd2d60d24c0813f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 047/107] fix: a P2P connection that fails to close or was
 closed meanwhile must not crash the node

---
 common/pkg/fcrp2pserver/pool.go      | 8 ++++----
 common/pkg/fcrp2pserver/server.go    | 2 +-
 common/pkg/fcrp2pserver/tcp_comms.go | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index cda2b58..199fef6 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -95,7 +95,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	} else {
 		comm = c.activeGateways[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeGatewaysLock.Unlock()
@@ -135,7 +135,7 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	} else {
 		comm = c.activeProviders[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeProvidersLock.Unlock()
@@ -151,7 +151,7 @@ func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeGateways, id.ToString())
 	}
@@ -166,7 +166,7 @@ func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeProviders, id.ToString())
 	}
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index 2ed9777..1e9768e 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -122,7 +122,7 @@ func (s *FCRP2PServer) handleIncomingConnection(netConn net.Conn, handlers map[i
 	// Close connection on exit.
 	defer func() {
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}()
 
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 1fa136d..ad3109c 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -53,7 +53,7 @@ func newMessageConn(conn net.Conn) *messageConn {
 func (c *messageConn) fill(n int, timeout time.Duration) error {
 	// Set timeout
 	if err := c.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	chunk := make([]byte, 4096)
 	for len(c.pending) < n {
@@ -104,7 +104,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -112,7 +112,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From 02164f539142ee73e085845853519e5c0a6dbf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 048/107] fix: a failed P2P connection must not be used again,
 hold up other peers or take a newer connection with it

---
 common/pkg/fcrp2pserver/pool.go   | 53 ++++++++++++++++++++-----------
 common/pkg/fcrp2pserver/server.go | 27 ++++------------
 2 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 199fef6..e1d1d26 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -26,6 +26,7 @@ import (
 	"net"
 	"sync"
 
+	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
@@ -43,6 +44,32 @@ const (
 type communicationChannel struct {
 	lock sync.RWMutex
 	conn *messageConn
+	// failed tells that a request has failed, and the connection can't be used any more.
+	failed bool
+}
+
+// request uses a given requester to send a request. A connection on which a request fails is closed,
+// as what arrives on it later may belong to the failed request.
+func (c *communicationChannel) request(
+	requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error),
+	args ...interface{}) (*fcrmessages.FCRMessage, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.failed {
+		return nil, errors.New("connection failed")
+	}
+	// Call requester to request
+	writer := &FCRServerWriter{conn: c.conn}
+	reader := &FCRServerReader{conn: c.conn}
+	response, err := requester(reader, writer, args...)
+	if err != nil {
+		c.failed = true
+		if err := c.conn.Close(); err != nil {
+			logging.Error("P2P server has error closing connection: %s", err.Error())
+		}
+		return nil, err
+	}
+	return response, nil
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -142,32 +169,22 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// removeActiveGateway removes a failed connection to a given gateway.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			logging.Error("P2P server has error closing connection: %s", err.Error())
-		}
+	// Another connection may have taken its place
+	if c.activeGateways[id.ToString()] == comm {
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// removeActiveProvider removes a failed connection to a given provider.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			logging.Error("P2P server has error closing connection: %s", err.Error())
-		}
+	// Another connection may have taken its place
+	if c.activeProviders[id.ToString()] == comm {
 		delete(c.activeProviders, id.ToString())
 	}
 }
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index 1e9768e..ebbb992 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -175,15 +175,10 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
+	response, err := comm.request(requester, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -203,15 +198,10 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
+	response, err := comm.request(requester, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -231,15 +221,10 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
+	response, err := comm.request(requester, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
+		s.pool.removeActiveProvider(id, comm)
 		return nil, err
 	}
 	return response, err
-- 
2.43.0


From 98e8df642964177a4546395808b05d149a36cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 049/107] fix: a P2P server that cannot listen on all its ports
 must not be left half started

---
 common/pkg/fcrp2pserver/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index ebbb992..f5a6e31 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -94,11 +94,19 @@ func (s *FCRP2PServer) Start() error {
 	if s.start {
 		return errors.New("server already started")
 	}
+	listeners := make([]net.Listener, 0, len(s.listenAddrs))
 	for _, listenAddr := range s.listenAddrs {
 		ln, err := net.Listen("tcp", ":"+listenAddr)
 		if err != nil {
+			for _, ln := range listeners {
+				ln.Close()
+			}
 			return err
 		}
+		listeners = append(listeners, ln)
+	}
+	for i, listenAddr := range s.listenAddrs {
+		ln := listeners[i]
 		go func(ln net.Listener, listenAddr string) {
 			for {
 				conn, err := ln.Accept()
-- 
2.43.0


From e761e90964e63977744537d0f426aee71d5c022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 050/107] fix: a REST server that cannot listen on its ports
 must say so, and not be left half started

---
 common/pkg/fcrrestserver/server.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrrestserver/server.go b/common/pkg/fcrrestserver/server.go
index 9a3f808..e4fbb3c 100644
--- a/common/pkg/fcrrestserver/server.go
+++ b/common/pkg/fcrrestserver/server.go
@@ -21,6 +21,7 @@ package fcrrestserver
 import (
 	"errors"
 	"io/ioutil"
+	"net"
 	"net/http"
 
 	"github.com/ant0ine/go-json-rest/rest"
@@ -72,9 +73,23 @@ func (s *FCRRESTServer) Start() error {
 	if s.start {
 		return errors.New("server already started")
 	}
+	listeners := make([]net.Listener, 0, len(s.listenAddrs))
+	closeAll := func() {
+		for _, ln := range listeners {
+			ln.Close()
+		}
+	}
 	for _, listenAddr := range s.listenAddrs {
+		ln, err := net.Listen("tcp", ":"+listenAddr)
+		if err != nil {
+			closeAll()
+			return err
+		}
+		listeners = append(listeners, ln)
+	}
+	for i, listenAddr := range s.listenAddrs {
 		errChan := make(chan bool)
-		go func(addr string, errChan chan bool) {
+		go func(ln net.Listener, addr string, errChan chan bool) {
 			api := rest.NewApi()
 			api.Use(rest.DefaultDevStack...)
 			router, err := rest.MakeRouter(
@@ -89,9 +104,10 @@ func (s *FCRRESTServer) Start() error {
 			}
 			api.SetApp(router)
 			errChan <- false
-			logging.Error(http.ListenAndServe(":"+addr, api.MakeHandler()).Error())
-		}(listenAddr, errChan)
+			logging.Error(http.Serve(ln, api.MakeHandler()).Error())
+		}(listeners[i], listenAddr, errChan)
 		if <-errChan {
+			closeAll()
 			return errors.New("fail to start REST Server")
 		}
 		logging.Info("REST server starts listening on %s for connections.", listenAddr)
-- 
2.43.0


From 31e3d9c02e29ce7e050f73ab139bf27314da47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 051/107] fix: JSON that the other side refuses must not be
 reported as sent

---
 common/pkg/request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..9d0989a 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -92,6 +92,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode != http.StatusOK {
+		return fmt.Errorf("can't send JSON, got http status: %d", r.StatusCode)
+	}
 	return nil
 }
 
-- 
2.43.0


From 5dfddf465e1ea0edc602b0f1792c8f2e463262ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 052/107] fix: connections of refused HTTP messages and
 deletions must be released

---
 common/pkg/request/request.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 9d0989a..6d9c55a 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -117,6 +117,7 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 		return nil, err
 	}
 
+	defer r.Body.Close()
 	bodyBytes, err := ioutil.ReadAll(r.Body)
 	if err != nil {
 		return &data, err
@@ -149,6 +150,7 @@ func (c *HttpCommunicator) Delete(url string) error {
 	if err != nil {
 		return err
 	}
+	defer r.Body.Close()
 	if r.StatusCode != http.StatusOK {
 		return fmt.Errorf("can't delete, got http status: %d", r.StatusCode)
 	}
-- 
2.43.0


From 32a0c0e6253df4dcf647f72a5c5cfe64cee65b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 053/107] fix: the P2P server must count as started before it
 handles anything

---
 common/pkg/fcrp2pserver/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index f5a6e31..2531d60 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -105,6 +105,8 @@ func (s *FCRP2PServer) Start() error {
 		}
 		listeners = append(listeners, ln)
 	}
+	// Before any connection is accepted, as handlers may send requests
+	s.start = true
 	for i, listenAddr := range s.listenAddrs {
 		ln := listeners[i]
 		go func(ln net.Listener, listenAddr string) {
@@ -120,7 +122,6 @@ func (s *FCRP2PServer) Start() error {
 		}(ln, listenAddr)
 		logging.Info("P2P server starts listening on %s for connections.", listenAddr)
 	}
-	s.start = true
 	return nil
 }
 
-- 
2.43.0


From 3fb18fece4ed4b9e56e082c1b44930e01ca5eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 054/107] fix: offer requests naming an unknown digest must not
 crash the gateway

---
 .../clientapi/standard_discover_offer_handler.go | 16 +++++++++-------
 .../api/gatewayapi/dht_discover_offer_handler.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..62401fc 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0, len(offerDigests))
+		fundedPaymentChannel := make([]bool, 0, len(offerDigests))
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, exist)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..42c137c 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -64,22 +64,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0, len(offerDigests))
+	fundedPaymentChannel := make([]bool, 0, len(offerDigests))
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, exist)
 	}
+	found := len(subOffers) > 0
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
-- 
2.43.0


From 3e148af022bc97adc47792a67652434f348bc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 055/107] fix: no sub-offer may be made for a CID outside the
 offer

---
 common/pkg/cidoffer/cidoffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index d291b23..95a236c 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -178,6 +178,10 @@ func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error)
 	if err != nil {
 		return nil, err
 	}
+	// The proof of a CID that is not in the offer is empty
+	if !proof.VerifyContent(cid, c.merkleRoot) {
+		return nil, errors.New("CID is not in the offer")
+	}
 	return NewSubCIDOffer(c.providerID, cid, c.merkleRoot, proof, c.price, c.expiry, c.qos, c.signature), nil
 }
 
-- 
2.43.0


From 02ece9a35b60971a3cf9f394ed34e254db65c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 056/107] fix: an underpaid DHT request must not be served
 after the refusal

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go    | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From c216f69bf62dd8344d225b160d2fc7e507b507fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 057/107] fix: serving offers to a gateway must not change the
 offer price

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 42c137c..0ccaf71 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,7 +62,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, 0, len(offerDigests))
 	fundedPaymentChannel := make([]bool, 0, len(offerDigests))
-- 
2.43.0


From 0012b95e977be0c8ef5e23c39e8b76f7f76e3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 058/107] fix: an underpaid gateway must not be given offers or
 their digests

---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go    | 2 +-
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 0ccaf71..eac4a56 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -87,7 +87,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From 7501ddc9cb9bc60d7735f5676ce20d30c71c843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 059/107] fix: a negative number of gateways must not be
 served, unpaid, by all of them

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..8323298 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -49,6 +49,12 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		// Message expired.
 		return
 	}
+	if numDHT < 0 {
+		s := "Invalid number of gateways."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 	// Get a list of gatewayIDs to contact
 	gateways, err := c.RegisterMgr.GetGatewaysNearCID(cid, int(numDHT), c.GatewayID)
 	if err != nil {
-- 
2.43.0


From 62c6e62a49b74fbbd17d1036471259eaa10e20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 060/107] fix: a provider must not publish offers of other
 providers

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 4 ++++
 .../internal/api/providerapi/publish_group_offer_handler.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..cbad0f2 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -58,6 +58,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Warn("The offer from %s is not its own", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..511332c 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -54,6 +54,10 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
+	if offer.GetProviderID().ToString() != providerID.ToString() {
+		logging.Warn("The offer from %s is not its own", providerID.ToString())
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 	if offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From 37c9574ec3908346955e8921c74d3c47950d3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 061/107] fix: a refused DHT publication must not leave some of
 its offers stored

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index cbad0f2..e8a13c3 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -66,7 +66,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
+	}
 
+	// Store the offers
+	for _, offer := range offers {
 		if c.OffersMgr.AddDHTOffer(&offer) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From 88754b8e93c8198d3589ae0fd01fb29b2ed6c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 062/107] fix: a DHT publication must consist of single CID
 offers

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index e8a13c3..ec950bc 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -62,6 +62,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 			logging.Warn("The offer from %s is not its own", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
+		if len(offer.GetCIDs()) != 1 {
+			logging.Warn("The offer from %s is not a single cid offer", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From df7ec3d255269c176795e884b71434999d0378b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 063/107] fix: listed offers that do not verify must not be
 acknowledged

---
 .../gatewayapi/list_dht_offer_requester.go    | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..d3faac9 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
@@ -104,22 +105,24 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			logging.Error("Fail to verify the sub message")
 			continue
 		}
-		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
+		msgProviderID, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
 		if err != nil {
 			logging.Error("Fail to decode message")
 			continue
 		}
+		if msgProviderID.ToString() != providerID.ToString() {
+			logging.Error("The sub message is not of the provider asked")
+			continue
+		}
 		// Verify the offers
-		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
-				logging.Error("Fail to verify the offer")
-				continue
-			}
-			// Store the offer
-			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
-				logging.Error("Fail to store the offer")
-				continue
-			}
+		if !verifyDHTOffers(cidOffers, providerID, pubKey) {
+			logging.Error("Fail to verify the offers")
+			continue
+		}
+		// Store the offers
+		if !storeDHTOffers(c, cidOffers) {
+			logging.Error("Fail to store the offers")
+			continue
 		}
 
 		// Sign the offer message
@@ -144,3 +147,23 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 
 	return nil, writer.Write(ack, c.Settings.TCPInactivityTimeout)
 }
+
+// verifyDHTOffers tells whether all the offers are single cid offers signed by the given provider
+func verifyDHTOffers(offers []cidoffer.CIDOffer, providerID *nodeid.NodeID, pubKey *fcrcrypto.KeyPair) bool {
+	for _, offer := range offers {
+		if offer.GetProviderID().ToString() != providerID.ToString() || len(offer.GetCIDs()) != 1 || offer.Verify(pubKey) != nil {
+			return false
+		}
+	}
+	return true
+}
+
+// storeDHTOffers stores all the offers
+func storeDHTOffers(c *core.Core, offers []cidoffer.CIDOffer) bool {
+	for _, offer := range offers {
+		if c.OffersMgr.AddDHTOffer(&offer) != nil {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 46d2e8783f4b031e5707a383ba3cb1975f33b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 064/107] fix: a reply to a DHT request must match the request

---
 .../api/gatewayapi/dht_discover_offer_requester.go  |  9 +++++++++
 .../api/gatewayapi/dht_discover_requester.go        | 13 ++++++++++++-
 .../api/gatewayapi/dht_discover_requester_v2.go     | 13 ++++++++++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_requester.go b/gateway/internal/api/gatewayapi/dht_discover_offer_requester.go
index b98e489..8eb1b4d 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_requester.go
@@ -95,5 +95,14 @@ func RequestGatewayDHTDiscoverOffer(reader *fcrp2pserver.FCRServerReader, writer
 	if response.Verify(pubKey) != nil {
 		return nil, errors.New("fail to verify the response")
 	}
+
+	// Check that the response belongs to the request
+	respContentID, respNonce, _, _, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(response)
+	if err != nil {
+		return nil, err
+	}
+	if respNonce != nonce || respContentID.ToString() != contentID.ToString() {
+		return nil, errors.New("the response does not match the request")
+	}
 	return response, nil
 }
diff --git a/gateway/internal/api/gatewayapi/dht_discover_requester.go b/gateway/internal/api/gatewayapi/dht_discover_requester.go
index 9563135..3433410 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_requester.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_requester.go
@@ -17,6 +17,7 @@ package gatewayapi
 
 import (
 	"errors"
+	"math/rand"
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
@@ -45,8 +46,9 @@ func RequestGatewayDHTDiscover(reader *fcrp2pserver.FCRServerReader, writer *fcr
 	c := core.GetSingleInstance()
 
 	// Construct message
+	nonce := rand.Int63()
 	// TODO, ADD nonce, TTL and payment information.
-	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(c.GatewayID, contentID, 1, time.Now().Add(10*time.Second).Unix(), "", "")
+	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(c.GatewayID, contentID, nonce, time.Now().Add(10*time.Second).Unix(), "", "")
 	if err != nil {
 		return nil, err
 	}
@@ -79,5 +81,14 @@ func RequestGatewayDHTDiscover(reader *fcrp2pserver.FCRServerReader, writer *fcr
 	if response.Verify(pubKey) != nil {
 		return nil, errors.New("fail to verify the response")
 	}
+
+	// Check that the response belongs to the request
+	respContentID, respNonce, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(response)
+	if err != nil {
+		return nil, err
+	}
+	if respNonce != nonce || respContentID.ToString() != contentID.ToString() {
+		return nil, errors.New("the response does not match the request")
+	}
 	return response, nil
 }
diff --git a/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go b/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
index 7e1739b..bb9184b 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
@@ -17,6 +17,7 @@ package gatewayapi
 
 import (
 	"errors"
+	"math/rand"
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
@@ -53,8 +54,9 @@ func RequestGatewayDHTDiscoverV2(reader *fcrp2pserver.FCRServerReader, writer *f
 	c := core.GetSingleInstance()
 
 	// Construct message
+	nonce := rand.Int63()
 	// TODO, ADD nonce, TTL and payment information.
-	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(c.GatewayID, contentID, 1, time.Now().Add(10*time.Second).Unix(), paychAddr, voucher)
+	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(c.GatewayID, contentID, nonce, time.Now().Add(10*time.Second).Unix(), paychAddr, voucher)
 	if err != nil {
 		return nil, err
 	}
@@ -87,5 +89,14 @@ func RequestGatewayDHTDiscoverV2(reader *fcrp2pserver.FCRServerReader, writer *f
 	if response.Verify(pubKey) != nil {
 		return nil, errors.New("fail to verify the response")
 	}
+
+	// Check that the response belongs to the request
+	respContentID, respNonce, _, _, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(response)
+	if err != nil {
+		return nil, err
+	}
+	if respNonce != nonce || respContentID.ToString() != contentID.ToString() {
+		return nil, errors.New("the response does not match the request")
+	}
 	return response, nil
 }
-- 
2.43.0


From 867051d290bf77942e844776f910348a9cc2f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 065/107] fix: a request for DHT offers with unmatched or
 unknown gateways must not crash the handler

---
 .../api/clientapi/dht_discover_offer_handler.go       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..1e0f867 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -39,6 +39,12 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "Offer digests do not match gateways."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
@@ -67,6 +73,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Uncontactable, not found: %v", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From a610afeb3cd06241f24041c21940213571b38f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 066/107] fix: offers asked of a gateway after a top-up must be
 paid at their price

---
 .../internal/api/clientapi/dht_discover_offer_handler.go  | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 1e0f867..d895838 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -88,13 +88,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
 				s := "Fail to pay recipient."
 				logging.Error(s + err.Error())
-- 
2.43.0


From da7f61b25b15b1b7865f1d203face77984b657c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 067/107] fix: a P2P request to a gateway without a key must
 not crash it or change its offers

---
 gateway/internal/api/gatewayapi/dht_discover_handler.go      | 5 +++++
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go   | 5 +++++
 .../internal/api/gatewayapi/dht_discover_offer_handler.go    | 5 +++++
 .../internal/api/providerapi/publish_dht_offer_handler.go    | 5 +++++
 .../internal/api/providerapi/publish_group_offer_handler.go  | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler.go b/gateway/internal/api/gatewayapi/dht_discover_handler.go
index 3d00290..7356ad4 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler.go
@@ -35,6 +35,11 @@ func HandleGatewayDHTDiscoverRequest(_ *fcrp2pserver.FCRServerReader, writer *fc
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 2b6a782..f98d526 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index eac4a56..b714aed 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO, Need to have an id
 	pieceCID, nonce, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index ec950bc..46feddf 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -33,6 +33,11 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 511332c..978b706 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -29,6 +29,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
 	if err != nil {
-- 
2.43.0


From 99e5beb67d858ad5d1f03799fe8cde9510b90d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 068/107] fix: a paid P2P request to a gateway without a
 payment manager must not crash it

---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go   | 5 +++++
 .../internal/api/gatewayapi/dht_discover_offer_handler.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index f98d526..a0cea0d 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -64,6 +64,11 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway has no payment manager")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	amount, err := c.PaymentMgr.Receive(paymentChannelAddress, voucher)
 	if err != nil {
 		logging.Error("Payment manager receive error " + err.Error())
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index b714aed..edd55e9 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -60,6 +60,11 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// 	return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	// }
 
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway has no payment manager")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	amount, err := c.PaymentMgr.Receive(paymentChannelAddress, voucher)
 	if err != nil {
 		logging.Error("Internal error in payment manager Receive.")
-- 
2.43.0


From 740937bc584b5fca2b1f6c8eb8707f7abb9e35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 069/107] fix: a failed initialisation must not install a key
 in the gateway

---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..3bab996 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
+	c.GatewayID = nodeID
+	c.GatewayPrivateKey = privKey
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From 56a0bacf8c2ab3d89f3e9594349fb87f49fdd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 070/107] fix: a gateway that cannot ask for DHT offers must
 not report that it does

---
 .../api/adminapi/list_dht_offer_handler.go    | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gateway/internal/api/adminapi/list_dht_offer_handler.go b/gateway/internal/api/adminapi/list_dht_offer_handler.go
index 74ec335..2177a52 100644
--- a/gateway/internal/api/adminapi/list_dht_offer_handler.go
+++ b/gateway/internal/api/adminapi/list_dht_offer_handler.go
@@ -49,24 +49,24 @@ func HandleGatewayAdminListDHTOffersRequest(w rest.ResponseWriter, request *fcrm
 
 	refreshed := false
 	if refresh {
-		// Send list cid offers
-		go func() {
-			cidMin, cidMax, err := c.RegisterMgr.GetGatewayCIDRange(c.GatewayID)
-			if err != nil {
-				logging.Error("Error getting cid range for gateway initial list dht offer: %v", err.Error())
-				return
-			}
-			pvds := c.RegisterMgr.GetAllProviders()
-			for _, pvd := range pvds {
-				id, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
-				if err != nil {
-					logging.Error("Error in generating node id")
-					continue
+		cidMin, cidMax, err := c.RegisterMgr.GetGatewayCIDRange(c.GatewayID)
+		if err != nil {
+			logging.Error("Error getting cid range for gateway initial list dht offer: %v", err.Error())
+		} else {
+			// Send list cid offers
+			go func() {
+				pvds := c.RegisterMgr.GetAllProviders()
+				for _, pvd := range pvds {
+					id, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
+					if err != nil {
+						logging.Error("Error in generating node id")
+						continue
+					}
+					go requestProvider(c, id, fcrmessages.GatewayListDHTOfferRequestType, cidMin, cidMax, id)
 				}
-				go requestProvider(c, id, fcrmessages.GatewayListDHTOfferRequestType, cidMin, cidMax, id)
-			}
-		}()
-		refreshed = true
+			}()
+			refreshed = true
+		}
 	}
 
 	// Construct message
-- 
2.43.0


From c87c9a690880d399f888edca0361d9a94db82459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 071/107] fix: a gateway without a key must not change its
 group CID offer support

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..6b93f18 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,14 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From 2ff6d458405fa14f750d1e738cbc6c3457abef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 072/107] fix: a change of group CID offer support must be
 answered by its own kind of message

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 6b93f18..62671fb 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -50,7 +50,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
-- 
2.43.0


From 9953029a48612ebc602f932c83acd2247918109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 073/107] fix: a change of group CID offer support must reach
 the providers

---
 .../api/adminapi/set_group_cid_support.go      | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 62671fb..895e00e 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -71,25 +71,29 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
     logging.Error("can't write JSON during HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest %s", err.Error())
   }
 
-	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, c.GatewayID)
+	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, providerIDs)
 }
 
-func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, callerGatewayId *nodeid.NodeID) {
+func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, supportedProviderIDs []nodeid.NodeID) {
+	supported := make(map[string]bool)
+	for _, id := range supportedProviderIDs {
+		supported[id.ToString()] = true
+	}
 	for _, pvd := range providers {
 		providerID, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
 		if err != nil {
 			logging.Error("Error in generating node id")
 			continue
 		}
-		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+		go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, supported[providerID.ToString()])
 	}
 }
 
-func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
+func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, thisGatewaySupportsGroupCIDOffer bool) {
+  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer)
   if err != nil {
-    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
+    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID.ToString())
+    return
   }
   logging.Info("Provider response: %v", providerResponse)
 }
-- 
2.43.0


From 00a08c3df833cb19944de3e75b9442259eed24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 074/107] fix: a provider must store every DHT offer it
 publishes, and refuse those it cannot store

---
 .../api/adminapi/publish_dht_offer_handler.go         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..338b61c 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -76,10 +76,13 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	}
 
 	// Add offers
-	for _, offer := range offers {
-		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
-      logging.Error("can't add DHT offer: %v", offer)
-    }
+	for i := range offers {
+		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
+			s := "Fail to add offer: "
+			logging.Error(s + err.Error())
+			rest.Error(w, s+err.Error(), http.StatusBadRequest)
+			return
+		}
 	}
 
 	for _, contendID := range cids {
-- 
2.43.0


From a04be1ca99d772d6fdc2932e92b9870ec21d428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 075/107] fix: a provider must not publish a group offer it
 cannot store

---
 .../internal/api/adminapi/publish_group_offer_handler.go   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index bd73ca5..d531245 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -64,8 +64,11 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 
 	// Add offer to storage
 	if addErr := c.OffersMgr.AddGroupOffer(offer); addErr != nil {
-	  logging.Error("can't add group offer: %v", offer)
-  }
+		s := "Fail to add offer: "
+		logging.Error(s + addErr.Error())
+		rest.Error(w, s+addErr.Error(), http.StatusBadRequest)
+		return
+	}
 
 	// Get all gateways
 	gateways := c.RegisterMgr.GetAllGateways()
-- 
2.43.0


From dd7a25c2db4a91c111df50e7d7b881912c5df919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 076/107] fix: a provider must not take a key from an
 initialisation that fails

---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..c813b56 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
+	c.ProviderID = nodeID
+	c.ProviderPrivateKey = privKey
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From c336b4dd980f20a3b40abace7d3318b4a5cb7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 077/107] fix: a provider without a key must refuse an
 acknowledgement request

---
 provider/internal/api/clientapi/dht_offer_ack_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..a41182e 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From 5cb631c9b1c2e0849b5d05c7eeca8937cba6e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 078/107] fix: a provider without a key must refuse to list
 offers

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..dd6d495 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -34,6 +34,11 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, cidMin, cidMax, registrationBlock, registrationTransactionReceipt, registrationMerkleRoot, registrationMerkleProof, err := fcrmessages.DecodeGatewayListDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
-- 
2.43.0


From 582f1a910c2bed73f139746ef2075f8cd5d195fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 079/107] fix: a gateway's first acknowledgement of listed
 offers must not crash the provider

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index dd6d495..6fa8d04 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -155,7 +155,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 3d1bb33d6807f267c294290b8bf6b949fb167e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 080/107] fix: an acknowledgement of listed offers must carry
 the nonce of the list

---
 .../internal/api/gatewayapi/list_dht_offer_handler.go    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 6fa8d04..af73ca4 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -132,15 +132,20 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
+	if err != nil {
+		return err
+	}
 	if len(acknowledgements) != len(msgs) {
 		return errors.New("invalid response")
 	}
 	for i, acknowledgement := range acknowledgements {
-		// TODO: Check nonce.
-		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
+		nonce, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
 			return err
 		}
+		if nonce != 1 {
+			return errors.New("nonce mismatch")
+		}
 		ok, err := fcrcrypto.VerifyMessage(pubKey, signature, msgs[i].GetMessageBody())
 		if err != nil {
 			return err
-- 
2.43.0


From cc98137ff380570f88f3281301826cc171ad8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 081/107] fix: an acknowledgement of a DHT offer must carry the
 nonce of the publication

---
 .../internal/api/providerapi/publish_dht_offer_requester.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/provider/internal/api/providerapi/publish_dht_offer_requester.go b/provider/internal/api/providerapi/publish_dht_offer_requester.go
index 1eec715..3a474ae 100644
--- a/provider/internal/api/providerapi/publish_dht_offer_requester.go
+++ b/provider/internal/api/providerapi/publish_dht_offer_requester.go
@@ -85,11 +85,13 @@ func RequestProviderPublishDHTOffer(reader *fcrp2pserver.FCRServerReader, writer
 	}
 
 	// Verify the acks
-	// TODO: Check nonce
-	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(response)
+	nonce, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(response)
 	if err != nil {
 		return nil, err
 	}
+	if nonce != 1 {
+		return nil, errors.New("nonce mismatch")
+	}
 	ok, err = fcrcrypto.VerifyMessage(pubKey, sig, request.GetMessageBody())
 	if err != nil {
 		return nil, errors.New("internal error in verifying ack")
-- 
2.43.0


From 74a2c412c7e45637ff6bd58e196786d9e4ea9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 082/107] fix: a provider without a key must refuse a group
 offer notice

---
 .../api/gatewayapi/notify_group_cid_offer_supported.go       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..1908d5c 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -28,6 +28,11 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, groupCIDOfferSupported, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		// Reply with invalid message
-- 
2.43.0


From 6b839d3d806be7800ff8fd223eebcd8253fce683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 083/107] fix: a group offer must be acknowledged by the
 gateway it was published to

---
 .../api/providerapi/publish_group_offer_requester.go         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/providerapi/publish_group_offer_requester.go b/provider/internal/api/providerapi/publish_group_offer_requester.go
index 1bae36d..0bf1bd7 100644
--- a/provider/internal/api/providerapi/publish_group_offer_requester.go
+++ b/provider/internal/api/providerapi/publish_group_offer_requester.go
@@ -82,10 +82,13 @@ func RequestProviderPublishGroupOffer(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	// TODO: Check nonce
-	_, candidate, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(response)
+	ackGatewayID, candidate, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(response)
 	if err != nil {
 		return nil, err
 	}
+	if ackGatewayID.ToString() != gatewayID.ToString() {
+		return nil, errors.New("gateway id not match")
+	}
 	candy := cidoffer.DecodeMessageDigest(candidate)
 	digest := offer.GetMessageDigest()
 	// Add offer to storage
-- 
2.43.0


From f6d589c14b5d6199f436500b14aa6d43db727ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 084/107] fix: a group offer notice must change the list of
 gateways that accept group offers

---
 .../notify_group_cid_offer_supported.go         | 17 ++++++++++++-----
 provider/internal/core/core.go                  |  4 +++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 1908d5c..a593cc0 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -57,7 +57,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -78,9 +80,13 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	return nil
 }
 
-// updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
+// updateGatewaysSupportingGroupCIDOffer returns the collection of Gateway IDs supporting Group CID Offer, changed for a given gateway
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	ids := make([]string, len(savedGateways))
+	for i := range savedGateways {
+		ids[i] = savedGateways[i].ToString()
+	}
+	exists, foundIndex, err := slice.Exists(ids, gatewayID.ToString())
 	if err != nil {
 		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
 	}
@@ -90,7 +96,7 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 			// add new
 			savedGateways = append(savedGateways, *gatewayID)
 		}
-		return
+		return savedGateways
 	}
 
 	// groupCIDOfferSupported == false
@@ -100,4 +106,5 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
 		savedGateways = savedGateways[:len(savedGateways)-1]
 	}
+	return savedGateways
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..153c9fd 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.Mutex
 }
 
 // Single instance of the provider
@@ -118,6 +119,7 @@ func GetSingleInstance(confs ...*settings.AppSettings) *Core {
 			AcknowledgementMap:        make(map[string]map[string]DHTAcknowledgement),
 			AcknowledgementMapLock:    sync.RWMutex{},
 			GroupOfferGatewayIDs:      []nodeid.NodeID{},
+			GroupOfferGatewayIDsLock:  sync.Mutex{},
 			PaymentMgr:                nil,
 		}
 	})
-- 
2.43.0


From 6b70e0800c400f4a271e41531cbf1a1bc56621da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 085/107] fix: a provider must not keep part of the DHT offers
 of a command it refuses

---
 provider/internal/api/adminapi/publish_dht_offer_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 338b61c..8a268b5 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -64,6 +64,12 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 			rest.Error(w, s, http.StatusInternalServerError)
 			return
 		}
+		if offer.HasExpired() {
+			s := "Fail to publish an expired offer."
+			logging.Error(s)
+			rest.Error(w, s, http.StatusBadRequest)
+			return
+		}
 		// Sign the offer
 		if signErr := offer.Sign(c.ProviderPrivateKey, c.ProviderPrivateKeyVersion); signErr != nil {
 			s := "Internal error: Fail to sign offer."
-- 
2.43.0


From 412fe0f51e1d28f95806d61c3e77f729ccb978d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 086/107] fix: the standard discovery must return only the
 offers that pass verification

FindOffersStandardDiscovery verified every offer and then returned all of them,
and neither it nor the others noticed offers for another content.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..86c18e3 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,8 +305,13 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
+	validOffers := make([]cidoffer.SubCIDOffer, 0)
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is for another content.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -335,8 +340,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		}
 		// Offer pass verification
 		logging.Info("Offer pass every verification, added to result")
+		validOffers = append(validOffers, offer)
 	}
-	return offers, nil
+	return validOffers, nil
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
-- 
2.43.0


From 81459e4d0f781fe0f1856db6f81a19e528f052cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 087/107] fix: the DHT discovery must drop replies and offers
 that are for another content

A gateway's genuine reply to another request, and genuine offers for another
content, were returned as the result of the discovery.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 86c18e3..2e13e9a 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -389,13 +389,21 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		_, _, _, offers, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(&resp)
+		recvContentID, _, _, offers, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(&resp)
 		if err != nil {
 			logging.Error("Fail to decode response")
 			continue
 		}
+		if recvContentID.ToString() != contentID.ToString() {
+			logging.Error("Sub response is for another content.")
+			continue
+		}
 		entry := make([]cidoffer.SubCIDOffer, 0)
 		for _, offer := range offers {
+			if offer.GetSubCID().ToString() != contentID.ToString() {
+				logging.Error("Offer is for another content.")
+				continue
+			}
 			// Get provider's pubkey
 			provider := c.registerMgr.GetProvider(offer.GetProviderID())
 			if provider == nil {
-- 
2.43.0


From 0876459a8ac47507b4053ad936042a9fb8cf1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 088/107] fix: the paid standard discovery must work before any
 other payment and respect its limit

FindOffersStandardDiscoveryV2 used the payment manager before it was made, did
not report that a request for offers failed, accepted offers for another
content, and took a limit of 0 for none at all.
---
 .../fcrclient/filecoin_retrieval_client.go    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 2e13e9a..0091ea2 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -670,7 +670,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -705,8 +705,8 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("find offers standard discovery - received 'payment required' twice")
 		}
 	}
-	if len(offerDigests) == 0 {
-		// No offer found
+	if len(offerDigests) == 0 || maxOffers <= 0 {
+		// No offer found, or none asked for
 		return cidOffers, nil
 	}
 
@@ -719,7 +719,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
@@ -733,10 +733,17 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
 
 	var validOffers []cidoffer.SubCIDOffer
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is for another content.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -747,10 +754,6 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("Provider register info not valid.")
 			continue
 		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
 		pubKey, err := provider.GetSigningKey()
 		if err != nil {
 			logging.Error("Fail to obtain public key.")
-- 
2.43.0


From 37e1b8a1e75237a9b19c8a4da93386d9fe9ef0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 089/107] fix: the client must pay the configured search price
 for a DHT discovery

FindOffersDHTDiscoveryV2 paid the default price whatever was configured.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 0091ea2..87894ab 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -454,7 +454,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
-- 
2.43.0


From cf77746d54f483c03aff2996c322f2eceb2efd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 090/107] fix: asked to pay again, the client must pay the
 gateway and the price

After "payment required" FindOffersDHTDiscoveryV2 paid the payment channel
instead of the gateway, and the price of one gateway for any number of them;
both paid discoveries went on with nothing after being refused twice.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 87894ab..652fc6c 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -476,7 +476,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
@@ -488,6 +488,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		}
 		if paymentRequired {
 			logging.Error("gateway DHT discovery error: received 'payment required' twice")
+			return nil, fmt.Errorf("payment required again, in order to proceed topup your balance for payment channel address: %s", paymentChannel)
 		}
 	}
 	for i := 0; i < len(uncontactable); i++ {
@@ -703,6 +704,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		}
 		if paymentRequired {
 			logging.Error("find offers standard discovery - received 'payment required' twice")
+			return cidOffers, fmt.Errorf("payment required again by gateway: %s", gw.GetNodeID())
 		}
 	}
 	if len(offerDigests) == 0 || maxOffers <= 0 {
-- 
2.43.0


From 3facb72895fe7e30a60512feabd5aec8d626bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 091/107] fix: the client must ask each gateway for the offers
 it listed itself

FindOffersDHTDiscoveryV2 sent the digests of the gateways that passed
verification along with the IDs of all that had been contacted, so that after
any that was dropped the digests went to the wrong gateways. One gateway without
offers, or asking for payment, ended the whole discovery; a negative limit
crashed it; and nothing to ask for was paid for and asked for.
---
 .../fcrclient/filecoin_retrieval_client.go    | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 652fc6c..1ec3529 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -496,8 +496,9 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 
 	var addedSubOffersCount int
+	var listingGateways []nodeid.NodeID
 	var offersDigestsFromAllGateways [][]string
-	for i := 0; i < len(contactedGateways); i++ {
+	for i := 0; i < len(contactedGateways) && addedSubOffersCount < offersNumberLimit; i++ {
 		contactedGatewayID := contactedGateways[i]
 		resp := contactedResp[i]
 		// Verify the sub response
@@ -520,28 +521,30 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		_, _, found, offerDigests, _, decodedPaymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
+		recvContentID, _, found, offerDigests, _, decodedPaymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
 		if decodeErr != nil {
 			logging.Error("Fail to decode response")
 			continue
 		}
+		if recvContentID.ToString() != contentID.ToString() {
+			logging.Error("Sub response is for another content.")
+			continue
+		}
 		if decodedPaymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("Gateway: %v was not paid, payment channel: %v", contactedGatewayID.ToString(), paymentChannelAddrToTopup)
+			continue
 		}
-		if !found {
-			return offersMap, nil
+		if !found || len(offerDigests) == 0 {
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
 			offerDigests = offerDigests[:(offersNumberLimit - addedSubOffersCount)]
 		}
 
+		listingGateways = append(listingGateways, contactedGatewayID)
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
 		addedSubOffersCount += len(offerDigests)
-
-		if addedSubOffersCount >= offersNumberLimit {
-			break
-		}
 	}
 
 	// Need to pay again
@@ -550,7 +553,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		unit += len(entry)
 	}
 	if unit == 0 {
-		logging.Warn("have zero offer digests from all gateways, about to pay amount of 0")
+		logging.Warn("have zero offer digests from all gateways, nothing to ask for")
+		return offersMap, nil
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
@@ -566,7 +570,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, listingGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From b23572ce82c4f09707058d6fc9775fb360721846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 092/107] fix: the client must verify the offers it gets in the
 second phase of a DHT discovery

The reply's content and nonce, the signatures of the gateways' answers in it and
everything about the offers were taken on trust; one gateway asking for payment
ended the whole discovery; and an answer with more offers than were asked for
went past the limit.
---
 client/pkg/api/clientapi/client_api.go        |  2 +-
 .../clientapi/dht_discover_offer_requester.go | 55 ++++-------
 .../fcrclient/filecoin_retrieval_client.go    | 93 ++++++++++++++++++-
 3 files changed, 110 insertions(+), 40 deletions(-)

diff --git a/client/pkg/api/clientapi/client_api.go b/client/pkg/api/clientapi/client_api.go
index 9ca22d8..a797693 100644
--- a/client/pkg/api/clientapi/client_api.go
+++ b/client/pkg/api/clientapi/client_api.go
@@ -22,7 +22,7 @@ type ClientApi interface {
 		offersDigests [][]string,
 		paymentChannelAddr string,
 		voucher string,
-	) ([]GatewaySubOffers, error)
+	) ([]nodeid.NodeID, []fcrmessages.FCRMessage, error)
 
 	RequestDHTDiscover(
 		gatewayInfo register.GatewayRegistrar,
diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..8c837e5 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -25,19 +25,14 @@ import (
 	"fmt"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
 )
 
-// GatewaySubOffers - relation between a Gateway and the Sub-Offers received through the Gateway
-type GatewaySubOffers struct {
-	GatewayID *nodeid.NodeID         `json:"gateway_id"`
-	SubOffers []cidoffer.SubCIDOffer `json:"sub_cid_offers"`
-}
-
+// RequestDHTOfferDiscover requests the offers with the given digests of the given gateways, through a given gateway.
+// It returns what the gateways answered; the answers are not verified.
 func (c *Client) RequestDHTOfferDiscover(
 	gatewayRegistrar register.GatewayRegistrar,
 	gatewayIDs []nodeid.NodeID,
@@ -46,57 +41,45 @@ func (c *Client) RequestDHTOfferDiscover(
 	offersDigests [][]string,
 	paymentChannelAddr string,
 	voucher string,
-) ([]GatewaySubOffers, error) {
+) ([]nodeid.NodeID, []fcrmessages.FCRMessage, error) {
 	request, err := fcrmessages.EncodeClientDHTDiscoverOfferRequest(contentID, nonce, offersDigests, gatewayIDs, paymentChannelAddr, voucher)
 	if err != nil {
 		logging.Error("error encoding Client DHT Discover Request: %+v", err)
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Send request and get response
 	response, err := c.httpCommunicator.SendMessage(gatewayRegistrar.GetNetworkInfoClient(), request)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Get the gateway's public key
 	pubKey, err := gatewayRegistrar.GetSigningKey()
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Verify the response
 	if response.Verify(pubKey) != nil {
-		return nil, errors.New("verification failed")
+		return nil, nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	recvContentID, recvNonce, contacted, contactedResp, paymentRequired, paymentChannelAddrToTopup, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
-		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
+		return nil, nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
+	}
+	if recvContentID.ToString() != contentID.ToString() {
+		return nil, nil, errors.New("CID mismatch")
 	}
-	if len(gatewayIDs) != len(fcrMessages) {
-		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
+	if recvNonce != nonce {
+		return nil, nil, errors.New("nonce mismatch")
 	}
-	if paymentRequiredCl {
-		return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopupCl)
+	if len(contacted) != len(contactedResp) {
+		return nil, nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(contacted), len(contactedResp))
 	}
-	var result []GatewaySubOffers
-	for idx, fcrMessage := range fcrMessages {
-		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
-		if decodeErr != nil {
-			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
-		}
-		if paymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
-		}
-		// return first good one
-		if found && len(subCIDOffers) > 0 {
-			gatewaysSubOffers := GatewaySubOffers{
-				GatewayID: &gatewayIDs[idx],
-				SubOffers: subCIDOffers,
-			}
-			result = append(result, gatewaysSubOffers)
-		}
+	if paymentRequired {
+		return nil, nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
 	}
-	return result, nil
+	return contacted, contactedResp, nil
 }
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 1ec3529..df439a0 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -570,17 +570,104 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, listingGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	answeringGateways, answers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, listingGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+	// How many offers each gateway was asked for
+	askedOffersCount := make(map[string]int)
+	for i := range listingGateways {
+		askedOffersCount[listingGateways[i].ToString()] += len(offersDigestsFromAllGateways[i])
+	}
+	for i := range answeringGateways {
+		answeringGatewayID := answeringGateways[i]
+		id := answeringGatewayID.ToString()
+		offers, err := c.verifyDHTOfferAnswer(&answeringGatewayID, &answers[i], contentID, nonce)
+		if err != nil {
+			logging.Error("Answer of gateway: %v dropped: %v", id, err.Error())
+			continue
+		}
+		if len(offers) > askedOffersCount[id] {
+			offers = offers[:askedOffersCount[id]]
+		}
+		askedOffersCount[id] -= len(offers)
+		if len(offers) == 0 {
+			continue
+		}
+		if entry, exists := offersMap[id]; exists {
+			offers = append(*entry, offers...)
+		}
+		offersMap[id] = &offers
 	}
 
 	return offersMap, nil
 }
 
+// verifyDHTOfferAnswer verifies what a gateway answered when asked for offers, and returns the offers in it that pass verification
+func (c *FilecoinRetrievalClient) verifyDHTOfferAnswer(gatewayID *nodeid.NodeID, answer *fcrmessages.FCRMessage, contentID *cid.ContentID, nonce int64) ([]cidoffer.SubCIDOffer, error) {
+	gateway := c.registerMgr.GetGateway(gatewayID)
+	if gateway == nil {
+		return nil, errors.New("error in getting gateway info")
+	}
+	if !validateGatewayInfo(gateway) {
+		return nil, errors.New("gateway register info not valid")
+	}
+	pubKey, err := gateway.GetSigningKey()
+	if err != nil {
+		return nil, err
+	}
+	if err := answer.Verify(pubKey); err != nil {
+		return nil, err
+	}
+	recvContentID, recvNonce, found, offers, _, paymentRequired, paymentChannelAddrToTopup, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(answer)
+	if err != nil {
+		return nil, err
+	}
+	if recvContentID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID mismatch")
+	}
+	if recvNonce != nonce {
+		return nil, errors.New("nonce mismatch")
+	}
+	if paymentRequired {
+		return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+	}
+	validOffers := make([]cidoffer.SubCIDOffer, 0)
+	if !found {
+		return validOffers, nil
+	}
+	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is for another content.")
+			continue
+		}
+		provider := c.registerMgr.GetProvider(offer.GetProviderID())
+		if provider == nil {
+			logging.Error("Error getting provider info.")
+			continue
+		}
+		if !validateProviderInfo(provider) {
+			logging.Error("Provider register info not valid.")
+			continue
+		}
+		pubKey, err := provider.GetSigningKey()
+		if err != nil {
+			logging.Error("Fail to obtain public key.")
+			continue
+		}
+		if err := offer.Verify(pubKey); err != nil {
+			logging.Error("Offer signature fail to verify, with error: %v", err.Error())
+			continue
+		}
+		if offer.VerifyMerkleProof() != nil {
+			logging.Error("Merkle proof verification failed.")
+			continue
+		}
+		validOffers = append(validOffers, offer)
+	}
+	return validOffers, nil
+}
+
 // FindDHTOfferAck finds offer ack for a cid, gateway pair
 func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gatewayID *nodeid.NodeID, providerID *nodeid.NodeID) (bool, error) {
 	provider := c.registerMgr.GetProvider(providerID)
-- 
2.43.0


From 87ecf197245c9ff1214d31678d704f83ee7b2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 093/107] fix: an acknowledgement must belong to a genuine
 publication of the content

FindDHTOfferAck did not check that the provider's answer is about the content
and gateway asked for, that the publication and the offer in it are the
provider's own and genuine, or that the acknowledgement's nonce is that of the
publication, although its comments say so.
---
 client/pkg/api/clientapi/dht_offer_ack_requester.go |  9 ++++++++-
 client/pkg/fcrclient/filecoin_retrieval_client.go   | 12 +++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_offer_ack_requester.go b/client/pkg/api/clientapi/dht_offer_ack_requester.go
index f6af663..1d3b958 100644
--- a/client/pkg/api/clientapi/dht_offer_ack_requester.go
+++ b/client/pkg/api/clientapi/dht_offer_ack_requester.go
@@ -55,10 +55,17 @@ func (c *Client) RequestDHTOfferAck(
 		return false, nil, nil, errors.New("verification failed")
 	}
 
-	_, _, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
+	recvContentID, recvGatewayID, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
 	if err != nil {
 		return false, nil, nil, err
 	}
 
+	if recvContentID.ToString() != contentID.ToString() {
+		return false, nil, nil, errors.New("CID mismatch")
+	}
+	if recvGatewayID.ToString() != gatewayID.ToString() {
+		return false, nil, nil, errors.New("gateway ID mismatch")
+	}
+
 	return found, publishDhtOfferReq, publishDhtOfferRes, nil
 }
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index df439a0..aadeef0 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -719,13 +719,16 @@ func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gate
 		return false, errors.New("error in verifying request")
 	}
 	// Verify the offer indeed contains the given cid
-	_, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
+	publisherID, requestNonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		return false, err
 	}
+	if publisherID.ToString() != providerID.ToString() {
+		return false, errors.New("initial request is not from the given provider")
+	}
 	found = false
 	for _, offer := range offers {
-		if offer.GetCIDs()[0].ToString() == contentID.ToString() {
+		if offer.GetCIDs()[0].ToString() == contentID.ToString() && offer.GetProviderID().ToString() == providerID.ToString() && offer.Verify(pvdPubKey) == nil {
 			found = true
 			break
 		}
@@ -737,10 +740,13 @@ func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gate
 	if ack.Verify(gwPubKey) != nil {
 		return false, errors.New("error in verifying the ack")
 	}
-	_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
+	ackNonce, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
 	if err != nil {
 		return false, fmt.Errorf("error decoding provider publish DHT offer response: %s", err.Error())
 	}
+	if ackNonce != requestNonce {
+		return false, errors.New("ack and request have different nonces")
+	}
 	// Verify ack against request
 	ok, err := fcrcrypto.VerifyMessage(gwPubKey, signature, request.GetMessageBody())
 	if err != nil {
-- 
2.43.0


From bf7983a0fb64ed27ff0463b501781f65e6bc73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 094/107] fix: the client must not return more gateways than
 asked for

Asked to find 0 gateways, FindGateways returned one.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index aadeef0..a75d1e0 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -106,6 +106,9 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 	res := make([]*nodeid.NodeID, 0)
 	count := 0
 	for _, info := range gateways {
+		if count >= maxNumToLocate {
+			break
+		}
 		if info.GetRegionCode() == location {
 			nodeID, err := nodeid.NewNodeIDFromHexString(info.GetNodeID())
 			if err != nil {
@@ -114,9 +117,6 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 			}
 			res = append(res, nodeID)
 			count++
-			if count >= maxNumToLocate {
-				break
-			}
 		}
 	}
 	return res, nil
-- 
2.43.0


From b7531085ffd4a053b859ee53f3f7f084a0b4d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 095/107] fix: the client must not crash on an ID that is nil

AddGatewaysToUse skips nil IDs; removing and activating them crashed.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index a75d1e0..a1d61f8 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -162,6 +162,10 @@ func (c *FilecoinRetrievalClient) RemoveGatewaysToUse(gwNodeIDs []*nodeid.NodeID
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove a gateway to use, a nil was given")
+			continue
+		}
 		_, exist := c.GatewaysToUse[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.GatewaysToUse, gwToRemoveID.ToString())
@@ -213,6 +217,10 @@ func (c *FilecoinRetrievalClient) GetGatewaysToUse() []*nodeid.NodeID {
 func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID) int {
 	numAdded := 0
 	for _, gwToAddID := range gwNodeIDs {
+		if gwToAddID == nil {
+			logging.Error("can't add an active gateway, a nil was given")
+			continue
+		}
 		c.ActiveGatewaysLock.RLock()
 		_, exist := c.ActiveGateways[gwToAddID.ToString()]
 		c.ActiveGatewaysLock.RUnlock()
@@ -251,6 +259,10 @@ func (c *FilecoinRetrievalClient) RemoveActiveGateways(gwNodeIDs []*nodeid.NodeI
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove an active gateway, a nil was given")
+			continue
+		}
 		_, exist := c.ActiveGateways[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.ActiveGateways, gwToRemoveID.ToString())
-- 
2.43.0


From 97adbf5d3cae70b6b58c5cb79cebcb10b9affa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 096/107] fix: concurrent additions must each count only what
 they added

Two AddGatewaysToUse of the same gateway both found it missing and both counted
it as added.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index a1d61f8..b5a4be1 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -147,9 +147,11 @@ func (c *FilecoinRetrievalClient) AddGatewaysToUse(gwNodeIDs []*nodeid.NodeID) i
 		}
 		// Success
 		c.GatewaysToUseLock.Lock()
-		c.GatewaysToUse[gwToAddID.ToString()] = gateway
+		if _, exist := c.GatewaysToUse[gwToAddID.ToString()]; !exist {
+			c.GatewaysToUse[gwToAddID.ToString()] = gateway
+			numAdded++
+		}
 		c.GatewaysToUseLock.Unlock()
-		numAdded++
 	}
 	return numAdded
 }
-- 
2.43.0


From 8e8717fa9a023f3e5d379914017f5a976836bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 097/107] fix: a gateway removed from use during its
 establishment must not become active

AddActiveGateways put the gateway among the active ones without looking again
whether it was still in use, or already active.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index b5a4be1..550bd7a 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -246,10 +246,16 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			continue
 		}
 		// It is success
+		c.GatewaysToUseLock.RLock()
 		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+		_, inUse := c.GatewaysToUse[gwToAddID.ToString()]
+		_, active := c.ActiveGateways[gwToAddID.ToString()]
+		if inUse && !active {
+			c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+			numAdded++
+		}
 		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		c.GatewaysToUseLock.RUnlock()
 	}
 	return numAdded
 }
-- 
2.43.0


From 2a8f952ff4d268b98cdd4e4075531e00d830afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 098/107] fix: the challenge to a gateway must be unpredictable

It came from math/rand, which gives the same numbers every time the program
runs, so that a recorded answer could be played back.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 550bd7a..0b667e1 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -16,6 +16,7 @@ package fcrclient
  */
 
 import (
+	crand "crypto/rand"
 	"errors"
 	"fmt"
 	"math/big"
@@ -238,7 +239,10 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 		}
 		// Attempt an establishment
 		challenge := make([]byte, 32)
-		rand.Read(challenge)
+		if _, err := crand.Read(challenge); err != nil {
+			logging.Error("Error in generating a challenge: %v", err.Error())
+			continue
+		}
 		ttl := time.Now().Unix() + c.Settings.EstablishmentTTL()
 		err := c.clientApi.RequestEstablishment(gatewayRegistrar, challenge, c.Settings.ClientID(), ttl)
 		if err != nil {
-- 
2.43.0


From 595d53b2adff940c8cefefb126fe7699afbd3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 099/107] fix: the payment manager must be looked up under its
 lock

PaymentMgr read the field without the lock it is written under.
---
 .../pkg/fcrclient/filecoin_retrieval_client.go   | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 0b667e1..f674ed2 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -77,18 +77,16 @@ func NewFilecoinRetrievalClient(settings ClientSettings, registerMgr *fcrregiste
 }
 
 func (c *FilecoinRetrievalClient) PaymentMgr() *fcrpaymentmgr.FCRPaymentMgr {
+	c.paymentMgrLock.Lock()
+	defer c.paymentMgrLock.Unlock()
 	// lazy init
 	if c.paymentMgr == nil {
-		c.paymentMgrLock.Lock()
-		defer c.paymentMgrLock.Unlock()
-		if c.paymentMgr == nil {
-			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
-			if err != nil {
-				logging.Error("Error initializing payment manager.")
-				return nil
-			}
-			c.paymentMgr = mgr
+		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
+		if err != nil {
+			logging.Error("Error initializing payment manager.")
+			return nil
 		}
+		c.paymentMgr = mgr
 	}
 
 	return c.paymentMgr
-- 
2.43.0


From 4f2c8672f6994b3b848dfd8b77f22aea858673f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 100/107] fix: a client without a usable wallet must report an
 error, not crash

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index f674ed2..630d147 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -476,6 +476,9 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
+	if c.PaymentMgr() == nil {
+		return nil, errors.New("unable to make payments, payment manager is not available")
+	}
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
@@ -790,6 +793,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
+	if c.PaymentMgr() == nil {
+		return cidOffers, errors.New("unable to make payments, payment manager is not available")
+	}
 	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
-- 
2.43.0


From e24cddccc9ac6d7f3a983e729a9bfa0636991a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 101/107] fix: a wallet key that is no private key must be
 refused, not crash

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 1f13b42..a4a082f 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -45,6 +45,7 @@ import (
 	"github.com/filecoin-project/lotus/lib/sigs"
 	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
 	"github.com/ipfs/go-cid"
+	"github.com/ipsn/go-secp256k1"
 	"github.com/minio/blake2b-simd"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
@@ -548,6 +549,10 @@ func (SecpSigner) ToPublic(pk []byte) ([]byte, error) {
 	if len(pk) == 0 {
 		return nil, fmt.Errorf("unable to get public key, private key is empty")
 	}
+	// A key must be in the range of the curve's order, anything else panics
+	if k := new(big.Int).SetBytes(pk); k.Sign() == 0 || k.Cmp(secp256k1.S256().Params().N) >= 0 {
+		return nil, fmt.Errorf("unable to get public key, private key is out of range")
+	}
 	return crypto.PublicKey(pk), nil
 }
 
-- 
2.43.0


From 9c5c1bb4e34a1f4aa5b19c495551ed5a118fcaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 102/107] fix: Receive must not credit vouchers that can only
 be redeemed under conditions

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index a4a082f..0b846e1 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -284,6 +284,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// This node neither waits for an epoch, knows secrets, asks other actors nor merges lanes, so a
+	// voucher with any such condition is no payment.
+	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) > 0 || sv.Extra != nil || sv.MinSettleHeight != 0 || len(sv.Merges) > 0 {
+		return nil, errors.New("receive voucher method failed, voucher has conditions")
+	}
 	// The voucher is only redeemable on the channel it names. The channel must be given by its
 	// actor address, so that one channel has one local state and vouchers cannot be credited twice.
 	if channelAddr.Protocol() != address.Actor {
-- 
2.43.0


From 18a5bee4253d58ed3bb9dddd33844a165dc192f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 103/107] fix: a client's request to a gateway without a key
 must be refused, not crash the handler

---
 gateway/internal/api/clientapi/dht_discover_handler.go     | 7 +++++++
 gateway/internal/api/clientapi/dht_discover_handler_v2.go  | 7 +++++++
 .../internal/api/clientapi/dht_discover_offer_handler.go   | 7 +++++++
 gateway/internal/api/clientapi/establishment_handler.go    | 7 +++++++
 .../internal/api/clientapi/standard_discover_handler.go    | 7 +++++++
 .../internal/api/clientapi/standard_discover_handler_v2.go | 7 +++++++
 .../api/clientapi/standard_discover_offer_handler.go       | 7 +++++++
 7 files changed, 49 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler.go b/gateway/internal/api/clientapi/dht_discover_handler.go
index 00f2989..96d3c89 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler.go
@@ -37,6 +37,13 @@ func HandleClientDHTCIDDiscoverRequest(w rest.ResponseWriter, request *fcrmessag
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 8323298..fd79298 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -36,6 +36,13 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index d895838..f0029a7 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -32,6 +32,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, allGatewaysOfferDigests, targetGatewayIDs, paymentChannel, voucher, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..b5b72f1 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler.go b/gateway/internal/api/clientapi/standard_discover_handler.go
index cf1613d..823597f 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardCIDDiscoverRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index 1fd911f..ffa8445 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -32,6 +32,13 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index 62401fc..e13bcf7 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From 1e6997b55176cba311dea99b4d18bca337233b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 104/107] fix: a paid request of a client to a gateway without
 a wallet must be refused, not crash the handler

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go  | 7 +++++++
 .../internal/api/clientapi/dht_discover_offer_handler.go   | 7 +++++++
 .../internal/api/clientapi/standard_discover_handler_v2.go | 7 +++++++
 .../api/clientapi/standard_discover_offer_handler.go       | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index fd79298..2d3a846 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -43,6 +43,13 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been given a wallet by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index f0029a7..23f32d0 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -39,6 +39,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been given a wallet by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, allGatewaysOfferDigests, targetGatewayIDs, paymentChannel, voucher, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index ffa8445..9e519eb 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -39,6 +39,13 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 		return
 	}
 
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been given a wallet by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index e13bcf7..991546d 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 		return
 	}
 
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been given a wallet by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From 9157696cdb1373ca63da030bb80f7843ac70bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 105/107] fix: a gateway registered under no valid ID must not
 keep a group offer from the others

---
 .../internal/api/adminapi/publish_group_offer_handler.go    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index d531245..7fe369d 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -75,10 +75,8 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 	for _, gateway := range gateways {
 		gatewayID, err := nodeid.NewNodeIDFromHexString(gateway.GetNodeID())
 		if err != nil {
-			s := "Fail to generate node id."
-			logging.Error(s + err.Error())
-			rest.Error(w, s, http.StatusBadRequest)
-			return
+			logging.Error("Fail to generate node id: %s", err.Error())
+			continue
 		}
 		_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishGroupOfferRequestType, offer, gatewayID)
 		if err != nil {
-- 
2.43.0


From 02f334d8453476b5aa9b798c0362bb73bea3db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 106/107] fix: an amount in the settings that is not a whole
 number is not taken for another

SEARCH_PRICE=0.001 was read as 0, so a gateway served everything for free. Now it gives the default.
---
 gateway/config/config.go  | 7 +++----
 provider/config/config.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/gateway/config/config.go b/gateway/config/config.go
index 435b399..7f71288 100644
--- a/gateway/config/config.go
+++ b/gateway/config/config.go
@@ -5,7 +5,6 @@ package config
 
 import (
   "flag"
-  "fmt"
   "math/big"
   "time"
 
@@ -42,21 +41,21 @@ func Map(conf *viper.Viper) settings.AppSettings {
 	}
 
 	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
+	err = defaultSearchPrice.UnmarshalText([]byte(conf.GetString("SEARCH_PRICE")))
 	if err != nil {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
 	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
+	err = defaultOfferPrice.UnmarshalText([]byte(conf.GetString("OFFER_PRICE")))
 	if err != nil {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
 	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
+	err = defaultTopUpAmount.UnmarshalText([]byte(conf.GetString("TOPUP_AMOUNT")))
 	if err != nil {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
diff --git a/provider/config/config.go b/provider/config/config.go
index 4535063..5543f1b 100644
--- a/provider/config/config.go
+++ b/provider/config/config.go
@@ -5,7 +5,6 @@ package config
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"math/big"
 	"strconv"
@@ -52,21 +51,21 @@ func Map(conf *viper.Viper) settings.AppSettings {
 	}
 
 	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
+	err = defaultSearchPrice.UnmarshalText([]byte(conf.GetString("SEARCH_PRICE")))
 	if err != nil {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
 	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
+	err = defaultOfferPrice.UnmarshalText([]byte(conf.GetString("OFFER_PRICE")))
 	if err != nil {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
 	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
+	err = defaultTopUpAmount.UnmarshalText([]byte(conf.GetString("TOPUP_AMOUNT")))
 	if err != nil {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
-- 
2.43.0


From 742152f36d9d3868b753b7753d3587b12fe6632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 107/107] fix: nodes refresh the register as often as their
 settings say

REGISTER_REFRESH_DURATION was read, but 10 seconds were always used.
---
 gateway/cmd/gateway/main.go   | 4 +---
 provider/cmd/provider/main.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/gateway/cmd/gateway/main.go b/gateway/cmd/gateway/main.go
index f4c305a..5dbac95 100644
--- a/gateway/cmd/gateway/main.go
+++ b/gateway/cmd/gateway/main.go
@@ -23,8 +23,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -55,7 +53,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
diff --git a/provider/cmd/provider/main.go b/provider/cmd/provider/main.go
index f136003..cb79d6b 100644
--- a/provider/cmd/provider/main.go
+++ b/provider/cmd/provider/main.go
@@ -25,8 +25,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -57,7 +55,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
-- 
2.43.0

