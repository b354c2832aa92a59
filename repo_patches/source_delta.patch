From fc2b80fe6c9524698337520a61687c49f6e308bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 01/39] fix: a conflict PoM must hold two different statements
 signed by the accused entity

---
 definition/Verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..f1a7bb3 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -24,6 +24,10 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// Both statements must come from the accused entity, and they must differ
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] || g.Payload[1] == g.Payload[2] {
+			return errors.New(Mislabel)
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
-- 
2.43.0


From 995d474271b60a3215b7fc0805dfe4fece42dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 02/39] fix: bind the signer named in STH, REV and ACC objects
 to their signature

---
 definition/Verify.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index f1a7bb3..9937ead 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -77,6 +77,14 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
+		// The claimed signer must be the one who signed
+		if sig.ID.String() != g.Signer {
+			return errors.New(No_Sig_Match)
+		}
+		// STHs and Revocations speak for the entity named in the payload; accusations name somebody else
+		if g.Type != ACC_INIT && g.Signer != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 9bc47c2cfbe3d1eacb716a3a3433d3d0361a1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 03/39] fix: threshold signatures need threshold many distinct
 known signers

---
 crypto/crypto_config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..11ec8ea 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -74,6 +74,17 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// Every id must belong to a known signer and count only once towards the threshold
+		seen := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if _, known := c.ThresholdPublicMap[id]; !known || seen[id] {
+				return errors.New("Threshold Signature Verification Failed")
+			}
+			seen[id] = true
+		}
+		if sig.Sign == nil || len(seen) < c.Threshold {
+			return errors.New("Threshold Signature Verification Failed")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From 9bab3aa8c5678267c4662d53e5a2913811d14f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 04/39] fix: bind the signer named in a fragment to the
 gossiper that made it

---
 definition/Verify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 9937ead..8a0253f 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -45,7 +45,11 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
+		sig, sigerr := crypto.SigFragmentFromString(g.Signature[0])
+		// The claimed signer must be the one who made the fragment
+		if sigerr != nil || sig.ID.String() != g.Signer {
+			return errors.New(No_Sig_Match)
+		}
 		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
-- 
2.43.0


From b967b45ed6813a700df5ec890dea7512a8554839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 05/39] fix: gossipers keep and pass on only fragments and full
 objects that verify

---
 gossiper/gossiper_server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..5bc12bb 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -343,6 +343,11 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		fmt.Println(util.BLUE, "Received a fragment for a full object.", util.RESET)
 		return
 	}
+	// only valid fragments count towards the threshold
+	if err := gossip_obj.Verify(c.Gossiper_crypto_config); err != nil {
+		fmt.Println(util.RED, "Invalid object "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
+		return
+	}
 	itemcount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
@@ -368,7 +373,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		proceed := c.Store(gossip_obj)
+		if !proceed {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From a60f1449fdcd10a3711d420b1d1dbf354b2bf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 06/39] fix: fragments of one gossiper count once towards the
 threshold

---
 gossiper/Interface.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..0e80edc 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -224,12 +224,25 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// every gossiper counts only once towards the threshold
+func hasFragmentFrom(fragments []definition.Gossip_object, signer string) bool {
+	for _, fragment := range fragments {
+		if fragment.Signer == signer {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
 		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
+		if hasFragmentFrom(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
 		}
@@ -238,6 +251,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
 		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
+		if hasFragmentFrom(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
 		}
@@ -246,6 +262,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
 		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
+		if hasFragmentFrom(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
 		}
-- 
2.43.0


From 7cfabd27e6bebc40ab1965f834718c76f2f67945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:37 +0000
Subject: [PATCH 07/39] fix: conflicting statements that arrive at the same
 time are detected

---
 gossiper/Interface.go       | 14 ++++++--------
 gossiper/gossiper_server.go |  8 ++++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 0e80edc..ef9549c 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -276,15 +276,13 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
-		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// never overwritten: a different one is a conflict
+		_, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]
+		return ok
 	case definition.REV_INIT:
-		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// never overwritten: a different one is a conflict
+		_, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]
+		return ok
 	case definition.ACC_INIT:
 		if _, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]; !ok {
 			return false
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 5bc12bb..8627a03 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -232,6 +232,10 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			Handle_Gossip_object(c, c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj))
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -274,6 +278,10 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			Handle_Gossip_object(c, c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj))
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From b68559ca30a9a54a479577918099ce1dcab4714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:01 +0000
Subject: [PATCH 08/39] fix: monitors keep only gossip objects that verify

The endpoint the gossiper posts to is open to everyone, and neither stopped at a
body that does not decode nor checked signatures, so anyone could plant forged
tree heads, revocations and proofs of misbehavior in client updates.
---
 monitor/monitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..03974be 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,13 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// Verify the object is valid.
+	err = gossip_obj.Verify(c.Monitor_crypto_config)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
-- 
2.43.0


From 16cc0cfacc35f11f2daa9b9eb74d2e7c29be8323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:31 +0000
Subject: [PATCH 09/39] fix: a queried logger or CA must answer with a
 statement of its own

Any valid object was taken as an answer, so an entity without a statement could
escape accusation by replaying a statement of somebody else.
---
 monitor/monitor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 03974be..902a7e7 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -168,6 +168,9 @@ func QueryLoggers(c *MonitorContext) {
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
+						} else if STH.Type != definition.STH_INIT || STH.Signer != loggerURL {
+							log.Println(util.RED+"Logger did not return a STH of its own", util.RESET)
+							Wait_then_accuse(c, loggerURL, "logger")
 						} else {
 							// Process valid object
 							Process_valid_object(c, STH)
@@ -276,6 +279,12 @@ func QueryAuthorities(c *MonitorContext) {
 					return
 				}
 
+				if REV.Type != definition.REV_INIT || REV.Signer != CAURL {
+					log.Println(util.RED+"CA did not return revocation information of its own", util.RESET)
+					Wait_then_accuse(c, CAURL, "ca")
+					return
+				}
+
 				SRH, DCRV := Get_SRH_and_DCRV(REV)
 				key := REV.Payload[0]
 				pass := c.VerifySRH(SRH, &DCRV, key, REV.Period)
-- 
2.43.0


From 1a93477bd605ccd9410338d4b85d570f6cb42cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:31 +0000
Subject: [PATCH 10/39] fix: monitors find conflict PoMs of every period

Conflict PoMs carry the period they were created in, but were looked up under
period 0 only: convicted entities were still queried, accused and published.
---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 29 ++++++++++++++++-------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 902a7e7..7cb9645 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -396,12 +396,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPoM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..9367746 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,29 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// HasConflictPoM reports whether a conflict PoM against the entity is on file.
+// Conflict PoMs never expire, whatever Period they were created in.
+func (c *MonitorContext) HasConflictPoM(entity string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == entity {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From 20105ad4a3b60500f4bb2ae499d53c045ddf076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:27 +0000
Subject: [PATCH 11/39] fix: check the SRH against the updated CRV, and update
 the CRV

A CA signs the hash of its current CRV, which already holds the delta, but
monitors and clients hashed their previous CRV, so every later delta that
revokes something was rejected. They also dropped the result of the union, so
revocations after the first delta were lost.
---
 client/client.go   | 17 +++++++++++------
 monitor/monitor.go | 19 ++++++++++++-------
 monitor/types.go   |  2 +-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/client/client.go b/client/client.go
index f8054fa..a2be71c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -99,13 +99,13 @@ func fetch(url string) ([]byte, error) {
 }
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
-	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the CA signs the CRV it gets by adding the delta to the previous one
+	CRV_new := dCRV
+	if CRV_old := ctx.CRV_database[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -116,6 +116,11 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID != crypto.CTngID(CAID) {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
 	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
@@ -150,7 +155,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7cb9645..590ec51 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -502,23 +502,28 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 }
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
-	// find the corresponding CRV
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the CA signs the CRV it gets by adding the delta to the previous one
+	CRV_new := dCRV
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID != crypto.CTngID(CAID) {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
 	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
diff --git a/monitor/types.go b/monitor/types.go
index 9367746..800b7e8 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -258,7 +258,7 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 				c.CRV_lock.Unlock()
 			} else {
 				c.CRV_lock.Lock()
-				c.Storage_CRV[key].Union(&DCRV)
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 				c.CRV_lock.Unlock()
 			}
 		}
-- 
2.43.0


From c205331bcf0549eef70f27e529595c4d084812eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:29 +0000
Subject: [PATCH 12/39] fix: the CA keeps the previous CRV apart from the
 current one

Both were the same bit set after the first period, so every later delta came out
empty and later revocations were never published.
---
 CA/CRV.go    | 8 +++++---
 CA/server.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..ed0e674 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -93,9 +93,7 @@ func (crv *CRV) MassRevoke(ratio float64) {
 
 func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.Gossip_object {
 	// if REV_type == 1 generate a REV based on another Delta_CRV
-	// hash c.CRV.CRVcurrent
-	hashmsg, _ := c.CRV.CRV_current.MarshalBinary()
-	hash, _ := crypto.GenerateSHA256(hashmsg)
+	CRV_claimed := c.CRV.CRV_current
 	var hashmsgdelta []byte
 	// hash delta CRV
 	if REV_type == 0 {
@@ -114,7 +112,11 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 		if err != nil {
 			panic(err)
 		}
+		CRV_claimed = CRV_claimed.Union(&m2)
 	}
+	// hash the CRV that the delta leads to
+	hashmsg, _ := CRV_claimed.MarshalBinary()
+	hash, _ := crypto.GenerateSHA256(hashmsg)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
 	hash_revocation, _ := crypto.GenerateSHA256([]byte(Period + string(hash) + string(hash_delta)))
diff --git a/CA/server.go b/CA/server.go
index 238c020..6855478 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -420,7 +420,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
-- 
2.43.0


From d62f2dfc2a6408a5ed8bbaaf3fa6fca0b52cacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:11 +0000
Subject: [PATCH 13/39] fix: periods of CAs and loggers are two digits and wrap
 at the hour

Statements for the minutes 0 to 9 were labelled with one digit and those for
minute 0 with 60, while everybody else uses the two digit minute: honest CAs and
loggers had nothing to deliver at the turn of the hour, and clients could not
match their statements.
---
 CA/server.go          | 12 ++++++------
 Logger/buildmerkle.go |  7 ++++++-
 Logger/server.go      |  3 ++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 6855478..35b5b25 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -148,11 +148,11 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 	}
 	// convert int to string
+	Period = strconv.Itoa(periodnum)
 	// add a leading 0 if the string is only 1 digit
 	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
+		Period = "0" + Period
 	}
-	Period = strconv.Itoa(periodnum)
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -408,14 +408,14 @@ func PeriodicTask(ctx *CAContext) {
 		periodnum, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		// add 1 to current period
-		periodnum = periodnum + 1
+		// add 1 to current period, minute 0 follows minute 59
+		periodnum = (periodnum + 1) % 60
 		// convert int to string
+		period = strconv.Itoa(periodnum)
 		// add a leading 0 if the string is only 1 digit
 		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
+			period = "0" + period
 		}
-		period = strconv.Itoa(periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..73f3488 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -32,6 +32,11 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 		RootHash:  hex.EncodeToString(roothash),
 		TreeSize:  len(blocks),
 	}
+	// periods are written with two digits everywhere
+	period := strconv.Itoa(periodNum)
+	if periodNum < 10 {
+		period = "0" + period
+	}
 	payload0 := string(ctx.Logger_private_config.Signer)
 	sth_payload, _ := json.Marshal(STH1)
 	payload1 := hex.EncodeToString(sth_payload)
@@ -40,7 +45,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        period,
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..ef7c8c4 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -214,7 +214,8 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		periodint = periodint + 1
+		// minute 0 follows minute 59
+		periodint = (periodint + 1) % 60
 		period = strconv.Itoa(periodint)
 		// add a leading zero if the period is less than 10
 		if periodint < 10 {
-- 
2.43.0


From 5b7d997ae13c9a545a9488cb7fc2f1db81002dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:22 +0000
Subject: [PATCH 14/39] fix: every conflict PoM gets into a client update

A conflict PoM that reached the monitor after the update of its Period had been
generated was dropped from the delta before the next update, so that clients
never learned of it.
---
 monitor/monitor.go | 3 +++
 monitor/types.go   | 6 +-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 590ec51..d5aff9d 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -476,6 +476,9 @@ func PeriodicTasks(c *MonitorContext) {
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
 		c.SaveStorage(PeriodIO, update)
+		for _, pom := range update.POM_CONs {
+			delete(*c.Storage_CONFLICT_POM_DELTA, pom.GetID())
+		}
 	}
 	time.AfterFunc(time.Duration(c.Monitor_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/monitor/types.go b/monitor/types.go
index 800b7e8..78ce7d1 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -286,11 +286,7 @@ func (c *MonitorContext) WipeStorage() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
-	}
+	// a conflict PoM stays in the delta until an update with it has been saved
 	for key := range *c.Storage_ACCUSATION_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-- 
2.43.0


From 4113952217a3c89938b7c15ede41f58e752670a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:22 +0000
Subject: [PATCH 15/39] fix: answer requests for updates that do not exist

---
 monitor/client-update-monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..7adeacf 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -45,10 +45,15 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, "no update for this period", http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
 	msg, _ := json.Marshal(ctupdate)
 	json.NewEncoder(w).Encode(msg)
-- 
2.43.0


From f150170ac15d7309d43f82fb11ba9911f3ea99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:06 +0000
Subject: [PATCH 16/39] fix: release the client's locks when an update is
 rejected

---
 client/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index a2be71c..d356c3a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -134,6 +134,7 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 
 func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) bool {
 	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
@@ -158,8 +159,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
-	ctx.CRV_DB_RWLock.Unlock()
 	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
@@ -182,8 +183,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		// look for STH first
 		ctx.STH_database[key] = newrecord
 	}
-	ctx.STH_DB_RWLock.Unlock()
 	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
@@ -208,7 +209,6 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		key := pom.Payload[0]
 		ctx.POM_database[key] = pom
 	}
-	ctx.POM_DB_RWLock.Unlock()
 	return true
 }
 
-- 
2.43.0


From 76d51240126645535f91141c018deaef0f8c9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:09 +0000
Subject: [PATCH 17/39] fix: clients take only threshold signed statements from
 updates

A verified object of another type passed for one, e.g. the accusation of a single
monitor in POM_ACCs for a PoM.
---
 client/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index d356c3a..baeccc2 100644
--- a/client/client.go
+++ b/client/client.go
@@ -138,7 +138,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || rev.Type != definition.REV_FULL {
 				fmt.Println("REV verification failed")
 				return false
 			}
@@ -164,7 +164,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || sth.Type != definition.STH_FULL {
 				fmt.Println("sth verification failed")
 				return false
 			}
@@ -188,7 +188,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.ACC_FULL {
 				fmt.Println("pom verification failed")
 				return false
 			}
@@ -200,7 +200,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_CONs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.CON_INIT {
 				fmt.Println("pom verification failed")
 				return false
 			}
-- 
2.43.0


From 2dd5d9c59d59964ae8a0b0fa9a1e80715e86c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:08 +0000
Subject: [PATCH 18/39] fix: loggers survive periods with fewer than two
 precertificates

The Merkle tree library refuses less than two leaves, the error was ignored and
the missing tree dereferenced, which took the whole logger down.
---
 Logger/buildmerkle.go | 22 ++++++++++++++++++----
 Logger/server.go      |  4 +++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 73f3488..647e9ac 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -9,14 +9,28 @@ import (
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
+
+	merkletree "github.com/txaty/go-merkletree"
 )
 
 func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, periodNum int) (definition.Gossip_object, []byte, []crypto.POI_for_transmission) {
 	leafs := make([]crypto.POI_for_transmission, 0)
 	blocks := crypto.GenerateDataBlocks(certs)
-	tree, _ := crypto.GenerateMerkleTree(blocks)
-	POI := crypto.GeneratePOI(tree)
-	roothash := crypto.GenerateRootHash(tree)
+	// a tree has two leaves at least: pair up a single certificate with itself, the
+	// root hash of an empty log is the hash of nothing
+	if len(blocks) == 1 {
+		blocks = append(blocks, blocks[0])
+	}
+	var POI []*merkletree.Proof
+	roothash, _ := crypto.GenerateSHA256(nil)
+	if len(blocks) > 0 {
+		tree, err := crypto.GenerateMerkleTree(blocks)
+		if err != nil {
+			panic(err)
+		}
+		POI = crypto.GeneratePOI(tree)
+		roothash = crypto.GenerateRootHash(tree)
+	}
 	for i, cert := range certs {
 		leafs = append(leafs, crypto.POI_for_transmission{
 			Poi:          POI[i],
@@ -30,7 +44,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 		Timestamp: util.GetCurrentTimestamp(),
 		Period:    util.GetCurrentPeriod(),
 		RootHash:  hex.EncodeToString(roothash),
-		TreeSize:  len(blocks),
+		TreeSize:  len(certs),
 	}
 	// periods are written with two digits everywhere
 	period := strconv.Itoa(periodNum)
diff --git a/Logger/server.go b/Logger/server.go
index ef7c8c4..6f1686b 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -228,7 +228,9 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
 		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
-- 
2.43.0


From 0fcc6884f415cb3bbd8fc953062e112d213f8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:15 +0000
Subject: [PATCH 19/39] fix: clients check that inclusion proofs have the depth
 of the tree

Leaves and inner nodes are hashed alike, so that a certificate whose subject ends with
the hash of a made up inner node lets anything pass for logged.
---
 client/client.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/client/client.go b/client/client.go
index baeccc2..e2f3735 100644
--- a/client/client.go
+++ b/client/client.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math/bits"
 	"net/http"
 
 	"github.com/jik18001/CTngV2/CA"
@@ -16,6 +17,7 @@ import (
 	"github.com/jik18001/CTngV2/util"
 
 	"github.com/bits-and-blooms/bitset"
+	merkletree "github.com/txaty/go-merkletree"
 )
 
 type MonitorData = []definition.Gossip_object
@@ -212,6 +214,16 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	return true
 }
 
+// Leaves and inner nodes of the Merkle tree are hashed alike: a longer proof could
+// pass the subject of another certificate for an inner node.
+func isLeafProof(poi *merkletree.Proof, treesize int) bool {
+	depth := bits.Len(uint(treesize - 1))
+	if depth == 0 {
+		depth = 1
+	}
+	return poi != nil && len(poi.Siblings) == depth
+}
+
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
@@ -247,6 +259,11 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 					} else {
 						//fmt.Println("Loggerinfo.POI: ", loggerinfo.POI)
 						roothashbyte, _ := hex.DecodeString(roothash)
+						if !isLeafProof(loggerinfo.POI.Poi, treeinfo.TreeSize) {
+							fmt.Println("Cert logger POI does not reach down to the leaves of the tree")
+							faulty_logger++
+							continue
+						}
 						pass, err := crypto.VerifyPOI(roothashbyte, loggerinfo.POI.Poi, *Precert)
 						if !pass || err != nil {
 							fmt.Println("Cert logger POI verification failed")
-- 
2.43.0


From 916d23d50268682e76b904819755fe9b1fcfba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:15 +0000
Subject: [PATCH 20/39] fix: clients look up the logger of a tree head by its
 signed name

The Signer field is not covered by the signature: with anything else in it, the tree heads
of blacklisted loggers were accepted.
---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index e2f3735..181d0bb 100644
--- a/client/client.go
+++ b/client/client.go
@@ -234,7 +234,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	Precert := util.ParseTBSCertificate(cert)
 	for _, loggerinfo := range CTngext.LoggerInformation {
 		// if logger is blacklisted already
-		if _, ok := ctx.POM_database[loggerinfo.STH.Signer]; ok {
+		if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {
 			fmt.Println("Logger is blacklisted")
 			faulty_logger++
 		} else {
-- 
2.43.0


From 561bda7d9e6a705ac4e45f58da6e02a28e44d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:15 +0000
Subject: [PATCH 21/39] fix: clients do not panic on certificates of an issuer
 without a CRV

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 181d0bb..6468bbd 100644
--- a/client/client.go
+++ b/client/client.go
@@ -285,6 +285,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No CRV of the issuer, the revocation status is unknown")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From aa3957eebcf8bc168995696141290b1e009d9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:31 +0000
Subject: [PATCH 22/39] fix: clients load the PoM database they saved

A client that was restarted trusted blacklisted entities again.
---
 client/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/types.go b/client/types.go
index f16cb50..0d4ca44 100644
--- a/client/types.go
+++ b/client/types.go
@@ -64,7 +64,7 @@ func LoadSTHDatabase(ctx *ClientContext) {
 		ctx.STH_database = make(map[string]string)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.STH_database)
+	err = json.Unmarshal(databyte, &ctx.STH_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -94,7 +94,7 @@ func LoadPoMdatabase(ctx *ClientContext) {
 		ctx.POM_database = make(map[string]definition.Gossip_object)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.POM_database)
+	err = json.Unmarshal(databyte, &ctx.POM_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -131,5 +131,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 3d582f4018c331819ac234feef21fc463711e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 23/39] fix: the CA takes only tree heads of loggers, and only
 proofs that verify

Anybody could send a broken proof of inclusion for a certificate before the logger sent the
real one: the broken one got into the certificate, and the real one was dropped. A threshold
signed STH of one logger with another logger's name in its unsigned Signer field replaced that
logger's STH. Broken requests are answered now, instead of panicking.
---
 CA/server.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 35b5b25..b403a5f 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -216,13 +216,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil {
-		panic(err)
+	if err != nil || gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "not an STH of a logger", http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -239,12 +241,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "no STH of this logger", http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -254,6 +263,17 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	}
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
+		// only proofs of inclusion that verify get into a certificate
+		roothash, err := definition.ExtractRootHash(sth)
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusBadRequest)
+			return
+		}
+		pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+		if err != nil || !pass {
+			http.Error(w, "POI verification failed", http.StatusBadRequest)
+			return
+		}
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
 		c.Certpool_lock.Lock()
-- 
2.43.0


From afab69a02cd0477aed86b362c811da8500861a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 24/39] fix: loggers and CAs survive peers that are down

There is no response to close when the request failed; the nil dereference in the periodic
task took the whole process down.
---
 CA/server.go     | 1 +
 Logger/server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index b403a5f..8ea7bf4 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -291,6 +291,7 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+		return
 	}
 	defer resp.Body.Close()
 }
diff --git a/Logger/server.go b/Logger/server.go
index 6f1686b..cf756bd 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -154,6 +154,7 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+		return
 	}
 	defer resp.Body.Close()
 }
-- 
2.43.0


From 2836821a3281c720c2644008fcd7d7288d4d7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:26 +0000
Subject: [PATCH 25/39] fix: loggers survive requests that are not certificates

Unmarshall_Signed_PreCert ends the process on anything else.
---
 Logger/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index cf756bd..4284c72 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -11,7 +11,6 @@ import (
 	"strconv"
 	"time"
 
-	"github.com/jik18001/CTngV2/CA"
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -118,7 +117,11 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// Parse the DER-encoded certificate
-	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	cert_ca, err = x509.ParseCertificate(body)
+	if err != nil {
+		http.Error(w, "not a certificate", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From f13296173c33c4cc8e3a68221db0bf7f62d062f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 26/39] fix: map every address to the IP of its own entity

---
 Gen/IPmapping.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..ebabe04 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		//a CA does not send to all loggers: the last 3 characters of the port tell which one it is
+		lindex, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[lindex] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
@@ -309,6 +311,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 		new_dest := ip_json_config.Gossiper_ip_map[index] + semicolon_and_port
 		logger_priv_config.Gossiperlist[index] = new_dest
 	}
+	// iterate over CAlist
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//take the data out and slice out the last 5 characters
+		semicolon_and_port := ca[len(ca)-5:]
+		new_dest := ip_json_config.CA_ip_map[index] + semicolon_and_port
+		logger_priv_config.CAlist[index] = new_dest
+	}
 	util.WriteData(priv_config_path, logger_priv_config)
 }
 
-- 
2.43.0


From 191227e11382d32483a8ea1b62be1a37f3d8f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 27/39] fix: files are replaced as a whole

---
 util/IO.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/util/IO.go b/util/IO.go
index d6c304c..3640ba7 100644
--- a/util/IO.go
+++ b/util/IO.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"os"
-	"strings"
 )
 
 //This read function reads from a Json file as a byte array and returns it.
@@ -35,26 +34,16 @@ func ReadByte(filename string) ([]byte, error) {
 // Writes arbitrary data as a JSON File.
 // If the file does not exist, it will be created.
 func WriteData(filename string, data interface{}) error {
-	jsonFile, err := os.Open(filename)
-	// if we os.Open returns an error then handle it
-	if err != nil && strings.Contains(err.Error(), "no such file or directory") {
-		jsonFile, err = os.Create(filename)
-	}
-	if err != nil {
-		return err
-	}
-	// defer the closing of our jsonFile so that we can parse it later on
-	defer jsonFile.Close()
-	//write to the corresponding file
 	file, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
 		return err
 	}
-	err = os.WriteFile(filename, file, 0644)
+	// Replace the file as a whole: after a crash it has the old or the new content.
+	err = os.WriteFile(filename+".tmp", file, 0644)
 	if err != nil {
 		return err
 	}
-	return nil
+	return os.Rename(filename+".tmp", filename)
 }
 
 func CreateFile(path string) {
-- 
2.43.0


From 7d6beb36ed1cec024a71baf6b03c5f2b490cbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 28/39] fix: the gossiper starts a period afresh without
 pulling tables from under its handlers

---
 gossiper/Interface.go       | 48 ++++++++++++++++++++++++++++++-------
 gossiper/gossiper_server.go |  4 ++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index ef9549c..bb790de 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -98,9 +98,15 @@ func (ctx *GossiperContext) Save() {
 		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
 		Timerlist:              ctx.Timerlist,
 	}
+	ctx.Gossip_object_storage.STH_FRAG_LOCK.RLock()
 	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
+	ctx.Gossip_object_storage.STH_FRAG_LOCK.RUnlock()
+	ctx.Gossip_object_storage.REV_FRAG_LOCK.RLock()
 	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
+	ctx.Gossip_object_storage.REV_FRAG_LOCK.RUnlock()
+	ctx.Gossip_object_storage.ACC_FRAG_LOCK.RLock()
 	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Gossip_object_storage.ACC_FRAG_LOCK.RUnlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -644,14 +650,40 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 }
 
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
+	// clear all storage, table by table: others may be using them
+	// conflict PoMs and the permanent blacklist stay
+	storage := ctx.Gossip_object_storage
+	empty := InitializeGossipObjectStorage()
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = empty.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = empty.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = empty.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = empty.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = empty.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = empty.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = empty.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = empty.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = empty.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = empty.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
 	// clear all PoM counter and gossiper log
 }
 
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 8627a03..6ed0986 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -364,6 +364,10 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
 		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		if len(itemlist) < c.Gossiper_crypto_config.Threshold {
+			// the storage was wiped since
+			return
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From e2c5a6af89a6708fbaec59079554c6162e2a4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 29/39] fix: the monitor's tables are used under their locks

---
 monitor/monitor.go | 21 ++++++++++++++++++++-
 monitor/types.go   | 26 ++++++++++++++++++++------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index d5aff9d..7cfc4ea 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -339,14 +339,18 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -392,7 +396,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, accused := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if accused {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -426,18 +433,26 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -476,9 +491,11 @@ func PeriodicTasks(c *MonitorContext) {
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
 		c.SaveStorage(PeriodIO, update)
+		c.CONFLICT_POM_lock.Lock()
 		for _, pom := range update.POM_CONs {
 			delete(*c.Storage_CONFLICT_POM_DELTA, pom.GetID())
 		}
+		c.CONFLICT_POM_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(c.Monitor_public_config.MMD-20)*time.Second, f1)
 }
@@ -507,9 +524,11 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// the CA signs the CRV it gets by adding the delta to the previous one
 	CRV_new := dCRV
+	ctx.CRV_lock.Lock()
 	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
 		CRV_new = CRV_old.Union(dCRV)
 	}
+	ctx.CRV_lock.Unlock()
 	// verify the SRH
 	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
diff --git a/monitor/types.go b/monitor/types.go
index 78ce7d1..35ac237 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -100,18 +100,22 @@ func (c *MonitorContext) HasConflictPoM(entity string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -124,11 +128,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -222,15 +228,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -252,46 +258,54 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key].InPlaceUnion(&DCRV)
-				c.CRV_lock.Unlock()
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 	// a conflict PoM stays in the delta until an update with it has been saved
+	c.ACCUSATION_POM_lock.Lock()
 	for key := range *c.Storage_ACCUSATION_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 		}
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 93d2a912c31f291c7a22f915407c67cefa22bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:43 +0000
Subject: [PATCH 30/39] fix: the tables of CAs and loggers are used under their
 locks, and late precertificates wait for the next tree

---
 CA/server.go     | 57 ++++++++++++++++++++++++++++++++----------------
 Logger/Types.go  |  2 ++
 Logger/server.go | 16 ++++++++++++--
 3 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 8ea7bf4..d343ea1 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -74,19 +74,22 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	}
 	Period = strconv.Itoa(periodnum)
 	c.Request_Count = c.Request_Count + 1
+	c.Request_Count_lock.Lock()
+	rev, rev_fake := c.REV_storage[Period], c.REV_storage_fake[Period]
+	c.Request_Count_lock.Unlock()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
-		json.NewEncoder(w).Encode(c.REV_storage[Period])
+		json.NewEncoder(w).Encode(rev)
 		return
 	case 1:
 		//split-world CA
 		if c.Request_Count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(rev_fake)
 			fmt.Println("Fake REV sent")
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			fmt.Println("Real REV sent")
 			return
 		}
@@ -98,15 +101,15 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if c.Request_Count%c.MisbehaviorInterval == 0 || c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	case 4:
 		// Split-world CA on second round since requested by monitor, behave normally on other rounds
 		if c.Request_Count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(rev_fake)
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 		}
 		return
 	case 5:
@@ -114,7 +117,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 
@@ -123,7 +126,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if c.Request_Count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	}
@@ -153,19 +156,22 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	if periodnum < 10 {
 		Period = "0" + Period
 	}
+	c.Request_Count_lock.Lock()
+	rev, rev_fake := c.REV_storage[Period], c.REV_storage_fake[Period]
+	c.Request_Count_lock.Unlock()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
-		json.NewEncoder(w).Encode(c.REV_storage[Period])
+		json.NewEncoder(w).Encode(rev)
 		return
 	case 1:
 		//split-world CA
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(rev_fake)
 			fmt.Println("Fake REV sent")
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			fmt.Println("Real REV sent")
 			return
 		}
@@ -177,15 +183,15 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if req_count%c.MisbehaviorInterval == 0 || c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	case 4:
 		// Split-world CA on second round since requested by monitor, behave normally on other rounds
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(rev_fake)
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 		}
 		return
 	case 5:
@@ -193,7 +199,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 
@@ -202,7 +208,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	}
@@ -261,6 +267,9 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	// proofs of several loggers may come at the same time
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		// only proofs of inclusion that verify get into a certificate
@@ -276,9 +285,7 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		}
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
@@ -313,6 +320,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
@@ -321,6 +330,8 @@ func wipeSTHstorage(c *CAContext) {
 func SignAllCerts(c *CAContext) []*x509.Certificate {
 	root := c.Rootcert
 	priv := c.CA_crypto_config.SignSecretKey
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	certs := c.CurrentCertificatePool.GetCertList()
 	tbscerts := UpdateAllforSigning(certs)
 	var signed_certs []*x509.Certificate
@@ -385,7 +396,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -393,7 +406,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -442,9 +457,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -455,7 +472,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/Logger/Types.go b/Logger/Types.go
index e1696e3..432d41a 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -168,7 +168,9 @@ func GenerateLogger_crypto_config_template() *crypto.StoredCryptoConfig {
 }
 
 func SaveToStorage(ctx LoggerContext) {
+	ctx.CertPool_lock.Lock()
 	certs := ctx.CurrentPrecertPool.GetCerts()
+	ctx.CertPool_lock.Unlock()
 	data := [][]any{}
 	for _, cert := range certs {
 		cert_json, _ := json.Marshal(cert)
diff --git a/Logger/server.go b/Logger/server.go
index 4284c72..fe7a7aa 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -168,7 +168,9 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
+			c.CertPool_lock.Lock()
 			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			c.CertPool_lock.Unlock()
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
@@ -226,12 +228,14 @@ func PeriodicTask(ctx *LoggerContext) {
 			period = "0" + period
 		}
 		// update STH
+		ctx.CertPool_lock.Lock()
 		certlist := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		ctx.CertPool_lock.Unlock()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		}
@@ -239,8 +243,10 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
@@ -254,8 +260,14 @@ func PeriodicTask(ctx *LoggerContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
+		// clear the cert pool, except for the certificates that came since
+		ctx.CertPool_lock.Lock()
+		late := ctx.CurrentPrecertPool.GetCertList()[len(certlist):]
 		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		for _, cert := range late {
+			ctx.CurrentPrecertPool.AddCert(cert)
+		}
+		ctx.CertPool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 7dfc38252294f0d755dc2d7cc670cf0ffe5c46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:57 +0000
Subject: [PATCH 31/39] fix: the client's databases are read under their locks

---
 client/client.go | 7 +++++++
 client/types.go  | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/client/client.go b/client/client.go
index 6468bbd..b37f37b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -225,6 +225,13 @@ func isLeafProof(poi *merkletree.Proof, treesize int) bool {
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
+	// updates may come in meanwhile
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
 	var total int
diff --git a/client/types.go b/client/types.go
index 0d4ca44..050b40c 100644
--- a/client/types.go
+++ b/client/types.go
@@ -43,10 +43,14 @@ type ClientContext struct {
 }
 
 func SaveSTHDatabase(ctx *ClientContext) {
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.STH_Storage_filepath, ctx.STH_database)
 }
 
 func SaveCRVDatabase(ctx *ClientContext) {
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
 	var crvstorage = make(map[string][]byte)
 	for key, value := range ctx.CRV_database {
 		crvstorage[key], _ = value.MarshalBinary()
@@ -55,6 +59,8 @@ func SaveCRVDatabase(ctx *ClientContext) {
 }
 
 func SavePomDatabase(ctx *ClientContext) {
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.PoM_Store_filepath, ctx.POM_database)
 }
 
-- 
2.43.0


From 8692fceba05b761b6d456f83fb678ec50c9f81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:40 +0000
Subject: [PATCH 32/39] fix: fragments on different contents do not add up

One gossiper that signs something else for an entity and period, or the same
content with other boundaries between the fields, kept the statement's own
fragments from being combined.
---
 gossiper/Interface.go       | 44 ++++++++++++++++++++++++-------------
 gossiper/gossiper_server.go |  2 +-
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index bb790de..c752a5e 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -230,6 +230,17 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// fragments on different contents do not add up to a threshold signature
+func sameContent(fragments []definition.Gossip_object, obj definition.Gossip_object) []definition.Gossip_object {
+	var same []definition.Gossip_object
+	for _, fragment := range fragments {
+		if fragment.Payload == obj.Payload {
+			same = append(same, fragment)
+		}
+	}
+	return same
+}
+
 // every gossiper counts only once towards the threshold
 func hasFragmentFrom(fragments []definition.Gossip_object, signer string) bool {
 	for _, fragment := range fragments {
@@ -245,33 +256,36 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
-		if hasFragmentFrom(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+		same := sameContent(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
+		before := len(same)
+		if hasFragmentFrom(same, gossip_object.Signer) {
 			return ctx.Gossiper_crypto_config.Threshold
 		}
-		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
-		if hasFragmentFrom(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+		same := sameContent(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
+		before := len(same)
+		if hasFragmentFrom(same, gossip_object.Signer) {
 			return ctx.Gossiper_crypto_config.Threshold
 		}
-		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
-		if hasFragmentFrom(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+		same := sameContent(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
+		before := len(same)
+		if hasFragmentFrom(same, gossip_object.Signer) {
 			return ctx.Gossiper_crypto_config.Threshold
 		}
-		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
@@ -304,7 +318,7 @@ func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_objec
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
@@ -314,7 +328,7 @@ func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_objec
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
@@ -323,7 +337,7 @@ func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_objec
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
@@ -382,7 +396,7 @@ func (ctx *GossiperContext) IsDuplicate_G(gossip_object definition.Gossip_object
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
@@ -394,7 +408,7 @@ func (ctx *GossiperContext) IsDuplicate_G(gossip_object definition.Gossip_object
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
@@ -405,7 +419,7 @@ func (ctx *GossiperContext) IsDuplicate_G(gossip_object definition.Gossip_object
 			return false
 		}
 		for _, v := range ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] {
-			if v.Signature == gossip_object.Signature {
+			if v.Signature == gossip_object.Signature && v.Payload == gossip_object.Payload {
 				return true
 			}
 		}
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 6ed0986..32392ba 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -363,7 +363,7 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		itemlist := sameContent(c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type), gossip_obj)
 		if len(itemlist) < c.Gossiper_crypto_config.Threshold {
 			// the storage was wiped since
 			return
-- 
2.43.0


From 7236e645973d7d21aa151baedec72d7af1ec786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 33/39] fix: monitors publish only tree heads and revocations
 that clients can take

---
 monitor/monitor.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7cfc4ea..d78a45b 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -54,6 +54,11 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 		http.Error(w, err.Error(), http.StatusBadRequest)
 		return
 	}
+	// Clients reject a whole update for one object they cannot use.
+	if !c.UsableByClients(gossip_obj) {
+		http.Error(w, "Not a tree head, or not a revocation that fits the previous ones.", http.StatusBadRequest)
+		return
+	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
 		//fmt.Println("Duplicate:", definition.TypeString(gossip_obj.Type), util.GetSenderURL(r)+".")
@@ -521,6 +526,20 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 	return
 }
 
+// UsableByClients reports whether clients can take what a threshold signed object says:
+// gossipers sign tree heads and revocations without looking into them.
+func (ctx *MonitorContext) UsableByClients(g definition.Gossip_object) bool {
+	switch g.Type {
+	case definition.STH_FULL:
+		_, err := definition.ExtractRootHash(g)
+		return err == nil
+	case definition.REV_FULL:
+		SRH, DCRV := Get_SRH_and_DCRV(g)
+		return ctx.VerifySRH(SRH, &DCRV, g.Payload[0], g.Period)
+	}
+	return true
+}
+
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// the CA signs the CRV it gets by adding the delta to the previous one
 	CRV_new := dCRV
-- 
2.43.0


From d096ff7cccacebddd7aeb56ce245a771a155eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:54 +0000
Subject: [PATCH 34/39] fix: threshold signed objects keep the period of their
 statement

---
 gossiper/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gossiper/gen.go b/gossiper/gen.go
index f36674f..ea70667 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -69,7 +69,7 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FULL(g_list []definition.Goss
 	return definition.Gossip_object{
 		Application:   definition.CTNG_APPLICATION,
 		Type:          TargetType,
-		Period:        util.GetCurrentPeriod(),
+		Period:        g_list[0].Period,
 		Signer:        "",
 		Signers:       signer_list,
 		Signature:     [2]string{sig_full_string, ""},
-- 
2.43.0


From 956b6bcf1e12b67ab05a0bd38df6befe92959fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 35/39] fix: certificates of different keys or issuers are not
 duplicates of each other

---
 crypto/certpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..f987d1a 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -5,6 +5,7 @@ package crypto
 
 import (
 	//"CTng/gossip"
+	"bytes"
 	"encoding/pem"
 	"fmt"
 
@@ -71,7 +72,8 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		// TBS certificates have no raw content to compare, and subjects may have certificates for other keys or of other issuers
+		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) && s.certs[c].Issuer.CommonName == cert.Issuer.CommonName {
 			return true
 		}
 	}
-- 
2.43.0


From 2e33d9678ec70f8f8313bf9e858fd23ff7a8b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 36/39] fix: a logger proves every precertificate, also those
 with the same SubjectKeyId

---
 Logger/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index fe7a7aa..c957869 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -169,7 +169,8 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
 			c.CertPool_lock.Lock()
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			// the i-th proof is that of the i-th precertificate, others may have the same SubjectKeyId
+			precert := c.CurrentPrecertPool.GetCertList()[i]
 			c.CertPool_lock.Unlock()
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
-- 
2.43.0


From e00f2f25a735a0db7d023c33842aa6a6e37e1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:05 +0000
Subject: [PATCH 37/39] fix: the CA does not take an STH again, or under
 another period

Anybody could send a logger's STH of an earlier period, or the current one
with another (unsigned) Period, to the CA: it replaced the genuine one, and
certificates got no proof of that logger or one that clients reject.
---
 CA/server.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index d343ea1..e38d093 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -9,6 +9,7 @@ import (
 	"github.com/jik18001/CTngV2/util"
 
 	//"bytes"
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 
@@ -236,10 +237,27 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	//fmt.Println("STH passed verification")
 	c.STH_storage_lock.Lock()
 	defer c.STH_storage_lock.Unlock()
+	// anybody can send an earlier STH again, or under another period
+	if !isSTHforPeriod(gossip_sth) || signedSTH(gossip_sth).Timestamp < signedSTH(c.STH_storage[gossip_sth.Signer]).Timestamp {
+		http.Error(w, "not the latest STH of the logger", http.StatusBadRequest)
+		return
+	}
 	c.STH_storage[gossip_sth.Signer] = gossip_sth
 	//fmt.Println("STH storage: ", c.STH_storage)
 }
 
+// a logger makes the STH of a period during the period before
+func isSTHforPeriod(gossip_sth definition.Gossip_object) bool {
+	made, err := strconv.Atoi(signedSTH(gossip_sth).Period)
+	return err == nil && gossip_sth.Period == fmt.Sprintf("%02d", (made+1)%60)
+}
+
+func signedSTH(gossip_sth definition.Gossip_object) (sth definition.STH) {
+	decoded, _ := hex.DecodeString(gossip_sth.Payload[1])
+	json.Unmarshal(decoded, &sth)
+	return sth
+}
+
 // receive POI from logger
 func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	// Unmarshal the request body into [][]byte
-- 
2.43.0


From bfa7922b555b3d705302d75ca2da3ee8c3996ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:53 +0000
Subject: [PATCH 38/39] fix: the CA takes STHs of loggers only

A monitor or another CA could send the CA an STH and proofs of its own, which
went into the certificates.
---
 CA/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CA/server.go b/CA/server.go
index e38d093..accf9c5 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -229,7 +229,7 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil || gossip_sth.Type != definition.STH_INIT {
+	if err != nil || gossip_sth.Type != definition.STH_INIT || !isLogger(c, gossip_sth.Signer) {
 		http.Error(w, "not an STH of a logger", http.StatusBadRequest)
 		return
 	}
@@ -246,6 +246,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	//fmt.Println("STH storage: ", c.STH_storage)
 }
 
+func isLogger(c *CAContext, signer string) bool {
+	for _, logger := range c.CA_public_config.All_Logger_URLs {
+		if logger == signer {
+			return true
+		}
+	}
+	return false
+}
+
 // a logger makes the STH of a period during the period before
 func isSTHforPeriod(gossip_sth definition.Gossip_object) bool {
 	made, err := strconv.Atoi(signedSTH(gossip_sth).Period)
-- 
2.43.0


From 98b014b0770673007e7052ef90e184632ac1a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:43 +0000
Subject: [PATCH 39/39] fix: statements of earlier periods do not count as
 delivered

A logger or CA that answered the monitor with an earlier statement was
neither accused nor in the update.
---
 monitor/monitor.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index d78a45b..bbc3f0c 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -173,8 +173,8 @@ func QueryLoggers(c *MonitorContext) {
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
-						} else if STH.Type != definition.STH_INIT || STH.Signer != loggerURL {
-							log.Println(util.RED+"Logger did not return a STH of its own", util.RESET)
+						} else if STH.Type != definition.STH_INIT || STH.Signer != loggerURL || STH.Period != util.GetCurrentPeriod() {
+							log.Println(util.RED+"Logger did not return a STH of its own for this period", util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
 						} else {
 							// Process valid object
@@ -284,8 +284,8 @@ func QueryAuthorities(c *MonitorContext) {
 					return
 				}
 
-				if REV.Type != definition.REV_INIT || REV.Signer != CAURL {
-					log.Println(util.RED+"CA did not return revocation information of its own", util.RESET)
+				if REV.Type != definition.REV_INIT || REV.Signer != CAURL || REV.Period != util.GetCurrentPeriod() {
+					log.Println(util.RED+"CA did not return revocation information of its own for this period", util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
 					return
 				}
-- 
2.43.0

