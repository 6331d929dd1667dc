From ce22a7d959e101cb26d02b4b2bb921b42d51b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:09 +0000
Subject: [PATCH 01/42] fix: reject signatures naming a signer without a known
 public key

A signer that is not in the key directory was verified against a zero
public key: RSA verification panics on it (terminating the process when it
happens outside a request handler) and BLS verification uses the identity
point.
---
 crypto/bls.go           | 11 +++++++++--
 crypto/crypto_config.go |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crypto/bls.go b/crypto/bls.go
index a414c4a..4f7ba59 100644
--- a/crypto/bls.go
+++ b/crypto/bls.go
@@ -98,7 +98,11 @@ func (sig ThresholdSig) Verify(msg string, pubs *BlsPublicMap) bool {
 	// Construct the list of public keys
 	pubList := make([]bls.PublicKey, len(sig.IDs))
 	for i := range sig.IDs {
-		pubList[i] = (*pubs)[sig.IDs[i]]
+		pub, ok := (*pubs)[sig.IDs[i]]
+		if !ok {
+			return false
+		}
+		pubList[i] = pub
 	}
 	// FastAggregateVerify agregates the public signatures of the signers of the message and then verifies the message against that aggregated signature.
 	return sig.Sign.FastAggregateVerify(pubList, []byte(msg))
@@ -106,7 +110,10 @@ func (sig ThresholdSig) Verify(msg string, pubs *BlsPublicMap) bool {
 
 // Given a message and a public key mapping, verify the signature runs.
 func (f SigFragment) Verify(msg string, pubs *BlsPublicMap) bool {
-	pub := (*pubs)[f.ID]
+	pub, ok := (*pubs)[f.ID]
+	if !ok {
+		return false
+	}
 	return (f.Sign).Verify(&pub, msg)
 }
 
diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..38486d0 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -41,7 +41,10 @@ func (c *CryptoConfig) Sign(msg []byte) (RSASig, error) {
 // Verify a message using the configured "normal signature" scheme, and the stored public keys.
 func (c *CryptoConfig) Verify(msg []byte, sig RSASig) error {
 	if c.SignScheme == "rsa" {
-		pub := c.SignPublicMap[sig.ID]
+		pub, ok := c.SignPublicMap[sig.ID]
+		if !ok {
+			return errors.New("No public key known for " + sig.ID.String())
+		}
 		//fmt.Println("PublicKey Found: ",pub)
 		return RSAVerify(msg, sig, &pub)
 	}
-- 
2.43.0


From 2ae5a5ea3cf624ce09eee61e277e33cade017af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:15 +0000
Subject: [PATCH 02/42] fix: threshold verification requires threshold many
 distinct known signers

An aggregate by a single party (or one repeating a signer) was accepted as
a threshold signature.
---
 crypto/crypto_config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index 38486d0..1f814dd 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -77,6 +77,16 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// Only distinct signers with a known key count towards the threshold.
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if _, ok := c.ThresholdPublicMap[id]; ok {
+				signers[id] = true
+			}
+		}
+		if len(signers) < c.Threshold {
+			return errors.New("Not enough signers")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From 7aa69820e0f08696e6941be3afe2438de2f1bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:48 +0000
Subject: [PATCH 03/42] fix: bind the named signer of an object to the key that
 verified it

Any known party could sign a statement and have it attributed to somebody
else; the parse error of BLS signatures was ignored (a threshold signature
that does not parse leaves a nil signature behind).
---
 definition/Verify.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..fa2bb28 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -41,8 +41,15 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		// the fragment must have been made by the signer the object names
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +62,11 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -73,6 +83,14 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
+		// the signature must have been made by the signer the object names
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
+		// STHs and revocations are statements of the entity about itself
+		if g.Type != ACC_INIT && g.Signer != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 4ea219bb01a0dd14232b483638433071d9dd49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:52 +0000
Subject: [PATCH 04/42] fix: a conflict proof must show two statements of the
 accused for one period

Two signatures by arbitrary parties, the same statement twice, or honest
statements from two different periods were accepted as proof of
equivocation.
---
 definition/Verify.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index fa2bb28..90fbfc1 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -5,10 +5,10 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/util"
-	//"strings"
 	//"time"
 )
 
@@ -19,11 +19,45 @@ const (
 	Invalid_Type = "Invalid Type"
 )
 
+// StatementPeriod returns the period stated inside the signed content of an STH or a revocation,
+// which is the concatenation of its three payload fields.
+func StatementPeriod(entity string, content string) (string, error) {
+	if !strings.HasPrefix(content, entity) {
+		return "", errors.New(Mislabel)
+	}
+	content = strings.TrimPrefix(content, entity)
+	if strings.HasPrefix(content, "CRV") {
+		var rev Revocation
+		err := json.Unmarshal([]byte(strings.TrimPrefix(content, "CRV")), &rev)
+		return rev.Period, err
+	}
+	decoded, err := hex.DecodeString(content)
+	if err != nil {
+		return "", err
+	}
+	var sth STH
+	err = json.Unmarshal(decoded, &sth)
+	return sth.Period, err
+}
+
 func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig1, sigerr1 := crypto.RSASigFromString(g.Signature[0])
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// both signatures must have been made by the accused entity
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
+		// signing the same statement twice, or statements for different periods, is no conflict
+		if g.Payload[1] == g.Payload[2] {
+			return errors.New("Statements do not conflict")
+		}
+		period1, perr1 := StatementPeriod(g.Payload[0], g.Payload[1])
+		period2, perr2 := StatementPeriod(g.Payload[0], g.Payload[2])
+		if perr1 != nil || perr2 != nil || period1 != period2 {
+			return errors.New("Statements do not conflict")
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
-- 
2.43.0


From 755dae406950844216f070be9ede7477b61f6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 05/42] fix: gossiper verifies fragments before storing and
 relaying them

Forged fragments were stored, counted towards the threshold and relayed.
---
 gossiper/gossiper_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..d23e413 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -343,6 +343,11 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		fmt.Println(util.BLUE, "Received a fragment for a full object.", util.RESET)
 		return
 	}
+	err := gossip_obj.Verify(c.Gossiper_crypto_config)
+	if err != nil {
+		fmt.Println(util.RED, "Invalid object "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
+		return
+	}
 	itemcount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
-- 
2.43.0


From c666e183db30c6716b878bd156aa1b4c221a8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:31 +0000
Subject: [PATCH 06/42] fix: gossiper sends threshold objects to its monitor
 only if it stored them

The result of storing (which includes verification) was ignored.
---
 gossiper/gossiper_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index d23e413..199879e 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -373,7 +373,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		proceed := c.Store(gossip_obj)
+		if !proceed {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From 91de8f9443e59f6cb7a64b78b0fcca16a616ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 07/42] fix: collect at most one fragment per signer

The same fragment delivered twice at the same time (or with its signature
written differently) was counted twice and used up a place, so that the
aggregate could never reach enough distinct signers.
---
 gossiper/Interface.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..eacd183 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -224,11 +224,26 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// HasFragmentFrom tells whether one of the fragments was made by the given signer
+func HasFragmentFrom(fragments []definition.Gossip_object, signer string) bool {
+	for _, fragment := range fragments {
+		if fragment.Signer == signer {
+			return true
+		}
+	}
+	return false
+}
+
+// Stores a fragment unless the threshold number has been collected already.
+// Returns the number of fragments collected before, a second fragment of a signer is not needed.
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
+		if HasFragmentFrom(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
@@ -237,6 +252,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
+		if HasFragmentFrom(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
@@ -245,6 +263,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
+		if HasFragmentFrom(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
-- 
2.43.0


From aa792ebcf7dd0539f033778d8c2b354448115aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 08/42] fix: do not aggregate fragments that were wiped in the
 meantime

The periodic wipe between storing the last fragment and reading the list
made the aggregation index an empty list, outside a request handler this
terminates the process.
---
 gossiper/gossiper_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 199879e..0cb2733 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -356,6 +356,10 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
 		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		if len(itemlist) == 0 {
+			// the storage has been wiped in the meantime
+			return
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From 49576be7fcd23abdb3873382e0942035f0aec619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:37 +0000
Subject: [PATCH 09/42] fix: a conflicting statement never overwrites the first
 one

Two conflicting statements handled at the same time both passed the check
for conflicts, the second then replaced the first and no conflict proof was
made. The first one now stays and the conflict is reported.
---
 gossiper/Interface.go       | 25 +++++++++----------------
 gossiper/gossiper_server.go | 12 ++++++++++++
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index eacd183..43ebac3 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -275,28 +275,21 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	return 0
 
 }
+// The first initial object stays, whatever its signature: a different one must not replace it.
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
-		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		_, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]
+		return ok
 	case definition.REV_INIT:
-		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		_, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]
+		return ok
 	case definition.ACC_INIT:
-		if _, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		_, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]
+		return ok
 	case definition.CON_INIT:
-		if _, ok := ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		_, ok := ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()]
+		return ok
 	case definition.STH_FRAG:
 		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) == 0 {
 			return false
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 0cb2733..7ca02c9 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -232,6 +232,12 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			CON := c.Generate_CON_INIT(obj_1, gossip_obj)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -274,6 +280,12 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			CON := c.Generate_CON_INIT(obj_1, gossip_obj)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From 7aa7a17c932784cf85017392744aa57a742ec08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:38 +0000
Subject: [PATCH 10/42] fix: do not cache or hand out payloads of blacklisted
 entities

---
 gossiper/Interface.go       | 3 +++
 gossiper/gossiper_server.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 43ebac3..cfe8dda 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -46,6 +46,9 @@ func (ctx *GossiperContext) SavePayload(g definition.Gossip_object) {
 		fmt.Println(util.RED, "Invalid object "+definition.TypeString(g.Type)+" signed by "+g.Signer+".", util.RESET)
 		return
 	}
+	if ctx.InBlacklistPerm(g.Payload[0]) {
+		return
+	}
 	ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.Lock()
 	ctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()] = g
 	ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.Unlock()
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 7ca02c9..1e316bd 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -117,7 +117,7 @@ func Gossip_request_handler(c *GossiperContext, w http.ResponseWriter, r *http.R
 	//fmt.Println("request received: ", notification)
 	//fmt.Println("GossipID Parsed: ", newID)
 	//fmt.Println("Object Payload found: ", obj.Payload)
-	if obj.Payload[0] != "" {
+	if obj.Payload[0] != "" && !c.InBlacklistPerm(obj.Payload[0]) {
 		dstendpoint := "/gossip/rev_init"
 		msg, _ := json.Marshal(obj)
 		c.Counter2_lock.Lock()
-- 
2.43.0


From 9a8fa437bd2a8ae53041690c9ba822a89c6fbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 11/42] fix: threshold objects and conflict proofs keep the
 period of their source

An object completed after the minute had changed was labelled with the wrong
period.
---
 gossiper/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gossiper/gen.go b/gossiper/gen.go
index f36674f..2bf9998 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -69,7 +69,7 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FULL(g_list []definition.Goss
 	return definition.Gossip_object{
 		Application:   definition.CTNG_APPLICATION,
 		Type:          TargetType,
-		Period:        util.GetCurrentPeriod(),
+		Period:        g_list[0].Period,
 		Signer:        "",
 		Signers:       signer_list,
 		Signature:     [2]string{sig_full_string, ""},
@@ -83,7 +83,7 @@ func (ctx *GossiperContext) Generate_CON_INIT(obj1 definition.Gossip_object, obj
 	D2_POM := definition.Gossip_object{
 		Application: definition.CTNG_APPLICATION,
 		Type:        definition.CON_INIT,
-		Period:      util.GetCurrentPeriod(),
+		Period:      obj1.Period,
 		Signer:      "",
 		Timestamp:   util.GetCurrentTimestamp(),
 		Signature:   [2]string{obj1.Signature[0], obj2.Signature[0]},
-- 
2.43.0


From 39c2f87535daad6ad1579953c97815e19f3a6591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:42 +0000
Subject: [PATCH 12/42] fix: wipe the gossiper storage under its locks

The wipe replaced the mutexes together with the maps while handlers were
holding them, and emptied the blacklist and the conflict proofs for a moment.
---
 gossiper/Interface.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index cfe8dda..800d05d 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -644,15 +644,39 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 }
 
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
-	// clear all PoM counter and gossiper log
+	// clear all storage, except for the conflict proofs and the blacklist
+	storage := ctx.Gossip_object_storage
+	empty := InitializeGossipObjectStorage()
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = empty.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = empty.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = empty.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = empty.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = empty.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = empty.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = empty.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = empty.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = empty.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = empty.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
 }
 
 func (ctx *GossiperContext) CleanUpGossiperStorage() {
-- 
2.43.0


From 09c65b88ee72ecc5e363e1f0b937e3aec9c639b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:44 +0000
Subject: [PATCH 13/42] fix: lock the gossiper collections the periodic log and
 convergence check read

The maps and the timer list were read (and the list appended to) while
handlers modify them.
---
 gossiper/Interface.go | 57 +++++++++++++++++++++++++++++++------------
 gossiper/types.go     |  1 +
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 800d05d..2b43f25 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -88,22 +88,44 @@ func (ctx *GossiperContext) Save() {
 		Converge_time_init:     ctx.Converge_time_init,
 		Total_traffic_received: ctx.Total_traffic_received,
 		Total_traffic_sent:     ctx.Total_traffic_sent,
-		NUM_STH_INIT:           len(ctx.Gossip_object_storage.STH_INIT),
-		NUM_REV_INIT:           len(ctx.Gossip_object_storage.REV_INIT),
-		NUM_ACC_INIT:           len(ctx.Gossip_object_storage.ACC_INIT),
-		NUM_CON_INIT:           len(ctx.Gossip_object_storage.CON_INIT),
-		NUM_STH_FRAG:           0,
-		NUM_REV_FRAG:           0,
-		NUM_ACC_FRAG:           0,
-		NUM_STH_FULL:           len(ctx.Gossip_object_storage.STH_FULL),
-		NUM_REV_FULL:           len(ctx.Gossip_object_storage.REV_FULL),
-		NUM_ACC_FULL:           len(ctx.Gossip_object_storage.ACC_FULL),
-		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
-		Timerlist:              ctx.Timerlist,
 	}
-	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
-	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
-	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	storage := ctx.Gossip_object_storage
+	storage.STH_INIT_LOCK.RLock()
+	g_log_entry.NUM_STH_INIT = len(storage.STH_INIT)
+	storage.STH_INIT_LOCK.RUnlock()
+	storage.REV_INIT_LOCK.RLock()
+	g_log_entry.NUM_REV_INIT = len(storage.REV_INIT)
+	storage.REV_INIT_LOCK.RUnlock()
+	storage.ACC_INIT_LOCK.RLock()
+	g_log_entry.NUM_ACC_INIT = len(storage.ACC_INIT)
+	storage.ACC_INIT_LOCK.RUnlock()
+	storage.CON_INIT_LOCK.RLock()
+	g_log_entry.NUM_CON_INIT = len(storage.CON_INIT)
+	storage.CON_INIT_LOCK.RUnlock()
+	storage.STH_FRAG_LOCK.RLock()
+	g_log_entry.NUM_STH_FRAG = countFragments(storage.STH_FRAG)
+	storage.STH_FRAG_LOCK.RUnlock()
+	storage.REV_FRAG_LOCK.RLock()
+	g_log_entry.NUM_REV_FRAG = countFragments(storage.REV_FRAG)
+	storage.REV_FRAG_LOCK.RUnlock()
+	storage.ACC_FRAG_LOCK.RLock()
+	g_log_entry.NUM_ACC_FRAG = countFragments(storage.ACC_FRAG)
+	storage.ACC_FRAG_LOCK.RUnlock()
+	storage.STH_FULL_LOCK.RLock()
+	g_log_entry.NUM_STH_FULL = len(storage.STH_FULL)
+	storage.STH_FULL_LOCK.RUnlock()
+	storage.REV_FULL_LOCK.RLock()
+	g_log_entry.NUM_REV_FULL = len(storage.REV_FULL)
+	storage.REV_FULL_LOCK.RUnlock()
+	storage.ACC_FULL_LOCK.RLock()
+	g_log_entry.NUM_ACC_FULL = len(storage.ACC_FULL)
+	storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()
+	g_log_entry.NUM_BLACKLIST_PERM = len(ctx.Gossip_blacklist.BLACKLIST_PERM)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()
+	ctx.Timerlist_lock.Lock()
+	g_log_entry.Timerlist = append([]float64{}, ctx.Timerlist...)
+	ctx.Timerlist_lock.Unlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -133,7 +155,9 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	}
 	clock := util.GetCurrentSecond()
 	clock_float, _ := strconv.ParseFloat(clock, 64)
+	ctx.Timerlist_lock.Lock()
 	ctx.Timerlist = append(ctx.Timerlist, clock_float)
+	ctx.Timerlist_lock.Unlock()
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
@@ -278,6 +302,7 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	return 0
 
 }
+
 // The first initial object stays, whatever its signature: a different one must not replace it.
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
@@ -601,6 +626,8 @@ func (ctx *GossiperContext) IsConvergent() bool {
 	defer ctx.Gossip_object_storage.STH_FULL_LOCK.RUnlock()
 	ctx.Gossip_object_storage.ACC_FULL_LOCK.RLock()
 	defer ctx.Gossip_object_storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_object_storage.CON_INIT_LOCK.RLock()
+	defer ctx.Gossip_object_storage.CON_INIT_LOCK.RUnlock()
 	count1 := len(ctx.Gossip_object_storage.REV_FULL)
 	count2 := len(ctx.Gossip_object_storage.STH_FULL)
 	count3 := len(ctx.Gossip_object_storage.ACC_FULL)
diff --git a/gossiper/types.go b/gossiper/types.go
index ab76d05..66cf6eb 100644
--- a/gossiper/types.go
+++ b/gossiper/types.go
@@ -83,6 +83,7 @@ type GossiperContext struct {
 	Counter1_lock          sync.Mutex
 	Counter2_lock          sync.Mutex
 	Timerlist              []float64
+	Timerlist_lock         sync.Mutex
 }
 
 type Gossiper_log_entry struct {
-- 
2.43.0


From 4b1def0f472ff22901c0897a345ce923d8f6e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:26 +0000
Subject: [PATCH 14/42] fix: monitor finds conflict PoMs whatever period they
 were made in

---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..027cdc5 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -380,12 +380,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPoM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..0657e4e 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,28 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// HasConflictPoM reports whether a conflict PoM against the entity is on file, whatever period it was made in
+func (c *MonitorContext) HasConflictPoM(entity string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == entity {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From 422c3957ed33c45adefe7c7d3cd902072c8d58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 15/42] fix: monitor verifies the objects it is sent before
 storing them

---
 monitor/monitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 027cdc5..e04b6e6 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,12 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	err = gossip_obj.Verify(c.Monitor_crypto_config)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusOK)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
-- 
2.43.0


From 913b21a2c48215eba45424e5ccce16fc3603bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 16/42] fix: a monitor query must be answered with a statement
 of the queried entity

---
 monitor/monitor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index e04b6e6..eb518c5 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -158,7 +158,9 @@ func QueryLoggers(c *MonitorContext) {
 					sthBody, err2 := ioutil.ReadAll(sthResp.Body)
 					sthResp.Body.Close()
 					var STH definition.Gossip_object
-					err2 = json.Unmarshal(sthBody, &STH)
+					if err2 == nil {
+						err2 = json.Unmarshal(sthBody, &STH)
+					}
 					if err2 != nil {
 						log.Println(util.RED+err2.Error(), util.RESET)
 						Wait_then_accuse(c, loggerURL, "logger")
@@ -167,6 +169,9 @@ func QueryLoggers(c *MonitorContext) {
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
+						} else if STH.Type != definition.STH_INIT || STH.Signer != loggerURL {
+							log.Println(util.RED+"Logger did not answer with an STH of its own", util.RESET)
+							Wait_then_accuse(c, loggerURL, "logger")
 						} else {
 							// Process valid object
 							Process_valid_object(c, STH)
@@ -275,6 +280,12 @@ func QueryAuthorities(c *MonitorContext) {
 					return
 				}
 
+				if REV.Type != definition.REV_INIT || REV.Signer != CAURL {
+					log.Println(util.RED+"CA did not answer with a revocation of its own", util.RESET)
+					Wait_then_accuse(c, CAURL, "ca")
+					return
+				}
+
 				SRH, DCRV := Get_SRH_and_DCRV(REV)
 				key := REV.Payload[0]
 				pass := c.VerifySRH(SRH, &DCRV, key, REV.Period)
-- 
2.43.0


From 1214fa2739fd17ab854aa47347a157d3dcd58f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 17/42] fix: monitor answers update requests with the update
 itself, or an error

---
 monitor/client-update-monitor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..532a93f 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -45,12 +45,16 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
-	msg, _ := json.Marshal(ctupdate)
-	json.NewEncoder(w).Encode(msg)
+	json.NewEncoder(w).Encode(ctupdate)
 	fmt.Println("Update request Processed")
 }
-- 
2.43.0


From ce90577455cefde85d13a8176b869904d2aa44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:51 +0000
Subject: [PATCH 18/42] fix: PoMs recorded between two updates are part of the
 next one

---
 monitor/monitor.go |  7 +++++--
 monitor/types.go   | 10 ----------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index eb518c5..31f8749 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -433,11 +433,14 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
-	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
+	// a PoM leaves the delta storage only once it is part of an update
+	for key, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
+		delete(*c.Storage_CONFLICT_POM_DELTA, key)
 	}
-	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
+	for key, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
+		delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 	}
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
diff --git a/monitor/types.go b/monitor/types.go
index 0657e4e..027bd9f 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -285,16 +285,6 @@ func (c *MonitorContext) WipeStorage() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
-	}
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
-	}
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 825f3a1707f0fc9b9ccb143cd4d5f481dbec5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:51 +0000
Subject: [PATCH 19/42] fix: every access to the monitor storage holds its lock

---
 monitor/monitor.go | 19 ++++++++++++++++++-
 monitor/types.go   | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 31f8749..84c8715 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -340,14 +340,18 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -393,7 +397,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, accused := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if accused {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -427,21 +434,29 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
 	// a PoM leaves the delta storage only once it is part of an update
+	c.CONFLICT_POM_lock.Lock()
 	for key, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 		delete(*c.Storage_CONFLICT_POM_DELTA, key)
 	}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
 	for key, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 		delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -507,7 +522,9 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
+	ctx.CRV_lock.Lock()
 	CRV_old := ctx.Storage_CRV[CAID]
+	ctx.CRV_lock.Unlock()
 	if CRV_old == nil {
 		CRV_old = dCRV
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 027bd9f..166eeda 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -75,12 +75,20 @@ type Monitor_public_config struct {
 func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	switch objtype {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.RLock()
+		defer c.CONFLICT_POM_lock.RUnlock()
 		return len(*c.Storage_CONFLICT_POM)
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.RLock()
+		defer c.ACCUSATION_POM_lock.RUnlock()
 		return len(*c.Storage_ACCUSATION_POM)
 	case definition.STH_FULL:
+		c.STH_FULL_lock.RLock()
+		defer c.STH_FULL_lock.RUnlock()
 		return len(*c.Storage_STH_FULL)
 	case definition.REV_FULL:
+		c.REV_FULL_lock.RLock()
+		defer c.REV_FULL_lock.RUnlock()
 		return len(*c.Storage_REV_FULL)
 	}
 	return 0
@@ -99,18 +107,22 @@ func (c *MonitorContext) HasConflictPoM(entity string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -123,11 +135,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -145,21 +159,29 @@ func (c *MonitorContext) LoadOneStorage(name string, filepath string) error {
 	}
 	switch name {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_CONFLICT_POM)[gossipObject.GetID()] = gossipObject
 		}
+		c.CONFLICT_POM_lock.Unlock()
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_ACCUSATION_POM)[gossipObject.GetID()] = gossipObject
 		}
+		c.ACCUSATION_POM_lock.Unlock()
 	case definition.STH_FULL:
+		c.STH_FULL_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_STH_FULL)[gossipObject.GetID()] = gossipObject
 		}
+		c.STH_FULL_lock.Unlock()
 	case definition.REV_FULL:
+		c.REV_FULL_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_REV_FULL)[gossipObject.GetID()] = gossipObject
 		}
+		c.REV_FULL_lock.Unlock()
 	}
 	return errors.New("Mismatch")
 }
@@ -221,15 +243,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -251,40 +273,46 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key].Union(&DCRV)
-				c.CRV_lock.Unlock()
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From f2476b862204e99d252b0b6f976a217dc8d37890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 20/42] fix: the SRH is verified against the updated CRV and
 the key of the CA itself

---
 CA/CRV.go          |  8 +++++---
 client/client.go   | 16 ++++++++++++----
 monitor/monitor.go | 20 ++++++++++++++------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..fbc5611 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -93,9 +93,7 @@ func (crv *CRV) MassRevoke(ratio float64) {
 
 func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.Gossip_object {
 	// if REV_type == 1 generate a REV based on another Delta_CRV
-	// hash c.CRV.CRVcurrent
-	hashmsg, _ := c.CRV.CRV_current.MarshalBinary()
-	hash, _ := crypto.GenerateSHA256(hashmsg)
+	CRV_new := c.CRV.CRV_current
 	var hashmsgdelta []byte
 	// hash delta CRV
 	if REV_type == 0 {
@@ -110,11 +108,15 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 			panic(err)
 		}
 		m2.Set(1 + uint(c.OnlineDuration))
+		CRV_new = c.CRV.CRV_current.Union(&m2)
 		hashmsgdelta, err = m2.MarshalBinary()
 		if err != nil {
 			panic(err)
 		}
 	}
+	// hash the CRV after the update
+	hashmsg, _ := CRV_new.MarshalBinary()
+	hash, _ := crypto.GenerateSHA256(hashmsg)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
 	hash_revocation, _ := crypto.GenerateSHA256([]byte(Period + string(hash) + string(hash_delta)))
diff --git a/client/client.go b/client/client.go
index f8054fa..3fef84b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -101,11 +101,13 @@ func fetch(url string) ([]byte, error) {
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
 	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update
+	CRV_new := dCRV
+	if CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -116,8 +118,14 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	// the SRH must have been signed by the CA the revocation is about
+	ca_publickey, known := ctx.Crypto.SignPublicMap[rsasig.ID]
+	if !known || rsasig.ID.String() != CAID {
+		fmt.Println("SRH was not signed by the CA")
+		return false
 	}
-	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
 	if err != nil {
 		fmt.Println("Fail to verify the signature on the SRH")
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 84c8715..160494f 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -525,23 +525,31 @@ func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID strin
 	ctx.CRV_lock.Lock()
 	CRV_old := ctx.Storage_CRV[CAID]
 	ctx.CRV_lock.Unlock()
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update
+	CRV_new := dCRV
+	if CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	// the SRH must have been signed by the CA the revocation is about
+	ca_publickey, known := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
+	if !known || rsasig.ID.String() != CAID {
+		fmt.Println("SRH was not signed by the CA")
+		return false
 	}
-	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
 	if err != nil {
 		fmt.Println("Fail to verify the signature on the SRH: ", err)
-- 
2.43.0


From b31d6116b60830c0003416f9089491ca3db985a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:23 +0000
Subject: [PATCH 21/42] fix: revocations are not lost when the CRV is updated

---
 CA/server.go     | 2 +-
 client/client.go | 2 +-
 monitor/types.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 238c020..6855478 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -420,7 +420,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
diff --git a/client/client.go b/client/client.go
index 3fef84b..f6cc2b2 100644
--- a/client/client.go
+++ b/client/client.go
@@ -158,7 +158,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
diff --git a/monitor/types.go b/monitor/types.go
index 166eeda..b92b5dd 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -278,7 +278,7 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 			if _, ok := c.Storage_CRV[key]; !ok {
 				c.Storage_CRV[key] = &DCRV
 			} else {
-				c.Storage_CRV[key].Union(&DCRV)
+				c.Storage_CRV[key] = c.Storage_CRV[key].Union(&DCRV)
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
-- 
2.43.0


From cc89714376f7917d5b7beb2a4014469e24891f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 22/42] fix: client databases are accessed under their locks,
 which are always released

---
 client/client.go | 12 +++++++++---
 client/types.go  | 12 ++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index f6cc2b2..af47841 100644
--- a/client/client.go
+++ b/client/client.go
@@ -137,6 +137,7 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 
 func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) bool {
 	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
@@ -161,8 +162,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			ctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)
 		}
 	}
-	ctx.CRV_DB_RWLock.Unlock()
 	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
@@ -185,8 +186,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		// look for STH first
 		ctx.STH_database[key] = newrecord
 	}
-	ctx.STH_DB_RWLock.Unlock()
 	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
@@ -211,13 +212,18 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		key := pom.Payload[0]
 		ctx.POM_database[key] = pom
 	}
-	ctx.POM_DB_RWLock.Unlock()
 	return true
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var total int
 	total = len(CTngext.LoggerInformation)
 	var faulty_logger int
diff --git a/client/types.go b/client/types.go
index f16cb50..e442966 100644
--- a/client/types.go
+++ b/client/types.go
@@ -43,11 +43,15 @@ type ClientContext struct {
 }
 
 func SaveSTHDatabase(ctx *ClientContext) {
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.STH_Storage_filepath, ctx.STH_database)
 }
 
 func SaveCRVDatabase(ctx *ClientContext) {
 	var crvstorage = make(map[string][]byte)
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
 	for key, value := range ctx.CRV_database {
 		crvstorage[key], _ = value.MarshalBinary()
 	}
@@ -55,10 +59,14 @@ func SaveCRVDatabase(ctx *ClientContext) {
 }
 
 func SavePomDatabase(ctx *ClientContext) {
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	util.WriteData(ctx.Config.PoM_Store_filepath, ctx.POM_database)
 }
 
 func LoadSTHDatabase(ctx *ClientContext) {
+	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
 	databyte, err := util.ReadByte(ctx.Config.STH_Storage_filepath)
 	if err != nil {
 		ctx.STH_database = make(map[string]string)
@@ -71,6 +79,8 @@ func LoadSTHDatabase(ctx *ClientContext) {
 }
 
 func LoadCRVDatabase(ctx *ClientContext) {
+	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
 	databyte, err := util.ReadByte(ctx.Config.CRV_Storage_filepath)
 	if err != nil {
 		ctx.CRV_database = make(map[string]*bitset.BitSet)
@@ -89,6 +99,8 @@ func LoadCRVDatabase(ctx *ClientContext) {
 }
 
 func LoadPoMdatabase(ctx *ClientContext) {
+	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
 	databyte, err := util.ReadByte(ctx.Config.PoM_Store_filepath)
 	if err != nil {
 		ctx.POM_database = make(map[string]definition.Gossip_object)
-- 
2.43.0


From 8b4e0d6f61be7b8f6fe6f41794a4e33d4a9abb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 23/42] fix: client update lists may only contain objects of
 their own kind

---
 client/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index af47841..d725be5 100644
--- a/client/client.go
+++ b/client/client.go
@@ -141,7 +141,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || rev.Type != definition.REV_FULL {
 				fmt.Println("REV verification failed")
 				return false
 			}
@@ -167,7 +167,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || sth.Type != definition.STH_FULL {
 				fmt.Println("sth verification failed")
 				return false
 			}
@@ -191,7 +191,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.ACC_FULL {
 				fmt.Println("pom verification failed")
 				return false
 			}
@@ -203,7 +203,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_CONs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.CON_INIT {
 				fmt.Println("pom verification failed")
 				return false
 			}
-- 
2.43.0


From 37210cb90b4e2e566773941c5878deee402b7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 24/42] fix: client rejects certificates without known issuer
 or with a non-STH as tree head

---
 client/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index d725be5..b3cc9d7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -236,7 +236,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 			faulty_logger++
 		} else {
 			err := loggerinfo.STH.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || loggerinfo.STH.Type != definition.STH_INIT {
 				fmt.Println("Cert logger STH verification failed")
 				faulty_logger++
 			} else {
@@ -277,6 +277,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No revocation information of the issuer on file")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From 6eef4fe6a5d6b08c2edf36dbe7796182610e6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 25/42] fix: a restarted client reloads its proofs and notices
 unreadable databases

---
 client/types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/types.go b/client/types.go
index e442966..f0b5915 100644
--- a/client/types.go
+++ b/client/types.go
@@ -72,7 +72,7 @@ func LoadSTHDatabase(ctx *ClientContext) {
 		ctx.STH_database = make(map[string]string)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.STH_database)
+	err = json.Unmarshal(databyte, &ctx.STH_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -93,7 +93,10 @@ func LoadCRVDatabase(ctx *ClientContext) {
 	}
 	for key, value := range crvstorage {
 		var crv_entry bitset.BitSet
-		crv_entry.UnmarshalBinary(value)
+		err = crv_entry.UnmarshalBinary(value)
+		if err != nil {
+			log.Fatal(err)
+		}
 		ctx.CRV_database[key] = &crv_entry
 	}
 }
@@ -106,7 +109,7 @@ func LoadPoMdatabase(ctx *ClientContext) {
 		ctx.POM_database = make(map[string]definition.Gossip_object)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.POM_database)
+	err = json.Unmarshal(databyte, &ctx.POM_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -143,5 +146,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 677d27d67d9c3f75885d3a02e1bd9f7d462d34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:05 +0000
Subject: [PATCH 26/42] fix: period labels are two digits and wrap around

---
 CA/server.go          | 18 ++----------------
 Logger/buildmerkle.go |  5 ++---
 Logger/server.go      |  6 +-----
 util/helpers.go       |  6 ++++++
 4 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 6855478..4eacdb0 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -142,17 +142,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		c.Request_Count = c.Request_Count + 1
 		c.Request_Count_lock.Unlock()
 	}
-	Period := GetCurrentPeriod()
-	// convert string to int
-	periodnum, err := strconv.Atoi(Period)
-	if err != nil {
-	}
-	// convert int to string
-	// add a leading 0 if the string is only 1 digit
-	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
-	}
-	Period = strconv.Itoa(periodnum)
+	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -411,11 +401,7 @@ func PeriodicTask(ctx *CAContext) {
 		// add 1 to current period
 		periodnum = periodnum + 1
 		// convert int to string
-		// add a leading 0 if the string is only 1 digit
-		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
-		}
-		period = strconv.Itoa(periodnum)
+		period = util.GetPeriodLabel(periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..93d44d9 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,6 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -28,7 +27,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	STH1 := definition.STH{
 		Signer:    string(ctx.Logger_private_config.Signer),
 		Timestamp: util.GetCurrentTimestamp(),
-		Period:    util.GetCurrentPeriod(),
+		Period:    util.GetPeriodLabel(periodNum),
 		RootHash:  hex.EncodeToString(roothash),
 		TreeSize:  len(blocks),
 	}
@@ -40,7 +39,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        STH1.Period,
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..5610ef0 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -215,11 +215,7 @@ func PeriodicTask(ctx *LoggerContext) {
 		if err != nil {
 		}
 		periodint = periodint + 1
-		period = strconv.Itoa(periodint)
-		// add a leading zero if the period is less than 10
-		if periodint < 10 {
-			period = "0" + period
-		}
+		period = util.GetPeriodLabel(periodint)
 		// update STH
 		certlist := ctx.CurrentPrecertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
diff --git a/util/helpers.go b/util/helpers.go
index 421cfe1..cab9582 100644
--- a/util/helpers.go
+++ b/util/helpers.go
@@ -7,6 +7,7 @@ import (
 	"crypto/x509"
 	"encoding/binary"
 	"encoding/pem"
+	"fmt"
 	"io"
 	"math"
 	"math/rand"
@@ -117,6 +118,11 @@ func GetCurrentPeriod() string {
 	return GetCurrentMinute()
 }
 
+// GetPeriodLabel returns the label of the given minute, in the form GetCurrentPeriod uses
+func GetPeriodLabel(minute int) string {
+	return fmt.Sprintf("%02d", minute%60)
+}
+
 // This needs to be changed with GetCurrentPeriod()
 func Getwaitingtime(MMD int) int {
 	timerfc := time.Now().UTC().Format(time.RFC3339)
-- 
2.43.0


From ccb0f8ae20f426b5cc5855a8ab3d029bb8282a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:36 +0000
Subject: [PATCH 27/42] fix: a malformed precert does not terminate the logger

---
 CA/ca.go         | 5 +++--
 Logger/server.go | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/CA/ca.go b/CA/ca.go
index 85ee8d5..b15f888 100644
--- a/CA/ca.go
+++ b/CA/ca.go
@@ -193,11 +193,12 @@ func Marshall_Signed_PreCert(precert *x509.Certificate) []byte {
 	return precert.Raw
 }
 
-// Unmarshall signed precert from json
+// Unmarshall signed precert from json, returns nil if it is malformed
 func Unmarshall_Signed_PreCert(precert []byte) *x509.Certificate {
 	cert, err := x509.ParseCertificate(precert)
 	if err != nil {
-		log.Fatalf("Failed to parse certificate: %v", err)
+		log.Printf("Failed to parse certificate: %v", err)
+		return nil
 	}
 	return cert
 }
diff --git a/Logger/server.go b/Logger/server.go
index 5610ef0..8e8a5a6 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -119,6 +119,10 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 	}
 	// Parse the DER-encoded certificate
 	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	if cert_ca == nil {
+		http.Error(w, "malformed precert", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From 88d4c8ef81b82002392ffe93b5fd2e484181a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:38 +0000
Subject: [PATCH 28/42] fix: logger verifies precerts before logging them

---
 Logger/Types.go  | 5 ++++-
 Logger/server.go | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index e1696e3..88888a4 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -76,7 +76,10 @@ func Verifyprecert(precert x509.Certificate, ctx LoggerContext) bool {
 		return false
 	}
 	//retrieve the public key of the issuer
-	issuerPublicKey := ctx.Logger_crypto_config.SignPublicMap[crypto.CTngID(issuer)]
+	issuerPublicKey, known := ctx.Logger_crypto_config.SignPublicMap[crypto.CTngID(issuer)]
+	if !known {
+		return false
+	}
 	//retrieve the signature of the precert
 	signature := precert.Signature
 	rsasig := new(crypto.RSASig)
diff --git a/Logger/server.go b/Logger/server.go
index 8e8a5a6..c8439cf 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -123,6 +123,11 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		http.Error(w, "malformed precert", http.StatusBadRequest)
 		return
 	}
+	// only log precerts issued by a CA of this logger
+	if !Verifyprecert(*cert_ca, *c) {
+		http.Error(w, "precert verification failed", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From 9c594ab6a51bd8a83ebcdf635f7219ecd291a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:40 +0000
Subject: [PATCH 29/42] fix: an unreachable peer does not terminate the logger
 or the CA

---
 CA/server.go     | 3 ++-
 Logger/server.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 4eacdb0..5fb5857 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -261,8 +261,9 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 // send a signed precert to all loggers
diff --git a/Logger/server.go b/Logger/server.go
index c8439cf..56fa077 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -163,8 +163,9 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
-- 
2.43.0


From 75459349a1dc7bcb4b13e42b6971d94bca2d5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:42 +0000
Subject: [PATCH 30/42] fix: precerts received while the logger publishes its
 tree are not lost

---
 Logger/Types.go  |  4 ++--
 Logger/server.go | 26 ++++++++++++++++++--------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index 88888a4..e5d07f6 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -170,8 +170,8 @@ func GenerateLogger_crypto_config_template() *crypto.StoredCryptoConfig {
 	}
 }
 
-func SaveToStorage(ctx LoggerContext) {
-	certs := ctx.CurrentPrecertPool.GetCerts()
+func SaveToStorage(ctx LoggerContext, pool *crypto.CertPool) {
+	certs := pool.GetCerts()
 	data := [][]any{}
 	for _, cert := range certs {
 		cert_json, _ := json.Marshal(cert)
diff --git a/Logger/server.go b/Logger/server.go
index 56fa077..4ee35d1 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -168,13 +168,13 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	}
 }
 
-func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
+func Send_POIs_to_CAs(c *LoggerContext, pool *crypto.CertPool, POIs []crypto.POI_for_transmission, roothash []byte) {
 	//iterate over the POIs
 	for i := 0; i < len(POIs); i++ {
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			precert := pool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
@@ -184,7 +184,7 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 			ca := POIs[i].Issuer
 			// send POI to CA
 			Send_POI_to_CA(c, POIs[i], ca)
-			SaveToStorage(*c)
+			SaveToStorage(*c, pool)
 		}
 	}
 }
@@ -227,34 +227,44 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint = periodint + 1
 		period = util.GetPeriodLabel(periodint)
 		// update STH
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		// precerts received from now on belong to the next period
+		ctx.CertPool_lock.Lock()
+		pool := ctx.CurrentPrecertPool
+		if pool.GetLength() < 2 {
+			ctx.CertPool_lock.Unlock()
+			fmt.Println("Not enough precerts to build a tree")
+			return
+		}
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		ctx.CertPool_lock.Unlock()
+		certlist := pool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := pool.GetCerts()
 		certlist2 = append(certlist2, certlist2[0])
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		Send_POIs_to_CAs(ctx, pool, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From b80ab88c3ea03a1665110aecf95e9baea4672885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 31/42] fix: do not copy the logger context, pool included,
 while handling a precert

---
 Logger/Types.go  | 2 +-
 Logger/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index e5d07f6..5489dd9 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -69,7 +69,7 @@ func inList(item string, list []string) bool {
 	return false
 }
 
-func Verifyprecert(precert x509.Certificate, ctx LoggerContext) bool {
+func Verifyprecert(precert x509.Certificate, ctx *LoggerContext) bool {
 	issuer := precert.Issuer.CommonName
 	//check if issuer is in CAlist
 	if !inList(issuer, ctx.Logger_private_config.CAlist) {
diff --git a/Logger/server.go b/Logger/server.go
index 4ee35d1..64821f0 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -124,7 +124,7 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// only log precerts issued by a CA of this logger
-	if !Verifyprecert(*cert_ca, *c) {
+	if !Verifyprecert(*cert_ca, c) {
 		http.Error(w, "precert verification failed", http.StatusBadRequest)
 		return
 	}
-- 
2.43.0


From 1dcfc2527a3fd7fd3df0f7648238eb53e76a57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 32/42] fix: CA verifies inclusion proofs against the tree head
 on file before embedding them

---
 CA/server.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 5fb5857..aa2a7fb 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -214,6 +214,10 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		panic(err)
 	}
+	if gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "not an STH", http.StatusBadRequest)
+		return
+	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
 	c.STH_storage_lock.Lock()
@@ -234,7 +238,18 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "no STH of this logger on file", http.StatusBadRequest)
+		return
+	}
+	roothash, err := definition.ExtractRootHash(sth)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -242,13 +257,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
+		// the proof must show that the logger included this certificate
+		pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+		if err != nil || !pass {
+			http.Error(w, "POI verification failed", http.StatusBadRequest)
+			return
+		}
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
@@ -283,6 +304,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
-- 
2.43.0


From 80fe71042ce25032246207d2d0be3fbb34dd17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:24 +0000
Subject: [PATCH 33/42] fix: CA storage and certificate pool are accessed under
 their locks

---
 CA/server.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index aa2a7fb..cc43304 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -143,19 +143,23 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		c.Request_Count_lock.Unlock()
 	}
 	Period := util.GetCurrentPeriod()
+	c.Request_Count_lock.Lock()
+	rev := c.REV_storage[Period]
+	fake_rev := c.REV_storage_fake[Period]
+	c.Request_Count_lock.Unlock()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
-		json.NewEncoder(w).Encode(c.REV_storage[Period])
+		json.NewEncoder(w).Encode(rev)
 		return
 	case 1:
 		//split-world CA
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(fake_rev)
 			fmt.Println("Fake REV sent")
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			fmt.Println("Real REV sent")
 			return
 		}
@@ -167,15 +171,15 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if req_count%c.MisbehaviorInterval == 0 || c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	case 4:
 		// Split-world CA on second round since requested by monitor, behave normally on other rounds
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+			json.NewEncoder(w).Encode(fake_rev)
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 		}
 		return
 	case 5:
@@ -183,7 +187,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 
@@ -192,7 +196,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	}
@@ -378,7 +382,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -386,7 +392,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -431,9 +439,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -444,7 +454,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From bba600c5356ee8a9b75eb29d2b68a98c44fd3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:21 +0000
Subject: [PATCH 34/42] fix: reading a crypto configuration reports undecodable
 JSON

---
 crypto/crypto_IO.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto_IO.go b/crypto/crypto_IO.go
index 50be549..64b9c3a 100644
--- a/crypto/crypto_IO.go
+++ b/crypto/crypto_IO.go
@@ -81,7 +81,10 @@ func SaveCryptoFiles(directory string, configs []CryptoConfig) error {
 func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -92,7 +95,10 @@ func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -104,7 +110,10 @@ func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadBasicCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2bb466457ab02c238e2c775be08b48b901a45c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 35/42] fix: answer a client's update request without a body

---
 monitor/client-update-monitor.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 532a93f..2349403 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -41,11 +41,14 @@ func PrepareClientUpdate(context *MonitorContext, filepath string) (*ClientUpdat
 }
 
 func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
-	var periodnum string
-	err := json.NewDecoder(r.Body).Decode(&periodnum)
-	if err != nil {
-		http.Error(w, err.Error(), http.StatusBadRequest)
-		return
+	// A client fetches its update with a plain GET, which has no body: the period is in the query then
+	periodnum := r.URL.Query().Get("period")
+	if periodnum == "" {
+		err := json.NewDecoder(r.Body).Decode(&periodnum)
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusBadRequest)
+			return
+		}
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-- 
2.43.0


From 3f6bb09b976a56e436e9fd1f241d0c0a0de7af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:47 +0000
Subject: [PATCH 36/42] fix: keep every revocation in the payload cache,
 whatever length the request stated

---
 gossiper/gossiper_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 1e316bd..bcaf215 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -157,7 +157,8 @@ func Gossip_object_handler(c *GossiperContext, w http.ResponseWriter, r *http.Re
 	c.Counter1_lock.Lock()
 	c.Total_traffic_received += int(bytecount)
 	c.Counter1_lock.Unlock()
-	if bytecount > int64(c.Optimization_threshold) && gossip_obj.Type == definition.REV_INIT {
+	// keep it whatever length the request stated (none if chunked): it may be announced by its hash and asked for
+	if gossip_obj.Type == definition.REV_INIT {
 		c.SavePayload(gossip_obj)
 	}
 	if c.Optimization_mode == true && (gossip_obj.Type == definition.REV_FRAG) {
-- 
2.43.0


From e6e5cd5f30745a3f03f48d7442d703d8192f7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:47 +0000
Subject: [PATCH 37/42] fix: save files in one step, so that a crash or a
 concurrent reader never meets an incomplete one

---
 monitor/types.go |  1 -
 util/IO.go       | 18 ++++--------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/monitor/types.go b/monitor/types.go
index b92b5dd..ccabc6d 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -131,7 +131,6 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	newdir := c.StorageDirectory + "/Period_" + Period
 	util.CreateDir(newdir)
 	clientUpdate_path := newdir + "/ClientUpdate.json"
-	util.CreateFile(clientUpdate_path)
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
diff --git a/util/IO.go b/util/IO.go
index d6c304c..440bb74 100644
--- a/util/IO.go
+++ b/util/IO.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"os"
-	"strings"
 )
 
 //This read function reads from a Json file as a byte array and returns it.
@@ -35,26 +34,17 @@ func ReadByte(filename string) ([]byte, error) {
 // Writes arbitrary data as a JSON File.
 // If the file does not exist, it will be created.
 func WriteData(filename string, data interface{}) error {
-	jsonFile, err := os.Open(filename)
-	// if we os.Open returns an error then handle it
-	if err != nil && strings.Contains(err.Error(), "no such file or directory") {
-		jsonFile, err = os.Create(filename)
-	}
-	if err != nil {
-		return err
-	}
-	// defer the closing of our jsonFile so that we can parse it later on
-	defer jsonFile.Close()
-	//write to the corresponding file
 	file, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
 		return err
 	}
-	err = os.WriteFile(filename, file, 0644)
+	// write beside the file and rename: whenever the process stops, a reader finds the old or the new content in full
+	tempname := filename + ".tmp"
+	err = os.WriteFile(tempname, file, 0644)
 	if err != nil {
 		return err
 	}
-	return nil
+	return os.Rename(tempname, filename)
 }
 
 func CreateFile(path string) {
-- 
2.43.0


From d9011bbff1d7d6082d6a4227fa3269a01c640437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 38/42] fix: map each logger of a CA's list to that logger's
 own address

---
 Gen/IPmapping.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..51d0aa1 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		// the list holds only some of the loggers: their number is in the last 3 characters
+		NID, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[NID] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
-- 
2.43.0


From bd8a05ebfb71ee146027a7ab361a704c31ad6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 39/42] fix: map a gossiper's owner to the monitor's address

---
 Gen/IPmapping.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 51d0aa1..538f1a9 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
-- 
2.43.0


From 41cb707fa17ad8b0f08fed50a2959087b8b1dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 40/42] fix: map the CAs in a logger's configuration, which
 else refuses all their certificates

---
 Gen/IPmapping.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 538f1a9..8918d1f 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -295,6 +295,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 	new_dest_1 := logger_ip + semicolon_and_port_1
 	logger_priv_config.Signer = new_dest_1
 	fmt.Println("logger_priv_config.Signer: ", logger_priv_config.Signer)
+	// iterate over CAlist
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//take the data out and slice out the last 5 characters
+		semicolon_and_port := ca[len(ca)-5:]
+		new_dest := ip_json_config.CA_ip_map[index] + semicolon_and_port
+		logger_priv_config.CAlist[index] = new_dest
+	}
 	// iterate over MonitorList
 	for index, monitor := range logger_priv_config.Monitorlist {
 		//change localhost to actual IP
-- 
2.43.0


From b478d9ecb1bbbaf7857d01ecef53663cdc8dc0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 41/42] fix: generate configurations with the revocation period
 that was asked for

---
 Gen/Gen.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index ae4f649..5df69be 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -319,7 +319,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate BLS key pair
 	BLSPublicMap, BLSPrivateMap = BLS_gen_all(G_list)
 	// Generate CA public config map
-	ca_public_config := GenerateCA_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
+	ca_public_config := GenerateCA_public_config(L_list, C_list, MMD, MRD, []string{"1.1"})
 	// Generate CA private config map
 	ca_private_config_map = GenerateCA_private_config_map(G_list, M_list, L_list, num_ca, num_cert)
 	// Generate CA crypto config map
@@ -327,7 +327,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Create CA directory
 	os.Mkdir("ca_testconfig", 0777)
 	// Generate Logger public config map
-	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
+	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MRD, []string{"1.1"})
 	// Generate Logger private config map
 	logger_private_config_map = GenerateLogger_private_config_map(G_list, M_list, C_list, num_logger)
 	// Generate Logger crypto config map
@@ -367,9 +367,9 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 		write_all_configs_to_file(logger_public_config, logger_private_config_map[L_list[i]], crypto_config, filepath, "Logger")
 	}
 	// Generate Monitor public config map
-	monitor_public_config := GenerateMonitor_public_config(G_list, M_list, C_list, L_list, MMD, MMD, 5, []string{"1.1"})
+	monitor_public_config := GenerateMonitor_public_config(G_list, M_list, C_list, L_list, MMD, MRD, 5, []string{"1.1"})
 	// Generate Monitor private config map
-	monitor_private_config_map = GenerateMonitor_private_config_map(G_list, M_list, C_list, L_list, MMD, MMD, 5, []string{"1.1"}, " ")
+	monitor_private_config_map = GenerateMonitor_private_config_map(G_list, M_list, C_list, L_list, MMD, MRD, 5, []string{"1.1"}, " ")
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
@@ -393,9 +393,9 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 		write_all_configs_to_file(monitor_public_config, monitor_private_config, crypto_config, filepath, "Monitor")
 	}
 	// Generate Gossiper public config map
-	gossiper_public_config := GenerateGossiper_public_config(G_list, M_list, C_list, L_list, MMD, MMD, 5, 5, []string{"1.1"})
+	gossiper_public_config := GenerateGossiper_public_config(G_list, M_list, C_list, L_list, MMD, MRD, 5, 5, []string{"1.1"})
 	// Generate Gossiper private config map
-	gossiper_private_config_map = GenerateGossiper_private_config_map(G_list, M_list, C_list, L_list, MMD, MMD, 5, 5, []string{"1.1"}, " ")
+	gossiper_private_config_map = GenerateGossiper_private_config_map(G_list, M_list, C_list, L_list, MMD, MRD, 5, 5, []string{"1.1"}, " ")
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-- 
2.43.0


From d33d2708b5c66d6f02de7db01aeb26ffe3c4c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 42/42] fix: create the directories of a deployment where its
 files are written

---
 Gen/Gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index 5df69be..ee90fe4 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -325,7 +325,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate CA crypto config map
 	ca_crypto_config_map = GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")
 	// Create CA directory
-	os.Mkdir("ca_testconfig", 0777)
+	os.Mkdir(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
 	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MRD, []string{"1.1"})
 	// Generate Logger private config map
@@ -333,7 +333,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Logger crypto config map
 	logger_crypto_config_map = GenerateCryptoconfig_map(Total, num_logger, Threshold, "Logger")
 	// Create Logger directory
-	os.Mkdir("logger_testconfig", 0777)
+	os.Mkdir(config_path+"logger_testconfig", 0777)
 	// write all CA public config, private config, crypto config to file
 	for i := 0; i < num_ca; i++ {
 		// create a new folder for each CA if not exist
@@ -373,7 +373,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
-	os.Mkdir("monitor_testconfig", 0777)
+	os.Mkdir(config_path+"monitor_testconfig", 0777)
 	// write all Monitor public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Monitor
@@ -399,7 +399,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-	os.Mkdir("gossiper_testconfig", 0777)
+	os.Mkdir(config_path+"gossiper_testconfig", 0777)
 	// write all Gossiper public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Gossiper
-- 
2.43.0

