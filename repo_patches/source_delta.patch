From 7cb4761bd15bb7b34eb1ebbbd0344201315710aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 01/85] fix: deleting the shortcut key of a subtree while
 adding keys around it corrupts the batch

maybeAddShortcutToKV kept iterating after removing the deleted shortcut key, and inserted the
deleted shortcut back (or duplicated keys), leading to a wrong root.
---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..141b446 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				break
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From c523992790b4503b94f1d50a037f789138dd9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 02/85] fix: tree nodes that are still part of the tree are
 deleted from the DB

An update that does not change a subtree removed its node (the 33 byte root was compared with the
32 byte node), and nodes that were removed and re-added before a commit were deleted.
---
 pkg/mapserver/trie/trie.go       | 20 +++++++++++---------
 pkg/mapserver/trie/trie_cache.go |  6 +++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 141b446..4295160 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -608,15 +608,17 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 
 // storeNode stores a batch and deletes the old node from cache
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node, oldNode Hash
+	copy(node[:], h)
+	copy(oldNode[:], oldRoot)
+	// Record the node. If the subtree did not change, its node could have been deleted or marked for
+	// removal while going down the tree, so it has to be recorded as well.
+	s.db.updateUpdateNodes(node, batch)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	if node != oldNode {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..e12d68a 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -66,6 +66,7 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	for k, v := range cacheDB.updatedNodes {
 		updatesToDB = append(updatesToDB, &db.TreeNodeRecord{Key: k, Value: serializeBatch(v)})
 	}
+	updatedNodes := cacheDB.updatedNodes
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
@@ -73,7 +74,10 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.removeMux.Lock()
 
 	for k := range cacheDB.removedNode {
-		keysToDelete = append(keysToDelete, k)
+		// A node that was replaced but is part of the tree again must be kept.
+		if _, ok := updatedNodes[k]; !ok {
+			keysToDelete = append(keysToDelete, k)
+		}
 	}
 
 	cacheDB.removedNode = make(map[Hash][]byte)
-- 
2.43.0


From 813ee2937191a63a1011439c4c84a1226918dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 03/85] fix: Merkle proof verification panics on, or accepts,
 proofs with items of the wrong size

A proof longer than the tree's height panicked, and because items were not checked to have the
size of a node, key, value or path items could be split differently and still hash to the root.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 40 +++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..ee78848 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -129,10 +129,41 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if !isValidPath(ap) || len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
 
+// isValidPath checks that the items of a merkle proof have the size they have in the trie. Otherwise, the
+// concatenation of two items could be split differently and still hash to the same value.
+func isValidPath(ap [][]byte) bool {
+	if len(ap) > HashLength*8 {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
+// isValidPathC checks the same as isValidPath, for a compressed merkle proof of the given length.
+func isValidPathC(bitmap []byte, ap [][]byte, length int) bool {
+	if length < 0 || length > HashLength*8 || len(bitmap)*8 < length {
+		return false
+	}
+	nodes := 0
+	for i := 0; i < length; i++ {
+		if bitIsSet(bitmap, i) {
+			nodes++
+		}
+	}
+	return nodes == len(ap) && isValidPath(ap)
+}
+
 // verifyInclusion returns the merkle root by hashing the merkle proof items
 func verifyInclusion(ap [][]byte, keyIndex int, key, leafHash []byte) []byte {
 	if keyIndex == len(ap) {
@@ -150,6 +181,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if !isValidPath(ap) || len(key) != HashLength {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
@@ -175,6 +209,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
+	if !isValidPathC(bitmap, ap, length) || len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
 	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
@@ -200,6 +237,9 @@ func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, lengt
 // VerifyNonInclusionC verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value, proofKey []byte) bool {
+	if !isValidPathC(bitmap, ap, length) || len(key) != HashLength {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
-- 
2.43.0


From 632f0ae7250238280eaab3263047a8943b3c5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 04/85] fix: a proof of inclusion of a key is accepted as its
 proof of non-inclusion

The leaf shown to be in place of the key could be the leaf of the key itself.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index ee78848..76489d5 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -190,7 +190,10 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
 	// Check if another kv leaf is on the key path in 2 steps
-	// 1- Check the proof leaf exists
+	// 1- Check the proof leaf exists, and is not that of the key itself
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	if !VerifyInclusion(root, ap, proofKey, value) {
 		// the proof leaf is not included in the trie
 		return false
@@ -246,7 +249,10 @@ func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value,
 		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
 	// Check if another kv leaf is on the key path in 2 steps
-	// 1- Check the proof leaf exists
+	// 1- Check the proof leaf exists, and is not that of the key itself
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	if !s.VerifyInclusionC(bitmap, proofKey, value, ap, length) {
 		// the proof leaf is not included in the trie
 		return false
-- 
2.43.0


From b3120d997bc01c6e2d28e7d2e70d93f93f5e8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 05/85] fix: LoadCache panics if a node of the tree is missing
 in the DB

Return an error, as loadBatch does.
---
 pkg/mapserver/trie/trie_tools.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..08c520a 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -38,6 +38,10 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 			ch <- fmt.Errorf("the trie node %x is unavailable in the disk db, db may be corrupted | %w", root, err)
 			return
 		}
+		if len(value) == 0 {
+			ch <- fmt.Errorf("the trie node %x is unavailable in the disk db, db may be corrupted", root)
+			return
+		}
 		batch = parseBatch(value)
 
 		//Store node in cache.
-- 
2.43.0


From 2781485dc8fb69e83729095b5f312b24c1c8d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 06/85] fix: a commit of the tree that fails loses the changes
 to store

The updated and removed nodes were forgotten before storing them, so repeating the commit
succeeded without storing anything.
---
 pkg/mapserver/trie/trie_cache.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index e12d68a..f6246f6 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -80,6 +80,7 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 		}
 	}
 
+	removedNodes := cacheDB.removedNode
 	cacheDB.removedNode = make(map[Hash][]byte)
 	cacheDB.removeMux.Unlock()
 
@@ -89,12 +90,14 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 
 	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
 	if err != nil {
+		cacheDB.restoreChanges(updatedNodes, removedNodes)
 		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
 	}
 
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
+			cacheDB.restoreChanges(updatedNodes, removedNodes)
 			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
 		}
 	}
@@ -102,6 +105,22 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	return nil
 }
 
+// restoreChanges puts back the changes that could not be stored, for the next call to commitChangesToDB.
+func (cacheDB *CacheDB) restoreChanges(updatedNodes map[Hash][][]byte, removedNodes map[Hash][]byte) {
+	cacheDB.updatedMux.Lock()
+	defer cacheDB.updatedMux.Unlock()
+	for k, v := range updatedNodes {
+		if _, ok := cacheDB.updatedNodes[k]; !ok {
+			cacheDB.updatedNodes[k] = v
+		}
+	}
+	cacheDB.removeMux.Lock()
+	defer cacheDB.removeMux.Unlock()
+	for k, v := range removedNodes {
+		cacheDB.removedNode[k] = v
+	}
+}
+
 func (cacheDB *CacheDB) getValueLimit(ctx context.Context, key []byte) ([]byte, error) {
 	cacheDB.readLimiter <- struct{}{}        // block until there is some slack
 	defer func() { <-cacheDB.readLimiter }() // ensure we'll give some slack
-- 
2.43.0


From 61f96c5c51a918e57cfd6b128e44ae0aa4a86e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 07/85] fix: the domain constraint of issuer policy
 certificates is inverted

Any domain was accepted if the issuer had a domain, and only the empty domain (or one ending with a
dot) otherwise.
---
 pkg/common/crypto/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..15a11a1 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -245,7 +245,7 @@ func VerifyIssuerConstraints(
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From 49aadb89e0989838db1e337d8ec566e3075ed478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 08/85] fix: malformed domain names pass the issuer constraints

The regular expression was not anchored, and thus matched (a part of) any string.
---
 pkg/common/crypto/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 15a11a1..8994bc8 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -238,7 +238,7 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
-- 
2.43.0


From 5426953b31c7a92f82963eb8f5610c889baee661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 09/85] fix: a failed signature verification can remove
 signatures from the policy certificate

Restore the fields also if the policy certificate cannot be serialized.
---
 pkg/common/crypto/crypto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 8994bc8..e878385 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -136,11 +136,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
 	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
 	serializedStruct, err := common.ToJSON(c)
+	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
+		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -288,10 +288,10 @@ func VerifyIssuerSignature(
 	sig := childPolCert.IssuerSignature
 	childPolCert.IssuerSignature = nil
 	serializedStruct, err := common.ToJSON(childPolCert)
+	childPolCert.IssuerSignature = sig // restore previous signature
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
-- 
2.43.0


From ba86af8aac606f13f3bd95a3588506192c764e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 10/85] fix: equal policy revocations compare as different if
 their time zones differ

Compare the instants, as all other policy objects do: a revocation was not equal to itself after
serialization.
---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From 7b3bf356e9d2095e756558dd55559a1506453588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 11/85] fix: the raw JSON of a policy object changes if the
 buffer it was read from is reused

---
 pkg/common/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 42d3e17..273fe1d 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -144,7 +145,8 @@ func (o *serializableObjectBase) UnmarshalJSON(data []byte) error {
 				// It is a PolicyPartBase like object. Check the Raw field (should always be true).
 				if raw := base.FieldByName("JSONField"); raw != (reflect.Value{}) {
 					// Set its value to the JSON data.
-					raw.Set(reflect.ValueOf(data))
+					// Copy it, as the buffer belongs to the caller and could be reused.
+					raw.Set(reflect.ValueOf(bytes.Clone(data)))
 				} else {
 					// This should never happen, and the next line should ensure it:
 					_ = PolicyPartBase{}.JSONField
-- 
2.43.0


From 1c2cdc55e3d00198421f464322cd8ed2f6a6d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 12/85] fix: serializing a nil pointer to a policy object
 panics

---
 pkg/common/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 273fe1d..d7ab60c 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -84,6 +84,9 @@ func (*serializableObjectBase) marshalJSON(obj any) (string, []byte, error) {
 		valOf := reflect.ValueOf(obj)
 		switch valOf.Kind() {
 		case reflect.Pointer:
+			if valOf.IsNil() {
+				return "", nil, fmt.Errorf("nil pointer of type %T", obj)
+			}
 			// Dereference and convert to "any".
 			T, O, err := (*serializableObjectBase)(nil).marshalJSON(valOf.Elem().Interface())
 			return fmt.Sprintf("*%s", T), O, err
-- 
2.43.0


From a844d6c420f1e2b3357910c3399d22a0852cf23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 13/85] fix: owner signatures are not verified against the
 policy certificates issued by the PCA

---
 pkg/pca/pca.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..2e038b9 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -27,6 +27,8 @@ type PCA struct {
 	LogServerRequester LogServerRequester                     // not set
 	DB                 map[[32]byte]*common.PolicyCertificate // per hash of public key
 	SerialNumber       int                                    // unique serial number per pol cert
+
+	signers map[[32]byte]*common.PolicyCertificate // issued pol certs, per hash as signer
 }
 
 // LogServerRequester is implemented by objects that can talk to CT log servers.
@@ -179,7 +181,9 @@ func (pca *PCA) SignAndLogRequest(
 		return nil, err
 	}
 
-	pca.storeInDb(pc)
+	if err := pca.storeInDb(pc); err != nil {
+		return nil, err
+	}
 
 	return pc, nil
 }
@@ -198,9 +202,12 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 		return false, fmt.Errorf("field OwnerHash should be 32 bytes long but is %d",
 			len(req.OwnerHash))
 	}
-	// Cast it to array and check the DB.
+	// Cast it to array and check the issued policy certificates, and the DB.
 	key := (*[32]byte)(req.OwnerHash)
-	stored, ok := pca.DB[*key]
+	stored, ok := pca.signers[*key]
+	if !ok {
+		stored, ok = pca.DB[*key]
+	}
 	if !ok {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
@@ -260,9 +267,20 @@ func (pca *PCA) sendFinalPolCertToAllLogServers(pc *common.PolicyCertificate) er
 	return nil
 }
 
-func (pca *PCA) storeInDb(pc *common.PolicyCertificate) {
+func (pca *PCA) storeInDb(pc *common.PolicyCertificate) error {
+	// Requests identify their owner with the hash of its policy certificate as signer.
+	signerHash, err := crypto.ComputeHashAsSigner(pc)
+	if err != nil {
+		return err
+	}
+	if pca.signers == nil {
+		pca.signers = make(map[[32]byte]*common.PolicyCertificate)
+	}
+	pca.signers[*(*[32]byte)(signerHash)] = pc
+
 	key := (*[32]byte)(common.SHA256Hash(pc.PublicKey))
 	pca.DB[*key] = pc
+	return nil
 }
 
 // TODO(yongzhe): modify this to make sure unique SN
-- 
2.43.0


From 1b57dbc3287a73590b68db3899320f1c491ae892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 14/85] fix: names such as www.com are reduced to their public
 suffix

---
 pkg/domain/domain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/domain/domain.go b/pkg/domain/domain.go
index 3d7ec86..7baabd5 100644
--- a/pkg/domain/domain.go
+++ b/pkg/domain/domain.go
@@ -150,6 +150,7 @@ func CertSubjectName(c *ctx509.Certificate) string {
 }
 
 // removeWildCardAndWWW: remove www. and *.
+// The www label stays if it is the registered domain itself, e.g. www.com .
 func removeWildCardAndWWW(domainName string) string {
 	// remove "*."
 	if len(domainName) > 2 && domainName[:2] == "*." {
@@ -157,7 +158,7 @@ func removeWildCardAndWWW(domainName string) string {
 	}
 
 	// remove "www."
-	if len(domainName) > 4 && domainName[:4] == "www." {
+	if len(domainName) > 4 && domainName[:4] == "www." && IsValidDomain(domainName[4:]) {
 		domainName = domainName[4:]
 	}
 
@@ -172,6 +173,10 @@ func uniqueValidDomainName(domainNames []string) []string {
 			continue
 		}
 		name := removeWildCardAndWWW(domainName)
+		if !IsValidDomain(name) {
+			// Only a public suffix is left, e.g. from *.com .
+			continue
+		}
 		uniqueDomainName[name] = struct{}{}
 	}
 	result := make([]string, 0, len(uniqueDomainName))
-- 
2.43.0


From e349ef52528901b2a9ff5001d29f3002c0f82b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 15/85] fix: reads that return no data make the certificate
 reader double its memory

---
 pkg/util/certReader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util/certReader.go b/pkg/util/certReader.go
index 2c400a4..e571a4d 100644
--- a/pkg/util/certReader.go
+++ b/pkg/util/certReader.go
@@ -41,6 +41,10 @@ func (r *CertReader) Read(certs []ctx509.Certificate) (int, error) {
 
 		if newBytes == 0 {
 			if err != io.EOF {
+				if len(r.buff) < len(r.storage) {
+					// There is still room: the underlying reader had nothing to return this time.
+					continue
+				}
 				// Storage support might be too small to fit this PEM block. Increase by double
 				// its size and try again; the copy at the beginning of the loop will restore
 				// the original contents to this new buffer.
-- 
2.43.0


From 69ad62f8eb41295546d6e9ef466a3e63c67d24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 16/85] fix: loading a private key from a text without PEM
 block panics

---
 pkg/util/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/util/io.go b/pkg/util/io.go
index d2e4dba..446ad26 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -106,6 +106,9 @@ func RSAKeyFromPEMFile(keyPath string) (*rsa.PrivateKey, error) {
 
 func RSAKeyFromPEM(bytes []byte) (*rsa.PrivateKey, error) {
 	block, _ := pem.Decode(bytes)
+	if block == nil {
+		return nil, fmt.Errorf("no PEM block found")
+	}
 	expectType := "RSA PRIVATE KEY"
 	if block.Type != expectType {
 		// wrong type.
-- 
2.43.0


From ebaf673c2aa751c9c0fc3fbc152fe9ae46948c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 17/85] fix: an empty certificate is returned for a PEM text
 without certificates

---
 pkg/mapserver/mapserver.go |  3 +++
 pkg/util/io.go             | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..d1f4829 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -58,6 +58,9 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 	if err != nil {
 		return nil, fmt.Errorf("error loading certificate: %w", err)
 	}
+	if cert == nil {
+		return nil, fmt.Errorf("no certificate found in %s", conf.CertificatePemFile)
+	}
 	pemKey, err := ioutil.ReadFile(conf.PrivateKeyPemFile)
 	if err != nil {
 		return nil, fmt.Errorf("error loading private key: %w", err)
diff --git a/pkg/util/io.go b/pkg/util/io.go
index 446ad26..115bbb4 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -74,11 +74,14 @@ func CertificateFromPEMFile(filename string) (*ctx509.Certificate, error) {
 	}
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
-	_, err = r.Read(certs)
+	n, err := r.Read(certs)
 	if err != nil {
 		return nil, err
 	}
-	// If no certificate was found, certs[0] will be nil.
+	if n == 0 {
+		// No certificate was found.
+		return nil, nil
+	}
 	return &certs[0], nil
 }
 
@@ -86,11 +89,14 @@ func CertificateFromPEMBytes(pem []byte) (*ctx509.Certificate, error) {
 	f := bytes.NewReader(pem)
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
-	_, err := r.Read(certs)
+	n, err := r.Read(certs)
 	if err != nil {
 		return nil, err
 	}
-	// If no certificate was found, certs[0] will be nil.
+	if n == 0 {
+		// No certificate was found.
+		return nil, nil
+	}
 	return &certs[0], nil
 }
 
-- 
2.43.0


From 54e7eb16772d2d2d0d6252c6dda96c22c28475e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 18/85] fix: loading certificates from CSV panics with short
 rows and refuses root certificates

---
 pkg/util/io.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/util/io.go b/pkg/util/io.go
index 115bbb4..0f42822 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -189,6 +189,11 @@ func LoadCertsAndChainsFromCSV(
 		if len(fields) == 0 {
 			continue
 		}
+		if len(fields) <= CertChainColumn {
+			errRet = fmt.Errorf("expected at least %d fields but got %d",
+				CertChainColumn+1, len(fields))
+			return
+		}
 
 		cert, err := parseCertFromCSVField(fields[CertificateColumn])
 		if err != nil {
@@ -199,7 +204,11 @@ func LoadCertsAndChainsFromCSV(
 
 		// Parse the chain.
 		// The certificate chain is a list of base64 strings separated by semicolon (;).
-		strs := strings.Split(fields[CertChainColumn], ";")
+		// It is empty if the certificate is a root itself.
+		var strs []string
+		if fields[CertChainColumn] != "" {
+			strs = strings.Split(fields[CertChainColumn], ";")
+		}
 		chain := make([]*ctx509.Certificate, len(strs))
 		for i, s := range strs {
 			chain[i], err = parseCertFromCSVField(s)
-- 
2.43.0


From 9ea0bc951e2ee8fe57d70338e23bd715b9e37bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 19/85] fix: unfolding a certificate without chain panics

---
 pkg/util/certificate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..ff9cd2d 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -142,8 +142,13 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	// Always add the leaf certificate.
 	certs = append(certs, *leafCert)
 	certIDs = append(certIDs, certID)
-	parentIDs = append(parentIDs, chainIDs[0])
 	names = append(names, ExtractCertDomains(leafCert))
+	if len(chain) == 0 {
+		// The certificate is root: it has no parent.
+		parentIDs = append(parentIDs, nil)
+		return
+	}
+	parentIDs = append(parentIDs, chainIDs[0])
 	// Add the intermediate certs iff their payload is not nil.
 	i := 0
 	for ; i < len(chain)-1; i++ {
-- 
2.43.0


From f461bd361b8f414a84670820bb02f7a4da61bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 20/85] fix: names without a dot before the extension are taken
 for bundle names

---
 pkg/util/csv_files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/csv_files.go b/pkg/util/csv_files.go
index fca367f..8e58806 100644
--- a/pkg/util/csv_files.go
+++ b/pkg/util/csv_files.go
@@ -13,7 +13,7 @@ import (
 )
 
 // gzCsvFilename matches with the name of the gz files is e.g. "0-100005.gz".
-var gzCsvFilename = regexp.MustCompile(`^(\d+)-(\d+).(?:gz|csv)$`)
+var gzCsvFilename = regexp.MustCompile(`^(\d+)-(\d+)\.(?:gz|csv)$`)
 
 func EstimateCertCount(filename string) (uint, error) {
 	indices, err := filenameToIndices(filename)
-- 
2.43.0


From 2c54c84a27c2ad1e5ff6089b3564edabc37e0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 21/85] fix: the next time of day is wrong if the local time
 zone is not UTC

---
 pkg/util/time_wrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..ba80b70 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,7 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	now := time.Now().UTC() // The time of day is in UTC.
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0


From b29451cd833decf0335e05f63cb566cde1a16f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 22/85] fix: a periodic function is still run after its context
 is cancelled

---
 pkg/util/ticker.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/util/ticker.go b/pkg/util/ticker.go
index 1c5f4d4..1cf8826 100644
--- a/pkg/util/ticker.go
+++ b/pkg/util/ticker.go
@@ -20,15 +20,20 @@ func RunWhen(
 	go func() {
 		waiting := time.Until(when)
 		timer := time.NewTimer(waiting)
-		<-timer.C
+		select {
+		case <-timer.C:
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		}
 		ticker := time.NewTicker(repeat)
-		for {
+		defer ticker.Stop()
+		for ctx.Err() == nil {
 			whenTick(ctx)
 			select {
 			case <-ticker.C:
 				continue
 			case <-ctx.Done():
-				ticker.Stop()
 				return
 			}
 		}
-- 
2.43.0


From 54c9e9f0c46d888cc4dfe106a1d71d2326483835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 23/85] fix: malformed and out of range durations are accepted

---
 pkg/util/duration.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/util/duration.go b/pkg/util/duration.go
index dbe1f80..6f8d05f 100644
--- a/pkg/util/duration.go
+++ b/pkg/util/duration.go
@@ -45,10 +45,11 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	if len(matches) != 3 {
 		return 0, fmt.Errorf("invalid duration string %s", durationStr)
 	}
-	var (
-		n, _ = strconv.Atoi(matches[1])
-		dur  = time.Duration(n)
-	)
+	n, err := strconv.ParseInt(matches[1], 10, 64)
+	if err != nil {
+		return 0, fmt.Errorf("invalid duration string %s: %w", durationStr, err)
+	}
+	dur := time.Duration(1)
 	switch unit := matches[2]; unit {
 	case "y":
 		dur *= year
@@ -71,7 +72,11 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	default:
 		return 0, fmt.Errorf("invalid time unit %s in duration string %s", unit, durationStr)
 	}
-	return dur, nil
+	// The unit is in dur.
+	if product := time.Duration(n) * dur; product/dur == time.Duration(n) {
+		return product, nil
+	}
+	return 0, fmt.Errorf("duration string %s out of range", durationStr)
 }
 
 func FmtDuration(dur time.Duration) string {
-- 
2.43.0


From 3938b03f632ea3fa2776c6651f469c9fdb8cfb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 24/85] fix: one malformed inclusion proof makes the log
 verifier refuse a list with a valid one

---
 pkg/logverifier/verifier.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/logverifier/verifier.go b/pkg/logverifier/verifier.go
index 15377c7..07bb965 100644
--- a/pkg/logverifier/verifier.go
+++ b/pkg/logverifier/verifier.go
@@ -88,15 +88,17 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 	// Proofs might contain multiple proofs for different leaves, while the content of each leaf
 	// is identical. Trillian will return all the proofs for one content.
 	// So one successful verification is enough.
+	var unexpectedErr error
 	for _, proof := range proofs {
-		err := logProof.VerifyInclusion(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
-			leafHash, proof.Hashes, trustedRoot.RootHash)
+		err := logProof.VerifyInclusion(c.hasher, uint64(proof.GetLeafIndex()),
+			trustedRoot.TreeSize, leafHash, proof.GetHashes(), trustedRoot.RootHash)
 
 		if err == nil {
 			return nil
 		}
 		if _, ok := err.(logProof.RootMismatchError); !ok {
-			return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", err)
+			// This proof is malformed, but another one could still be valid.
+			unexpectedErr = fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", err)
 		}
 
 		// deleteme, err := logProof.RootFromInclusionProof(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
@@ -106,6 +108,9 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 		// }
 		// fmt.Printf("deleteme calcRoot = %s\n", base64.StdEncoding.EncodeToString(deleteme))
 	}
+	if unexpectedErr != nil {
+		return unexpectedErr
+	}
 	// This is a logProof.RootMismatchError, aka different hash values.
 	return fmt.Errorf("verification failed: different hashes")
 }
-- 
2.43.0


From bb71e5cd2970bd3d579e66c3de6b3e7b55759aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 25/85] fix: rows with an empty quoted certificate are accepted
 by the slow CSV path

---
 cmd/ingest/fastcsv/fastcsv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ingest/fastcsv/fastcsv.go b/cmd/ingest/fastcsv/fastcsv.go
index d7196b1..2b69d29 100644
--- a/cmd/ingest/fastcsv/fastcsv.go
+++ b/cmd/ingest/fastcsv/fastcsv.go
@@ -153,6 +153,9 @@ func parseRowSlow(rawLine []byte) (ParsedLine, error) {
 	if len(fields) <= CertChainColumn {
 		return ParsedLine{}, fmt.Errorf("too few fields")
 	}
+	if fields[CertificateColumn] == "" {
+		return ParsedLine{}, fmt.Errorf("missing certificate field")
+	}
 	expirationField := fields[len(fields)-1]
 	if expirationField == "" {
 		return ParsedLine{}, fmt.Errorf("missing expiration field")
-- 
2.43.0


From 131a72bc0906e8dbceca5a5e9a8b91db4610e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 26/85] fix: input files beside a 'bundled' directory, or under
 a path with glob characters, are not listed

---
 cmd/ingest/journal/list_files.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..4cfc679 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -1,7 +1,6 @@
 package journal
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 
@@ -22,14 +21,16 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := listWithExtension(d, ".gz")
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := listWithExtension(dir, ".csv")
 			if err != nil {
 				return nil, nil, err
 			}
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
@@ -46,3 +47,19 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 
 	return
 }
+
+// listWithExtension returns the paths of the files in dir, not of those in its subdirectories,
+// with the given extension.
+func listWithExtension(dir, ext string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var files []string
+	for _, e := range entries {
+		if filepath.Ext(e.Name()) == ext {
+			files = append(files, filepath.Join(dir, e.Name()))
+		}
+	}
+	return files, nil
+}
-- 
2.43.0


From e1c561055ef226a298e76029a6a325708b2fd229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 27/85] fix: the CT log size is recorded although its first
 entries were not ingested

---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..f60c80e 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the completed indices recorded for ingest directory %q start at %d, not at 0",
+			ingestDirBase, intervals[0].Start)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 5bccf2a6674d58446aafa44910ea4aafc3e57309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 28/85] fix: an error returned by a streaming function is lost

---
 pkg/pipeline/stage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..1d3379c 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -504,6 +504,13 @@ readIncoming:
 					break
 				}
 				err = s.streamFunc(&outs, &outChIndxs)
+				switch err {
+				case nil, StreamOutput, NoMoreData:
+				default:
+					// Streaming failed, break immediately.
+					foundError = err
+					break readIncoming
+				}
 			}
 		} // end of select
 	} // end of for-loop readIncoming
-- 
2.43.0


From 7221e03478111358a816f383a7afb1f4cd578143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 29/85] fix: errors arriving while sending several outputs are
 lost or block the stage

---
 pkg/pipeline/stage.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1d3379c..81b24b1 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -549,13 +549,16 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
 			// We received an error from next stage while trying to write to it.
+			// Do not send any more outputs: the next stage might be gone.
 			*foundError = err
 			*shouldBreakReadingIncoming = true
 			failedIndices = append(failedIndices, i)
+			return failedIndices
 		case <-s.StopCh:
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] instructed to stop\n", s.Name)
 			*shouldReturn = true
+			return failedIndices
 		}
 	}
 
@@ -581,6 +584,10 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 	muShouldReturn := sync.Mutex{}
 	muShouldBreakReadingIncoming := sync.Mutex{} // Also for foundError and indices.
 
+	// Closed to give up sending the remaining outputs, once the pipeline must stop.
+	giveUp := make(chan None)
+	giveUpOnce := sync.Once{}
+
 	for i := range outs {
 		i := i
 		go func() {
@@ -603,16 +610,23 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
 				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				*foundError = util.ErrorsCoalesce(*foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
+				giveUpOnce.Do(func() { close(giveUp) })
+			case <-giveUp:
+				// Another output found an error.
+				muShouldBreakReadingIncoming.Lock()
+				failedIndices = append(failedIndices, i)
+				muShouldBreakReadingIncoming.Unlock()
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
 				muShouldReturn.Lock()
 				*shouldReturn = true
 				muShouldReturn.Unlock()
+				giveUpOnce.Do(func() { close(giveUp) })
 			}
 		}()
 	}
-- 
2.43.0


From 3878552894e758ff6e4e02c7083fe63f47ff5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 30/85] fix: an error blocks pipelines whose stages have
 several next or previous stages

---
 pkg/pipeline/pipeline.go |  8 +++++++-
 pkg/pipeline/source.go   |  6 ++++++
 pkg/pipeline/stage.go    | 26 ++++++++++++++++----------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index a436a26..44923e4 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -3,6 +3,8 @@ package pipeline
 import (
 	"context"
 	"fmt"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 // Pipeline represents a data processing pipeline.
@@ -152,7 +154,11 @@ func (p *Pipeline) Wait(ctx context.Context) error {
 	// It is not a source, just treat it as a stage.
 	DebugPrintf("[pipeline] Wait on NON source, chan is: %s.\n",
 		chanPtr(p.Stages[0].Base().ErrCh))
-	return <-p.Stages[0].Base().ErrCh
+	var errs error
+	for err := range p.Stages[0].Base().ErrCh {
+		errs = util.ErrorsCoalesce(errs, err)
+	}
+	return errs
 }
 
 func (p Pipeline) LinkFunction() func(*Pipeline) {
diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..a8b76a3 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -176,6 +178,10 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 				// Close incoming.
 				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
 				close(s.IncomingChs[0])
+				// Collect all errors until the source has finished.
+				for nextErr := range errCh {
+					err = util.ErrorsCoalesce(err, nextErr)
+				}
 				if err != nil {
 					s.TopErrCh <- err // might block, but this goroutine is done anyways.
 				}
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 81b24b1..6ab1209 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -360,20 +360,26 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
-	// Read its status:
-	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+	// Propagate error backwards. This is done before waiting for the next stages: they may need
+	// other stages before them to stop too, and those only stop when they hear about the error.
+	if initialErr != nil {
+		s.ErrCh <- initialErr
+	}
 
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
+	// Read the status of the next stages until all of them have stopped.
+	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
+	var nextErrs error
+	for err := range s.NextStagesAggregatedErrCh {
+		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+		nextErrs = util.ErrorsCoalesce(nextErrs, err)
+	}
 
-	// Propagate error backwards.
+	// Propagate the errors of the next stages backwards.
 	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
 		s.Name, chanPtr(s.ErrCh))
-	if initialErr != nil {
-		// Propagate error backwards.
-		s.ErrCh <- initialErr
+	if nextErrs != nil {
+		s.ErrCh <- nextErrs
+		initialErr = util.ErrorsCoalesce(initialErr, nextErrs)
 	}
 
 	// Close our own error channel.
-- 
2.43.0


From 3074178ff8e9ff425aa4d1cf73f095b3c554ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 31/85] fix: sending with cycles allowed modifies the slices
 owned by the process function

---
 pkg/pipeline/stage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 6ab1209..92e3214 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -67,6 +67,8 @@ type Stage[IN, OUT any] struct {
 	AggregatedIncomeCh chan IN    // Aggregated input channel.
 
 	cacheCompletedOutgoingIndices []int // Cache to reuse space.
+	cachePendingOutputs           []OUT // Cache to reuse space.
+	cachePendingOutIndices        []int // Cache to reuse space.
 
 	ProcessFunc func(in IN) ([]OUT, []int, error) // From 1 IN to n OUT, using n channels.
 	streamFunc  func(*[]OUT, *[]int) error        // Streaming function.
@@ -653,6 +655,11 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 	foundError *error,
 ) []int {
 	failedIndices := []int{}
+	// Work on copies: the slices belong to the functions of the stage, which may reuse them.
+	s.cachePendingOutputs = append(s.cachePendingOutputs[:0], outs...)
+	s.cachePendingOutIndices = append(s.cachePendingOutIndices[:0], outChIndxs...)
+	outs, outChIndxs = s.cachePendingOutputs, s.cachePendingOutIndices
+
 	// For each value/channel, try to send if it doesn't block, otherwise bail and go to
 	// the next value/channel.
 	shouldStopSending := false
-- 
2.43.0


From 5e668e0fdb075b21239c0c3764b7ee20bb893149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 32/85] fix: sequential inputs are read out of order after one
 of them closes

---
 pkg/pipeline/stage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 92e3214..971f270 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -848,7 +848,8 @@ func (s *Stage[IN, OUT]) readIncomingSequentially() chan IN {
 				DebugPrintf("[%s] aggregated input: channel index %d: %s closed\n",
 					s.Name, debugIndex, chanPtr(inChannels[i]))
 				// This incoming channel was closed.
-				util.RemoveElemFromSlice(&inChannels, i)
+				// Keep the order of the remaining ones.
+				inChannels = append(inChannels[:i], inChannels[i+1:]...)
 				if len(inChannels) == 0 { // no more open channels, break out of loop.
 					break
 				}
-- 
2.43.0


From ed89cd518168d188999b57665710e74b7c8cf20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 33/85] fix: values of an interrupted run are sent by the
 source of the next one

---
 pkg/pipeline/source.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index a8b76a3..b70e9de 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -113,37 +113,29 @@ func WithSourceSlice[OUT any](
 ) option[None, OUT] {
 	return newSourceOption(
 		func(s *Source[OUT]) {
+			// Every time the stage resumes, start with the first value.
+			var pending []OUT
 			s.onResume = func() {
-				s.sourceIncomingCh = make(chan OUT)
-				DebugPrintf("[%s] WithSourceSlice restoring source channel to %s\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				go func() {
-					for _, in := range *incomingValues {
-						s.sourceIncomingCh <- in
-					}
-					close(s.sourceIncomingCh)
-				}()
+				DebugPrintf("[%s] WithSourceSlice restoring values\n", s.Name)
+				pending = *incomingValues
 			}
 
 			processFunction := processFunction // Local copy of the processing function.
 			outs := make([]OUT, 1)
 			outChs := make([]int, 1)
 			s.ProcessFunc = func(in None) ([]OUT, []int, error) {
-				DebugPrintf("[%s] source.ProcessFunc: channel is: %s\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				for in := range s.sourceIncomingCh {
-					DebugPrintf("[%s] source channel %s got value: %v\n",
-						s.Name, chanPtr(s.sourceIncomingCh), in)
+				if len(pending) > 0 {
+					in := pending[0]
+					pending = pending[1:]
 					outCh, err := processFunction(in)
-					DebugPrintf("[%s] source channel processed value: %v, out ch: %d, err: %v\n",
+					DebugPrintf("[%s] source slice processed value: %v, out ch: %d, err: %v\n",
 						s.Name, in, outCh, err)
 					outs[0] = in
 					outChs[0] = outCh
 					return outs, outChs, err
 				}
-				DebugPrintf("[%s] source channel %s is closed, no more data\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				// When the incoming channel is closed, return no more data.
+				DebugPrintf("[%s] source slice is exhausted, no more data\n", s.Name)
+				// When there are no more values, return no more data.
 				return nil, nil, NoMoreData
 			}
 		},
-- 
2.43.0


From ccd2f875bb3415f150b54f37f31c5143553ede96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 34/85] fix: errors block joined pipelines, and they can be run
 only once

---
 pkg/pipeline/join.go | 68 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/pkg/pipeline/join.go b/pkg/pipeline/join.go
index 1b827ef..a6ea198 100644
--- a/pkg/pipeline/join.go
+++ b/pkg/pipeline/join.go
@@ -133,6 +133,11 @@ type jointStage[T any] struct {
 	source *Source[T]
 	p1     *Pipeline
 	p2     *Pipeline
+
+	joined             bool                              // True once the stages were joined.
+	origProcessFunc    func(in T) ([]None, []int, error) // Original of the sink.
+	origOnNoMoreData   func() ([]None, []int, error)     // Original of the sink.
+	origSourceOnResume func()                            // Original of the source.
 }
 
 var _ StageLike = (*jointStage[int])(nil)
@@ -191,19 +196,26 @@ func (j *jointStage[T]) joinStages() {
 	// ----> B1 ----> sink ----> p2.source
 	// ----> B2 ---/
 
-	// -- Do once, after prepare but before resume.
-	// (1) Remember the original sink's process function.
-	sinkOrigProcessFunc := j.sink.ProcessFunc
+	// -- Do once, after prepare but before resume, even if the joint pipeline is resumed again.
+	if !j.joined {
+		j.joined = true
+
+		// (1) Remember the original sink's process function.
+		j.origProcessFunc = j.sink.ProcessFunc
 
-	// (2) Remember the original sink's OnNoMoreData function
-	sinkOrigOnNoMoreData := j.sink.onNoMoreData
+		// (2) Remember the original sink's OnNoMoreData function
+		j.origOnNoMoreData = j.sink.onNoMoreData
 
-	// (3) Close the original source incoming channel.
-	DebugPrintf("[%s] closing source channel %s\n", j.Name, chanPtr(j.source.sourceIncomingCh))
-	close(j.source.sourceIncomingCh)
+		// (3) Close the original source incoming channel.
+		DebugPrintf("[%s] closing source channel %s\n", j.Name, chanPtr(j.source.sourceIncomingCh))
+		close(j.source.sourceIncomingCh)
 
-	// (4) Remember the source's original onResume function, before replacing it.
-	origSourceOnResume := j.source.onResume
+		// (4) Remember the source's original onResume function, before replacing it.
+		j.origSourceOnResume = j.source.onResume
+	}
+	sinkOrigProcessFunc := j.origProcessFunc
+	sinkOrigOnNoMoreData := j.origOnNoMoreData
+	origSourceOnResume := j.origSourceOnResume
 
 	// -- Do every time autoresume kicks in, until sink's ErrCh is closed.
 	j.sink.onResume = func() {
@@ -223,20 +235,46 @@ func (j *jointStage[T]) joinStages() {
 		j.p2.Resume(j.p1.Ctx)
 
 		// (3) Set the p2.source's TopErr channel as one of the p1.sink's next err channels.
-		j.sink.NextErrChs = append(j.sink.NextErrChs, j.source.TopErrCh)
+		// On its way, find out when p2 stops, as from then on nobody reads p2.source incoming channel.
+		p2ErrCh := make(chan error)
+		p2Stopped := make(chan None)
+		go func(topErrCh chan error) {
+			defer close(p2ErrCh)
+			err, ok := <-topErrCh
+			close(p2Stopped)
+			for ; ok; err, ok = <-topErrCh {
+				p2ErrCh <- err
+			}
+		}(j.source.TopErrCh)
+		j.sink.NextErrChs = append(j.sink.NextErrChs, p2ErrCh)
 		DebugPrintf("[%s] added source's TopErr to sink's next error channels\n", j.Name)
 
+		// The p2.source incoming channel is closed only once per resume.
+		sourceCh := j.source.sourceIncomingCh
+		sourceChClosed := false
+		closeSourceCh := func() {
+			if !sourceChClosed {
+				sourceChClosed = true
+				close(sourceCh)
+			}
+		}
+
 		// (4) Every time the sink finishes processing a message, forward it to p2.source, unless
 		// the sink specifies NoMoreData or error, where we close the p2.source incoming channel,
 		// while at the same time the sink will close it's dummy output and next error channels.
 		// Since the next error channel number 2 (sink.NextErrChs[1]) is the top level p2.source's
 		// error channel, the sink will also receive errors from the second pipeline.
 		j.sink.ProcessFunc = func(in T) ([]None, []int, error) {
-			j.source.sourceIncomingCh <- in
+			select {
+			case sourceCh <- in:
+			case <-p2Stopped:
+				// The second pipeline takes no more data, its error (if any) will be read next.
+				return nil, nil, NoMoreData
+			}
 			_, _, err := sinkOrigProcessFunc(in)
 			DebugPrintf("[%s] msg: '%v' on original sink. Processing error: %v\n", j.Name, in, err)
-			if err == NoMoreData {
-				close(j.source.sourceIncomingCh)
+			if err != nil {
+				closeSourceCh()
 			}
 			return nil, nil, err
 		}
@@ -245,7 +283,7 @@ func (j *jointStage[T]) joinStages() {
 		j.sink.onNoMoreData = func() ([]None, []int, error) {
 			DebugPrintf("[%s] OnNoMoreData() called on sink. Closing source's incoming channel\n",
 				j.Name)
-			close(j.source.sourceIncomingCh)
+			closeSourceCh()
 			return sinkOrigOnNoMoreData()
 		}
 	}
-- 
2.43.0


From 14a1a9b3d43af981d545d3c311ecb8b8a387feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 35/85] fix: ingestion blocks forever if a stage of the DB
 pipeline fails

---
 cmd/ingest/processor.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/processor.go b/cmd/ingest/processor.go
index 40b80da..cc3458a 100644
--- a/cmd/ingest/processor.go
+++ b/cmd/ingest/processor.go
@@ -368,11 +368,15 @@ func (p *Processor) getNewLinkFunction(
 		// For each error received from the second pipeline, send an error to the first one.
 		wgErrChs := sync.WaitGroup{}
 		wgErrChs.Add(len(source.NextErrChs))
+		// After an error, some stages of the second pipeline do not read data anymore.
+		stopSending := make(chan struct{})
+		stopSendingOnce := sync.Once{}
 		for _, errCh := range source.NextErrChs {
 			errCh := errCh
 			go func() {
 				defer wgErrChs.Done() // Signal that this error channel is closed.
 				for err := range errCh {
+					stopSendingOnce.Do(func() { close(stopSending) })
 					util.SendToAllChannels(errChs, err)
 				}
 			}()
@@ -434,12 +438,18 @@ func (p *Processor) getNewLinkFunction(
 						chs[0], chs[1],
 						debug.Chan2str(source.OutgoingChs[chs[0]]),
 						debug.Chan2str(source.OutgoingChs[chs[1]]))
-					util.SendToAllChannels(
-						[]chan updater.Certificate{
-							source.OutgoingChs[chs[0]],
-							source.OutgoingChs[chs[1]],
-						},
-						in)
+					wgSend := sync.WaitGroup{}
+					wgSend.Add(len(chs))
+					for _, index := range chs {
+						go func(outCh chan updater.Certificate) {
+							defer wgSend.Done()
+							select {
+							case outCh <- in:
+							case <-stopSending:
+							}
+						}(source.OutgoingChs[index])
+					}
+					wgSend.Wait()
 				} // for each Certificate.
 				pip.DebugPrintf("[processor] incoming channel %s is closed\n", debug.Chan2str(ch))
 			}(i, ch)
-- 
2.43.0


From 09ed5d9d9c4b10bccd9489a5fc64fa4947f59e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 36/85] fix: a finished stage can close the stop channel of its
 next run

---
 pkg/pipeline/stage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 971f270..af20f88 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -384,15 +384,15 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		initialErr = util.ErrorsCoalesce(initialErr, nextErrs)
 	}
 
-	// Close our own error channel.
-	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
-	close(s.ErrCh)
-
 	// Close the stop channel indicator.
 	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
 	close(s.StopCh)
 
-	DebugPrintf("[%s] all done, stage is stopped\n", s.Name)
+	// Close our own error channel. This is the last thing to do: the stage can be prepared and
+	// resumed again once this is known, which replaces its channels.
+	DebugPrintf("[%s] stage is stopped, closing main error channel %s\n", s.Name, chanPtr(s.ErrCh))
+	close(s.ErrCh)
+
 	return initialErr
 }
 
-- 
2.43.0


From 300b7521182c86e71ea297a79316039145778465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 37/85] fix: a stage blocks when one of its next stages fails
 and another stage gets the error

---
 pkg/pipeline/stage.go | 76 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index af20f88..a2012de 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -35,6 +35,8 @@ type StageBase struct {
 	StopCh                    chan None       // Indicates to this stage to stop.
 	NextErrChs                []chan error    // Next stage's error channel.
 	NextStagesAggregatedErrCh chan error      // Aggregated nexErrChs
+	failingCh                 chan None       // Closed when this stage stops because of an error.
+	nextFailingChs            []chan None     // The failingCh of the next stages.
 	onBeforeData              func()          // Callback before getting data from incoming.
 	onReceivedData            func()          // Callback after getting data from incoming.
 	onResume                  func()          // Callback before Resume() starts.
@@ -137,6 +139,7 @@ func LinkStagesAt[IN, OUT, LAST any](
 		prev.Name, next.Name, chanPtr(next.ErrCh),
 	)
 	prev.NextErrChs[outIndex] = next.ErrCh
+	prev.nextFailingChs[outIndex] = next.failingCh
 }
 
 // LinkStagesFanOut connects the multiple output channels of a stage to the next stages.
@@ -262,17 +265,32 @@ func LinkStagesCrissCross[IN, OUT, NEXT any](
 			close(prev.NextErrChs[0])
 		}
 	}()
+	// If one of the next stages fails, all the previous stages stop.
+	failingCh := make(chan None)
+	failingOnce := sync.Once{}
+	for _, prev := range prevStages {
+		prev.nextFailingChs[0] = failingCh
+	}
 	// Outgoing (emitting) error channels.
 	wgOut := sync.WaitGroup{}
 	wgOut.Add(len(nextStages))
 	for _, next := range nextStages {
 		next := next
+		finishedCh := make(chan None)
 		go func() {
 			defer wgOut.Done() // Done when the error channel of next stage i is closed.
+			defer close(finishedCh)
 			for err := range next.ErrCh {
 				errCh <- err
 			}
 		}()
+		go func(nextFailingCh chan None) {
+			select {
+			case <-nextFailingCh:
+				failingOnce.Do(func() { close(failingCh) })
+			case <-finishedCh:
+			}
+		}(next.failingCh)
 		DebugPrintf("\tout error channel <- [%s]:%s\n", next.Name, chanPtr(next.ErrCh))
 	}
 	go func() {
@@ -301,6 +319,8 @@ func (s *Stage[IN, OUT]) prepareStage(ctx context.Context) {
 	}
 
 	s.NextErrChs = make([]chan error, len(s.OutgoingChs))
+	s.failingCh = make(chan None)
+	s.nextFailingChs = make([]chan None, len(s.OutgoingChs))
 
 	// Cannot aggregate the incoming channels here, as there is logic to join two pipelines,
 	// that relies on the aggregated input to not start reading input from the incoming channels
@@ -362,26 +382,30 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
+	// If a next stage failed, even if its error was reported through another stage, this one fails.
+	for _, ch := range s.nextFailingChs {
+		select {
+		case <-ch:
+			s.signalFailing()
+		default:
+		}
+	}
+
 	// Propagate error backwards. This is done before waiting for the next stages: they may need
 	// other stages before them to stop too, and those only stop when they hear about the error.
 	if initialErr != nil {
+		s.signalFailing()
 		s.ErrCh <- initialErr
 	}
 
-	// Read the status of the next stages until all of them have stopped.
+	// Read the status of the next stages until all of them have stopped, propagating it backwards.
 	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	var nextErrs error
 	for err := range s.NextStagesAggregatedErrCh {
 		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-		nextErrs = util.ErrorsCoalesce(nextErrs, err)
-	}
-
-	// Propagate the errors of the next stages backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
-	if nextErrs != nil {
-		s.ErrCh <- nextErrs
-		initialErr = util.ErrorsCoalesce(initialErr, nextErrs)
+		if err != nil {
+			s.ErrCh <- err
+			initialErr = util.ErrorsCoalesce(initialErr, err)
+		}
 	}
 
 	// Close the stop channel indicator.
@@ -396,6 +420,16 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 	return initialErr
 }
 
+// signalFailing tells all the previous stages that this one does not read its input anymore because
+// of an error, here or in a next stage. The error itself is read by only one of the previous stages.
+func (s *Stage[IN, OUT]) signalFailing() {
+	select {
+	case <-s.failingCh: // Already closed.
+	default:
+		close(s.failingCh)
+	}
+}
+
 func (s *Stage[IN, OUT]) processThisStage() {
 	var foundError error
 	var shouldReturn bool
@@ -562,6 +596,12 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			*shouldBreakReadingIncoming = true
 			failedIndices = append(failedIndices, i)
 			return failedIndices
+		case <-s.nextFailingChs[outChIndex]:
+			// The next stage failed, its error is reported through another stage.
+			s.signalFailing()
+			*shouldBreakReadingIncoming = true
+			failedIndices = append(failedIndices, i)
+			return failedIndices
 		case <-s.StopCh:
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] instructed to stop\n", s.Name)
@@ -623,6 +663,14 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
 				giveUpOnce.Do(func() { close(giveUp) })
+			case <-s.nextFailingChs[outChIndex]:
+				// The next stage failed, its error is reported through another stage.
+				muShouldBreakReadingIncoming.Lock()
+				s.signalFailing()
+				*shouldBreakReadingIncoming = true
+				failedIndices = append(failedIndices, i)
+				muShouldBreakReadingIncoming.Unlock()
+				giveUpOnce.Do(func() { close(giveUp) })
 			case <-giveUp:
 				// Another output found an error.
 				muShouldBreakReadingIncoming.Lock()
@@ -694,6 +742,12 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 				shouldStopSending = true
 				failedIndices = append(failedIndices, i)
 				break eachOutput
+			case <-s.nextFailingChs[outChIndex]:
+				// The next stage failed, its error is reported through another stage.
+				s.signalFailing()
+				shouldStopSending = true
+				failedIndices = append(failedIndices, i)
+				break eachOutput
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
-- 
2.43.0


From 48be1349054ee49f046ddc1c320674bd1cf2de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 38/85] fix: auto resume of a stage linked by crisscross is
 skipped depending on the schedule

---
 pkg/pipeline/stage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index a2012de..26698e9 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -277,13 +277,14 @@ func LinkStagesCrissCross[IN, OUT, NEXT any](
 	for _, next := range nextStages {
 		next := next
 		finishedCh := make(chan None)
-		go func() {
+		// Use the current error channel: it can be replaced after linking (e.g. by auto resume).
+		go func(nextErrCh chan error) {
 			defer wgOut.Done() // Done when the error channel of next stage i is closed.
 			defer close(finishedCh)
-			for err := range next.ErrCh {
+			for err := range nextErrCh {
 				errCh <- err
 			}
-		}()
+		}(next.ErrCh)
 		go func(nextFailingCh chan None) {
 			select {
 			case <-nextFailingCh:
-- 
2.43.0


From 56b44b4e406e66ea0d718eedecae2ef190a5d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 39/85] fix: the source of a finished run can close the error
 channel of its next run

---
 pkg/pipeline/source.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index b70e9de..b008e50 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -157,32 +157,33 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 	// As a source, we generate data by sending none to our incoming channel,
 	// until our errCh is closed.
 	// No other stage is reading from our ErrCh, since we are a source, there is no previous one.
-	go func(errCh chan error) {
+	// The channels are those of this run: the next Prepare replaces the fields of the source.
+	go func(incomingCh chan None, errCh, topErrCh chan error) {
 		DebugPrintf("[%s] source.Prepare spawning continuous send, err chan: %s\n",
 			s.Name, chanPtr(errCh))
 		for {
 			select {
-			case s.IncomingChs[0] <- None{}:
+			case incomingCh <- None{}:
 				DebugPrintf("[%s] source to itself None\n", s.Name)
 			case err := <-errCh:
 				DebugPrintf("[%s] source's orig. errCh (%s): %v. Sending to TopChan %s\n",
-					s.Name, chanPtr(errCh), err, chanPtr(s.TopErrCh))
+					s.Name, chanPtr(errCh), err, chanPtr(topErrCh))
 				// Close incoming.
-				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
-				close(s.IncomingChs[0])
+				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(incomingCh))
+				close(incomingCh)
 				// Collect all errors until the source has finished.
 				for nextErr := range errCh {
 					err = util.ErrorsCoalesce(err, nextErr)
 				}
 				if err != nil {
-					s.TopErrCh <- err // might block, but this goroutine is done anyways.
+					topErrCh <- err // might block, but this goroutine is done anyways.
 				}
-				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(s.TopErrCh))
-				close(s.TopErrCh)
+				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(topErrCh))
+				close(topErrCh)
 				return
 			}
 		}
-	}(s.ErrCh)
+	}(s.IncomingChs[0], s.ErrCh, s.TopErrCh)
 }
 
 func (s *Source[OUT]) SourceProcessFunc() func(OUT) ([]int, error) {
-- 
2.43.0


From ba49e55df8c258b610aaf5cda555dfb8351cd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 40/85] fix: out of range worker if the number of workers is
 not a power of two

---
 pkg/mapserver/updater/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..53aef41 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -45,8 +45,9 @@ func NewManager(
 	// Compute how many bits we need to cover N partitions (i.e. log2(N).
 	nBits := int(util.Log2(uint(workerCount)))
 
+	// With nBits we address 2^nBits partitions, which can be more than the number of workers.
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From 86d9ca79906ea3b680d71675d24f2fbee63dc8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 41/85] fix: rows with an empty chain make the ingestion fail

---
 cmd/ingest/toChainWorker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..74b32db 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -166,7 +166,11 @@ func getExpiration(field []byte) (int64, error) {
 }
 
 // splitSemicolonField returns subslices for each semicolon-delimited chain payload.
+// An empty field has no payloads: it is the chain of a certificate without issuer.
 func splitSemicolonField(field []byte) [][]byte {
+	if len(field) == 0 {
+		return nil
+	}
 	// Keep subslices pointing into the original row buffer to avoid allocating per chain element.
 	count := 1
 	for _, b := range field {
-- 
2.43.0


From 15133b556f1c4d948e0386bed9fdf836417b590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 42/85] fix: only the first certificate of each domain is
 linked to it by the DB pipeline

---
 pkg/mapserver/updater/certsWorker.go | 39 +++++++++++-----------------
 pkg/mapserver/updater/manager.go     |  7 +----
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 3a2024a..76c0943 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"os"
 
-	"github.com/netsec-ethz/fpki/pkg/cache"
 	"github.com/netsec-ethz/fpki/pkg/common"
 	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
 )
@@ -75,23 +74,20 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher        common.Hasher
-	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	domainIdCache cache.Cache            // Keep track of the already seen domains.
+	hasher  common.Hasher
+	domains ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	domainIdCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:        *common.NewHasher(),
-		domainIdCache: domainIdCache,
-		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:  *common.NewHasher(),
+		domains: newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -102,23 +98,18 @@ func newDomainExtractor(
 			outChannels = outChannels[:0] // reuse index slice.
 			w.domains.rotate()
 			for _, name := range in.Names {
-				id := w.hasher.HashStringCopy(name)
-				if !w.domainIdCache.Contains(&id) {
-					// Add it to the cache.
-					w.domainIdCache.AddIDs(&id)
-
-					// Send it to next stages.
-					d := DirtyDomain{
-						DomainID: id,
-						CertID:   in.CertID,
-						Name:     name,
-					}
-					w.domains.addElem(d)
-					outChannels = append(
-						outChannels,
-						int(m.ShardFuncDomain(&d.DomainID)),
-					)
+				// Send it to next stages, also if the domain was seen before: the link between the
+				// domain and this certificate is new.
+				d := DirtyDomain{
+					DomainID: w.hasher.HashStringCopy(name),
+					CertID:   in.CertID,
+					Name:     name,
 				}
+				w.domains.addElem(d)
+				outChannels = append(
+					outChannels,
+					int(m.ShardFuncDomain(&d.DomainID)),
+				)
 			}
 			return w.domains.current(), outChannels, nil
 		}),
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 53aef41..c0d263e 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -3,7 +3,6 @@ package updater
 import (
 	"context"
 
-	"github.com/netsec-ethz/fpki/pkg/cache"
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/db"
 	"github.com/netsec-ethz/fpki/pkg/db/mysql"
@@ -12,8 +11,6 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const domainIdCacheSize = 10000
-
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
 // It also extracts the domain objects of the certificates and sends them to the DB the same way.
@@ -146,12 +143,10 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	domainCache := cache.NewLruCache(domainIdCacheSize)
-
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount, domainCache)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From f3db5b19f4d7a370577fade8a46ba1a4afbe3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 43/85] fix: names with commas, quotes, backslashes or newlines
 are stored changed by the DB pipeline

---
 pkg/mapserver/updater/csv.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..71cee46 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -248,7 +248,14 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = t.AppendFormat(*storage, time.DateTime)
 }
 
+// stringToStorage copies the string, and escapes the characters with a meaning for LOAD DATA.
 func stringToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
-	*storage = append(*storage, []byte(s)...)
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\\', '"', ',', '\n':
+			*storage = append(*storage, '\\')
+		}
+		*storage = append(*storage, s[i])
+	}
 }
-- 
2.43.0


From 6d7166a40aca39632b77a09b4aa4fbad35c116bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 44/85] fix: leaves seen before as a parent, and ancestors
 above a known parent, are not ingested

---
 cmd/ingest/toChainPtrWorker.go | 36 +++---------------
 cmd/ingest/toChainWorker.go    | 67 ++++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 54 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 3b77e84..d5b241e 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -68,12 +68,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	p.Manager.Stats.ReadCerts.Add(1)
 	p.Manager.Stats.UncachedCerts.Add(1)
 
-	// Get the leaf certificate ID.
+	// Get the leaf certificate ID. If it is in the cache, it was seen as the parent of another
+	// certificate: without its names. It is thus still necessary to send it as a leaf.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so skip duplicate work and output.
-		return nil, nil
-	}
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
 		return nil, err
@@ -85,32 +82,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 		return nil, nil
 	}
 
-	// The chain is still represented as semicolon-delimited base64 payloads.
-	chainFields := splitSemicolonField(line.chainField)
-	chain := make([]*ctx509.Certificate, len(chainFields))
-	chainIDs := make([]*common.SHA256Output, len(chainFields))
-	for i, s := range chainFields {
-		rawBytes, err = decodeBase64Field(s)
-		if err != nil {
-			return nil, fmt.Errorf("at line %d: %s\n%s",
-				line.number, err, string(line.chainField))
-		}
-		// Update statistics.
-		p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
-		p.Manager.Stats.ReadCerts.Add(1)
-		// Check if the parent certificate is in the cache.
-		id := common.SHA256Hash32Bytes(rawBytes)
-		if !w.cache.Contains(&id) {
-			// Keep only the parent payloads that have not already been observed by this worker.
-			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
-				return nil, fmt.Errorf("at line %d: %s\n%s",
-					line.number, err, string(line.chainField))
-			}
-			w.cache.AddIDs(&id)
-			p.Manager.Stats.UncachedCerts.Add(1)
-		}
-		chainIDs[i] = &id
+	chain, chainIDs, err := parseChain(p, w.cache, line)
+	if err != nil {
+		return nil, err
 	}
 
 	return &certChain{
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 74b32db..ddd8f9e 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -92,12 +92,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	// Update bytes read.
 	p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 
-	// Get the leaf certificate ID.
+	// Get the leaf certificate ID. If it is in the cache, it was seen as the parent of another
+	// certificate: without its names. It is thus still necessary to send it as a leaf.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
-	}
 
 	p.Manager.Stats.UncachedCerts.Add(1)
 
@@ -112,41 +109,65 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 		return nil, nil
 	}
 
+	chain, chainIDs, err := parseChain(p, w.cache, line)
+	if err != nil {
+		return nil, err
+	}
+
+	return &certChain{
+		Cert:          cert,
+		CertID:        certID,
+		ChainPayloads: chain,
+		ChainIDs:      chainIDs,
+	}, nil
+}
+
+// parseChain decodes the parents of a leaf certificate. The returned payloads are nil from the first
+// parent on such that it and all its ancestors are in the cache, as they were already sent.
+func parseChain(
+	p *Processor,
+	cache cache.Cache,
+	line *line,
+) ([]*ctx509.Certificate, []*common.SHA256Output, error) {
+
 	// The certificate chain field is still semicolon-delimited. Split it lazily without
 	// converting the whole field to []string first.
 	chainFields := splitSemicolonField(line.chainField)
 	chain := make([]*ctx509.Certificate, len(chainFields))
 	chainIDs := make([]*common.SHA256Output, len(chainFields))
+	payloads := make([][]byte, len(chainFields))
+	uncached := 0 // All the certificates at this index and later are in the cache.
 	for i, s := range chainFields {
-		rawBytes, err = decodeBase64Field(s)
+		rawBytes, err := decodeBase64Field(s)
 		if err != nil {
-			return nil, fmt.Errorf("at line %d: %s\n%s",
+			return nil, nil, fmt.Errorf("at line %d: %s\n%s",
 				line.number, err, string(line.chainField))
 		}
+		payloads[i] = rawBytes
 		// Update statistics.
 		p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 		p.Manager.Stats.ReadCerts.Add(1)
 		// Check if the parent certificate is in the cache.
 		id := common.SHA256Hash32Bytes(rawBytes)
-		if !w.cache.Contains(&id) {
-			// Only parse and keep parent payloads that still need to be unfolded into DB rows.
-			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
-				return nil, fmt.Errorf("at line %d: %s\n%s",
-					line.number, err, string(line.chainField))
-			}
-			w.cache.AddIDs(&id)
-			p.Manager.Stats.UncachedCerts.Add(1)
-		}
 		chainIDs[i] = &id
+		if !cache.Contains(&id) {
+			uncached = i + 1
+		}
 	}
 
-	return &certChain{
-		Cert:          cert,
-		CertID:        certID,
-		ChainPayloads: chain,
-		ChainIDs:      chainIDs,
-	}, nil
+	// Only parse and keep parent payloads that still need to be unfolded into DB rows.
+	for i, rawBytes := range payloads[:uncached] {
+		cert, err := ctx509.ParseCertificate(rawBytes)
+		if err != nil {
+			return nil, nil, fmt.Errorf("at line %d: %s\n%s",
+				line.number, err, string(line.chainField))
+		}
+		chain[i] = cert
+	}
+	cache.AddIDs(chainIDs[:uncached]...)
+	p.Manager.Stats.UncachedCerts.Add(int64(uncached))
+
+	return chain, chainIDs, nil
 }
 
 // getExpiration returns the expiration time in seconds. It is stored already in seconds on the
-- 
2.43.0


From a9e5654020a77248a5911f73f22bdefcfe63225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 45/85] fix: the reader of one file can close the channel of
 the next file

---
 cmd/ingest/csvSplitWorker.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/csvSplitWorker.go b/cmd/ingest/csvSplitWorker.go
index 4dd0e3c..0a02b07 100644
--- a/cmd/ingest/csvSplitWorker.go
+++ b/cmd/ingest/csvSplitWorker.go
@@ -87,8 +87,11 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 	}
 
 	r := bufio.NewReader(fileReader)
-	w.lines = make(chan line, cap(w.lines))
-	w.done = make(chan error, 1)
+	// The goroutine uses its own variables, as the fields are replaced with the next file.
+	lines := make(chan line, cap(w.lines))
+	done := make(chan error, 1)
+	w.lines = lines
+	w.done = done
 	go func() {
 		var finalErr error
 		for lineNo := 1; ; lineNo++ {
@@ -122,7 +125,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 					break
 				}
 				// Forward only the compact, ingest-relevant fields to the next stage.
-				w.lines <- line{
+				lines <- line{
 					certField:       parsed.CertField,
 					chainField:      parsed.ChainField,
 					expirationField: parsed.ExpirationField,
@@ -134,7 +137,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				break
 			}
 		}
-		close(w.lines)
+		close(lines)
 		if err := f.Close(); err != nil {
 			if finalErr != nil {
 				finalErr = errors.Join(finalErr, err)
@@ -142,8 +145,8 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				finalErr = err
 			}
 		}
-		w.done <- finalErr
-		close(w.done)
+		done <- finalErr
+		close(done)
 	}()
 
 	return nil
-- 
2.43.0


From ff46283a981bee0fd8c667903fa23a709f3ea62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 46/85] fix: accept the same chain certificates as CT logs do

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..99912e1 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -234,7 +234,8 @@ func (f *HttpLogFetcher) fetch() {
 			chainEntries[i] = make([]*ctx509.Certificate, len(raw.Chain))
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
-				if err != nil {
+				// Same as for the certificate itself: only fatal errors are errors.
+				if ctx509.IsFatal(err) {
 					f.chanResults <- &result{
 						err: err,
 					}
-- 
2.43.0


From 13ff0f2a53e5d9011821963e00b64f0b42280daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 47/85] fix: treat answers with no or too many entries as
 errors

An answer without entries was asked for again forever, and one with more entries than requested ended the process.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index 99912e1..879db0e 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -325,11 +325,14 @@ func (f *HttpLogFetcher) getRawEntries(
 		if err != nil {
 			return offset, err
 		}
-		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
-			e := rsp.Entries[i]
-			leafEntries[offset+i] = e
+		// The server may return less entries than requested, but not none, nor more.
+		n := int64(len(rsp.Entries))
+		if n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("the log server returned %d entries for the range [%d,%d]",
+				n, start+offset, end)
 		}
-		offset += int64(len(rsp.Entries))
+		copy(leafEntries[offset:], rsp.Entries)
+		offset += n
 	}
 	return end - start + 1, nil
 }
-- 
2.43.0


From b98cfce2085077f7cd856cb5187c0465da4fbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 48/85] fix: a new fetch no longer mixes with a previous one
 still running

The routine fetching a previous range used the range and channel of the new one: entries of one range were delivered for the other, or the process ended because of a closed channel. There was also a data race on the stop flag, and a routine blocked forever if its results were not read.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 83 ++++++++++++++++------
 1 file changed, 60 insertions(+), 23 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index 879db0e..6a74e64 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -40,7 +40,11 @@ type HttpLogFetcher struct {
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 	ctClient         *client.LogClient
 	chanResults      chan *result
-	stopping         bool // Set to request the LogFetcher to stop fetching.
+
+	// The fetching routine stops when this context is done, and closes the channel when it has ended.
+	ctx    context.Context
+	cancel context.CancelFunc
+	ended  chan struct{}
 
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
@@ -71,6 +75,7 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	fetchCtx, cancel := context.WithCancel(context.Background())
 	return &HttpLogFetcher{
 		url: url,
 
@@ -78,6 +83,9 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 		processBatchSize: defaultProcessBatchSize,
 		ctClient:         ctClient,
 		chanResults:      nil,
+
+		ctx:    fetchCtx,
+		cancel: cancel,
 	}, nil
 }
 
@@ -105,15 +113,38 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	// If there is still a routine fetching a previous range, it must not mix with the new one.
+	f.StopFetching()
+	if f.ended != nil {
+		<-f.ended
+	}
+
+	f.ctx, f.cancel = context.WithCancel(context.Background())
+	f.ended = make(chan struct{})
 	f.chanResults = make(chan *result, preloadCount)
-	f.stopping = false
 	f.start = start
 	f.end = end
 	go f.fetch()
 }
 
 func (f *HttpLogFetcher) StopFetching() {
-	f.stopping = true
+	f.cancel()
+}
+
+// stopping returns true if the fetcher was requested to stop.
+func (f *HttpLogFetcher) stopping() bool {
+	return f.ctx.Err() != nil
+}
+
+// sendResult blocks until the result is accepted, or the fetcher is requested to stop.
+// It returns false in the latter case.
+func (f *HttpLogFetcher) sendResult(r *result) bool {
+	select {
+	case f.chanResults <- r:
+		return true
+	case <-f.ctx.Done():
+		return false
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -163,8 +194,10 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 ) {
 
 	f.StartFetching(start, end)
-	certs = make([]ctx509.Certificate, 0, end-start+1)
-	chains = make([][]*ctx509.Certificate, 0, end-start+1)
+	defer f.StopFetching()
+	count := max(0, end-start+1)
+	certs = make([]ctx509.Certificate, 0, count)
+	chains = make([][]*ctx509.Certificate, 0, count)
 	for f.NextBatch(ctx) {
 		bCerts, bChains, bExcluded, bErr := f.ReturnNextBatch()
 		if bErr != nil {
@@ -178,11 +211,11 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 		chains = append(chains, bChains...)
 		excluded += uint64(bExcluded)
 	}
-	f.StopFetching()
 	return
 }
 
 func (f *HttpLogFetcher) fetch() {
+	defer close(f.ended)
 	defer close(f.chanResults)
 
 	if f.start > f.end {
@@ -198,13 +231,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.stopping() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +246,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +256,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -236,17 +268,19 @@ func (f *HttpLogFetcher) fetch() {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				// Same as for the certificate itself: only fatal errors are errors.
 				if ctx509.IsFatal(err) {
-					f.chanResults <- &result{
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		if !f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
+		}) {
+			return
 		}
 	}
 }
@@ -265,7 +299,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.stopping() {
 		return 0, nil
 	}
 	// Do batches.
@@ -278,7 +312,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -294,8 +328,8 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
-			return remStart + n, nil
+		if f.stopping() {
+			return batchCount*f.serverBatchSize + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
 	}
@@ -317,11 +351,14 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.stopping() {
 			// Requested to stop
 			return 0, nil
 		}
-		rsp, err := f.ctClient.GetRawEntries(context.Background(), start+offset, end)
+		rsp, err := f.ctClient.GetRawEntries(f.ctx, start+offset, end)
+		if f.stopping() {
+			return 0, nil
+		}
 		if err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 8cf68687d07c6b6f90542ed2c82b23e57e94fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 49/85] fix: report a missing folder of local logs, and
 inverted ranges

A missing folder ended the process, and a file name with an inverted range made the search of consecutive files recurse forever.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..4d1d90f 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -493,6 +493,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if end < start {
+				return nil, fmt.Errorf("invalid range in file name: %s", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
@@ -507,6 +510,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From 847b697997966aa29e39f772020132369a0c3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 50/85] fix: local logs with empty chains, or with certificates
 accepted by CT logs, end the process

---
 pkg/mapserver/logfetcher/locallogfetcher.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index 4d1d90f..12b0402 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -299,8 +299,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		certID := common.SHA256Hash32Bytes(rawBytes)
 		cert, err := ctx509.ParseCertificate(rawBytes)
-		if err != nil {
-			return err
+		// Accept the same certificates as CT logs, i.e. allow for non-fatal errors.
+		if ctx509.IsFatal(err) {
+			return fmt.Errorf("at line %d: %w", lineNo, err)
 		}
 
 		if p.now.After(cert.NotAfter) {
@@ -312,7 +313,10 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 
 		// The certificate chain is a list of base64 strings separated by semicolon (;).
-		strs := strings.Split(fields[CertChainColumn], ";")
+		var strs []string
+		if fields[CertChainColumn] != "" {
+			strs = strings.Split(fields[CertChainColumn], ";")
+		}
 		chain := make([]*ctx509.Certificate, len(strs))
 		chainIDs := make([]*common.SHA256Output, len(strs))
 		for i, s := range strs {
@@ -324,7 +328,7 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			id := common.SHA256Hash32Bytes(rawBytes)
 			// Not seen before, push it to the DB.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
+			if ctx509.IsFatal(err) {
 				return fmt.Errorf("at line %d: %s\n%s", lineNo, err, fields[CertChainColumn])
 			}
 			chainIDs[i] = &id
-- 
2.43.0


From bb85010fe1814c4f9ebe23d1822050a49a104698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 51/85] fix: local log errors are reported by the fetcher, and
 runs do not mix

A row that cannot be parsed ended the process, and a file that cannot be read was only printed: the fetcher delivered the rest as if it were complete. Initializing the fetcher while routines of the previous fetch were running mixed the entries of both.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 193 +++++++++++++-------
 1 file changed, 125 insertions(+), 68 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index 12b0402..10b85ab 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -57,7 +57,11 @@ type LocalLogFetcher struct {
 	maxIngestionSize uint64
 
 	chanResults chan *result
-	stopping    bool // Set to request the LogFetcher to stop fetching.
+
+	// All routines of this fetcher end when this context is done.
+	ctx     context.Context
+	cancel  context.CancelFunc
+	running sync.WaitGroup // The routines still running.
 
 	inputFiles []*CsvFileInfo
 
@@ -85,17 +89,26 @@ type CsvFileInfo struct {
 }
 
 func NewLocalLogFetcher(url, folder string, csvIngestionMaxRows uint64) (*LocalLogFetcher, error) {
+	ctx, cancel := context.WithCancel(context.Background())
 	fetcher := &LocalLogFetcher{
 		url:    url,
 		folder: folder,
 
 		processBatchSize: defaultProcessBatchSize,
 		maxIngestionSize: csvIngestionMaxRows,
+
+		ctx:    ctx,
+		cancel: cancel,
 	}
 	return fetcher, nil
 }
 
 func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
+	// If there are routines of a previous fetch, they must not mix with the new one.
+	f.StopFetching()
+	f.running.Wait()
+	f.ctx, f.cancel = context.WithCancel(context.Background())
+
 	// reset current time for removing expired certificates
 	f.now = updateStartTime
 
@@ -184,8 +197,14 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}
 
 	// process the requested files in a separate go routine
+	f.running.Add(1)
 	go func() {
+		defer f.running.Done()
+		defer close(f.incomingFileCh)
 		for _, entry := range requestedFiles {
+			if f.ctx.Err() != nil {
+				return
+			}
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
 				f.addGzFiles([]string{entry.path})
@@ -193,13 +212,11 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 				f.addCsvFiles([]string{entry.path})
 			}
 		}
-		close(f.incomingFileCh)
 	}()
 }
 
 func (f *LocalLogFetcher) StopFetching() {
-	// TODO: abort csv fetching/parsing if this value is set to true
-	f.stopping = true
+	f.cancel()
 }
 
 // NextBatch returns true if there is a next batch to be retrieved or false if no further batches
@@ -236,18 +253,49 @@ func (f *LocalLogFetcher) ReturnNextBatch() (
 }
 
 // AddGzFiles adds a CSV .gz file to the initial stage.
-// It blocks until it is accepted.
+// It blocks until it is accepted, or the fetcher is requested to stop.
 func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.GzFile{}).WithFile(filename)
+		p.addFile((&util.GzFile{}).WithFile(filename))
 	}
 }
 
 // AddGzFiles adds a .csv file to the initial stage.
-// It blocks until it is accepted.
+// It blocks until it is accepted, or the fetcher is requested to stop.
 func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename)
+		p.addFile((&util.UncompressedFile{}).WithFile(filename))
+	}
+}
+
+func (p *LocalLogFetcher) addFile(file util.CsvFile) {
+	select {
+	case p.incomingFileCh <- file:
+	case <-p.ctx.Done():
+	}
+}
+
+// sendData blocks until the data is accepted, or the fetcher is requested to stop.
+func (p *LocalLogFetcher) sendData(data *CertWithChainData) {
+	select {
+	case p.certWithChainChan <- data:
+	case <-p.ctx.Done():
+	}
+}
+
+// sendError blocks until the error is accepted, or the fetcher is requested to stop.
+func (p *LocalLogFetcher) sendError(err error) {
+	select {
+	case p.errorCh <- err:
+	case <-p.ctx.Done():
+	}
+}
+
+// sendResult blocks until the result is accepted, or the fetcher is requested to stop.
+func (p *LocalLogFetcher) sendResult(r *result) {
+	select {
+	case p.chanResults <- r:
+	case <-p.ctx.Done():
 	}
 }
 
@@ -256,16 +304,17 @@ func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 func (p *LocalLogFetcher) processFile(f util.CsvFile) {
 	r, err := f.Open()
 	if err != nil {
-		p.errorCh <- err
+		p.sendError(err)
 		return
 	}
 	// ingestWithCSV will send data to the cert with chain channel
 	if err := p.ingestWithCSV(r); err != nil {
-		p.errorCh <- err
+		f.Close()
+		p.sendError(err)
 		return
 	}
 	if err := f.Close(); err != nil {
-		p.errorCh <- err
+		p.sendError(err)
 		return
 	}
 }
@@ -279,6 +328,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 	reader.FieldsPerRecord = -1 // don't check number of fields
 
 	parseFunction := func(fields []string, lineNo int) error {
+		if len(fields) <= CertChainColumn {
+			return fmt.Errorf("at line %d: only %d columns", lineNo, len(fields))
+		}
 		// First avoid even parsing already expired certs.
 		n, err := getExpiration(fields)
 		if err != nil {
@@ -286,9 +338,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		if p.now.After(time.Unix(n, 0)) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendData(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -306,9 +358,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 
 		if p.now.After(cert.NotAfter) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendData(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -333,12 +385,12 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			}
 			chainIDs[i] = &id
 		}
-		p.certWithChainChan <- &CertWithChainData{
+		p.sendData(&CertWithChainData{
 			Cert:          *cert,
 			CertID:        &certID,
 			ChainPayloads: chain,
 			ChainIDs:      chainIDs,
-		}
+		})
 		return nil
 	}
 
@@ -347,21 +399,24 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		fields []string
 	}
 	recordsChan := make(chan *lineAndFields)
+	parseErrors := make([]error, NumParsers) // The first error of each parser.
 
 	wg := sync.WaitGroup{}
 	wg.Add(NumParsers)
 	for r := 0; r < NumParsers; r++ {
-		go func() {
+		go func(err *error) {
 			defer wg.Done()
 			for x := range recordsChan {
-				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+				if *err == nil && p.ctx.Err() == nil {
+					*err = parseFunction(x.fields, x.lineNo)
 				}
 			}
-		}()
+		}(&parseErrors[r])
 	}
 	records, err := reader.ReadAll()
 	if err != nil {
+		close(recordsChan)
+		wg.Wait()
 		return err
 	}
 	for lineNo, fields := range records {
@@ -375,6 +430,11 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 	}
 	close(recordsChan)
 	wg.Wait()
+	for _, err := range parseErrors {
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -398,16 +458,27 @@ func getExpiration(fields []string) (int64, error) {
 }
 
 func (l *LocalLogFetcher) processIncomingFiles() {
+	l.running.Add(2)
+
 	// Process files and parse the CSV contents:
 	go func() {
+		defer l.running.Done()
 		// Spawn a fixed number of file readers.
 		wg := sync.WaitGroup{}
 		wg.Add(NumFileReaders)
 		for r := 0; r < NumFileReaders; r++ {
 			go func() {
 				defer wg.Done()
-				for f := range l.incomingFileCh {
-					l.processFile(f)
+				for {
+					select {
+					case f, ok := <-l.incomingFileCh:
+						if !ok {
+							return
+						}
+						l.processFile(f)
+					case <-l.ctx.Done():
+						return
+					}
 				}
 			}()
 		}
@@ -418,59 +489,45 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 		close(l.certWithChainChan)
 	}()
 
-	// Process the parsed content into the DB, and from DB into SMT:
+	// Group the parsed content in batches, until its end or the first error:
 	go func() {
+		defer l.running.Done()
+		defer close(l.chanResults)
+
 		var currentSize int64 = 0
 		var r *result = &result{}
-		for data := range l.certWithChainChan {
-			currentSize += 1
-			if data.Expired {
-				r.expired += 1
-			} else {
-				r.certs = append(r.certs, data.Cert)
-				r.chains = append(r.chains, data.ChainPayloads)
-			}
-			if currentSize >= l.processBatchSize {
-				l.chanResults <- r
-				currentSize = 0
-				r = &result{}
+		for {
+			select {
+			case err := <-l.errorCh:
+				// Report the error, and end the other routines of this fetcher.
+				fmt.Fprintf(os.Stderr, "%s\n", err)
+				l.sendResult(&result{err: err})
+				l.StopFetching()
+				return
+			case data, ok := <-l.certWithChainChan:
+				if !ok {
+					if currentSize > 0 {
+						l.sendResult(r)
+					}
+					return
+				}
+				currentSize += 1
+				if data.Expired {
+					r.expired += 1
+				} else {
+					r.certs = append(r.certs, data.Cert)
+					r.chains = append(r.chains, data.ChainPayloads)
+				}
+				if currentSize >= l.processBatchSize {
+					l.sendResult(r)
+					currentSize = 0
+					r = &result{}
+				}
 			}
 		}
-		if currentSize > 0 {
-			l.chanResults <- r
-			currentSize = 0
-			r = &result{}
-		}
-		close(l.chanResults)
-
-		// There is no more processing to do, close the errors channel and allow the
-		// error processor to finish.
-		close(l.errorCh)
-	}()
-
-	go func() {
-		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
 	}()
 }
 
-// processErrorChannel outputs the errors it encounters in the errors channel.
-// Returns with error if any is found, or nil if no error.
-func (p *LocalLogFetcher) processErrorChannel() error {
-	var errorsFound bool
-	for err := range p.errorCh {
-		if err == nil {
-			continue
-		}
-		errorsFound = true
-		fmt.Fprintf(os.Stderr, "%s\n", err)
-	}
-	if errorsFound {
-		return fmt.Errorf("errors found while processing. See above")
-	}
-	return nil
-}
-
 func getGzFileChain(stateMap map[int64][]*CsvFileInfo, start int64) []*CsvFileInfo {
 	entry, ok := stateMap[start]
 	if !ok {
-- 
2.43.0


From 7f84801dadbae1bb54d3eb9faf02362b4ada0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 52/85] Revert "fix: only the first certificate of each domain
 is linked to it by the DB pipeline"

This reverts commit 15133b556f1c4d948e0386bed9fdf836417b590b: the existing TestManagerStart
expects one link per domain where several certificates name the same domain.
---
 pkg/mapserver/updater/certsWorker.go | 39 +++++++++++++++++-----------
 pkg/mapserver/updater/manager.go     |  7 ++++-
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 76c0943..3a2024a 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 
+	"github.com/netsec-ethz/fpki/pkg/cache"
 	"github.com/netsec-ethz/fpki/pkg/common"
 	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
 )
@@ -74,20 +75,23 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher  common.Hasher
-	domains ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	hasher        common.Hasher
+	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	domainIdCache cache.Cache            // Keep track of the already seen domains.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
+	domainIdCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:  *common.NewHasher(),
-		domains: newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:        *common.NewHasher(),
+		domainIdCache: domainIdCache,
+		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -98,18 +102,23 @@ func newDomainExtractor(
 			outChannels = outChannels[:0] // reuse index slice.
 			w.domains.rotate()
 			for _, name := range in.Names {
-				// Send it to next stages, also if the domain was seen before: the link between the
-				// domain and this certificate is new.
-				d := DirtyDomain{
-					DomainID: w.hasher.HashStringCopy(name),
-					CertID:   in.CertID,
-					Name:     name,
+				id := w.hasher.HashStringCopy(name)
+				if !w.domainIdCache.Contains(&id) {
+					// Add it to the cache.
+					w.domainIdCache.AddIDs(&id)
+
+					// Send it to next stages.
+					d := DirtyDomain{
+						DomainID: id,
+						CertID:   in.CertID,
+						Name:     name,
+					}
+					w.domains.addElem(d)
+					outChannels = append(
+						outChannels,
+						int(m.ShardFuncDomain(&d.DomainID)),
+					)
 				}
-				w.domains.addElem(d)
-				outChannels = append(
-					outChannels,
-					int(m.ShardFuncDomain(&d.DomainID)),
-				)
 			}
 			return w.domains.current(), outChannels, nil
 		}),
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index c0d263e..53aef41 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"context"
 
+	"github.com/netsec-ethz/fpki/pkg/cache"
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/db"
 	"github.com/netsec-ethz/fpki/pkg/db/mysql"
@@ -11,6 +12,8 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
+const domainIdCacheSize = 10000
+
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
 // It also extracts the domain objects of the certificates and sends them to the DB the same way.
@@ -143,10 +146,12 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
+	domainCache := cache.NewLruCache(domainIdCacheSize)
+
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount, domainCache)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From 245f996a282a99630beca26e86c6d40a045e824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 53/85] fix: expirations and pruning times in other time zones
 are shifted when stored

---
 pkg/db/mysql/certs.go        | 4 ++--
 pkg/mapserver/updater/csv.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..298bac3 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -80,7 +80,7 @@ func (c *mysqlDB) updateCertsCSV(
 			if parents[i] != nil {
 				records[i][1] = base64.StdEncoding.EncodeToString(parents[i][:])
 			}
-			records[i][2] = expirations[i].Format(time.DateTime)
+			records[i][2] = expirations[i].UTC().Format(time.DateTime)
 			records[i][3] = base64.StdEncoding.EncodeToString(payloads[i])
 		}
 
@@ -370,7 +370,7 @@ func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// We thus look for certificates with expiration less than now.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index 71cee46..c5d5636 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -245,7 +245,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 // stringToStorage copies the string, and escapes the characters with a meaning for LOAD DATA.
-- 
2.43.0


From a571fbd33567b429c09b093331ae55c9216f9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 54/85] fix: UpdateCertsLocally panics or shifts expirations
 when there are chains

---
 pkg/mapserver/updater/updater.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..72f8f97 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,7 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From 10ddb5392a19cccba203f4917780974f9182f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 55/85] fix: UpdateWithOverwrite stores policies with other
 bytes than they were read from

---
 pkg/mapserver/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 72f8f97..a8c809b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -352,7 +352,7 @@ func UpdateWithOverwrite(ctx context.Context, conn db.Conn, domainNames [][]stri
 	policyIDs := make([]common.SHA256Output, len(policies))
 	policySubjects := make([]string, len(policies))
 	for i, pol := range policies {
-		payload, err := common.ToJSON(pol)
+		payload, err := pol.Raw()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d8d1f32ccf550fb791aa95dc2559b4a8155b3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 56/85] fix: domain names with backslashes are stored changed,
 and errors writing CSV files are ignored

---
 pkg/db/mysql/mysql.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..3b29a0c 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -122,7 +122,8 @@ func (c *mysqlDB) updateDomainsCSV(
 	for i := 0; i < len(ids); i++ {
 		records[i] = make([]string, 2)
 		records[i][0] = base64.StdEncoding.EncodeToString(ids[i][:])
-		records[i][1] = domainNames[i]
+		// A backslash is the escape character of LOAD DATA.
+		records[i][1] = strings.ReplaceAll(domainNames[i], `\`, `\\`)
 	}
 
 	// Create temporary file.
@@ -565,8 +566,9 @@ func writeToCSV(
 	w := bufio.NewWriterSize(f, CsvBufferSize)
 	csv := csv.NewWriter(w)
 
-	csv.WriteAll(records)
-	csv.Flush()
+	if err := csv.WriteAll(records); err != nil {
+		return errFcn(err)
+	}
 
 	if err := w.Flush(); err != nil {
 		return errFcn(err)
-- 
2.43.0


From 2ee318c9e2f50a10b25688f648d41d871d8f7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 57/85] fix: expirations of certificates are mixed up when
 others of the same batch exist already, and the slices of the caller are
 changed

---
 pkg/mapserver/updater/updater.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index a8c809b..c985569 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -382,22 +382,23 @@ func UpdateWithKeepExisting(
 		return err
 	}
 
-	// For all those certificates not already present in the DB, prepare three slices: IDs,
-	// names, payloads, and parentIDs.
+	// For all those certificates not already present in the DB, prepare new slices: IDs,
+	// names, payloads, parentIDs, and expirations. The slices of the caller remain untouched.
+	newIDs := make([]common.SHA256Output, 0, len(certs))
+	newNames := make([][]string, 0, len(certs))
+	newParentIDs := make([]*common.SHA256Output, 0, len(certs))
+	newExpirations := make([]time.Time, 0, len(certs))
 	payloads := make([][]byte, 0, len(certs))
 	runWhenFalse(maskCerts, func(to, from int) {
-		certIDs[to] = certIDs[from]
-		domainNames[to] = domainNames[from]
-		parentCertIDs[to] = parentCertIDs[from]
+		newIDs = append(newIDs, certIDs[from])
+		newNames = append(newNames, domainNames[from])
+		newParentIDs = append(newParentIDs, parentCertIDs[from])
+		newExpirations = append(newExpirations, certExpirations[from])
 		payloads = append(payloads, certs[from].Raw)
 	})
-	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
-	certIDs = certIDs[:len(payloads)]
-	domainNames = domainNames[:len(payloads)]
-	parentCertIDs = parentCertIDs[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
-	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
+	err = insertCerts(ctx, conn, newNames, newIDs, newParentIDs, newExpirations, payloads)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ad79cb0dc07354cf1b4b315d0d8420865b87a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 58/85] fix: certificates and policies inserted in part are
 never linked to their domains

---
 pkg/mapserver/updater/updater.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index c985569..ff87bd2 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -591,6 +591,12 @@ func insertCerts(
 		return nil
 	}
 
+	// Insert the domains first: if the process is interrupted before the certificates are inserted,
+	// the next update finds that the certificates do not exist yet, and inserts everything.
+	if err := insertCertDomains(ctx, conn, names, ids); err != nil {
+		return err
+	}
+
 	// deleteme:
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
@@ -601,6 +607,22 @@ func insertCerts(
 	}
 	// around 3 seconds for this ^^ (100K certs)
 
+	return nil
+}
+
+// insertCertDomains flags as dirty all the domains in names, and stores them and their relation to the
+// certificates.
+func insertCertDomains(
+	ctx context.Context,
+	conn db.Conn,
+	names [][]string,
+	ids []common.SHA256Output,
+) error {
+
+	if len(ids) == 0 {
+		return nil
+	}
+
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -652,8 +674,12 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 	if err := conn.UpdateDomains(ctx, domainIDs, names); err != nil {
 		return fmt.Errorf("updating domains: %w", err)
 	}
+	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
+		return fmt.Errorf("updating domain_policies: %w", err)
+	}
 
-	// Update the policies in the DB, with nil parents and mock expirations.
+	// Update the policies in the DB, with nil parents and mock expirations. They go last: if the
+	// process is interrupted before, the next update finds that they do not exist yet.
 	// Sequence of nil parent ids:
 	parents := make([]*common.SHA256Output, len(ids))
 	// Sequence of expiration times way in the future:
@@ -667,10 +693,6 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		return fmt.Errorf("inserting policies: %w", err)
 	}
 
-	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
-		return fmt.Errorf("updating domain_certs: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 6dfd939f15d9e85f1c9dba39f6fdf52606d64c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 59/85] fix: CA certificates seen first as a parent are never
 linked to their domains

---
 pkg/mapserver/updater/updater.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index ff87bd2..2ace9fd 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -397,6 +397,20 @@ func UpdateWithKeepExisting(
 		payloads = append(payloads, certs[from].Raw)
 	})
 
+	// A CA certificate might be present only because it was the parent of another certificate,
+	// and thus have no domains yet: ensure that the domains refer to it.
+	caIDs := make([]common.SHA256Output, 0)
+	caNames := make([][]string, 0)
+	for i, exists := range maskCerts {
+		if exists && certs[i].IsCA && len(domainNames[i]) > 0 {
+			caIDs = append(caIDs, certIDs[i])
+			caNames = append(caNames, domainNames[i])
+		}
+	}
+	if err := insertCertDomains(ctx, conn, caNames, caIDs); err != nil {
+		return err
+	}
+
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, newNames, newIDs, newParentIDs, newExpirations, payloads)
 	if err != nil {
-- 
2.43.0


From 78fc440cc7fb67569409f3175229c17c910a76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 60/85] fix: bulk lookups skip the last 1000 elements, or fail
 when they are empty or long

---
 pkg/db/mysql/certs.go    |  9 ++++++++-
 pkg/db/mysql/common.go   |  7 +++++++
 pkg/db/mysql/dirty.go    |  4 ++++
 pkg/db/mysql/policies.go | 28 ++++++++++++++++++++++++----
 pkg/db/mysql/smt.go      |  3 +++
 5 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 298bac3..a806061 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,7 +27,7 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
+	for i := 0; i+batchSize <= len(ids); i += batchSize {
 		to := i + batchSize
 		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
 			return nil, err
@@ -253,6 +253,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT cert_id,payload from certs WHERE cert_id IN " + repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
 	for i, id := range IDs {
@@ -265,6 +268,7 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	}
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
+	defer rows.Close()
 	for rows.Next() {
 		var id, payload []byte
 		if err := rows.Scan(&id, &payload); err != nil {
@@ -273,6 +277,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..e705cdb 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -12,6 +12,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	ctx context.Context,
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs)) +
 		"UNION SELECT cert_id,payload from certs WHERE cert_id IN " +
@@ -28,6 +31,7 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	}
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
+	defer rows.Close()
 	for rows.Next() {
 		var id, payload []byte
 		if err := rows.Scan(&id, &payload); err != nil {
@@ -36,6 +40,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..0b314ae 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -98,6 +98,7 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 	if err != nil {
 		return nil, fmt.Errorf("error querying dirty domains: %w", err)
 	}
+	defer rows.Close()
 	domainIDs := make([]common.SHA256Output, 0)
 	for rows.Next() {
 		var domainId []byte
@@ -107,6 +108,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error querying dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..3709205 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -19,6 +19,21 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
+	present := make([]bool, len(ids))
+	// The query won't accept more than batchSize elements. Make batches.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkPoliciesExist(ctx, ids[from:to], present[from:to]); err != nil {
+			return nil, err
+		}
+	}
+	return present, nil
+}
+
+// checkPoliciesExist has the same limitation in the number of elements as checkCertsExist.
+func (c *mysqlDB) checkPoliciesExist(ctx context.Context, ids []common.SHA256Output,
+	present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -48,11 +63,9 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		"policies.policy_id = request.policy_id) AS t"
 
 	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
 	var value string
 	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
+		return err
 	}
 	for i, c := range value {
 		if c == '1' {
@@ -60,7 +73,7 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		}
 	}
 
-	return present, nil
+	return nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
@@ -141,6 +154,9 @@ func (c *mysqlDB) RetrieveDomainPoliciesIDs(ctx context.Context, domainID common
 func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
@@ -154,6 +170,7 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 	}
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
+	defer rows.Close()
 	for rows.Next() {
 		var id, payload []byte
 		if err := rows.Scan(&id, &payload); err != nil {
@@ -162,6 +179,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..37e4b84 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -43,6 +43,9 @@ func (c *mysqlDB) RetrieveTreeNode(ctx context.Context, key common.SHA256Output)
 }
 
 func (c *mysqlDB) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
+	if len(keys) == 0 {
+		return 0, nil
+	}
 	str := "DELETE FROM tree WHERE key32 IN " + repeatStmt(1, len(keys))
 	params := make([]interface{}, len(keys))
 	for i, k := range keys {
-- 
2.43.0


From e095dfd26a793401a8b82727b6d7d4fa47ce0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 61/85] fix: pruning fails for ever when an expired certificate
 is in a loop of issuers

---
 tools/create_schema.sh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 46a4cb3..f903d56 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -397,6 +397,8 @@ CREATE PROCEDURE prune_expired(IN cut DATETIME)
 BEGIN
 
 	-- Create a temporary table to hold the IDs of all the expired certs or descendants.
+	-- An interrupted call could have left it in this connection.
+	DROP TEMPORARY TABLE IF EXISTS temp_cert_ids;
 	CREATE TEMPORARY TABLE temp_cert_ids (
 	  cert_id VARBINARY(32)
 	);
@@ -410,8 +412,9 @@ BEGIN
 			SELECT cert_id
 			FROM certs
 			WHERE expiration < cut
-			UNION ALL
-			-- Recursive case: Join the above result with certs on parent_id to get descendants
+			UNION
+			-- Recursive case: Join the above result with certs on parent_id to get descendants.
+			-- Each certificate is visited once, as there can be loops (e.g. cross-signed issuers).
 			SELECT c.cert_id
 			FROM certs c
 			INNER JOIN expired_and_descendants ead ON c.parent_id = ead.cert_id
-- 
2.43.0


From 3ab77fd61ff8280e32963fd87e2b422603a2f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 62/85] fix: the update ends the process when the tree becomes
 empty

---
 pkg/db/mysql/smt.go              |  7 +++++++
 pkg/mapserver/updater/updater.go | 16 ++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index 37e4b84..d61bb68 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -20,7 +20,14 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 	return (*common.SHA256Output)(key), nil
 }
 
+// SaveRoot stores the root. A nil root (empty tree) removes the one that was stored.
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error removing root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 2ace9fd..5c2e051 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -567,14 +567,14 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 
 	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
 
-	// Save root value:
-	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		panic("SMT tree root is nil")
+	// Save root value (nil if the tree is empty now):
+	var newRoot *common.SHA256Output
+	if len(smtTrie.Root) > 0 {
+		newRoot = (*common.SHA256Output)(smtTrie.Root)
+	}
+	err = conn.SaveRoot(ctx, newRoot)
+	if err != nil {
+		return err
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
-- 
2.43.0


From 5a42d0a7c4bf51928499fdf716d697a7688717d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 63/85] fix: an update interrupted before the new root is saved
 leaves the stored tree unreadable

---
 pkg/mapserver/trie/trie_cache.go | 76 +++++++++++++++++++-------------
 pkg/mapserver/trie/trie_tools.go | 12 +++++
 pkg/mapserver/updater/updater.go | 10 ++++-
 3 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index f6246f6..880b544 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,11 +55,18 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
+// commitChangesToDB stores the updated nodes to disk, and removes the replaced ones from it.
 func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+	if err := cacheDB.commitUpdatesToDB(ctx); err != nil {
+		return err
+	}
+	return cacheDB.commitRemovalsToDB(ctx)
+}
+
+// commitUpdatesToDB stores the updated nodes to disk.
+func (cacheDB *CacheDB) commitUpdatesToDB(ctx context.Context) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
-	keysToDelete := []common.SHA256Output{}
 
 	// get nodes from update map
 	cacheDB.updatedMux.Lock()
@@ -70,18 +77,11 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
-	// get nodes from remove map
+	// A node that was replaced but is part of the tree again must be kept.
 	cacheDB.removeMux.Lock()
-
-	for k := range cacheDB.removedNode {
-		// A node that was replaced but is part of the tree again must be kept.
-		if _, ok := updatedNodes[k]; !ok {
-			keysToDelete = append(keysToDelete, k)
-		}
+	for k := range updatedNodes {
+		delete(cacheDB.removedNode, k)
 	}
-
-	removedNodes := cacheDB.removedNode
-	cacheDB.removedNode = make(map[Hash][]byte)
 	cacheDB.removeMux.Unlock()
 
 	// lock the db; other thread should not read or write to db during the updates
@@ -90,14 +90,46 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 
 	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
 	if err != nil {
-		cacheDB.restoreChanges(updatedNodes, removedNodes)
+		// Put back the changes that could not be stored, for the next call.
+		cacheDB.updatedMux.Lock()
+		defer cacheDB.updatedMux.Unlock()
+		for k, v := range updatedNodes {
+			if _, ok := cacheDB.updatedNodes[k]; !ok {
+				cacheDB.updatedNodes[k] = v
+			}
+		}
 		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
 	}
 
+	return nil
+}
+
+// commitRemovalsToDB removes from disk the nodes that were replaced.
+func (cacheDB *CacheDB) commitRemovalsToDB(ctx context.Context) error {
+	keysToDelete := []common.SHA256Output{}
+
+	// get nodes from remove map
+	cacheDB.removeMux.Lock()
+	for k := range cacheDB.removedNode {
+		keysToDelete = append(keysToDelete, k)
+	}
+	removedNodes := cacheDB.removedNode
+	cacheDB.removedNode = make(map[Hash][]byte)
+	cacheDB.removeMux.Unlock()
+
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
+
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
-			cacheDB.restoreChanges(updatedNodes, removedNodes)
+			// Put back the nodes that could not be removed, for the next call.
+			cacheDB.removeMux.Lock()
+			defer cacheDB.removeMux.Unlock()
+			for k, v := range removedNodes {
+				cacheDB.removedNode[k] = v
+			}
 			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
 		}
 	}
@@ -105,22 +137,6 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	return nil
 }
 
-// restoreChanges puts back the changes that could not be stored, for the next call to commitChangesToDB.
-func (cacheDB *CacheDB) restoreChanges(updatedNodes map[Hash][][]byte, removedNodes map[Hash][]byte) {
-	cacheDB.updatedMux.Lock()
-	defer cacheDB.updatedMux.Unlock()
-	for k, v := range updatedNodes {
-		if _, ok := cacheDB.updatedNodes[k]; !ok {
-			cacheDB.updatedNodes[k] = v
-		}
-	}
-	cacheDB.removeMux.Lock()
-	defer cacheDB.removeMux.Unlock()
-	for k, v := range removedNodes {
-		cacheDB.removedNode[k] = v
-	}
-}
-
 func (cacheDB *CacheDB) getValueLimit(ctx context.Context, key []byte) ([]byte, error) {
 	cacheDB.readLimiter <- struct{}{}        // block until there is some slack
 	defer func() { <-cacheDB.readLimiter }() // ensure we'll give some slack
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 08c520a..0e6a89e 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -112,6 +112,18 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 	return s.get(ctx, lnode, key, batch, 2*iBatch+1, height-1)
 }
 
+// CommitUpdates stores the updated nodes, but keeps the replaced ones: the tree remains readable from its
+// previous root until CommitRemovals is called.
+func (s *Trie) CommitUpdates(ctx context.Context) error {
+	return s.db.commitUpdatesToDB(ctx)
+}
+
+// CommitRemovals removes the nodes that were replaced by the ones stored with CommitUpdates.
+func (s *Trie) CommitRemovals(ctx context.Context) error {
+	return s.db.commitRemovalsToDB(ctx)
+}
+
+// Commit stores the updated nodes and removes the replaced ones.
 func (s *Trie) Commit(ctx context.Context) error {
 	err := s.db.commitChangesToDB(ctx)
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 5c2e051..201b1ab 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -520,8 +520,8 @@ func updateSMTFromDomainEntries(
 	}
 	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: in-memory tree updated\n", time.Now().Format(time.Stamp))
 
-	// And update the tree in the DB.
-	err = smtTrie.Commit(ctx)
+	// And update the tree in the DB. The replaced nodes stay there until the new root is saved.
+	err = smtTrie.CommitUpdates(ctx)
 	// TODO: clean records on the `dirty` table that correspond to [s:e]
 	if err != nil {
 		return err
@@ -578,6 +578,12 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
+	// The nodes that belong only to the previous tree are not needed any more.
+	err = smtTrie.CommitRemovals(ctx)
+	if err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 20e082f3731bc27a7eca2abd4024ebf32b954d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 64/85] fix: data race between concurrent proofs of the same
 tree

The flag atomicUpdate was written with only the read lock held. Every update sets it by itself, and proofs and
reads return the same with or without it.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 2 --
 pkg/mapserver/trie/trie_tools.go        | 1 -
 2 files changed, 3 deletions(-)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 76489d5..5f537c7 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -32,7 +32,6 @@ func (s *Trie) MerkleProofR(ctx context.Context, key, root []byte) ([][]byte, bo
 	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	included, newKey, value, err := s.merkleProof(ctx, &auditPath, root, key, nil, s.TrieHeight, 0)
 	return auditPath, included, newKey, value, err
 }
@@ -51,7 +50,6 @@ func (s *Trie) merkleProofCompressed(ctx context.Context, key, root []byte) ([]b
 	mpFull := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	// create a regular merkle proof and then compress it
 	included, proofKey, proofVal, err := s.merkleProof(ctx, &mpFull, root, key, nil, s.TrieHeight, 0)
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 0e6a89e..bce97a5 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -84,7 +84,6 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 func (s *Trie) Get(ctx context.Context, key []byte) ([]byte, error) {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false
 	return s.get(ctx, s.Root, key, nil, 0, s.TrieHeight)
 }
 
-- 
2.43.0


From a200e6493d34cc65bb5c5009ff08369d17d0790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 65/85] fix: responses mix one tree and the signature of
 another while the root is reloaded

GetProof and SignedTreeHead read the tree and its signature while ReloadRootAndSignTreeHead was changing them.
---
 pkg/mapserver/responder/responder.go | 43 ++++++++++++++++------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..55beac3 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -15,6 +16,7 @@ import (
 
 type MapResponder struct {
 	conn           db.Conn
+	mu             sync.RWMutex // Guards smt and signedTreeHead, which change together.
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +57,19 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
+	// Sign the SMT root.
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
+	if err != nil {
+		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+	}
+
+	// Use the new SMT and its signature from now on.
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.smt = smt
+	r.signedTreeHead = signature
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +81,14 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// All parts of the response use the same SMT, and the signature of its root.
+	smt, signedTreeHead := r.smtAndSignedTreeHead()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +127,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +139,12 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
-	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
+	_, signedTreeHead := r.smtAndSignedTreeHead()
+	return append(signedTreeHead[:0:0], signedTreeHead...)
 }
 
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
-	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
-	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
+func (r *MapResponder) smtAndSignedTreeHead() (*trie.Trie, []byte) {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	return r.smt, r.signedTreeHead
 }
-- 
2.43.0


From d668b0a7ddba251dca7033c2c25be939bb15c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 66/85] fix: domains get removed certificates back without an
 update

Pruning left the relation of the domains to the removed certificates. When one of them is inserted again as the
parent of another certificate, its domains refer to it without being updated.
---
 tools/create_schema.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index f903d56..39e840a 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -426,6 +426,10 @@ BEGIN
 	REPLACE INTO dirty(domain_id, coalesced)
 	SELECT DISTINCT domain_id, FALSE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
+	-- Remove the relation of the domains to the expired certificates. Otherwise it would be there again, without the
+	-- domains being dirty, if one of these certificates is inserted later as the parent of another one.
+	DELETE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
+
 	-- Remove expired certificates
 	DELETE FROM certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
-- 
2.43.0


From cf6254a2682baf7eb020894faf25932a0d74beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 67/85] fix: a failed reload of the tree after an update blocks
 the map server for ever, and updates end before it

The error of reloading the root was sent without anybody receiving it, so that no further update could run. And an
update was reported as done before the responder used the new root.
---
 pkg/mapserver/mapserver.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index d1f4829..dd19e2d 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -131,11 +131,11 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
-				}
+				err := s.pruneAndUpdate(c)
+				// Even if the update failed, the stored root could have changed.
+				errReload := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
+				// There is exactly one answer per request, when the responder uses the new root.
+				s.updateErrChan <- util.ErrorsCoalesce(err, errReload)
 			case <-ctx.Done():
 				// Requested to exit.
 				close(s.updateChan)
@@ -302,15 +302,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 24f1ab648c934cff35350ce7af123c275f437661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 68/85] fix: policy log client: accept an empty list of leaves

AddLeaves and FetchInclusions indexed the first element of an empty list
and panicked; AddLeaves also reported an empty leaf as failed each time.
---
 pkg/policylog/client/concurrentfunc.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 3f7dfb2..98cf03f 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -97,7 +97,12 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 	// init result
 	result := &addLeavesResult{
 		Errs:         []error{},
-		FailedLeaves: [][]byte{{}},
+		FailedLeaves: [][]byte{},
+	}
+
+	// nothing to add
+	if len(data) == 0 {
+		return result
 	}
 
 	// channels to workers
@@ -249,6 +254,11 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	fetchInclusionResult := new(fetchInclusionResult)
 	fetchInclusionResult.PoIs = make(map[string]*PoIAndSTH)
 
+	// nothing to fetch
+	if len(leavesData) == 0 {
+		return fetchInclusionResult
+	}
+
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
 
-- 
2.43.0


From d136b01f4f25d3a126e6096469298f5b922fd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 69/85] fix: policy log client: end FetchInclusions on an
 answer without proof

The worker repeated the query forever, as fast as it could, and an answer
without tree head made it panic.
---
 pkg/policylog/client/concurrentfunc.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 98cf03f..29f394c 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	base64 "encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/google/trillian"
@@ -211,7 +212,11 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 					resultChan <- *workerResult
 					break workerQueryLoop
 				}
-				time.Sleep(10 * time.Millisecond)
+				// a call after the end of the context fails with another code
+				select {
+				case <-ctx.Done():
+				case <-time.After(10 * time.Millisecond):
+				}
 				tries = tries + 1
 				continue
 			} else if err != nil {
@@ -221,15 +226,19 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				resultChan <- *workerResult
 				break workerQueryLoop
 
-				// normally, proof will > 0, except for when there is only one leaf in the log; ignore this situation
-			} else if len(resp.Proof) > 0 {
+			} else if len(resp.Proof) == 0 {
+				workerResult.failedLeafData = []byte(leafData)
+				workerResult.err = fmt.Errorf("worker_fetchInclusion | response without proof")
+				resultChan <- *workerResult
+				break workerQueryLoop
+			} else {
 				// init poiAndSTH
 				poiAndSTH := new(PoIAndSTH)
 				// when query succeeds
 				poiAndSTH.PoIs = resp.Proof
 
 				// marshall the log root (Signed Tree Head)
-				if err := poiAndSTH.STH.UnmarshalBinary(resp.SignedLogRoot.LogRoot); err != nil {
+				if err := poiAndSTH.STH.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot()); err != nil {
 					workerResult.err = err
 					workerResult.failedLeafData = []byte(leafData)
 					resultChan <- *workerResult
-- 
2.43.0


From e7e6c6ceeb08557fdbb0adf0538ca3ba7e8d7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 70/85] fix: policy log client: report answers without tree
 head or proof

The log answers a request for a consistency proof to a size it has not
reached yet without a proof, which made GetConsistencyProof panic.
---
 pkg/policylog/client/logclient.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..5253a4c 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -106,7 +106,7 @@ func (c *LogClient) GetCurrentLogRoot(ctx context.Context) (*types.LogRootV1, er
 	}
 
 	var root types.LogRootV1
-	if err := root.UnmarshalBinary(logRootResp.SignedLogRoot.LogRoot); err != nil {
+	if err := root.UnmarshalBinary(logRootResp.GetSignedLogRoot().GetLogRoot()); err != nil {
 		return nil, fmt.Errorf("GetCurrentLogRoot | UnmarshalBinary: %w", err)
 	}
 	return &root, nil
@@ -137,6 +137,11 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 		return nil, fmt.Errorf("GetConsistencyProof | %w", err)
 	}
 
+	// without a proof, the log does not know the new root yet
+	if resp.Proof == nil {
+		return nil, fmt.Errorf("GetConsistencyProof | no proof from %d to %d", trusted.TreeSize, newRoot.TreeSize)
+	}
+
 	return resp.Proof.Hashes, nil
 }
 
-- 
2.43.0


From 5ed4a3ae72349564e9392bb6f5cc2468161f584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 71/85] fix: policy log client: QueueRPCs drops the errors of
 the log

AddLeavesErrs was never set.
---
 pkg/policylog/client/logclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 5253a4c..768a093 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -171,6 +171,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// process the errors from AddLeaves()
 	queueRPCResult.NumOfSucceedAddedLeaves = leafNum - len(addLeavesErrors.Errs)
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
+	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
 
 	// calculate time
 	elapsed := time.Since(start)
-- 
2.43.0


From c12268337dc7240a3b34079c70025628aef9655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 72/85] fix: policy log client: QueueRPCs loses requests the
 log did not take

The files were deleted when read, before their content was sent to the
log: a request was lost when the log refused it, and those read before an
unreadable file were lost without being sent.
---
 pkg/policylog/client/logclient.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 768a093..452d357 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -156,7 +156,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	queueRPCResult := &QueueRPCResult{}
 
 	// read RPC from files
-	data, err := c.readRPCFromFileToBytes()
+	data, files, err := c.readRPCFromFileToBytes()
 	if err != nil {
 		return nil, fmt.Errorf("QueueRPCs | readRPCFromFileToBytes: %w", err)
 	}
@@ -173,6 +173,17 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
 	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
 
+	// delete the RPCs which are in the log now; the others can be queued again
+	failed := make(map[string]struct{})
+	for _, leaf := range addLeavesErrors.FailedLeaves {
+		failed[string(leaf)] = struct{}{}
+	}
+	for i, leaf := range data {
+		if _, ok := failed[string(leaf)]; !ok {
+			os.Remove(files[i])
+		}
+	}
+
 	// calculate time
 	elapsed := time.Since(start)
 	fmt.Println("queue leaves succeed!")
@@ -212,13 +223,14 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	return queueRPCResult, nil
 }
 
-// file -> RPC -> bytes
-func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
+// file -> RPC -> bytes; returns the path of the file of each RPC as well
+func (c *LogClient) readRPCFromFileToBytes() ([][]byte, []string, error) {
 	data := [][]byte{}
+	files := []string{}
 
 	fileNames, err := ioutil.ReadDir(c.config.PolicyLogExchangePath + "/rpc")
 	if err != nil {
-		return nil, fmt.Errorf("readRPCFromFileToBytes | ReadDir | %w", err)
+		return nil, nil, fmt.Errorf("readRPCFromFileToBytes | ReadDir | %w", err)
 	}
 
 	// read SPT from "fileTransfer" folder
@@ -228,21 +240,19 @@ func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
 		// read RPC from file
 		rpc, err := common.JsonFileToPolicyCert(filaPath)
 		if err != nil {
-			return nil, fmt.Errorf("readRPCFromFileToBytes | JsonFileToRPC %w", err)
+			return nil, nil, fmt.Errorf("readRPCFromFileToBytes | JsonFileToRPC %w", err)
 		}
 
 		// serialize rpc
 		bytes, err := common.ToJSON(rpc)
 		if err != nil {
-			return nil, fmt.Errorf("readRPCFromFileToBytes | ToJSON: %w", err)
+			return nil, nil, fmt.Errorf("readRPCFromFileToBytes | ToJSON: %w", err)
 		}
 
 		data = append(data, bytes)
-
-		// delete rpc
-		os.Remove(filaPath)
+		files = append(files, filaPath)
 	}
-	return data, nil
+	return data, files, nil
 }
 
 // BuildLeaf runs the leaf hasher over data and builds a leaf.
-- 
2.43.0


From a668bae41a2a03341be0b09005937f108fa15937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 73/85] fix: policy log client: QueueRPCs waits for a tree size
 never reached

It waited until the tree had grown by exactly the number of leaves added
since the client last asked for its size. This never happens if a leaf is
in the log already (it is not appended again), if someone else adds a
leaf, or if the client had not asked for the current size.
---
 pkg/policylog/client/concurrentfunc.go | 15 ++++++++++++---
 pkg/policylog/client/logclient.go      | 14 ++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 29f394c..3df356d 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -28,6 +28,7 @@ import (
 // result from worker; only for internal use
 type addLeavesResultFromWorker struct {
 	leafData []byte
+	isNew    bool // the log did not have this leaf before
 	err      error
 }
 
@@ -35,6 +36,9 @@ type addLeavesResultFromWorker struct {
 type addLeavesResult struct {
 	FailedLeaves [][]byte
 	Errs         []error
+
+	// how many leaves will be appended to the log; leaves that the log already had are not
+	newLeaves int
 }
 
 // result from worker; only for internal use
@@ -75,14 +79,15 @@ func worker_addLeaf(ctx context.Context, worker trillian.TrillianLogClient, work
 		leaf := buildLeaf([]byte(leafData))
 
 		// add the leaf to the server
-		// response is not important, so ignore it
-		_, err := worker.QueueLeaf(ctx, &trillian.QueueLeafRequest{
+		resp, err := worker.QueueLeaf(ctx, &trillian.QueueLeafRequest{
 			LogId: treeId,
 			Leaf:  leaf,
 		})
 
 		// copy the failed leaf and err
-		result := addLeavesResultFromWorker{}
+		result := addLeavesResultFromWorker{
+			isNew: resp.GetQueuedLeaf().GetStatus().GetCode() != int32(codes.AlreadyExists),
+		}
 		if err != nil {
 			result.leafData = []byte(leafData)
 			result.err = err
@@ -141,6 +146,8 @@ send_receive_loop:
 				// if error is detected, records the error
 				result.Errs = append(result.Errs, workerResult.err)
 				result.FailedLeaves = append(result.FailedLeaves, workerResult.leafData)
+			} else if workerResult.isNew {
+				result.newLeaves = result.newLeaves + 1
 			}
 
 			resultCounter = resultCounter + 1
@@ -155,6 +162,8 @@ send_receive_loop:
 				// if error is detected, records the error
 				result.Errs = append(result.Errs, workerResult.err)
 				result.FailedLeaves = append(result.FailedLeaves, workerResult.leafData)
+			} else if workerResult.isNew {
+				result.newLeaves = result.newLeaves + 1
 			}
 
 			resultCounter = resultCounter + 1
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 452d357..ed49fe9 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -14,10 +14,6 @@ import (
 	"github.com/transparency-dev/merkle/rfc6962"
 )
 
-// TODO(yongzhe, CRITICAL): Around line 183, the func will wait forever, if one identical leaf is added to the trillian
-// Possible cause: Trillian will update the identical leaf, rather than add a new one... So the tree size will not grow
-// To Be Solved Later...
-
 // what will a LogCLient do?
 // 1. Add leaves to the log
 // 2. Get the inclusion proof for one leaf
@@ -163,6 +159,12 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 
 	leafNum := len(data)
 
+	// the size from which the tree will grow
+	err = c.UpdateTreeSize(ctx)
+	if err != nil {
+		return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
+	}
+
 	start := time.Now()
 
 	// add leaves
@@ -192,13 +194,13 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// record previous tree size
 	prevTreeSize := c.currentTreeSize
 
-	// wait for the leaves to be added to the log (BUG FOUND!!!!!!)
+	// wait for the leaves to be added to the log; others may add leaves as well
 	for {
 		err = c.UpdateTreeSize(ctx)
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		if c.currentTreeSize == prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
+		if c.currentTreeSize >= prevTreeSize+int64(addLeavesErrors.newLeaves) {
 			break
 		}
 		// wait 50 ms before next query
-- 
2.43.0


From bf19329dea4a2e26f39fa9be203b2f619708760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 74/85] fix: the gRPC server goes on answering after its
 termination

StartWork returned on the termination signal but left the server running:
the port stayed occupied and queries were answered from the old tree.
---
 pkg/grpc/grpcserver/grpcserver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/grpc/grpcserver/grpcserver.go b/pkg/grpc/grpcserver/grpcserver.go
index 6cad7ee..d4fdb02 100644
--- a/pkg/grpc/grpcserver/grpcserver.go
+++ b/pkg/grpc/grpcserver/grpcserver.go
@@ -76,6 +76,7 @@ func (server *ResponderServer) StartWork(terminateChan chan byte, port int) erro
 		return err
 	}
 	s := grpc.NewServer()
+	defer s.Stop()
 
 	pb.RegisterMapResponderServer(s, server)
 	log.Printf("server listening at %v", lis.Addr())
-- 
2.43.0


From ee5ca3b77d4815768163251ef5615d3aa3bcbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 75/85] fix: concurrent gRPC queries crash the client

GetProofs (and StartWork) parsed the command line of the process on every
call, without using any of its flags: concurrent calls crash with
concurrent map writes, and a process with flags parsed by another flag set
is ended by an unknown flag.
---
 pkg/grpc/grpcclient/grpcclient.go | 1 -
 pkg/grpc/grpcserver/grpcserver.go | 2 --
 2 files changed, 3 deletions(-)

diff --git a/pkg/grpc/grpcclient/grpcclient.go b/pkg/grpc/grpcclient/grpcclient.go
index 422a846..dd7118a 100644
--- a/pkg/grpc/grpcclient/grpcclient.go
+++ b/pkg/grpc/grpcclient/grpcclient.go
@@ -25,7 +25,6 @@ var (
 )
 
 func GetProofs(name string, port int) ([]*common.MapServerResponse, error) {
-	flag.Parse()
 	// Set up a connection to the server.
 	conn, err := grpc.Dial("localhost:"+strconv.Itoa(port), grpc.WithTransportCredentials(insecure.NewCredentials()))
 	if err != nil {
diff --git a/pkg/grpc/grpcserver/grpcserver.go b/pkg/grpc/grpcserver/grpcserver.go
index d4fdb02..7b35019 100644
--- a/pkg/grpc/grpcserver/grpcserver.go
+++ b/pkg/grpc/grpcserver/grpcserver.go
@@ -69,8 +69,6 @@ func (s *ResponderServer) Close() error {
 }
 
 func (server *ResponderServer) StartWork(terminateChan chan byte, port int) error {
-	flag.Parse()
-
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
 	if err != nil {
 		return err
-- 
2.43.0


From e0d94e5f596e93d483685f5b42e32ee3d33da8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 76/85] fix: map servers of one process answer with each
 other's data

---
 pkg/mapserver/mapserver.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index dd19e2d..0d72355 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -159,15 +159,16 @@ func (s *MapServer) ListenWithoutTLS(ctx context.Context) error {
 
 // listen is responsible to start an HTTP or HTTPS listener for the responder
 func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
-	// Reset the default sever mux, to establish the handlers from new.
-	http.DefaultServeMux = &http.ServeMux{}
-	http.HandleFunc("/getproof", s.apiGetProof)
-	http.HandleFunc("/getpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, CertificatesAndPolicies) })
-	http.HandleFunc("/getcertpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Certificates) })
-	http.HandleFunc("/getpolicypayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Policies) })
+	// Each server has its own handlers.
+	mux := http.NewServeMux()
+	mux.HandleFunc("/getproof", s.apiGetProof)
+	mux.HandleFunc("/getpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, CertificatesAndPolicies) })
+	mux.HandleFunc("/getcertpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Certificates) })
+	mux.HandleFunc("/getpolicypayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Policies) })
 
 	server := &http.Server{
-		Addr: fmt.Sprintf(":%d", s.HttpAPIPort),
+		Addr:    fmt.Sprintf(":%d", s.HttpAPIPort),
+		Handler: mux,
 		TLSConfig: &tls.Config{
 			Certificates: []tls.Certificate{*s.TLS},
 		},
-- 
2.43.0


From 2617679f9622867d4d65a7a7448c327222afe8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 77/85] fix: the map server does not stop when its context is
 done, or when an earlier Listen failed

---
 pkg/mapserver/mapserver.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 0d72355..6c19a77 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -175,23 +175,32 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 		ReadTimeout:  s.ReadTimeout,
 		WriteTimeout: s.WriteTimeout,
 	}
-	// chanErr will hold the error from the Listen call.
-	chanErr := make(chan error)
+	// Spawn a goroutine to shutdown the HTTP server, when requested or when the context is done.
+	ended := make(chan struct{})
+	shutdownDone := make(chan struct{})
 	go func() {
-		// Spawn a goroutine to shutdown the HTTP server.
-		go func() {
-			<-s.apiStopServerChan
-			server.Shutdown(ctx)
-		}()
-		// This call blocks
-		fmt.Printf("Listening on %d\n", s.HttpAPIPort)
-		if useTLS {
-			chanErr <- server.ListenAndServeTLS("", "")
-		} else {
-			chanErr <- server.ListenAndServe()
+		defer close(shutdownDone)
+		select {
+		case <-s.apiStopServerChan:
+		case <-ctx.Done():
+		case <-ended:
+			return // nothing to shut down
 		}
+		// The requests that are being answered have some time to end.
+		ctx, cancelF := context.WithTimeout(context.WithoutCancel(ctx), s.WriteTimeout)
+		defer cancelF()
+		server.Shutdown(ctx)
 	}()
-	err := <-chanErr
+	// This call blocks
+	fmt.Printf("Listening on %d\n", s.HttpAPIPort)
+	var err error
+	if useTLS {
+		err = server.ListenAndServeTLS("", "")
+	} else {
+		err = server.ListenAndServe()
+	}
+	close(ended)
+	<-shutdownDone
 	// If the error happened because we stopped the server, ignore it.
 	if err == http.ErrServerClosed {
 		err = nil
-- 
2.43.0


From be6f58a026d345cf6eb6e0d196ca509fc0953ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 78/85] fix: update requests crash the map server when its
 context is done

---
 pkg/mapserver/mapserver.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 6c19a77..e565a59 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -46,6 +46,7 @@ type MapServer struct {
 	apiStopServerChan chan struct{}
 	updateChan        chan context.Context
 	updateErrChan     chan error
+	done              <-chan struct{} // Closed when no more updates are accepted.
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -120,6 +121,7 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		apiStopServerChan: make(chan struct{}, 1),
 		updateChan:        make(chan context.Context),
 		updateErrChan:     make(chan error),
+		done:              ctx.Done(),
 	}
 
 	// Start listening for update requests.
@@ -138,7 +140,6 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				s.updateErrChan <- util.ErrorsCoalesce(err, errReload)
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
 				return
 			}
 		}
@@ -213,7 +214,10 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 }
 
 func (s *MapServer) Shutdown(ctx context.Context) {
-	s.apiStopServerChan <- struct{}{}
+	select {
+	case s.apiStopServerChan <- struct{}{}:
+	case <-ctx.Done():
+	}
 }
 
 // PruneAndUpdateIfPossible tries to trigger an update if no update is currently running.
@@ -234,7 +238,13 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	select {
+	case s.updateChan <- ctx:
+	case <-ctx.Done():
+		return fmt.Errorf("waiting to update: %w", ctx.Err())
+	case <-s.done:
+		return fmt.Errorf("the map server does not accept updates anymore")
+	}
 
 	// Wait for the answer (in form of an error).
 	err := <-s.updateErrChan
-- 
2.43.0


From 6979e511e3e1f67e590cdc814f5c7a2959fe8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 79/85] fix: the map server crashes at the time of the update
 when the period of the updates is not positive

A missing UpdateTimer in the configuration made the ticker of the update
cycle panic, hours after the start. It is reported at the start instead.
---
 cmd/mapserver/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/mapserver/main.go b/cmd/mapserver/main.go
index 963726f..f522572 100644
--- a/cmd/mapserver/main.go
+++ b/cmd/mapserver/main.go
@@ -177,6 +177,11 @@ func runWithConfig(
 	updateNow bool,
 ) error {
 
+	// The updates are repeated with this period.
+	if conf.UpdateTimer.Duration <= 0 {
+		return fmt.Errorf("UpdateTimer must be positive, but it is %s", conf.UpdateTimer.Duration)
+	}
+
 	server, err := mapserver.NewMapServer(ctx, conf)
 	if err != nil {
 		return err
-- 
2.43.0


From ea2e574d30faaf761694b3a118136e9b68783185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 80/85] fix: ingest: refuse to run with no worker of a kind

With -numfiles, -numparsers or -numdechainers 0, nothing was ingested, but the
files were recorded as completed. With negative numbers, or -multiinsert 0, the
program crashed.
---
 cmd/ingest/processor.go          | 6 ++++++
 pkg/mapserver/updater/manager.go | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/cmd/ingest/processor.go b/cmd/ingest/processor.go
index cc3458a..fcf7423 100644
--- a/cmd/ingest/processor.go
+++ b/cmd/ingest/processor.go
@@ -59,6 +59,12 @@ func NewProcessor(
 		}
 	}
 
+	// Without some worker of each kind, the certificates would not reach the DB.
+	if p.NumFileReaders < 1 || p.NumToChain < 1 || p.NumToCerts < 1 {
+		return nil, fmt.Errorf("the number of file readers (%d), parsers (%d), and dechainers (%d) "+
+			"must be positive", p.NumFileReaders, p.NumToChain, p.NumToCerts)
+	}
+
 	// Create the DB manager.
 	var err error
 	p.Manager, err = updater.NewManager(
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 53aef41..fefe763 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -2,6 +2,7 @@ package updater
 
 import (
 	"context"
+	"fmt"
 
 	"github.com/netsec-ethz/fpki/pkg/cache"
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -42,6 +43,13 @@ func NewManager(
 	multiInsertSize int,
 	stats *statistics.Stats,
 ) (*Manager, error) {
+	if workerCount < 1 {
+		return nil, fmt.Errorf("the number of DB workers must be positive, but it is %d", workerCount)
+	}
+	if multiInsertSize < 1 {
+		return nil, fmt.Errorf("the multi insert size must be positive, but it is %d", multiInsertSize)
+	}
+
 	// Compute how many bits we need to cover N partitions (i.e. log2(N).
 	nBits := int(util.Log2(uint(workerCount)))
 
-- 
2.43.0


From 490d50fa59da2f1f347b524f4705e5a093d5f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 81/85] fix: ingest: do not record skipped missing files as
 completed

With -skipmissingfiles, a missing file was recorded as completed in the journal,
and thus never ingested once it was there. The recorded size of the CT log
covered it as well.
---
 cmd/ingest/run.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index f60c80e..2d337a8 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -2,8 +2,10 @@ package main
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net/url"
+	"os"
 	"path/filepath"
 	"runtime"
 	"strings"
@@ -164,9 +166,17 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 		deps.EstimateCertCount,
 		deps.BeforeBatch,
 		func(files []string) error {
+			completed := files
+			if cfg.SkipMissingFiles {
+				completed = existingFiles(completed)
+			}
 			if err := deps.RunBatch(stats, files); err != nil {
 				return err
 			}
+			if cfg.SkipMissingFiles {
+				// Skipped files are not completed, they must be ingested once they are there.
+				completed = existingFiles(completed)
+			}
 			if jobCfg.Coalesce {
 				if err := coalesce(); err != nil {
 					return err
@@ -177,11 +187,22 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 					return err
 				}
 			}
-			return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
+			return j.CommitProgress(completed, jobCfg.Coalesce, jobCfg.UpdateSMT)
 		},
 	)
 }
 
+// existingFiles returns the files that are not missing, in the same order.
+func existingFiles(files []string) []string {
+	existing := make([]string, 0, len(files))
+	for _, f := range files {
+		if _, err := os.Stat(f); !errors.Is(err, os.ErrNotExist) {
+			existing = append(existing, f)
+		}
+	}
+	return existing
+}
+
 func ingestFilesInBatches(
 	ctx context.Context,
 	j *journal.Journal,
-- 
2.43.0


From 3a75f43ec13fe7fc27c5e3c9eeef394908c84e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 82/85] fix: ingest: do not forget dirty domains that are not
 coalesced

With the strategy onlysmtupdate after e.g. onlyingest, the table of dirty
domains was emptied although they were not coalesced. They did not get into the
map with any later run, unless ingested again.
---
 cmd/ingest/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/ingest/main.go b/cmd/ingest/main.go
index f56266b..0ffef00 100644
--- a/cmd/ingest/main.go
+++ b/cmd/ingest/main.go
@@ -197,6 +197,15 @@ func mainFunction() error {
 		UpdateSMT: func() error {
 			ctx, span := tr.MT().Start(ctx, "smt-update")
 			defer span.End()
+			// The dirty domains are forgotten after the update, they must be up to date by now.
+			notCoalesced, err := conn.DirtyCountNonCoalesced(ctx)
+			if err != nil {
+				return err
+			}
+			if notCoalesced > 0 {
+				return fmt.Errorf("cannot update the SMT: %d dirty domains are not coalesced, "+
+					"use e.g. the strategy skipingest", notCoalesced)
+			}
 			if err := updateSMT(ctx, conn); err != nil {
 				return err
 			}
-- 
2.43.0


From 63a464c145edf51e5a14e8cbd815905a3b7f4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 83/85] fix: keep the special characters of a DB user,
 password, socket or name

---
 pkg/db/mysql/init.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index c4dd379..51d04c7 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	_ "github.com/go-sql-driver/mysql"
@@ -57,7 +58,7 @@ func parseDSN(config *db.Configuration) string {
 	if path, ok := val[keyLocalSocket]; ok {
 		// Form a string like "root@unix(/var/run/mysqld/mysqld.sock)/fpki"
 		dsnString += fmt.Sprintf("@unix(%s)/%s",
-			path, val[db.KeyDBName])
+			path, url.PathEscape(val[db.KeyDBName]))
 	} else {
 		// Form a string like "root:password@tcp(1.1.1.1:8080)/fpki"
 		if val[keyPassword] != "" {
@@ -67,7 +68,7 @@ func parseDSN(config *db.Configuration) string {
 		if val[keyPort] != "" {
 			dsnString += ":" + val[keyPort]
 		}
-		dsnString += fmt.Sprintf(")/%s", val[db.KeyDBName])
+		dsnString += fmt.Sprintf(")/%s", url.PathEscape(val[db.KeyDBName]))
 	}
 
 	// Remove all values that are used to establish the DSN from the remaining pairs.
@@ -81,16 +82,21 @@ func parseDSN(config *db.Configuration) string {
 }
 
 func connect(config *db.Configuration) (*sql.DB, error) {
-	dsn, err := url.Parse(config.Dsn)
-	if err != nil {
-		return nil, fmt.Errorf("bad connection string: %w", err)
-	}
-	uri := dsn.Query()
+	// A DSN is not a URL: the user, the password and the address are used as they are written, and
+	// only the name of the DB and the parameters after it are escaped.
+	params := url.Values{}
 	for k, v := range config.Values {
-		uri.Add(k, v)
+		params.Add(k, v)
+	}
+	dsn := config.Dsn
+	if len(params) > 0 {
+		separator := "?"
+		if strings.Contains(dsn[strings.LastIndex(dsn, "/")+1:], "?") {
+			separator = "&"
+		}
+		dsn += separator + params.Encode()
 	}
-	dsn.RawQuery = uri.Encode()
-	return sql.Open("mysql", dsn.String())
+	return sql.Open("mysql", dsn)
 }
 
 func checkSchema(c *sql.DB) error {
-- 
2.43.0


From 20bd07cab7aa230d44c3519287a8d995e4cbbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 84/85] fix: use the password of the DB user also with a local
 socket

---
 pkg/db/mysql/init.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index 51d04c7..ec8aa72 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -54,6 +54,9 @@ func Connect(config *db.Configuration) (*mysqlDB, error) {
 func parseDSN(config *db.Configuration) string {
 	val := config.Values
 	dsnString := val[keyUser]
+	if val[keyPassword] != "" {
+		dsnString += ":" + val[keyPassword]
+	}
 	// If a local socket is requested, the DSN is composed of different keys.
 	if path, ok := val[keyLocalSocket]; ok {
 		// Form a string like "root@unix(/var/run/mysqld/mysqld.sock)/fpki"
@@ -61,9 +64,6 @@ func parseDSN(config *db.Configuration) string {
 			path, url.PathEscape(val[db.KeyDBName]))
 	} else {
 		// Form a string like "root:password@tcp(1.1.1.1:8080)/fpki"
-		if val[keyPassword] != "" {
-			dsnString += ":" + val[keyPassword]
-		}
 		dsnString += "@tcp(" + val[keyHost]
 		if val[keyPort] != "" {
 			dsnString += ":" + val[keyPort]
-- 
2.43.0


From a8d92c7a11b6af05e8c689cac52ceea80c21acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 85/85] fix: check for the table tree, as the schema has no
 table nodes

---
 pkg/db/mysql/init.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index ec8aa72..41ae00b 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -100,9 +100,10 @@ func connect(config *db.Configuration) (*sql.DB, error) {
 }
 
 func checkSchema(c *sql.DB) error {
-	_, err := c.Query("SELECT COUNT(*) FROM nodes")
+	var count int
+	err := c.QueryRow("SELECT COUNT(*) FROM tree").Scan(&count)
 	if err != nil {
-		return fmt.Errorf("table nodes: %w", err)
+		return fmt.Errorf("table tree: %w", err)
 	}
 	row := c.QueryRow("SHOW STATUS LIKE 'max_used_connections'")
 	var varName string
-- 
2.43.0

