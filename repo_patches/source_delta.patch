From e7a2d754ea32724eba425cd7c897cdcfa65e0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 01/13] fix: an empty leaf is never a proof of inclusion

At levels 249 and above the padded index of an empty node can be equal to
the looked-up index, and a directory can also mark a proof's leaf as empty
to skip the commitment in the recomputed hash. Decide the type of a proof
from the kind of the leaf as well.
---
 merkletree/proof.go             | 8 ++++----
 protocol/directory/directory.go | 8 +++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..2d4521e 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -71,8 +71,8 @@ const (
 // the prefix path between the corresponding leaf node
 // (of type ProofNode) and the root. This is a proof
 // of inclusion or absence of requested index.
-// A proof of inclusion is when the leaf index
-// equals the lookup index.
+// A proof of inclusion is when the leaf is a user leaf
+// and its index equals the lookup index.
 type AuthenticationPath struct {
 	TreeNonce   []byte
 	PrunedTree  [][crypto.HashSizeByte]byte
@@ -140,11 +140,11 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 
 // ProofType returns the type of ap. It does a comparison
 // between the leaf index and the lookup index to determine
-// the proof type, and sets ap's proof type the first time this
+// the proof type (an empty leaf never proves inclusion), and sets ap's proof type the first time this
 // method called, memoizing the proof type for subsequent calls.
 func (ap *AuthenticationPath) ProofType() ProofType {
 	if ap.proofType == undeterminedProof {
-		if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+		if !ap.Leaf.IsEmpty && bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
 			ap.proofType = ProofOfInclusion
 		} else {
 			ap.proofType = ProofOfAbsence
diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..0e7f142 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -9,8 +9,6 @@
 package directory
 
 import (
-	"bytes"
-
 	"github.com/coniks-sys/coniks-go/crypto/sign"
 	"github.com/coniks-sys/coniks-go/crypto/vrf"
 	"github.com/coniks-sys/coniks-go/merkletree"
@@ -138,7 +136,7 @@ func (d *ConiksDirectory) Register(req *protocol.RegistrationRequest) *protocol.
 	if err != nil {
 		return protocol.NewErrorResponse(protocol.ErrDirectory)
 	}
-	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+	if ap.ProofType() == merkletree.ProofOfInclusion {
 		return protocol.NewRegistrationProof(ap, d.LatestSTR(), nil, protocol.ReqNameExisted)
 	}
 
@@ -196,7 +194,7 @@ func (d *ConiksDirectory) KeyLookup(req *protocol.KeyLookupRequest) *protocol.Re
 		return protocol.NewErrorResponse(protocol.ErrDirectory)
 	}
 
-	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+	if ap.ProofType() == merkletree.ProofOfInclusion {
 		return protocol.NewKeyLookupProof(ap, d.LatestSTR(), nil, protocol.ReqSuccess)
 	}
 	// if not found in the tree, do lookup in tb array
@@ -254,7 +252,7 @@ func (d *ConiksDirectory) KeyLookupInEpoch(req *protocol.KeyLookupInEpochRequest
 		strs = append(strs, str)
 	}
 
-	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+	if ap.ProofType() == merkletree.ProofOfInclusion {
 		return protocol.NewKeyLookupInEpochProof(ap, strs, protocol.ReqSuccess)
 	}
 	return protocol.NewKeyLookupInEpochProof(ap, strs, protocol.ReqNameNotFound)
-- 
2.43.0


From da937aafb38e8aaa4e4e8f62dc8ba40d39b84c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 02/13] fix: reject authentication paths no tree could have
 returned

Verify indexed the pruned tree and the leaf index by the level found in the
proof and dereferenced its commitment, so a malformed proof crashed the
client. It also accepted leaves whose index, commitment or nonce have
another length than the tree's, which lets one hash input be read as two
different leaves (inclusion for one client, absence for another).
---
 merkletree/proof.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 2d4521e..979bb7e 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -97,6 +97,27 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
+// wellFormed reports whether ap has the shape of a proof that a tree
+// can return: the lookup index, the nonce, the index of a user leaf and
+// its commitment are hash-sized, the index of an empty leaf has just the
+// bits of its level, and there is one pruned hash for each level.
+// Otherwise the same hash input could be read as two different leaves.
+func (ap *AuthenticationPath) wellFormed() bool {
+	leaf := ap.Leaf
+	if len(ap.LookupIndex) != crypto.HashSizeByte ||
+		len(ap.TreeNonce) != crypto.HashSizeByte ||
+		leaf.Level > 8*crypto.HashSizeByte ||
+		len(ap.PrunedTree) != int(leaf.Level) {
+		return false
+	}
+	if leaf.IsEmpty {
+		return len(leaf.Index) == int(leaf.Level+7)/8
+	}
+	return len(leaf.Index) == crypto.HashSizeByte &&
+		leaf.Commitment != nil &&
+		len(leaf.Commitment.Value) == crypto.HashSizeByte
+}
+
 // Verify first compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
@@ -105,9 +126,13 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 // Finally, it recomputes the tree's root node from ap,
 // and compares it to treeHash, which is taken from a STR.
 // Specifically, treeHash has to come from the STR whose tree returns ap.
+// A proof that no tree could have returned does not match any treeHash.
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if !ap.wellFormed() {
+		return ErrUnequalTreeHashes
+	}
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
-- 
2.43.0


From 90b41842aa90c4f5dd2cc1155c700c1e23ae693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 03/13] fix: open commitments only with a full-length salt

With an unchecked salt length a directory could open one commitment to two
values: salt||key||value = salt'||key||value' for a longer salt'.
---
 crypto/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..1bcbc5e 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -70,6 +70,9 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
+// A salt that has another length than the ones NewCommit creates is not
+// accepted, because it could take in some of the committed bytes.
 func (c *Commit) Verify(stuff ...[]byte) bool {
-	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
+	return len(c.Salt) == HashSizeByte &&
+		bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From dca013843874b09766e028dd536a0796da85287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 04/13] fix: reject responses with missing proofs, roots or
 policies

A DirectoryResponse of null, or null elements in its lists, passed Validate
and crashed the client or auditor that handled the response.
---
 protocol/message.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..d420369 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,12 +278,17 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || len(df.AP) == 0 || !validSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
+		for _, ap := range df.AP {
+			if ap == nil || ap.Leaf == nil {
+				return ErrMalformedMessage
+			}
+		}
 		return nil
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || !validSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
 		return nil
@@ -292,6 +297,17 @@ func (msg *Response) Validate() error {
 	}
 }
 
+// validSTRs reports whether there is at least one STR, and each of them
+// has its signed tree root and its policies.
+func validSTRs(strs []*DirSTR) bool {
+	for _, str := range strs {
+		if str == nil || str.SignedTreeRoot == nil || str.Policies == nil {
+			return false
+		}
+	}
+	return len(strs) > 0
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
-- 
2.43.0


From f4a26cdd9b67a8ef532b6e7111685e5b8eb543e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 05/13] fix: an unexpected kind of response is malformed, not a
 crash

Audit and CheckEquivocation asserted the type of the payload, and
InitHistory read the first snapshot without checking that there is one.
---
 protocol/auditlog/auditlog.go        | 7 +++++--
 protocol/client/consistencychecks.go | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..9c02b14 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
@@ -126,7 +129,7 @@ func (l ConiksAuditLog) get(dirInitHash [crypto.HashSizeByte]byte) (*directoryHi
 func (l ConiksAuditLog) InitHistory(addr string, signKey sign.PublicKey,
 	snaps []*protocol.DirSTR) error {
 	// make sure we're getting an initial STR at the very least
-	if len(snaps) < 1 || snaps[0].Epoch != 0 {
+	if len(snaps) < 1 || snaps[0] == nil || snaps[0].Epoch != 0 {
 		return protocol.ErrMalformedMessage
 	}
 
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1816d5f 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
-- 
2.43.0


From b6a53bd75fa8c37903e44294e0f303095c13350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 06/13] fix: return the key of a response and bind names to it

GetKey was a stub that returned no key and no error, so the client bound
every checked name to an empty key and trusted any key on the next lookup.
---
 protocol/client/consistencychecks.go |  6 ++++--
 protocol/message.go                  | 21 ++++++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1816d5f..9539106 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -124,8 +124,10 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	// there is no key to remember if the name was not found
+	if recvKey, err := msg.GetKey(); err == nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
diff --git a/protocol/message.go b/protocol/message.go
index d420369..7e67102 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -318,7 +318,26 @@ func validSTRs(strs []*DirSTR) bool {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
+//
+// A response that says the name was not found contains no key.
 // FIXME: remove this obsolete function
 func (msg *Response) GetKey() ([]byte, error) {
-	return nil, nil
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+	if msg.Error == ReqNameNotFound {
+		return nil, msg.Error
+	}
+	ap := df.AP[len(df.AP)-1]
+	if ap.ProofType() == merkletree.ProofOfInclusion {
+		return ap.Leaf.Value, nil
+	}
+	if df.TB == nil {
+		return nil, ErrMalformedMessage
+	}
+	return df.TB.Value, nil
 }
-- 
2.43.0


From 612d45539fa2a170b5ab44ecca92e908ef1029be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 07/13] fix: check that a lookup or registration has one proof
 and one root

Only the first proof was verified, whatever else the response carried.
---
 protocol/client/consistencychecks.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 9539106..f7ce19c 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -170,8 +170,9 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -190,8 +191,9 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
-- 
2.43.0


From 90d924fe6903e1c42ff62dbba2197d5cf19d8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 08/13] fix: detect promises broken by a later proof of absence

A directory could promise a binding and then answer every later lookup with
a proof of absence, or promise another key for the same name: only proofs
of inclusion in response to a lookup were compared with the promise.
---
 protocol/client/consistencychecks.go | 34 ++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index f7ce19c..6b33853 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -251,7 +251,15 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, df.STR[0], df.TB); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+		} else {
+			if err := cc.verifyFulfilledPromise(uname, df.STR[0], df.AP[0]); err != nil {
+				return err
+			}
+			delete(cc.TBs, uname)
 		}
 		return nil
 
@@ -271,7 +279,16 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, str, df.TB); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+
+		case msg.Error == protocol.ReqNameNotFound:
+			// a promised name cannot be unknown to the directory
+			if err := cc.verifyPendingPromise(uname, str, nil); err != nil {
+				return err
+			}
 		}
 
 	default:
@@ -294,6 +311,23 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyPendingPromise verifies that a proof of absence does not break
+// an earlier promise: a binding that was promised must be in the directory
+// from the next epoch on, so str has to be the root that the outstanding TB
+// was issued for, and the directory has to return the same promise.
+func (cc *ConsistencyChecks) verifyPendingPromise(uname string, str *protocol.DirSTR,
+	returned *protocol.TemporaryBinding) error {
+	if tb, ok := cc.TBs[uname]; ok {
+		if returned == nil ||
+			!bytes.Equal(returned.Index, tb.Index) ||
+			!bytes.Equal(returned.Value, tb.Value) ||
+			!cc.Verify(tb.Serialize(str.Signature), tb.Signature) {
+			return protocol.CheckBrokenPromise
+		}
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From cada99f6f3c920361177a7cf15ad7f980dfb6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 09/13] fix: refuse an initial root file without a root or
 policies

A file holding null or {} crashed the program that loaded it.
---
 application/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..269099a 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if initSTR == nil || initSTR.SignedTreeRoot == nil || initSTR.Policies == nil {
+		return nil, fmt.Errorf("Cannot parse initial STR: incomplete STR")
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
-- 
2.43.0


From 02b1901a462a495145c585fc98477a74b00922c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 10/13] fix: report a server configuration without policies,
 logger or address

Load dereferenced the missing section instead of returning an error.
---
 application/server/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..2553725 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -59,6 +59,15 @@ func (conf *Config) Load(file, encoding string) error {
 		return err
 	}
 
+	if conf.Policies == nil || conf.Logger == nil {
+		return fmt.Errorf("Missing policies or logger configuration")
+	}
+	for _, addr := range conf.Addresses {
+		if addr == nil || addr.ServerAddress == nil {
+			return fmt.Errorf("Missing address in the addresses configuration")
+		}
+	}
+
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
 	signKey, err := ioutil.ReadFile(signPath)
-- 
2.43.0


From 28d179498300a7c476fca3ad00e7fd538256a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 11/13] fix: answer history queries for evicted roots with a
 directory error

GetSTRHistory dereferenced the missing snapshot.
---
 protocol/directory/directory.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 0e7f142..5adc9f7 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -315,7 +315,9 @@ func (d *ConiksDirectory) Monitor(req *protocol.MonitoringRequest) *protocol.Res
 // end epoch is considered malformed, and causes
 // GetSTRHistory() to return a
 // message.NewErrorResponse(ErrMalformedMessage).
-// GetSTRHistory() returns a message.NewSTRHistoryRange(strs).
+// If an STR in the range has been removed from memory, GetSTRHistory()
+// returns a message.NewErrorResponse(ErrDirectory).
+// Otherwise, GetSTRHistory() returns a message.NewSTRHistoryRange(strs).
 // strs is a list of STRs for
 // the epoch range [startEpoch, endEpoch], where startEpoch
 // and endEpoch are the epoch range endpoints indicated in the client's
@@ -335,8 +337,12 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			// the snapshot has been removed from memory
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From b297fd1397e01d98943a4fff75465c2b1a759240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 12/13] fix: decode the answer for an unknown directory as such

---
 protocol/error.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/error.go b/protocol/error.go
index 8c9f74d..a4a00f8 100644
--- a/protocol/error.go
+++ b/protocol/error.go
@@ -43,12 +43,14 @@ const (
 // errors contains codes indicating the client
 // should skip the consistency checks. These errors indicate
 // that either a client request could not be processed due to
-// a malformed client request, an internal server error or
-// due to a malformed server response.
+// a malformed client request, an internal server error,
+// due to a malformed server response or because the auditor has no
+// history of the requested directory.
 var errors = map[error]bool{
 	ErrMalformedMessage: true,
 	ErrDirectory:        true,
 	ErrAuditLog:         true,
+	ReqUnknownDirectory: true,
 }
 
 var (
@@ -57,6 +59,8 @@ var (
 		ReqNameExisted:  "[coniks] Registering identity is already registered",
 		ReqNameNotFound: "[coniks] Searched name not found in directory",
 
+		ReqUnknownDirectory: "[coniks] No observed history for the requested directory",
+
 		ErrMalformedMessage: "[coniks] Malformed message",
 		ErrDirectory:        "[coniks] Directory error",
 		ErrAuditLog:         "[coniks] Audit log error",
-- 
2.43.0


From 882228e2351fec7fce351441deb54f5542386708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 13/13] fix: keep the path a configuration was loaded from

The path and encoding of a configuration were saved in the file itself
and read back from there, so that after the file had been moved (or was
named by another relative path) the initial root was saved and policies
were reloaded relative to the old place.
---
 application/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/application/config.go b/application/config.go
index 269099a..4bbf972 100644
--- a/application/config.go
+++ b/application/config.go
@@ -26,9 +26,9 @@ type AppConfig interface {
 // values including the file path, logger configuration, and config
 // loader.
 type CommonConfig struct {
-	Path     string
+	Path     string        `toml:"-"`
 	Logger   *LoggerConfig `toml:"logger"`
-	Encoding string
+	Encoding string        `toml:"-"`
 	loader   ConfigLoader
 }
 
-- 
2.43.0

