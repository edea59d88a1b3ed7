From 2b11ce401a6db218aa2f1f96e5bf4d9d49f3f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 01/46] verif: settable clock behind the verif build tag

---
 tree/transparency/algorithms/algorithms.go  |  3 +--
 tree/transparency/algorithms/clock.go       |  8 ++++++++
 tree/transparency/algorithms/clock_verif.go | 18 ++++++++++++++++++
 tree/transparency/mutate.go                 |  3 +--
 4 files changed, 28 insertions(+), 4 deletions(-)
 create mode 100644 tree/transparency/algorithms/clock.go
 create mode 100644 tree/transparency/algorithms/clock_verif.go

diff --git a/tree/transparency/algorithms/algorithms.go b/tree/transparency/algorithms/algorithms.go
index 50d8891..469fc80 100644
--- a/tree/transparency/algorithms/algorithms.go
+++ b/tree/transparency/algorithms/algorithms.go
@@ -2,7 +2,6 @@ package algorithms
 
 import (
 	"errors"
-	"time"
 
 	"github.com/Bren2010/katie/tree/transparency/math"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -130,7 +129,7 @@ func UpdateView(config *structs.PublicConfig, n uint64, m *uint64, provider *Dat
 		}
 	}
 
-	now := uint64(time.Now().UnixMilli())
+	now := Now()
 	ts, err := provider.GetTimestamp(n - 1)
 	if err != nil {
 		return err
diff --git a/tree/transparency/algorithms/clock.go b/tree/transparency/algorithms/clock.go
new file mode 100644
index 0000000..1427738
--- /dev/null
+++ b/tree/transparency/algorithms/clock.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+package algorithms
+
+import "time"
+
+// Now returns the current time in milliseconds since the Unix epoch.
+func Now() uint64 { return uint64(time.Now().UnixMilli()) }
diff --git a/tree/transparency/algorithms/clock_verif.go b/tree/transparency/algorithms/clock_verif.go
new file mode 100644
index 0000000..908e470
--- /dev/null
+++ b/tree/transparency/algorithms/clock_verif.go
@@ -0,0 +1,18 @@
+//go:build verif
+
+package algorithms
+
+import "time"
+
+// Clock, if set, replaces the system clock. It exists only in builds with the
+// `verif` tag.
+var Clock func() uint64
+
+// Now returns the current time in milliseconds since the Unix epoch, according
+// to Clock if there is one.
+func Now() uint64 {
+	if Clock != nil {
+		return Clock()
+	}
+	return uint64(time.Now().UnixMilli())
+}
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..090179d 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"time"
 
 	"github.com/Bren2010/katie/tree/log"
 	"github.com/Bren2010/katie/tree/prefix"
@@ -30,7 +29,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	// Decide on the timestamp for the new log entry. We do this so early
 	// because it affects which distinguished log entries exist, which affects
 	// which modifications are allowable.
-	timestamp := uint64(time.Now().UnixMilli())
+	timestamp := algorithms.Now()
 	if n > 0 {
 		rightmost, err := provider.GetTimestamp(n - 1)
 		if err != nil {
-- 
2.43.0


From 33bda19832be518a92026a2ae7ad69729fa8ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/46] fix: client panicked on its first response because it
 has no state yet

---
 tree/transparency/client_crypto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..0f8c58f 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,14 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
 		AuditorTreeHead: v.fth.AuditorTreeHead,
 		FullSubtrees:    result.FullSubtrees,
 		LogEntries:      result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 5660179a4385dcae87f0ddccf8ee769146ffae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 03/46] fix: client rejected every larger tree head and
 accepted smaller ones

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 0f8c58f..a98667e 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From 0aacb993c7df6678c178f5d0d6ad6dafa667df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 04/46] fix: client forgot the auditor tree head when the tree
 head was unchanged

---
 tree/transparency/client_crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index a98667e..7d04133 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -239,6 +239,7 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 		updated.TreeHead = *v.fth.TreeHead
 	} else {
 		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 3b0f806f374a86453e4874adbd0cb2a86aa7bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 05/46] fix: client must require an auditor tree head exactly
 when the log has an auditor

---
 tree/transparency/client_crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 7d04133..1501413 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -53,6 +53,10 @@ func newVerifier(
 		return nil, errors.New("no tree head was provided when required")
 	}
 
+	expectAuditor := fth.TreeHead != nil && config.Mode == structs.ThirdPartyAuditing
+	if expectAuditor != (fth.AuditorTreeHead != nil) {
+		return nil, errors.New("auditor tree head missing or provided when not expected")
+	}
 	var nP *uint64
 	if fth.AuditorTreeHead != nil {
 		nP = &fth.AuditorTreeHead.TreeSize
-- 
2.43.0


From eaead01e5a618e9fed69db9475daef75fac16053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 06/46] fix: retained versions of a label could not be combined
 with those in a response

---
 tree/transparency/algorithms/proof_handle.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..de3154f 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,16 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	} else if existing, ok := versions[ver]; ok {
+		// The same version may be known from retained state and from the
+		// current response. What's known about it must be consistent.
+		if !bytes.Equal(existing.VrfOutput, vrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			commitment = existing.Commitment
+		} else if existing.Commitment != nil && !bytes.Equal(existing.Commitment, commitment) {
+			return errors.New("different commitments for same version found")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From eb4fcc85ac6c1002687bc630848f3d2fe1a85230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 07/46] fix: encoded state of an owned label lacked its
 retained versions

---
 tree/transparency/structs/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..c491463 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
-- 
2.43.0


From e47b4bc1d9ad95a1b25f2025e874623c700a20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 08/46] fix: version at the owner's starting position was
 silently left out of the encoding

---
 tree/transparency/structs/client.go  | 6 +++---
 tree/transparency/structs/structs.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index c491463..f9a2523 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[int64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, int64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..4fc6fb7 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64 | int64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 896e172bfefeb9fa528d03f0df9a2f5a716ddf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 09/46] fix: client panicked when contact monitoring of a label
 was complete

---
 tree/transparency/algorithms/monitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..9f416e1 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -25,6 +25,9 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 }
 
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil { // No further monitoring is required.
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From c347504350b276808df900239ba66c5ab5e194b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 10/46] fix: client panicked on an update response with a short
 binary ladder

---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..51d4335 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -564,6 +564,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From daae49927172593098e181e4207ee1ce6d6a8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 11/46] fix: client lost the commitments of new versions it had
 already looked up

---
 tree/transparency/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 51d4335..349aef1 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -585,6 +585,17 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
+	// New versions that aren't in `ladder` are ones that were already retained,
+	// from when they didn't exist. Now that they do, add their commitments.
+	for ver, commitment := range commitments {
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("required version not known")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
+
 	// Verify the proof.
 	if err := v.updateView(); err != nil {
 		return err
-- 
2.43.0


From a08ad3cbe257634c58a9b2813913122d4e44069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 12/46] fix: client built monitoring maps that the server must
 reject

---
 tree/transparency/client_crypto.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 1501413..f2e2fe9 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -353,14 +353,16 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 		modified := false
 
 		for pos, ver := range ptrs {
-			path := math.RightDirectPath(pos, n)
-			if len(path) == 0 {
-				continue
-			} else if parent, ok := ptrs[path[0]]; !ok || parent < ver {
-				continue
+			for i, x := range math.RightDirectPath(pos, n) {
+				parent, ok := ptrs[x]
+				// An entry is redundant if its parent has the same or a greater
+				// version. The same version may not be present twice at all.
+				if ok && (i == 0 && parent > ver || parent == ver) {
+					delete(ptrs, pos)
+					modified = true
+					break
+				}
 			}
-			delete(ptrs, pos)
-			modified = true
 		}
 
 		if !modified {
@@ -369,6 +371,17 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 	}
 }
 
+// greaterVersionAt returns true if `ptrs` contains a version greater than `ver`
+// at or to the left of `pos`. Versions must be ascending with position.
+func greaterVersionAt(ptrs map[uint64]uint32, pos uint64, ver uint32) bool {
+	for otherPos, otherVer := range ptrs {
+		if otherPos <= pos && otherVer > ver {
+			return true
+		}
+	}
+	return false
+}
+
 // updateContactState is used specifically after Search operations. It computes
 // the rightmost terminal log entry for the search, and removes any map entries
 // that no longer need to be monitored as a result of this search.
@@ -381,8 +394,7 @@ func updateContactState(
 
 	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
 	for _, pos := range path {
-		posVer, ok := contact.Ptrs[pos]
-		if ok && posVer > ver {
+		if greaterVersionAt(contact.Ptrs, pos, ver) {
 			break
 		}
 		contact.Ptrs[pos] = ver
-- 
2.43.0


From 34c9acc9baae9f63b2d171ed25543b90d0c91935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 13/46] fix: labels stayed stale after they had been monitored
 as far as possible

---
 tree/transparency/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 349aef1..50d081d 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -312,7 +312,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, req.Start)
+		return c.putLabelState(updated, req.Label, labelState, req.Start+1)
 	}
 }
 
@@ -410,7 +410,7 @@ func (c *Client) contactMonitor(
 			return errors.New("unable to compute rightmost distinguished log entry")
 		}
 
-		return c.putLabelState(updated, req.Label, labelState, *terminal)
+		return c.putLabelState(updated, req.Label, labelState, *terminal+1)
 	}
 }
 
@@ -456,7 +456,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting)
+		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting+1)
 	}
 }
 
@@ -622,5 +622,5 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting)
+	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting+1)
 }
-- 
2.43.0


From 09e0cd7193f8b8f82d19d56822371cbd4b4712af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 14/46] fix: inclusion proofs for several versions were
 rejected

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index de3154f..991e613 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -205,11 +205,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for every version.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 9d2b09d96a66e6073144acfde238dae310f68ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 15/46] fix: greatest-version search succeeded without a proof
 if a timestamp was missing

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From e2dfb8b9d2acac78c45cf3c8a01872e4fb048861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 16/46] fix: binary ladders of the greatest 32-bit versions
 overflowed or never ended

---
 tree/transparency/math/ladders.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..89df0c8 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -14,12 +14,14 @@ func baseBinaryLadder(n uint32) []uint32 {
 		out = append(out, val)
 		if val > n {
 			break
+		} else if val == ^uint32(0) { // No greater version is possible.
+			return out
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From d8de3093d1f1a906467bf58a4c29820ae0cbfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 17/46] fix: a request advertising tree size zero made the
 server panic

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..b714eb8 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user can not be zero")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 3ef27f3c58843fe4994b5c6bd65d93c32a6076e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 18/46] fix: proofs for an unchanged tree head ignored what the
 user retains

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index b714eb8..ef8ab2f 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -114,7 +114,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		if *last == 0 {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user can not be zero")
 		} else if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 339b5004146a799cb0659ff6a2cdd1330d2952a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 19/46] fix: no update response could be produced because the
 owner's state was never set

---
 tree/transparency/update.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..6346f62 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -242,7 +242,8 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	if err != nil {
 		return nil, err
 	}
-	ladder, err := u.ladder(u.ver-len(info), u.ver-1)
+	startVer := u.ver - len(info)
+	ladder, err := u.ladder(startVer, u.ver-1)
 	if err != nil {
 		return nil, err
 	}
@@ -261,9 +262,19 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
 	if err != nil {
 		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	}
+	monitor.Owner = &algorithms.OwnerState{VerAtStarting: -1, UpcomingVers: slices.Clone(u.index[:startVer])}
+	if err := monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
+	for ver := range handle.RequiredVersions() {
+		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
+		if err != nil {
+			return nil, err
+		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
+			return nil, err
+		}
+	}
 	proof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 525103d2d58d6b7f2fa96b31a27a81d35129e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 20/46] fix: searches for labels that do not exist failed to
 decode or verify with a manager

---
 tree/transparency/client.go | 12 ++++++------
 tree/transparency/crypto.go |  6 +++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 50d081d..08cbfe9 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -166,12 +166,6 @@ func (c *Client) search(
 			return errors.New("unexpected error occurred")
 		}
 
-		// If a Third-Party Manager is being used, verify `value`.
-		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
-		if err != nil {
-			return err
-		}
-
 		// Verify that the expected number of entries is present in
 		// `binary_ladder` and compute the VRF output for each version.
 		ladder := math.SearchBinaryLadder(target, target, nil, nil)
@@ -199,6 +193,12 @@ func (c *Client) search(
 		if err != nil {
 			return err
 		}
+
+		// If a Third-Party Manager is being used, verify `value`.
+		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
+		if err != nil {
+			return err
+		}
 		updated, err := v.finish()
 		if err != nil {
 			return err
diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..0f1b08e 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -79,7 +79,11 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 		// SearchResponse doesn't end up getting serialized wrong when a search
 		// produces a non-inclusion proof.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = []byte{}
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 7c4bb60baf9e4ec5cd2e78a7f70f13ed188026ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 21/46] fix: client reported labels as missing without
 verifying the proof that they are

---
 tree/transparency/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 08cbfe9..51f3349 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -190,7 +190,13 @@ func (c *Client) search(
 		} else {
 			terminal, err = v.fixedVersionSearch(target)
 		}
-		if err != nil {
+		if err == algorithms.ErrLabelNotFound || err == algorithms.ErrLabelExpired {
+			// Only report this if it was proven by the Transparency Log.
+			if _, finishErr := v.finish(); finishErr != nil {
+				return finishErr
+			}
+			return err
+		} else if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 3d23fd2d3e04570db7ca8467ba192529090f3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 22/46] fix: a manager update made a log without a third-party
 manager panic

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 6346f62..9e9e4e1 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -115,6 +115,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("transparency log is not configured with third party manager")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From 5907f2103099d0e59ffd53f3a7575b9fec53f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 23/46] fix: a mutation that failed left its label changes
 behind

---
 tree/transparency/crypto.go | 19 +++++++------
 tree/transparency/mutate.go | 53 ++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 0f1b08e..0ed8f69 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -95,17 +95,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// newVersion generates a new commitment opening for the given label-version pair
+// to have the given value. It returns the data to store in the database for the
+// label-version pair, and the new commitment.
+func (t *Tree) newVersion(label []byte, ver uint32, value structs.UpdateValue) (labelValue, commitment []byte, err error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
-	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
+	// Serialize opening and UpdateValue structure.
+	labelValue, err = structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -115,9 +114,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return labelValue, commitments.Commit(t.config.Suite, opening, commitmentValue), nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index 090179d..b08ca70 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -57,14 +57,16 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+		writes       []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
 		if err != nil {
 			return nil, err
 		}
 		prefixAdd = append(prefixAdd, pa...)
 		prefixRemove = append(prefixRemove, pr...)
+		writes = append(writes, w...)
 	}
 
 	// Sort the new additions and removals by VRF output to avoid accidentally
@@ -82,7 +84,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	}
 
 	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
 		return nil, err
 	}
 
@@ -155,12 +157,17 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 	return out, nil
 }
 
-// mutateLabel performs the requested additions and removals for a single label.
+// mutateLabel computes the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+//
+// The label's data in the database is not modified. Instead, the modifications
+// to make are returned so that they can be applied when it's certain that the
+// overall mutation won't be rejected.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, []func() error, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
+		writes []func() error
 
 		label, index = mut.label, mut.index
 	)
@@ -169,22 +176,18 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		// The label is not eligible for deletion if it has been modified since
 		// the last distinguished log entry was created.
 		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
+			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
-				return nil, nil, err
+				return nil, nil, nil, err
 			}
 			remove = append(remove, vrfOutput)
 		}
@@ -197,29 +200,29 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		labelValue, commitment, err := t.newVersion(pair.Label, ver, pair.Value)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
+		writes = append(writes, func() error { return t.tx.PutVersion(label, ver, labelValue) })
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.putIndex(label, index) })
 	}
 
-	return add, remove, nil
+	return add, remove, writes, nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree and then signs and commits a new tree head, along with
+// the given modifications to the database.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -264,7 +267,13 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 735240bb68784d7095127fce2a53fd23e2e4c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 24/46] fix: versions found by a search could not be monitored
 when added along with others

---
 tree/transparency/transparency.go | 44 +++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index ef8ab2f..c7a8008 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -246,6 +246,9 @@ func (t *Tree) Search(
 			steps[i].Commitment = handle.GetCommitment(ver)
 		}
 	}
+	if err := t.populateExisting(req, greatest, ladder, steps); err != nil {
+		return nil, err
+	}
 
 	// Put together final SearchResponse structure.
 	var outputVer *uint32
@@ -269,3 +272,44 @@ func (t *Tree) Search(
 		Search:       *combinedProof,
 	}, nil
 }
+
+// populateExisting populates the commitment of versions in the binary ladder
+// that are known to exist, but which no proof happened to show inclusion for.
+// The user needs these to be able to monitor the version that was searched for.
+func (t *Tree) populateExisting(
+	req *structs.SearchRequest,
+	greatest int,
+	ladder []uint32,
+	steps []structs.BinaryLadderStep,
+) error {
+	if greatest < 0 {
+		return nil
+	}
+	target := uint32(greatest)
+	if req.Version != nil {
+		if int(*req.Version) > greatest {
+			return nil
+		}
+		target = *req.Version
+	}
+
+	var missing []uint32
+	var idx []int
+	for i, ver := range ladder {
+		if ver < target && steps[i].Commitment == nil {
+			missing = append(missing, ver)
+			idx = append(idx, i)
+		}
+	}
+	if len(missing) == 0 {
+		return nil
+	}
+	found, err := t.getBinaryLadder(req.Label, missing, greatest, t.treeHead.TreeSize)
+	if err != nil {
+		return err
+	}
+	for i, step := range found {
+		steps[idx[i]].Commitment = step.Commitment
+	}
+	return nil
+}
-- 
2.43.0


From a02c6ab81736119cae7b093834d263bd8757a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 25/46] fix: a manager stored new versions without a signature
 that could never be read again

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 9e9e4e1..632c5a4 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -94,6 +94,10 @@ func newUpdater(t *Tree, ctx context.Context, ch chan wire.UpdateResponse) *upda
 }
 
 func (u *updater) setRequest(req *structs.UpdateRequest) error {
+	if u.tree.config.Mode == structs.ThirdPartyManagement && len(req.Values) > 0 {
+		return errors.New("new versions must be signed by the service operator")
+	}
+
 	values := make([]structs.UpdateValue, len(req.Values))
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
-- 
2.43.0


From ffc0977766329cb7345aed15cf3699a799fdbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 26/46] fix: a crash or failure while committing could leave a
 mutation half applied

---
 db/leveldb.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..f38cbf4 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
+	"github.com/syndtr/goleveldb/leveldb/opt"
 )
 
 const leveldbTreeHeadKey = "tree-head"
@@ -54,25 +55,20 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
-		return err
-	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
-
+	// The changes that failed to be committed must not become part of what is
+	// committed next.
 	c.batch = make(map[string][]byte)
-	return nil
+
+	// All changes need to be written atomically: if a crash could separate the
+	// new tree head from anything else, then either the log can not be read or
+	// what users are shown does not match the signed tree.
+	return c.conn.Write(b, &opt.WriteOptions{Sync: true})
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From e1652eb7f664ae29768bc5b18b4e2ca691c56d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 27/46] fix: requests made while a log entry was being added
 mixed up two trees

---
 tree/transparency/crypto.go | 8 ++++++++
 tree/transparency/update.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 0ed8f69..fbca87c 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -41,6 +42,13 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 			index[i] += index[i-1]
 		}
 
+		// The index may have been read after another log entry was added. Ignore
+		// versions that don't exist yet in the tree that's being operated on.
+		if t.treeHead != nil {
+			end, _ := slices.BinarySearch(index, t.treeHead.TreeSize)
+			index = index[:end]
+		}
+
 		out[i] = index
 	}
 
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 632c5a4..41e723d 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -345,7 +345,7 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	indices, err := tree.batchGetIndex([][]byte{u.label})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ab264605fbfe23d4cd359b116c043bb78b32a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 28/46] fix: auditor tree head could be newer than the tree
 head it was read with

---
 db/leveldb.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index f38cbf4..00dfef2 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -93,16 +93,18 @@ func (ldb *ldbTransparencyStore) Clone() TransparencyStore {
 }
 
 func (ldb *ldbTransparencyStore) GetTreeHead() ([]byte, []byte, error) {
+	// The auditor tree head must be read first, so that it can never be for a
+	// newer tree than the tree head is.
+	auditor, err := ldb.conn.Get("auditor-tree-head")
+	if err != leveldb.ErrNotFound && err != nil {
+		return nil, nil, err
+	}
 	treeHead, err := ldb.conn.Get(leveldbTreeHeadKey)
 	if err == leveldb.ErrNotFound {
 		return nil, nil, nil
 	} else if err != nil {
 		return nil, nil, err
 	}
-	auditor, err := ldb.conn.Get("auditor-tree-head")
-	if err != leveldb.ErrNotFound && err != nil {
-		return nil, nil, err
-	}
 	return treeHead, auditor, nil
 }
 
-- 
2.43.0


From c3fc797d77ec8ee0d502c6cfbc75e979aaf81daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 29/46] fix: managed log assigned the version after the first
 one twice

---
 db/memory/memory.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..61835b9 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -4,6 +4,7 @@ package memory
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/Bren2010/katie/db"
 )
@@ -218,7 +219,9 @@ func (as *AuditorStore) PutState(raw []byte) error {
 }
 
 type ManagedLogStore struct {
-	Data map[string]int
+	Data map[string]int // Map from label to number of versions.
+
+	mu sync.Mutex
 }
 
 func NewManagedLogStore() *ManagedLogStore {
@@ -228,10 +231,10 @@ func NewManagedLogStore() *ManagedLogStore {
 func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
 	labelStr := fmt.Sprintf("%x", label)
 
-	ver, ok := mls.Data[labelStr]
+	mls.mu.Lock()
+	defer mls.mu.Unlock()
+
+	prev := mls.Data[labelStr] - 1
 	mls.Data[labelStr] += count
-	if !ok {
-		return -1, nil
-	}
-	return ver, nil
+	return prev, nil
 }
-- 
2.43.0


From d5a14ae1e98a0438567000919ef12e6c95a8abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 30/46] fix: forged prefix proofs could hide an entry that
 exists

---
 tree/prefix/verify.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..d831aaf 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -22,6 +22,24 @@ func terminalNode(entry Entry, res PrefixSearchResult) node {
 	}
 }
 
+// checkTerminal verifies that, if the search claims to have terminated at a leaf
+// for a different VRF output, that this leaf is actually where a search for the
+// VRF output in `entry` would end up.
+func checkTerminal(entry Entry, res PrefixSearchResult) error {
+	nonInc, ok := res.(nonInclusionLeafProof)
+	if !ok {
+		return nil
+	} else if bytes.Equal(entry.VrfOutput, nonInc.leaf.vrfOutput) {
+		return errors.New("non-inclusion proof contains the vrf output searched for")
+	}
+	for i := range nonInc.depth {
+		if getBit(entry.VrfOutput, i) != getBit(nonInc.leaf.vrfOutput, i) {
+			return errors.New("non-inclusion proof contains an unrelated leaf")
+		}
+	}
+	return nil
+}
+
 // addToSkeleton adds the terminal node for a single search result
 // to the in-memory tree in `n`.
 func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
@@ -54,6 +72,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
+				if err := checkTerminal(entry, res); err != nil {
+					return err
+				}
 				*n = terminalNode(entry, res)
 				return nil
 			} else {
-- 
2.43.0


From 80744a7848de920969ac764a5053897c2eda926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 31/46] fix: empty mutations corrupted the prefix tree

---
 tree/prefix/batch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..a58f50a 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -74,6 +74,11 @@ func (b *batch) initialize(searches map[uint64][][]byte) (map[uint64]*tile, map[
 		for _, vrfOutput := range vrfOutputs {
 			cursors = append(cursors, cursor{vrfOutput: vrfOutput, depth: 0})
 		}
+		if len(vrfOutputs) == 0 {
+			// Even if there's nothing to search for, the root needs to be
+			// loaded because its hash is needed.
+			cursors = append(cursors, cursor{vrfOutput: make([]byte, b.cs.HashSize()), depth: 0})
+		}
 		state[&out.root] = cursors
 	}
 
@@ -172,7 +177,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
-- 
2.43.0


From fe5f9823a65ad26c9f97f4f37795aa515157fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 32/46] fix: auditor rejected updates that remove a label and
 create it again

---
 tree/prefix/verify.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index d831aaf..1345df9 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -174,13 +174,32 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
+	if len(proof.Results) != len(add)+len(remove) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
+	// hash in the straightforward way. Entries that are replaced, by being both
+	// removed and added, are in the tree with the commitment that's removed.
+	removed := make(map[string]struct{}, len(remove))
+	for _, entry := range remove {
+		removed[string(entry.VrfOutput)] = struct{}{}
+	}
+	var (
+		allEntries []Entry
+		results    []PrefixSearchResult
+	)
+	for i, entry := range add {
+		if _, ok := removed[string(entry.VrfOutput)]; ok {
+			continue
+		}
+		allEntries = append(allEntries, entry)
+		results = append(results, proof.Results[i])
+	}
+	allEntries = append(allEntries, remove...)
+	results = append(results, proof.Results[len(add):]...)
 
-	root, err := evaluate(cs, allEntries, proof)
+	root, err := evaluate(cs, allEntries, &PrefixProof{Results: results, Elements: proof.Elements})
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From d6a46f091bd4a8112999fb227ad98c5b80b87f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 33/46] fix: auditor forgot which entries were inserted
 recently

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 801b7d5a63b6b07a1964262f008bcf169ac29b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 34/46] fix: auditor accepted a first update that starts from
 any prefix tree

---
 tree/transparency/auditor/auditor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..249a1b2 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -231,7 +231,13 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	}
+	// The prefix tree is initially empty.
+	expected := make([]byte, a.config.Suite.HashSize())
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
+	if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From be3957e8936754ce2bcdc3c31a63ee09ab8d7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 35/46] fix: a few malformed bytes could make the decoder
 allocate gigabytes

---
 tree/transparency/structs/structs.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 4fc6fb7..441ce3f 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -86,11 +86,19 @@ type sizeParam interface {
 
 func max[S sizeParam]() int { return int(^S(0)) }
 
+// initialCapacity returns the number of elements to allocate space for initially
+// when decoding a list that claims to contain `size` elements. The claim may be
+// false, so the list is only grown further once elements were actually read.
+func initialCapacity(size uint64) int { return int(min(size, 64)) }
+
 func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	size, err := readNumeric[S](buf)
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) { // Don't allocate what can't be read.
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
@@ -112,13 +120,13 @@ func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	out := make([][]byte, size)
-	for i := range int(size) {
+	out := make([][]byte, 0, initialCapacity(uint64(size)))
+	for range int(size) {
 		elem := make([]byte, n)
 		if _, err := io.ReadFull(buf, elem); err != nil {
 			return nil, err
 		}
-		out[i] = elem
+		out = append(out, elem)
 	}
 	return out, nil
 }
@@ -139,13 +147,13 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
-	out := make([]T, size)
-	for i := range int(size) {
+	out := make([]T, 0, initialCapacity(uint64(size)))
+	for range int(size) {
 		val, err := readNumeric[T](buf)
 		if err != nil {
 			return nil, err
 		}
-		out[i] = val
+		out = append(out, val)
 	}
 	return out, nil
 }
@@ -173,13 +181,13 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
-	out := make([]T, size)
-	for i := range int(size) {
+	out := make([]T, 0, initialCapacity(uint64(size)))
+	for range int(size) {
 		elem, err := newF(buf)
 		if err != nil {
 			return nil, err
 		}
-		out[i] = *elem
+		out = append(out, *elem)
 	}
 	return out, nil
 }
-- 
2.43.0


From 8a49a2c912e8645a433ce36f0191e23a5403b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 36/46] fix: greatest-version searches for labels that do not
 exist could not be verified

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index c7a8008..518c6b2 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -188,7 +188,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From 5b77c473e117b673d4f6bee392893b30e6efb9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 37/46] fix: users whose last known log entry is on the
 frontier were not shown the new frontier

---
 tree/transparency/math/math.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..d3d8ec0 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -132,6 +132,9 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, Root(n))
 	} else {
 		out = append(out, RightDirectPath(*m-1, n)...)
+		if len(out) == 0 { // The previous rightmost log entry is on the frontier.
+			out = append(out, Right(*m-1, n))
+		}
 	}
 
 	for len(out) > 0 && out[len(out)-1] != n-1 {
-- 
2.43.0


From 1b5f91a0536a1ac4e9e5d3f3c2de60368c00de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 38/46] fix: forged values were accepted if another lookup
 ended at the value's leaf

---
 tree/prefix/verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 1345df9..88dd8e9 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -57,6 +57,10 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
+			} else if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				// The leaf may be known from another search that terminated at
+				// it, in which case the commitment hasn't been checked yet.
+				return errors.New("commitment does not match the leaf found")
 			}
 			return nil
 
-- 
2.43.0


From 6a0ba6f6944cb71d028504924ed130d3e184a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 39/46] fix: log proofs for a tree smaller than the retained
 one panicked

---
 tree/log/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/log/verify.go b/tree/log/verify.go
index 69e4c93..c4af072 100644
--- a/tree/log/verify.go
+++ b/tree/log/verify.go
@@ -57,6 +57,8 @@ func (v *Verifier) Evaluate(entries []uint64, n uint64, nP *uint64, values [][]b
 		return nil, nil, errors.New("invalid value for current tree size")
 	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
 		return nil, nil, errors.New("invalid value for additional tree size")
+	} else if v.prev != nil && *v.prev > n {
+		return nil, nil, errors.New("current tree size is less than previous tree size")
 	} else if len(entries) != len(values) {
 		return nil, nil, errors.New("number of leaves indices must equal number of leaf values")
 	}
-- 
2.43.0


From e9d0715e9dd7460918fa46b66f1a4d8a30eb2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 40/46] fix: auditor returned a tree head that it had failed to
 store

---
 tree/transparency/auditor/auditor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 249a1b2..f9eb48c 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -269,18 +269,22 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	sig, err := a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
+	signed := *a.state
+	signed.TreeHead.Signature = sig
 
-	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	// Serialize the auditor's state and commit it to the database. The tree head
+	// only counts as signed once this has succeeded.
+	raw, err := signed.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &signed
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From 8ca7d014955d39687da88f01133acbbf432a552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 41/46] fix: auditor and log disagreed on prefix trees after
 removals next to empty subtrees

---
 tree/prefix/verify.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 88dd8e9..1847d47 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -91,6 +91,16 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 	}
 }
 
+// isZero returns true if `hash` is the hash of an empty node.
+func isZero(hash []byte) bool {
+	for _, b := range hash {
+		if b != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // fillInCopath populates all of the empty copath nodes in `n` with `elements`
 // in left-to-right order.
 func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
@@ -114,7 +124,13 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 		if len(elements) == 0 {
 			return nil, errors.New("wrong number of copath nodes provided")
 		}
-		*n = externalNode{hash: elements[0]}
+		if isZero(elements[0]) {
+			// Needs to be known as empty for the tree to be simplified correctly
+			// when entries are removed.
+			*n = emptyNode{}
+		} else {
+			*n = externalNode{hash: elements[0]}
+		}
 		return elements[1:], nil
 
 	default:
-- 
2.43.0


From 5b9bbd9a92bc162eda132aa18c60e5ef7f3615c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 42/46] fix: a prefix proof or auditor state of a few bytes
 could make the decoder allocate megabytes

---
 tree/prefix/proof.go               | 3 +++
 tree/transparency/auditor/state.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tree/prefix/proof.go b/tree/prefix/proof.go
index 07d534c..e6d9ca3 100644
--- a/tree/prefix/proof.go
+++ b/tree/prefix/proof.go
@@ -39,6 +39,9 @@ func NewPrefixProof(cs suites.CipherSuite, buf *bytes.Buffer) (*PrefixProof, err
 	if err := binary.Read(buf, binary.BigEndian, &numElements); err != nil {
 		return nil, err
 	}
+	if int(numElements)*cs.HashSize() > buf.Len() { // Don't allocate what can't be read.
+		return nil, io.ErrUnexpectedEOF
+	}
 	elements := make([][]byte, numElements)
 	for i := range int(numElements) {
 		elem := make([]byte, cs.HashSize())
diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..202aa2e 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -65,6 +65,9 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	if err := binary.Read(buf, binary.BigEndian, &size); err != nil {
 		return nil, err
 	}
+	if int(size)*(8+cs.HashSize()) > buf.Len() { // Don't allocate what can't be read.
+		return nil, io.ErrUnexpectedEOF
+	}
 	inserted := make([]InsertedVrfOutput, size)
 	for i := range size {
 		var pos uint64
-- 
2.43.0


From 2de79c1d586addd0241f6689c2fcd01e66c9f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 43/46] fix: an auditor panicked when started from a state for
 an empty tree

---
 tree/transparency/auditor/state.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index 202aa2e..9646c36 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor state is for an empty tree")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
-- 
2.43.0


From e5c1b1b930836e07e2de9aeaf281f52d3b2fa54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 44/46] fix: contact monitoring forgot the greater of two
 versions that advanced to the same log entry

---
 tree/transparency/algorithms/monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index 9f416e1..b8e0d00 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -263,7 +263,12 @@ func (m *Monitor) ContactMonitor() error {
 		updated, err := m.contactMonitor(x, ver, previous)
 		if err != nil {
 			return err
-		} else if updated != nil {
+		} else if updated == nil {
+			continue
+		}
+		// Several entries of the map may have advanced to the same log entry.
+		// The greatest version is the one to continue with.
+		if existing, ok := ptrs[*updated]; !ok || existing < ver {
 			ptrs[*updated] = ver
 		}
 	}
-- 
2.43.0


From 4cd119f2cc5bbf4d2f0b8ade5e0d62cde33f22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 45/46] fix: owners built monitoring maps that the server must
 reject from updates they had searched for before

---
 tree/transparency/algorithms/update.go | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/update.go b/tree/transparency/algorithms/update.go
index 91f4097..519ab36 100644
--- a/tree/transparency/algorithms/update.go
+++ b/tree/transparency/algorithms/update.go
@@ -184,10 +184,7 @@ func (m *Monitor) Update(pos uint64, versions int) error {
 		}
 
 		// Add the new version to the owner's contact monitoring state.
-		if m.Contact == nil {
-			m.Contact = &ContactState{Ptrs: make(map[uint64]uint32)}
-		}
-		m.Contact.Ptrs[pos] = endVer
+		m.addContact(pos, endVer)
 	}
 
 	// Retain the position of the new versions for later verification.
@@ -196,3 +193,25 @@ func (m *Monitor) Update(pos uint64, versions int) error {
 	}
 	return nil
 }
+
+// addContact adds `ver`, which was created in the log entry `pos`, to the
+// contact monitoring state. Earlier searches may have added other entries to
+// it, and versions must remain in ascending order by position.
+func (m *Monitor) addContact(pos uint64, ver uint32) {
+	if m.Contact == nil {
+		m.Contact = &ContactState{Ptrs: make(map[uint64]uint32)}
+	}
+	for otherPos, otherVer := range m.Contact.Ptrs {
+		if otherPos >= pos && otherVer == ver {
+			return // This version is already being monitored.
+		}
+	}
+	// Lesser versions that are being monitored to the right of `pos` are
+	// covered by monitoring `ver`.
+	for otherPos, otherVer := range m.Contact.Ptrs {
+		if otherPos > pos && otherVer < ver {
+			delete(m.Contact.Ptrs, otherPos)
+		}
+	}
+	m.Contact.Ptrs[pos] = ver
+}
-- 
2.43.0


From 2471f12b6b6eb9d844bbd8487ba51f2bdae754e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 46/46] fix: send values of update responses that aren't
 exactly the requested versions

If versions of the same label that somebody else created were in the same log
entry as requested ones, the response had no values and the user, assuming that
it describes the requested ones, rejected it.
---
 tree/transparency/update.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 41e723d..2894649 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -1,6 +1,7 @@
 package transparency
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"slices"
@@ -301,8 +302,9 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 }
 
 // infos returns the UpdateInfo structures for all of the versions inserted in
-// the log entry at `pos`. If `withValues` is true, it also returns the value
-// for each version.
+// the log entry at `pos`. It also returns the value for each version if
+// `withValues` is true, or if the versions inserted are not exactly the ones
+// that the user requested.
 func (u *updater) infos(pos uint64, withValues bool) ([]structs.LabelValue, []structs.UpdateInfo, error) {
 	var (
 		values []structs.LabelValue
@@ -314,15 +316,19 @@ func (u *updater) infos(pos uint64, withValues bool) ([]structs.LabelValue, []st
 		if err != nil {
 			return nil, nil, err
 		}
-		if withValues {
-			values = append(values, structs.LabelValue{Value: res.Value.Value})
-		}
+		values = append(values, structs.LabelValue{Value: res.Value.Value})
 		info = append(info, structs.UpdateInfo{
 			Opening:      res.Opening,
 			UpdateSuffix: res.Value.UpdateSuffix,
 		})
 	}
 
+	requested := slices.EqualFunc(values, u.values, func(a structs.LabelValue, b structs.UpdateValue) bool {
+		return bytes.Equal(a.Value, b.Value)
+	})
+	if !withValues && requested {
+		values = nil
+	}
 	return values, info, nil
 }
 
-- 
2.43.0

