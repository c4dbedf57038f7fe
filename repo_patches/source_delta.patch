From e23a5f54ab4f22bfee3d9960d5d2608f9e237503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 01/41] fix: do not dereference missing client state when
 finishing first verification

---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..68a3fab 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 8f45b9d41f80b82a9316b9d665270ef420d96ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 02/41] fix: retain the previous auditor tree head when the
 tree head is unchanged

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 68a3fab..8598698 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -239,7 +239,7 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 		updated.AuditorTreeHead = v.fth.AuditorTreeHead
 	} else {
 		updated.TreeHead = v.state.TreeHead
-		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From eea0f12d419cbf0d65e5434f20d348c228cfffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 03/41] fix: accept tree heads that are larger than the
 advertised one, reject others

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 8598698..fc91b0c 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From 3ac4e19401115ee878d16ff8d764eb9b4c27ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 04/41] fix: produce proofs relative to the user's tree when
 the tree head is unchanged

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..b5e9516 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -112,7 +112,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
 		if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 5ac403a18f4a94ef9e9ec047b87ba3ca7da3f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 05/41] fix: include the rest of the frontier when updating the
 view from a full subtree

---
 tree/transparency/math/math.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..0ae7705 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -134,8 +134,18 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, RightDirectPath(*m-1, n)...)
 	}
 
-	for len(out) > 0 && out[len(out)-1] != n-1 {
-		out = append(out, Right(out[len(out)-1], n))
+	// Continue down the remainder of the frontier. If there was nothing in the
+	// right direct path of the previous rightmost log entry, then the previous
+	// rightmost log entry is itself on the frontier.
+	var x uint64
+	if len(out) > 0 {
+		x = out[len(out)-1]
+	} else {
+		x = *m - 1
+	}
+	for x != n-1 {
+		x = Right(x, n)
+		out = append(out, x)
 	}
 
 	return out
-- 
2.43.0


From aeca055300d8a9136c3446b4ac16ea2a33378186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 06/41] fix: provide every expected binary ladder step when a
 label does not exist

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index b5e9516..74cc96d 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -186,7 +186,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From 9574eb9b9a7bda43cacf83da3ff108a220cf5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 07/41] fix: persist the retained versions of owned labels

---
 tree/transparency/structs/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..c491463 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
-- 
2.43.0


From c357283f15dba73037147ad11bdf09b687f566e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 08/41] fix: serialize the owner's starting version with a
 fixed-size integer

---
 tree/transparency/structs/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index c491463..e9f3c6c 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[uint64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(int64(verAtStarting)),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, uint64(int64(los.VerAtStarting)))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
-- 
2.43.0


From 16640e9f78791f322ad64ff135d63d164fb29954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 09/41] fix: handle contact monitoring finishing with nothing
 left to monitor

---
 tree/transparency/algorithms/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..624da76 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,7 +24,12 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// Struct returns the serializable form of the contact monitoring state. `cs`
+// may be nil, which indicates that no further monitoring is required.
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil {
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From 9e2632a63c6c0bb40b9d89cd901ebdf1fd2960a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 10/41] fix: check repeated label versions for consistency
 instead of rejecting them

---
 tree/transparency/algorithms/proof_handle.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..281a438 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -93,8 +93,22 @@ func NewReceivedProofHandle(cs suites.CipherSuite, inner structs.CombinedTreePro
 }
 
 // AddVersion adds the VRF output and commitment corresponding to a version of a
-// label to the ReceivedProofHandle.
+// label to the ReceivedProofHandle. If the version was already added, the new
+// values must be consistent with the existing ones.
 func (rph *ReceivedProofHandle) AddVersion(ver uint32, vrfOutput, commitment []byte) error {
+	if existing, ok := rph.versions[ver]; ok {
+		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			return nil
+		} else if existing.Commitment != nil {
+			if !bytes.Equal(commitment, existing.Commitment) {
+				return errors.New("different commitments for same version found")
+			}
+			return nil
+		}
+		delete(rph.versions, ver)
+	}
 	return addVersion(rph.cs, rph.versions, ver, vrfOutput, commitment)
 }
 
-- 
2.43.0


From e0693577cffe00cdb0ae5695c5fd16121f82eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 11/41] fix: reject requests that advertise an empty tree
 instead of panicking

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 74cc96d..936bd8e 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user must be greater than zero")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From c6faf02ae3c9091c66fc08d5000a3eb0a62baaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 12/41] fix: compute binary ladders for large versions without
 overflowing

---
 tree/transparency/math/ladders.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..a595b73 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -2,6 +2,7 @@ package math
 
 import (
 	"errors"
+	gomath "math"
 
 	"github.com/Bren2010/katie/tree/prefix"
 )
@@ -10,16 +11,16 @@ func baseBinaryLadder(n uint32) []uint32 {
 	out := make([]uint32, 0)
 
 	for {
-		val := (uint32(1) << len(out)) - 1
+		val := uint32((uint64(1) << len(out)) - 1)
 		out = append(out, val)
-		if val > n {
+		if val > n || val == gomath.MaxUint32 {
 			break
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From f18391b4310c67e82422fa6859e2837dc2dace16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 13/41] fix: accept inclusion proofs for several versions

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 281a438..c88fb59 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -211,11 +211,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each requested version.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 959cb7d945491cbd3a83ae43ee2fda9534323d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 14/41] fix: do not report success when finding the rightmost
 distinguished entry fails

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From dde5f80f553d912c2b4df31dc0bdc69afe3fd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 15/41] fix: check the commitment when a leaf was already
 placed by another lookup

---
 tree/prefix/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..205053d 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -39,6 +39,8 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
+			} else if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				return errors.New("malformed proof")
 			}
 			return nil
 
-- 
2.43.0


From a22a659cd567a84f131f949a233d089d92327dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 16/41] fix: reject non-inclusion proofs that present the
 searched leaf itself

---
 tree/prefix/verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 205053d..90c089e 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -57,6 +57,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
 				*n = terminalNode(entry, res)
+				if m, ok := (*n).(leafNode); ok && res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
+					return errors.New("malformed proof")
+				}
 				return nil
 			} else {
 				*n = &parentNode{left: externalNode{}, right: externalNode{}}
-- 
2.43.0


From b072614dd63fd4a3e301c27bc2c6edd7e4426b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 17/41] fix: load the root of the prefix tree when nothing is
 searched for or mutated

---
 tree/prefix/batch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..f3ee8d7 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -74,6 +74,11 @@ func (b *batch) initialize(searches map[uint64][][]byte) (map[uint64]*tile, map[
 		for _, vrfOutput := range vrfOutputs {
 			cursors = append(cursors, cursor{vrfOutput: vrfOutput, depth: 0})
 		}
+		if len(cursors) == 0 {
+			// Nothing is being searched for but the root still needs to be
+			// loaded to know its hash.
+			cursors = append(cursors, cursor{vrfOutput: make([]byte, b.cs.HashSize()), depth: 0})
+		}
 		state[&out.root] = cursors
 	}
 
@@ -172,7 +177,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
-- 
2.43.0


From a6ccd2aa404f44a797fae9739c05cf0fc4060bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 18/41] fix: allow an entry to be removed and added again in
 the same auditor update

---
 tree/prefix/verify.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 90c089e..09b2d5f 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -159,12 +159,33 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
+	// hash in the straightforward way. An entry that's being both removed and
+	// added again is only evaluated with the commitment that's being removed.
+	if len(proof.Results) != len(add)+len(remove) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+	removed := make(map[string]PrefixSearchResult, len(remove))
+	for i, entry := range remove {
+		removed[string(entry.VrfOutput)] = proof.Results[len(add)+i]
+	}
+
+	allEntries := make([]Entry, 0, len(add)+len(remove))
+	combined := &PrefixProof{Elements: proof.Elements}
+	for i, entry := range add {
+		res := proof.Results[i]
+		if other, ok := removed[string(entry.VrfOutput)]; ok {
+			if !res.Inclusion() || !other.Inclusion() || res.Depth() != other.Depth() {
+				return nil, nil, errors.New("malformed proof")
+			}
+			continue
+		}
+		allEntries = append(allEntries, entry)
+		combined.Results = append(combined.Results, res)
+	}
+	allEntries = append(allEntries, remove...)
+	combined.Results = append(combined.Results, proof.Results[len(add):]...)
 
-	root, err := evaluate(cs, allEntries, proof)
+	root, err := evaluate(cs, allEntries, combined)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 32dd30ebbbac27a7ac688a238f9ee2b0e01b7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 19/41] fix: recognize empty copath nodes when simplifying the
 tree after a removal

---
 tree/prefix/verify.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 09b2d5f..76a3ed5 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -73,18 +73,18 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 
 // fillInCopath populates all of the empty copath nodes in `n` with `elements`
 // in left-to-right order.
-func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
+func fillInCopath(cs suites.CipherSuite, n *node, elements [][]byte) ([][]byte, error) {
 	switch m := (*n).(type) {
 	case emptyNode, leafNode:
 		return elements, nil
 
 	case *parentNode:
 		var err error
-		elements, err = fillInCopath(&m.left, elements)
+		elements, err = fillInCopath(cs, &m.left, elements)
 		if err != nil {
 			return nil, err
 		}
-		elements, err = fillInCopath(&m.right, elements)
+		elements, err = fillInCopath(cs, &m.right, elements)
 		if err != nil {
 			return nil, err
 		}
@@ -94,7 +94,11 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 		if len(elements) == 0 {
 			return nil, errors.New("wrong number of copath nodes provided")
 		}
-		*n = externalNode{hash: elements[0]}
+		if bytes.Equal(elements[0], emptyNode{}.Hash(cs)) {
+			*n = emptyNode{}
+		} else {
+			*n = externalNode{hash: elements[0]}
+		}
 		return elements[1:], nil
 
 	default:
@@ -125,7 +129,7 @@ func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node,
 			return nil, err
 		}
 	}
-	elements, err := fillInCopath(&root, proof.Elements)
+	elements, err := fillInCopath(cs, &root, proof.Elements)
 	if err != nil {
 		return nil, err
 	} else if len(elements) != 0 {
-- 
2.43.0


From 0d96fca680f85f723362646b595018855d0a76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 20/41] fix: keep tracking recently inserted entries across
 auditor updates

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 9dbb841daa227b012d7d2702cec2c0c3814f6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 21/41] fix: verify that the first auditor update starts from
 an empty prefix tree

---
 tree/transparency/auditor/auditor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..e8c9f3a 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -231,7 +231,12 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	}
+	expected := make([]byte, a.config.Suite.HashSize()) // Root hash of an empty prefix tree.
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
+	if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From ab047d0d0a23aa62174e16852a3c2205da5d139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 22/41] fix: only consider the auditor tree head committed once
 it is persisted

---
 tree/transparency/auditor/auditor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index e8c9f3a..274dc39 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -268,18 +268,20 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signed := *a.state
+	signed.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
 
 	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	raw, err := signed.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &signed
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From b18b11215288413987d1dbfa05d8162ad5d8fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 23/41] fix: do not leave database writes pending when a
 mutation is rejected

---
 tree/transparency/crypto.go | 18 +++++++--------
 tree/transparency/mutate.go | 44 +++++++++++++++++++++++--------------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..a2d81f3 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -91,18 +91,18 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// putVersion generates a new commitment opening for setting the given
+// label-version pair to the given value. It returns the new commitment and a
+// function that makes the corresponding database write.
+func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, func() error, error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
+	// Serialize opening and UpdateValue structure.
 	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
+	write := func() error { return t.tx.PutVersion(label, ver, labelValue) }
 
 	// Serialize the data that will be committed to and compute the commitment.
 	commitmentValue, err := structs.Marshal(&structs.CommitmentValue{
@@ -111,9 +111,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return commitments.Commit(t.config.Suite, opening, commitmentValue), write, nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..0ed0907 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -58,9 +58,10 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+		writes       []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, err := t.mutateLabel(n, prevDLE, mutation, &writes)
 		if err != nil {
 			return nil, err
 		}
@@ -83,7 +84,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	}
 
 	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
 		return nil, err
 	}
 
@@ -158,7 +159,16 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 
 // mutateLabel performs the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+//
+// The database writes that are necessary are appended to `writes`, and must
+// only be made once the mutation can no longer be rejected. Otherwise, writes
+// made by a rejected mutation would be committed by the next one.
+func (t *Tree) mutateLabel(
+	n uint64,
+	prevDLE *uint64,
+	mut labelMutation,
+	writes *[]func() error,
+) ([]prefix.Entry, [][]byte, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
@@ -174,15 +184,11 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		*writes = append(*writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			*writes = append(*writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
 				return nil, nil, err
@@ -200,18 +206,17 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		if err != nil {
 			return nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		commitment, write, err := t.putVersion(pair.Label, ver, pair.Value)
 		if err != nil {
 			return nil, nil, err
 		}
+		*writes = append(*writes, write)
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		*writes = append(*writes, func() error { return t.putIndex(mut.add[0].Label, index) })
 	}
 
 	return add, remove, nil
@@ -219,8 +224,9 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree, makes the given database writes, and then signs and
+// commits a new tree head.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -265,7 +271,13 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 9644ecdc9c63dd848ba4e42c9e1bb373bd326a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 24/41] fix: commit the tree head in the same batch as the rest
 of the changes

---
 db/leveldb.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..d83ac20 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -54,9 +54,7 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +63,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From 4eceddd4336528ef3fbb0e038e0c5eeef2d1dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 25/41] fix: start counting versions of managed labels from
 zero

---
 db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..6a029d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -229,9 +229,9 @@ func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (i
 	labelStr := fmt.Sprintf("%x", label)
 
 	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
 	if !ok {
-		return -1, nil
+		ver = -1
 	}
+	mls.Data[labelStr] = ver + count
 	return ver, nil
 }
-- 
2.43.0


From 741b495ab993fa36d357cdee00624c4a482dbad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 26/41] fix: ignore label versions that are newer than the tree
 head being operated on

---
 tree/transparency/crypto.go | 8 ++++++++
 tree/transparency/update.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index a2d81f3..09c770a 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -13,6 +13,9 @@ import (
 // batchGetIndex returns the index (the list of log entries where each new
 // version was added) of each of the given labels.
 //
+// The database may already contain log entries that are newer than the tree
+// head that's being operated on. Versions created in them are left out.
+//
 // The index is stored as an encoded series of uvarints. For compression, only
 // the difference between each subsequent entry is stored.
 func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
@@ -40,6 +43,11 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 		for i := 1; i < len(index); i++ {
 			index[i] += index[i-1]
 		}
+		if t.treeHead != nil {
+			for len(index) > 0 && index[len(index)-1] >= t.treeHead.TreeSize {
+				index = index[:len(index)-1]
+			}
+		}
 
 		out[i] = index
 	}
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..f6db367 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -326,7 +326,7 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	indices, err := tree.batchGetIndex([][]byte{u.label})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cc1d83a3a178cf63cc8acdb6489d0140b48ebf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 27/41] fix: require an auditor tree head exactly when
 third-party auditing is used

---
 tree/transparency/client_crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index fc91b0c..e0a5842 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -33,6 +33,14 @@ func newVerifier(
 	fth structs.FullTreeHead,
 	proof structs.CombinedTreeProof,
 ) (*verifier, error) {
+	// Verify that an auditor tree head is provided exactly when required.
+	auditorRequired := config.Mode == structs.ThirdPartyAuditing && fth.TreeHead != nil
+	if auditorRequired && fth.AuditorTreeHead == nil {
+		return nil, errors.New("no auditor tree head was provided when required")
+	} else if !auditorRequired && fth.AuditorTreeHead != nil {
+		return nil, errors.New("auditor tree head provided when not expected")
+	}
+
 	// Set up ProofHandle and DataProvider.
 	handle := algorithms.NewReceivedProofHandle(config.Suite, proof)
 	provider := algorithms.NewDataProvider(config.Suite, handle)
-- 
2.43.0


From 32a6ccf1ce885a0d095a1ea51746359bc8f20ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 28/41] fix: remove all redundant entries when simplifying the
 monitoring map

---
 tree/transparency/client_crypto.go | 40 +++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index e0a5842..56a04f9 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/log"
@@ -353,22 +354,33 @@ func computeCommitment(
 
 // simplifyMonitoringMap removes any redundant entries from the map `ptrs`.
 func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
-	for {
-		modified := false
-
-		for pos, ver := range ptrs {
-			path := math.RightDirectPath(pos, n)
-			if len(path) == 0 {
-				continue
-			} else if parent, ok := ptrs[path[0]]; !ok || parent < ver {
-				continue
-			}
-			delete(ptrs, pos)
-			modified = true
+	positions := make([]uint64, 0, len(ptrs))
+	for pos := range ptrs {
+		positions = append(positions, pos)
+	}
+	slices.Sort(positions)
+
+	for _, pos := range positions {
+		path := math.RightDirectPath(pos, n)
+		if len(path) == 0 {
+			continue
+		} else if parent, ok := ptrs[path[0]]; !ok || parent < ptrs[pos] {
+			continue
 		}
+		delete(ptrs, pos)
+	}
 
-		if !modified {
-			return
+	// If an entry will be reached by monitoring another entry to its left, for
+	// the same or a greater version, then it doesn't need to be monitored.
+	for _, pos := range positions {
+		ver, ok := ptrs[pos]
+		if !ok {
+			continue
+		}
+		for _, parent := range math.RightDirectPath(pos, n) {
+			if parentVer, ok := ptrs[parent]; ok && parentVer <= ver {
+				delete(ptrs, parent)
+			}
 		}
 	}
 }
-- 
2.43.0


From fc39be2979091e50cb3aa73e82a899e223d47361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 29/41] fix: reject responses to requests that were based on
 outdated client state

---
 tree/transparency/client.go | 49 +++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..7736fe2 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -86,6 +86,45 @@ func (c *Client) getStaleLabel(cutoff uint64) ([]byte, *structs.ClientLabelState
 	return label, state, nil
 }
 
+// checkState returns an error if the stored state is no longer `state`, which
+// is the state that the request being processed was based on.
+func (c *Client) checkState(state *structs.ClientState) error {
+	current, err := c.getState()
+	if err != nil {
+		return err
+	} else if (current == nil) != (state == nil) ||
+		current != nil && current.TreeHead.TreeSize != state.TreeHead.TreeSize {
+		return errors.New("client state changed while request was outstanding")
+	}
+	return nil
+}
+
+// checkLabelState does the same as checkState, but for the state of a label.
+func (c *Client) checkLabelState(
+	state *structs.ClientState,
+	label []byte,
+	labelState *structs.ClientLabelState,
+) error {
+	if err := c.checkState(state); err != nil {
+		return err
+	}
+	current, err := c.getLabelState(label)
+	if err != nil {
+		return err
+	}
+	currentRaw, err := structs.Marshal(current)
+	if err != nil {
+		return err
+	}
+	labelRaw, err := structs.Marshal(labelState)
+	if err != nil {
+		return err
+	} else if !bytes.Equal(currentRaw, labelRaw) {
+		return errors.New("label state changed while request was outstanding")
+	}
+	return nil
+}
+
 func (c *Client) putState(updated *structs.ClientState) error {
 	raw, err := structs.Marshal(updated)
 	if err != nil {
@@ -202,6 +241,8 @@ func (c *Client) search(
 		updated, err := v.finish()
 		if err != nil {
 			return err
+		} else if err := c.checkState(state); err != nil {
+			return err
 		}
 
 		// Try to bail out early by updating only the global state.
@@ -303,6 +344,8 @@ func (c *Client) ownerInit(
 		updated, err := v.finish()
 		if err != nil {
 			return err
+		} else if err := c.checkLabelState(state, req.Label, labelState); err != nil {
+			return err
 		}
 
 		// Update the global and label-specific state.
@@ -395,6 +438,8 @@ func (c *Client) contactMonitor(
 		updated, err := v.finish()
 		if err != nil {
 			return err
+		} else if err := c.checkLabelState(state, req.Label, labelState); err != nil {
+			return err
 		}
 
 		// Update the global and label-specific state.
@@ -448,6 +493,8 @@ func (c *Client) ownerMonitor(
 		updated, err := v.finish()
 		if err != nil {
 			return err
+		} else if err := c.checkLabelState(state, req.Label, labelState); err != nil {
+			return err
 		}
 
 		// Update the global and label-specific state.
@@ -598,6 +645,8 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	updated, err := v.finish()
 	if err != nil {
 		return err
+	} else if err := sv.client.checkLabelState(sv.state, sv.req.Label, sv.labelState); err != nil {
+		return err
 	}
 
 	// Update the global and label-specific state.
-- 
2.43.0


From e71e0595d1bdf67b04dd3e0b943c21813f4f7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 30/41] fix: track owned versions when streaming the response
 to an update

---
 tree/transparency/client.go | 18 ++++++++++++++++++
 tree/transparency/update.go | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 7736fe2..0a070f9 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	"slices"
 
 	"github.com/Bren2010/katie/db"
 	"github.com/Bren2010/katie/tree/transparency/algorithms"
@@ -611,6 +612,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
@@ -629,6 +633,20 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
+	// Add the commitments for new versions whose VRF output was already retained
+	// and so isn't in the binary ladder.
+	for ver, commitment := range commitments {
+		if slices.Contains(ladder, ver) {
+			continue
+		}
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("vrf output not known for new version of label")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
+
 	// Verify the proof.
 	if err := v.updateView(); err != nil {
 		return err
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index f6db367..2b6850f 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -261,9 +261,22 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
 	if err != nil {
 		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	}
+	monitor.Owner = &algorithms.OwnerState{
+		VerAtStarting: -1,
+		UpcomingVers:  slices.Clone(u.index[:u.ver-len(info)]),
+	}
+	if err := monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
+	for ver := range handle.RequiredVersions() {
+		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
+		if err != nil {
+			return nil, err
+		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
+			return nil, err
+		}
+	}
 	proof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b80a79798b36bd3afce3b5fc8fd2dd3f693c2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 31/41] fix: do not allocate memory for a value before checking
 that it is present

---
 tree/transparency/structs/structs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..649059a 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -91,6 +91,9 @@ func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
-- 
2.43.0


From d94388b899cff4416d5f41ebeb7454c1f3426eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 32/41] fix: retain label versions in a deterministic order

---
 tree/transparency/client_crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 56a04f9..13d8d6d 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -2,6 +2,7 @@ package transparency
 
 import (
 	"bytes"
+	"cmp"
 	"errors"
 	"slices"
 
@@ -456,6 +457,9 @@ func updateRetainedVersions(
 			Commitment: entry.Commitment,
 		})
 	}
+	slices.SortFunc(retained, func(a, b structs.RetainedVersion) int {
+		return cmp.Compare(a.Version, b.Version)
+	})
 	state.Versions = retained
 
 	return nil
-- 
2.43.0


From c28d21cf735d9d68b32ab22182c45ca8b6c564f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 33/41] fix: serialize search responses for absent versions
 under third-party management

---
 tree/transparency/crypto.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 09c770a..ff997ee 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -83,11 +83,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	if err != nil {
 		return nil, err
 	} else if raw == nil {
-		// Returning a zero value for the commitment opening ensures that the
-		// SearchResponse doesn't end up getting serialized wrong when a search
-		// produces a non-inclusion proof.
+		// Returning a zero value for the commitment opening (and an empty
+		// signature, where one is expected) ensures that the SearchResponse
+		// doesn't end up getting serialized wrong when a search produces a
+		// non-inclusion proof.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = make([]byte, 0)
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 80b82319376d2ef6395b0edcb2441fbe4fbacd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 34/41] fix: refuse leaves in prefix proofs that are not where
 their VRF output leads

---
 tree/prefix/verify.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 76a3ed5..0b90bfd 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -57,8 +57,15 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
 				*n = terminalNode(entry, res)
-				if m, ok := (*n).(leafNode); ok && res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
-					return errors.New("malformed proof")
+				if m, ok := (*n).(leafNode); ok {
+					if res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
+						return errors.New("malformed proof")
+					}
+					for i := range depth { // Leaf must be where its VRF output leads.
+						if getBit(entry.VrfOutput, i) != getBit(m.vrfOutput, i) {
+							return errors.New("malformed proof")
+						}
+					}
 				}
 				return nil
 			} else {
-- 
2.43.0


From ed6a0a9529128f4c05d2873f5cf35b0c9aa0366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 35/41] fix: refuse commitments for versions that were not
 shown to exist

---
 tree/transparency/algorithms/proof_handle.go | 14 ++++++++++++++
 tree/transparency/client.go                  | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index c88fb59..632c6c8 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -80,6 +80,7 @@ type ReceivedProofHandle struct {
 	inner structs.CombinedTreeProof
 
 	versions map[uint32]prefix.Entry
+	included map[uint32]struct{}
 	tracker  math.VersionTracker
 }
 
@@ -89,6 +90,7 @@ func NewReceivedProofHandle(cs suites.CipherSuite, inner structs.CombinedTreePro
 		inner: inner,
 
 		versions: make(map[uint32]prefix.Entry),
+		included: make(map[uint32]struct{}),
 	}
 }
 
@@ -117,6 +119,13 @@ func (rph *ReceivedProofHandle) GetVersion(ver uint32) (prefix.Entry, bool) {
 	return entry, ok
 }
 
+// Included returns true if any of the prefix proofs consumed so far showed that
+// the given version exists.
+func (rph *ReceivedProofHandle) Included(ver uint32) bool {
+	_, ok := rph.included[ver]
+	return ok
+}
+
 func (rph *ReceivedProofHandle) GetTimestamp(x uint64) (uint64, error) {
 	if len(rph.inner.Timestamps) == 0 {
 		return 0, errors.New("unexpected number of timestamps consumed")
@@ -162,6 +171,11 @@ func (rph *ReceivedProofHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit
 
 	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
 	rph.tracker.AddResults(x, omit, ladder, proof.Results)
+	for i, result := range proof.Results {
+		if result.Inclusion() {
+			rph.included[ladder[i]] = struct{}{}
+		}
+	}
 	return root, res, nil
 }
 
diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 0a070f9..9c6e716 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -242,7 +242,17 @@ func (c *Client) search(
 		updated, err := v.finish()
 		if err != nil {
 			return err
-		} else if err := c.checkState(state); err != nil {
+		}
+
+		// Verify that no commitment is provided for a version that wasn't shown
+		// to exist.
+		for i, ver := range ladder {
+			if res.BinaryLadder[i].Commitment != nil && !v.handle.Included(ver) {
+				return errors.New("commitment provided when not expected")
+			}
+		}
+
+		if err := c.checkState(state); err != nil {
 			return err
 		}
 
@@ -328,6 +338,10 @@ func (c *Client) ownerInit(
 			if ok && res.BinaryLadder[i].Commitment == nil {
 				return errors.New("commitment not provided when expected")
 			}
+			exists := len(res.GreatestVersions) > 0 && ver <= res.GreatestVersions[0]
+			if !exists && res.BinaryLadder[i].Commitment != nil {
+				return errors.New("commitment provided when not expected")
+			}
 		}
 
 		// Verify the proof.
-- 
2.43.0


From 68901efd8c0dbd14dd756159bbde2852e0fa2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 36/41] fix: drop the pending writes when a LevelDB commit
 fails

---
 db/db.go      | 3 ++-
 db/leveldb.go | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/db/db.go b/db/db.go
index 4f25017..170b7c5 100644
--- a/db/db.go
+++ b/db/db.go
@@ -43,7 +43,8 @@ type TransparencyStore interface {
 	PrefixStore() PrefixStore
 
 	// Commit writes all pending changes to the database and returns nil on
-	// success. The TransparencyStore should no longer be used after calling.
+	// success. If it returns an error, the pending changes are dropped. The
+	// TransparencyStore should no longer be used after calling.
 	Commit() error
 }
 
diff --git a/db/leveldb.go b/db/leveldb.go
index d83ac20..213e9ea 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -60,12 +60,12 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
-		return err
-	}
 
+	// The pending changes are dropped even if they couldn't be written. What
+	// they belonged to has failed, and they must not be read or be committed
+	// with something else later.
 	c.batch = make(map[string][]byte)
-	return nil
+	return c.conn.Write(b, nil)
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From 87bc4cd79085b03fb7d24eb769d19073996f7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 37/41] fix: do not allocate memory for lists before checking
 that they can be present

---
 tree/transparency/structs/structs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 649059a..cadf578 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -115,6 +115,9 @@ func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([][]byte, size)
 	for i := range int(size) {
 		elem := make([]byte, n)
@@ -142,6 +145,9 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		val, err := readNumeric[T](buf)
@@ -176,6 +182,9 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		elem, err := newF(buf)
-- 
2.43.0


From a3dde61904b165cb21a7fda42f2257544172e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 38/41] fix: refuse manager updates to a log that is not under
 third-party management

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 2b6850f..5046e5d 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -115,6 +115,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("transparency log is not configured with third party manager")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From f547880f709540710ef559ed533fbc69cfb931c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 39/41] fix: make the in-memory counter of managed labels
 atomic

---
 db/memory/memory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 6a029d4..400cf88 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -4,6 +4,7 @@ package memory
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/Bren2010/katie/db"
 )
@@ -219,6 +220,8 @@ func (as *AuditorStore) PutState(raw []byte) error {
 
 type ManagedLogStore struct {
 	Data map[string]int
+
+	mu sync.Mutex // mu makes IncrementGreatestVersion atomic.
 }
 
 func NewManagedLogStore() *ManagedLogStore {
@@ -228,6 +231,9 @@ func NewManagedLogStore() *ManagedLogStore {
 func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
 	labelStr := fmt.Sprintf("%x", label)
 
+	mls.mu.Lock()
+	defer mls.mu.Unlock()
+
 	ver, ok := mls.Data[labelStr]
 	if !ok {
 		ver = -1
-- 
2.43.0


From 235c38a13a370fb9f7a981d531d11a7055ee5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 40/41] fix: show all versions that monitoring involves when a
 fixed version is found

The binary ladders of a fixed-version search may end before they get to all
versions in the monitoring binary ladder of the target version. The commitments
of the others were then not provided, and a contact was unable to ever verify a
response to its monitoring requests.
---
 tree/transparency/algorithms/proof_handle.go | 3 +++
 tree/transparency/algorithms/search.go       | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 632c6c8..d1c0c6c 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -252,6 +252,9 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 
 	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
+	for _, ver := range vers {
+		rph.included[ver] = struct{}{}
+	}
 	return root, nil
 }
 
diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index b7baeb4..d20d16d 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -96,7 +96,13 @@ func FixedVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, prov
 				return 0, ErrLabelExpired
 			}
 		} // Otherwise, look up the target version specifically.
-		if err := provider.GetInclusionProof(terminalPos, []uint32{ver}); err != nil {
+		vers := []uint32{ver}
+		if config.Mode == structs.ContactMonitoring {
+			// The binary ladders above may have ended before getting to all of
+			// the versions that monitoring the target version will involve.
+			vers = math.MonitoringBinaryLadder(ver)
+		}
+		if err := provider.GetInclusionProof(terminalPos, vers); err != nil {
 			return 0, err
 		}
 		return terminalPos, nil
-- 
2.43.0


From 99b30437ef4858be5211540f68ad6e05abf856d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 41/41] fix: wait until a LevelDB commit has reached the disk

---
 db/leveldb.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 213e9ea..9f8c231 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
+	"github.com/syndtr/goleveldb/leveldb/opt"
 )
 
 const leveldbTreeHeadKey = "tree-head"
@@ -65,7 +66,11 @@ func (c *ldbConn) Commit() error {
 	// they belonged to has failed, and they must not be read or be committed
 	// with something else later.
 	c.batch = make(map[string][]byte)
-	return c.conn.Write(b, nil)
+
+	// The write must have reached the disk before it's acknowledged. If it were
+	// lost when the machine stops, then the tree head that it contained may have
+	// been shown to users already, and a different one would be signed later.
+	return c.conn.Write(b, &opt.WriteOptions{Sync: true})
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0

