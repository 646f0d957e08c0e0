From 2da7d2424a85ab7de470aec9bcaea0e4499f3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 01/12] fix: forget old sorted targets when a BatchProof is
 unserialised into again

Unserialize appended the new targets to whatever m_sorted_targets held, so
reusing a proof object left targets of the previous proof in it.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From 3c04f327f5646cd0a9bd15d7f49e34378dcfcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 02/12] fix: compute the expected length of an undo record
 without wrap-around

4 * n + 32 * n was computed in 32 bits, so a record with a huge deletion
count could pass the length check and be read out of bounds. A refused
record also no longer changes the addition count, and a default
constructed UndoBatch has one.
---
 include/batchproof.h | 2 +-
 src/batchproof.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..233d162 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -68,7 +68,7 @@ public:
         : m_num_additions(num_adds),
           m_deleted_positions(deleted_positions),
           m_deleted_hashes(deleted_hashes) {}
-    UndoBatch() {}
+    UndoBatch() : m_num_additions(0) {}
 
     void Serialize(std::vector<uint8_t>& bytes) const;
     bool Unserialize(const std::vector<uint8_t>& bytes);
diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e56dfc7 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -164,15 +164,16 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     int data_offset = 0;
-    m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
+    uint32_t num_additions = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
+    m_num_additions = num_additions;
     m_deleted_positions.clear();
     m_deleted_hashes.clear();
     m_deleted_positions.reserve(num_targets);
-- 
2.43.0


From cf8fc164f054fa84fe161d99eaf3e2859e5273d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/12] fix: use size_t for byte offsets into serialised proofs

An int overflows for proofs of 2 GiB and more.
---
 src/batchproof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index e56dfc7..382fe45 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -32,7 +32,7 @@ void BatchProof::Serialize(std::vector<uint8_t>& bytes) const
     // Proof hashes:           32 bytes each
     bytes.resize(4 + 4 + m_targets.size() * 4 + m_proof.size() * 32);
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_targets.size()));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_proof.size()));
@@ -56,7 +56,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     uint32_t num_targets = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_hashes = ReadBE32(bytes.data() + data_offset);
@@ -139,7 +139,7 @@ void UndoBatch::Serialize(std::vector<uint8_t>& bytes) const
     // del hashes: 32bytes * num dels
     bytes.resize(4 + 4 + 4 * m_deleted_positions.size() + 32 * m_deleted_hashes.size());
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_num_additions));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_deleted_positions.size()));
@@ -163,7 +163,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     uint32_t num_additions = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
-- 
2.43.0


From 715c41b0bc5893f71cf8ddcd81cbae957c758259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 04/12] fix: do not dereference a missing entry in
 ComparePositionMap

---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From f611cefece0a8a54be04c5fa0a5a06511f4a900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 05/12] fix: never consume a proof hash that was not supplied

A cached proof node with an all-zero hash matched the placeholder used for
missing proof hashes, which moved the iterator past the end of the proof and
rejected a valid proof.
---
 src/pollard.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..f8dc10a 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -508,11 +508,9 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() &&
+                              node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 03563ef03c6349a282ae00d53edea8d2dd534c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 06/12] fix: mark proven leaves as remembered only after the
 proof was accepted

A rejected proof left the remember marker on leaves that were cached before,
so NumCachedLeaves and later pruning changed.
---
 src/pollard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index f8dc10a..14d718f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -597,8 +597,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -699,6 +697,9 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    for (NodePtr<Pollard::Node>& proof_node : proof_tree) {
+        if (proof_node->IsTargetOrAncestor()) proof_node->m_sibling->m_nieces[0] = m_remember;
+    }
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From 39099f7420bdf63983f84df524155bcc72722a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 07/12] fix: forget leaf positions when a pollard is pruned

Stale entries let Prove produce proofs for leaves that have since moved.
---
 src/pollard.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 14d718f..44da0d4 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -352,6 +352,7 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From 708d34a2dc8779f15a51e28b9943e2c830c850d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/12] fix: notice I/O errors when a forest is saved or opened

Opening an empty or truncated file read an uninitialised leaf count or
hashes, and Commit reported success whatever happened to its writes.
---
 src/ram_forest.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..ee47bc6 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -105,12 +105,16 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
         // We can restore the forest from an existing file.
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary);
-        Restore();
+        if (!Restore()) {
+            throw std::runtime_error("RamForest::RamForest failed to restore the forest from " + file);
+        }
     } else {
         m_num_leaves = 0;
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
-        Commit();
+        if (!Commit()) {
+            throw std::runtime_error("RamForest::RamForest failed to write the forest to " + file);
+        }
     }
 }
 
@@ -129,7 +133,7 @@ bool RamForest::Restore()
     m_file.seekg(0);
 
     // restore number of leaves
-    m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!m_file.read(reinterpret_cast<char*>(uint64_buf), 8)) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -141,7 +145,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
@@ -181,7 +185,8 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    m_file.flush();
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From 1dc58576d12fa9e805528005cc85f5ffbb38c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/12] fix: do position and leaf count arithmetic in 64 bits

Counters and a shift of int type overflow in forests of 2^31 leaves and more.
---
 src/accumulator.cpp |  2 +-
 src/pollard.cpp     |  2 +-
 src/ram_forest.cpp  | 12 ++++++------
 src/state.cpp       |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index f1b7fc8..0d7bf81 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -258,7 +258,7 @@ bool Accumulator::Prove(BatchProof& proof, const std::vector<Hash>& target_hashe
     // Read proof hashes from the forest using the proof positions
     auto proof_positions = ForestState(m_num_leaves).ProofPositions(sorted_targets);
     std::vector<Hash> proof_hashes(proof_positions.first.size());
-    for (int i = 0; i < proof_hashes.size(); i++) {
+    for (uint64_t i = 0; i < proof_hashes.size(); i++) {
         std::optional<Hash> hash = Read(proof_positions.first[i]);
         if (!hash) return false;
 
diff --git a/src/pollard.cpp b/src/pollard.cpp
index 44da0d4..c992cae 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -701,7 +701,7 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     for (NodePtr<Pollard::Node>& proof_node : proof_tree) {
         if (proof_node->IsTargetOrAncestor()) proof_node->m_sibling->m_nieces[0] = m_remember;
     }
-    for (int i = 0; i < target_hashes.size(); i++) {
+    for (uint64_t i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
 
diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index ee47bc6..f9382c6 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -179,7 +179,7 @@ bool RamForest::Commit()
     uint64_t num_hashes = m_num_leaves;
     for (uint8_t i = 0; i <= state.NumRows(); ++i) {
         assert(num_hashes <= m_data[i].size());
-        for (int j = 0; j < num_hashes; ++j) {
+        for (uint64_t j = 0; j < num_hashes; ++j) {
             m_file.write(reinterpret_cast<const char*>(m_data[i][j].data()), 32);
         }
         num_hashes >>= 1;
@@ -239,7 +239,7 @@ NodePtr<Accumulator::Node> RamForest::SwapSubTrees(uint64_t from, uint64_t to)
     from = current_state.LeftDescendant(from, row);
     to = current_state.LeftDescendant(to, row);
 
-    for (uint64_t range = 1 << row; range != 0; range >>= 1) {
+    for (uint64_t range = 1ULL << row; range != 0; range >>= 1) {
         this->SwapRange(from, to, range);
         from = current_state.Parent(from);
         to = current_state.Parent(to);
@@ -370,8 +370,8 @@ bool RamForest::BuildUndoBatch(UndoBatch& undo, uint64_t num_adds, const std::ve
     ForestState prev_state(m_num_leaves + targets.size());
 
     std::vector<Hash> deleted_hashes;
-    for (int i = 0; i < targets.size(); ++i) {
-        uint64_t pos = m_num_leaves + static_cast<uint64_t>(i);
+    for (uint64_t i = 0; i < targets.size(); ++i) {
+        uint64_t pos = m_num_leaves + i;
         if (m_data.size() == 0 || pos >= m_data[0].size()) return false;
         deleted_hashes.push_back(Read(prev_state, pos).value());
     }
@@ -400,7 +400,7 @@ bool RamForest::Undo(const UndoBatch& undo)
     // Place all deleted hashes at the end of the bottom row.
     // After this the forest is in the same state as right after the deletion
     // in the previous modification.
-    int i = 0;
+    uint64_t i = 0;
     std::unordered_set<uint64_t> dirt_set;
     m_data[0].resize(prev_state.m_num_leaves);
     for (const Hash& hash : undo.GetDeletedHashes()) {
@@ -472,7 +472,7 @@ bool RamForest::Undo(const UndoBatch& undo)
     CHECK_SAFE(m_data[0].size() == m_posmap.size());
     CHECK_SAFE([](const std::unordered_map<Hash, uint64_t, LeafHasher>& posmap,
                   const std::vector<std::vector<Hash>>& data) {
-        int pos = 0;
+        uint64_t pos = 0;
         for (const Hash& hash : data[0]) {
             auto it = posmap.find(hash);
             if (it == posmap.end()) return false;
diff --git a/src/state.cpp b/src/state.cpp
index 7ef7d3d..4c632fd 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -173,7 +173,7 @@ ForestState::ProofPositions(const std::vector<uint64_t>& targets) const
         }
 
         while (start < end) {
-            int size = end - start;
+            int64_t size = end - start;
 
             // look at the first 4 targets
             if (size > 3 && this->Cousin(this->RightSibling(start[0])) ==
-- 
2.43.0


From d1ae1fd1b1e0fe490e745092fc62a2861786f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 10/12] fix: check an undo record completely before rolling
 anything back

Undo only noticed some mismatches after it had changed the forest, and did
not check the record's counts and positions at all.
---
 src/ram_forest.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index f9382c6..16e5dd0 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -384,15 +384,33 @@ bool RamForest::Undo(const UndoBatch& undo)
 {
     if (m_data.size() == 0) return true;
 
+    // Make sure that the undo data fits this forest before changing anything.
+    if (undo.GetDeletedHashes().size() != undo.GetDeletedPositions().size()) return false;
+    if (undo.GetNumAdds() > m_num_leaves) return false;
+
     ForestState prev_state(m_num_leaves + undo.GetDeletedPositions().size() - undo.GetNumAdds());
+    if (!prev_state.CheckTargetsSanity(undo.GetDeletedPositions())) return false;
+
+    // The added leaves have to be in the forest.
+    const uint64_t num_kept = m_num_leaves - undo.GetNumAdds();
+    for (uint64_t i = num_kept; i < m_num_leaves; ++i) {
+        if (m_posmap.find(Read(i).value()) == m_posmap.end()) return false;
+    }
+
+    // The deleted hashes have to be distinct and must not be in the forest,
+    // unless they were added again.
+    std::unordered_set<Hash, LeafHasher> deleted_hashes;
+    for (const Hash& hash : undo.GetDeletedHashes()) {
+        auto it = m_posmap.find(hash);
+        if (it != m_posmap.end() && it->second < num_kept) return false;
+        if (!deleted_hashes.insert(hash).second) return false;
+    }
 
     auto undo_swaps = prev_state.UndoTransform(undo.GetDeletedPositions());
 
     // Erase the added leaves from the position map.
     for (uint64_t i = m_num_leaves - undo.GetNumAdds(); i < m_num_leaves; ++i) {
-        const Hash hash = Read(i).value();
-        if (m_posmap.find(hash) == m_posmap.end()) return false;
-        m_posmap.erase(hash);
+        m_posmap.erase(Read(i).value());
     }
 
     m_num_leaves -= undo.GetNumAdds();
@@ -404,11 +422,7 @@ bool RamForest::Undo(const UndoBatch& undo)
     std::unordered_set<uint64_t> dirt_set;
     m_data[0].resize(prev_state.m_num_leaves);
     for (const Hash& hash : undo.GetDeletedHashes()) {
-        if ((m_num_leaves + i) >= m_data[0].size()) return false;
         m_data[0][m_num_leaves + i] = hash;
-
-        // Check that the hash is not already in the forest.
-        if (m_posmap.find(hash) != m_posmap.end()) return false;
         m_posmap[hash] = m_num_leaves + i;
         dirt_set.insert(m_num_leaves + i);
         ++i;
-- 
2.43.0


From 85df6f2f83222ed61890c3367a2e1264b7338245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 11/12] fix: create missing rows when a reopened forest is
 rolled back

A forest restored from disk has only the rows it needs; undoing the deletion
that shrank it indexed past the end of m_data.
---
 src/ram_forest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 16e5dd0..f5eb925 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -468,6 +468,7 @@ bool RamForest::Undo(const UndoBatch& undo)
     }
 
     for (uint8_t r = 1; r <= prev_state.NumRows(); ++r) {
+        if (r >= m_data.size()) m_data.push_back(std::vector<Hash>());
         m_data[r].resize(m_num_leaves >> r);
         std::vector<NodePtr<RamForest::Node>> next_dirt;
 
-- 
2.43.0


From d6faaa2c26d7017131d5bf686d220c9e0042ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 12/12] fix: keep a remembered leaf when its parent is rehashed

The mark of a remembered leaf is held by its sibling, so the leaf itself
can look like a dead end. Pruning it made it impossible to find when it
was moved by a later removal: its entry in the position map went stale and
Prove failed or returned a wrong proof.
---
 src/pollard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index c992cae..444fd19 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -731,6 +731,12 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // The sibling of a remembered leaf holds the mark, so the remembered leaf itself may look like a dead end.
+    // It has to be kept, or it can no longer be found when it is moved.
+    const bool leaf_children = ForestState(m_num_leaves).LeftChild(m_position) < m_num_leaves;
+    if (leaf_children && (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd())) return;
+
     m_sibling->Prune();
 }
 
-- 
2.43.0

