From 62f88a9b6cb50b850df8fe73beb81d8bd01d9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 01/32] fix: distanceToNextSetBit stops at the last bit instead
 of reading past it or counting padding bits

---
 include/bitvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..e2ff7b6 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -81,6 +81,10 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     position_t word_id = (pos + 1) / kWordSize;
     position_t offset = (pos + 1) % kWordSize;
 
+    // no bits left after pos
+    if (word_id >= numWords())
+	return (num_bits_ - pos);
+
     //first word left-over bits
     word_t test_bits = bits_[word_id] << offset;
     if (test_bits > 0) {
@@ -98,7 +102,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    return (num_bits_ - pos);
 }
 
 position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
-- 
2.43.0


From 67aab93e8a247e66a6209a901426f58d380d1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 02/32] fix: readBit, rank and select stay inside the bit
 vector for the one-past-the-end arguments they accept

---
 include/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index e2ff7b6..28a2a12 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -69,6 +69,8 @@ protected:
 
 bool Bitvector::readBit (const position_t pos) const {
     assert(pos <= num_bits_);
+    if (pos == num_bits_)
+	return false;
     position_t word_id = pos / kWordSize;
     position_t offset = pos & (kWordSize - 1);
     return bits_[word_id] & (kMsbMask >> offset);
-- 
2.43.0


From 92ccbb492d968ee9d62a1a8ed5716ae587549a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 03/32] fix: give built and restored label vectors the same
 small padding for 16-byte loads (was quadratic, or none)

---
 include/label_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..e663d83 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -24,7 +24,8 @@ public:
 	    num_bytes_ += labels_per_level[level].size();
 
 	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
+	// simdSearch loads 16 bytes at a time
+	position_t alloc_bytes = num_bytes_ + 16;
 	labels_ = new label_t[alloc_bytes];
 	for (position_t i = 0; i < alloc_bytes; i++)
 	  labels_[i] = 0;
@@ -85,7 +86,8 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->labels_ = new label_t[lv->num_bytes_ + 16];
+	memset(lv->labels_ + lv->num_bytes_, 0, 16);
 	memcpy(lv->labels_, src, lv->num_bytes_);
 	src += lv->num_bytes_;
 	
-- 
2.43.0


From 8a8c2ae5d4b198a3e7db371c5148c27bb1795fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 04/32] fix: shifts by negative or full-word amounts when
 reading and building suffixes

---
 include/suffix.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..e2bb95f 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -34,9 +34,9 @@ public:
     }
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
-	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
+	word_t suffix = suffixHash(key) >> kHashShift;
+	if (len < kWordSize)
+	    suffix &= (((word_t)1 << len) - 1);
 	return suffix;
     }
 
@@ -94,6 +94,8 @@ public:
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+        if (real_suffix_len >= kWordSize)
+            return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
@@ -197,7 +199,7 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
-- 
2.43.0


From b4a5a758f90d8973e67ba538f7820eadd5fd4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 05/32] fix: storeSuffix shifted by the word size when no
 suffixes are configured

---
 include/surf_builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..1029bbc 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) { // nothing to store
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From cff108a911c4007e70218d2997587dabf40fb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 06/32] fix: range queries missed keys without suffix bits and
 ranges ending inside the suffix

---
 include/suffix.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index e2bb95f..9508945 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -254,13 +254,19 @@ int BitvectorSuffix::compare(const position_t idx,
 	return kCouldBePositive;
 
     word_t stored_suffix = read(idx);
-    word_t querying_suffix = constructRealSuffix(key, level, real_suffix_len_);
     if (type_ == kMixed)
         stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
-
-    if ((stored_suffix == 0) && (querying_suffix == 0))
+    // no suffix info for the stored key
+    if (stored_suffix == 0)
 	return kCouldBePositive;
-    else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
+
+    // a querying key too short to fill the suffix is extended with 0's
+    std::string padded_key(key);
+    if (padded_key.length() < level + (real_suffix_len_ + 7) / 8)
+	padded_key.resize(level + (real_suffix_len_ + 7) / 8, 0);
+    word_t querying_suffix = constructRealSuffix(padded_key, level, real_suffix_len_);
+
+    if (stored_suffix < querying_suffix)
 	return -1;
     else if (stored_suffix == querying_suffix) 
 	return kCouldBePositive;
-- 
2.43.0


From 149be68096c80d8ef871533117f5c4177253557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 07/32] fix: do not touch the word past the end when
 concatenated levels fill the last word exactly

---
 include/bitvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 28a2a12..34aa92f 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -168,7 +168,8 @@ void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& b
 		bit_shift += bits_remain;
 	    } else {
 		word_id++;
-		bits_[word_id] |= (last_word << (kWordSize - bit_shift));
+		if (bit_shift + bits_remain > kWordSize)
+		    bits_[word_id] |= (last_word << (kWordSize - bit_shift));
 		bit_shift = bit_shift + bits_remain - kWordSize;
 	    }
 	}
-- 
2.43.0


From 3232b00e4ebfd8f1e295681f9c8fe0b3fa2a03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 08/32] fix: rank and select stay inside the bit vector for the
 one-past-the-end arguments they accept

---
 include/rank.hpp   | 5 +++++
 include/select.hpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/include/rank.hpp b/include/rank.hpp
index dd4e4c8..18d7f63 100644
--- a/include/rank.hpp
+++ b/include/rank.hpp
@@ -32,6 +32,11 @@ public:
     // E.g., for bitvector: 100101000, rank(3) = 2
     position_t rank(position_t pos) const {
         assert(pos <= num_bits_);
+        if (pos == num_bits_) { // there is no bit at pos
+            if (pos == 0)
+                return 0;
+            pos--;
+        }
         position_t word_per_basic_block = basic_block_size_ / kWordSize;
         position_t block_id = pos / basic_block_size_;
         position_t offset = pos & (basic_block_size_ - 1);
diff --git a/include/select.hpp b/include/select.hpp
index bc457c8..865e18e 100644
--- a/include/select.hpp
+++ b/include/select.hpp
@@ -34,6 +34,8 @@ public:
     position_t select(position_t rank) const {
 	assert(rank > 0);
 	assert(rank <= num_ones_ + 1);
+	if (rank > num_ones_)
+	    return num_bits_;
 	position_t lut_idx = rank / sample_interval_;
 	position_t rank_left = rank % sample_interval_;
 	// The first slot in select_lut_ stores the position of the first 1 bit.
-- 
2.43.0


From cb4f0c269288f19cd4c049798ea74574493ed209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 09/32] fix: alignment padding in serialized images was
 uninitialized memory

---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..7dcf7d8 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -98,7 +98,7 @@ public:
 
     char* serialize() const {
 	uint64_t size = serializedSize();
-	char* data = new char[size];
+	char* data = new char[size]();
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From 89908fa1c08d61c8b841abe82502a3eddc7d8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 10/32] fix: destroy() leaked the trie objects, their vectors
 and the dense level cuts

---
 include/louds_dense.hpp  | 5 +++++
 include/louds_sparse.hpp | 4 ++++
 include/surf.hpp         | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..30fcefe 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -131,10 +131,15 @@ public:
     }
 
     void destroy() {
+	delete[] level_cuts_;
 	label_bitmaps_->destroy();
 	child_indicator_bitmaps_->destroy();
 	prefixkey_indicator_bits_->destroy();
 	suffixes_->destroy();
+	delete label_bitmaps_;
+	delete child_indicator_bitmaps_;
+	delete prefixkey_indicator_bits_;
+	delete suffixes_;
     }
 
 private:
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..18d0a17 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -132,6 +132,10 @@ public:
 	child_indicator_bits_->destroy();
 	louds_bits_->destroy();
 	suffixes_->destroy();
+	delete labels_;
+	delete child_indicator_bits_;
+	delete louds_bits_;
+	delete suffixes_;
     }
 
 private:
diff --git a/include/surf.hpp b/include/surf.hpp
index 7dcf7d8..aeb5cd8 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -117,6 +117,8 @@ public:
     void destroy() {
 	louds_dense_->destroy();
 	louds_sparse_->destroy();
+	delete louds_dense_;
+	delete louds_sparse_;
     }
 
 private:
-- 
2.43.0


From 7f6607e73a8766a6e7b00735da4e6f55157bf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 11/32] fix: range lookups and counts shared iterators inside
 the filter, so concurrent queries raced

---
 include/surf.hpp | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index aeb5cd8..7671690 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -110,7 +110,6 @@ public:
 	SuRF* surf = new SuRF();
 	surf->louds_dense_ = LoudsDense::deSerialize(src);
 	surf->louds_sparse_ = LoudsSparse::deSerialize(src);
-	surf->iter_ = SuRF::Iter(surf);
 	return surf;
     }
 
@@ -125,8 +124,6 @@ private:
     LoudsDense* louds_dense_;
     LoudsSparse* louds_sparse_;
     SuRFBuilder* builder_;
-    SuRF::Iter iter_;
-    SuRF::Iter iter2_;
 };
 
 void SuRF::create(const std::vector<std::string>& keys, 
@@ -138,7 +135,6 @@ void SuRF::create(const std::vector<std::string>& keys,
     builder_->build(keys);
     louds_dense_ = new LoudsDense(builder_);
     louds_sparse_ = new LoudsSparse(builder_);
-    iter_ = SuRF::Iter(this);
     delete builder_;
 }
 
@@ -224,23 +220,23 @@ SuRF::Iter SuRF::moveToLast() const {
 
 bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
 		       const std::string& right_key, const bool right_inclusive) {
-    iter_.clear();
-    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
-    if (!iter_.dense_iter_.isValid()) return false;
-    if (!iter_.dense_iter_.isComplete()) {
-	if (!iter_.dense_iter_.isSearchComplete()) {
-	    iter_.passToSparse();
-	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.sparse_iter_);
-	    if (!iter_.sparse_iter_.isValid()) {
-		iter_.incrementDenseIter();
+    SuRF::Iter iter(this);
+    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter.dense_iter_);
+    if (!iter.dense_iter_.isValid()) return false;
+    if (!iter.dense_iter_.isComplete()) {
+	if (!iter.dense_iter_.isSearchComplete()) {
+	    iter.passToSparse();
+	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter.sparse_iter_);
+	    if (!iter.sparse_iter_.isValid()) {
+		iter.incrementDenseIter();
 	    }
-	} else if (!iter_.dense_iter_.isMoveLeftComplete()) {
-	    iter_.passToSparse();
-	    iter_.sparse_iter_.moveToLeftMostKey();
+	} else if (!iter.dense_iter_.isMoveLeftComplete()) {
+	    iter.passToSparse();
+	    iter.sparse_iter_.moveToLeftMostKey();
 	}
     }
-    if (!iter_.isValid()) return false;
-    int compare = iter_.compare(right_key);
+    if (!iter.isValid()) return false;
+    int compare = iter.compare(right_key);
     if (compare == kCouldBePositive)
 	return true;
     if (right_inclusive)
@@ -265,14 +261,13 @@ uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
 
 uint64_t SuRF::approxCount(const std::string& left_key,
 			   const std::string& right_key) {
-    iter_.clear(); iter2_.clear();
-    iter_ = moveToKeyGreaterThan(left_key, true);
-    if (!iter_.isValid()) return 0;
-    iter2_ = moveToKeyGreaterThan(right_key, true);
-    if (!iter2_.isValid())
-	iter2_ = moveToLast();
-
-    return approxCount(&iter_, &iter2_);
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, true);
+    if (!iter.isValid()) return 0;
+    SuRF::Iter iter2 = moveToKeyGreaterThan(right_key, true);
+    if (!iter2.isValid())
+	iter2 = moveToLast();
+
+    return approxCount(&iter, &iter2);
 }
 
 uint64_t SuRF::serializedSize() const {
-- 
2.43.0


From 57f0b56f6861e0fc6baf6a6ec0927647d0f76f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 12/32] fix: stepping backward never reached a key at bit
 position 0 of the dense bitmap

---
 include/louds_dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 30fcefe..863108b 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -408,7 +408,7 @@ position_t LoudsDense::getNextPos(const position_t pos) const {
 
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    if (pos == 0 || pos < distance) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From 62044b2f9edb1e336bf3c7589a836e3a1088882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 13/32] fix: dense seek with an exhausted query key lost the
 unfinished left-most descent, the exclusive bound and the empty key

---
 include/louds_dense.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 863108b..795a4b8 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -242,14 +242,17 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
+	    iter.append(label_bitmaps_->readBit(pos) ? pos : getNextPos(pos));
+	    if (prefixkey_indicator_bits_->readBit(node_num)) { //if the prefix is also a key
 		iter.is_at_prefix_key_ = true;
-	    else
+		// valid, search complete, moveLeft complete, moveRight complete
+		iter.setFlags(true, true, true, true);
+		if (!inclusive)
+		    iter++;
+	    } else {
 		iter.moveToLeftMostKey();
-	    // valid, search complete, moveLeft complete, moveRight complete
-	    iter.setFlags(true, true, true, true); 
-	    return true;
+	    }
+	    return false;
 	}
 
 	pos += (label_t)key[level];
-- 
2.43.0


From b9d05fd35f9e456e9acdfddc7880421b91f47d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 14/32] fix: seeks flagged positions whose suffix bits already
 prove them greater, so backward seeks stopped on greater keys

---
 include/louds_dense.hpp  | 2 +-
 include/louds_sparse.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 795a4b8..a646877 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -430,7 +430,7 @@ bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::strin
     }
     // valid, search complete, moveLeft complete, moveRight complete
     iter.setFlags(true, true, true, true);
-    return true;
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 18d0a17..3e1b5a0 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -473,7 +473,7 @@ bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::stri
 	return false;
     }
     iter.is_valid_ = true;
-    return true;
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
-- 
2.43.0


From 96f1336734b39aaab291f76c6f9fabd9bef4cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 15/32] fix: sparse seek used a position advanced past the
 terminator and landed in the wrong node

---
 include/louds_sparse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 3e1b5a0..e77f55e 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -260,9 +260,10 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     level_t level;
     for (level = start_level_; level < key.length(); level++) {
 	position_t node_size = nodeSize(pos);
+	position_t node_pos = pos;
 	// if no exact match
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
@@ -453,9 +454,10 @@ bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    position_t last_pos = pos + node_size - 1;
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(last_pos);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From 18e4e5b47e9ca9e4fe5dbcfc4054a7333fbe381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 16/32] fix: comparing an iterator at a prefix key ignored the
 bytes, and a length difference could read as 'undecided'

---
 include/louds_dense.hpp  | 6 +++---
 include/louds_sparse.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index a646877..e54ad43 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -442,12 +442,12 @@ void LoudsDense::Iter::clear() {
 }
 
 int LoudsDense::Iter::compare(const std::string& key) const {
-    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
-	return -1;
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
-    if (compare != 0) return compare;
+    if (compare != 0) return (compare < 0) ? -1 : 1;
+    if (is_at_prefix_key_ && iter_key.length() < key.length())
+	return -1;
     if (isComplete()) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
 	return trie_->suffixes_->compare(suffix_pos, key, key_len_);
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index e77f55e..53b7712 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -487,14 +487,14 @@ void LoudsSparse::Iter::clear() {
 }
 
 int LoudsSparse::Iter::compare(const std::string& key) const {
-    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
-	return -1;
     std::string iter_key = getKey();
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
     if (compare != 0) 
-	return compare;
+	return (compare < 0) ? -1 : 1;
+    if (is_at_terminator_ && iter_key.length() < key_sparse.length())
+	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
-- 
2.43.0


From 3dd96855956fa1be3e96163028a0a091a7345867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 17/32] fix: inclusive moveToKeyLessThan skipped an exactly
 matching prefix key

---
 include/surf.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 7671690..f617c22 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -180,8 +180,12 @@ SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive)
     }
     if (!iter.getFpFlag()) {
 	iter--;
-	if (lookupKey(key))
-	    iter--;
+	if (lookupKey(key)) { // iter is at key itself
+	    if (inclusive)
+		iter.could_be_fp_ = true;
+	    else
+		iter--;
+	}
     }
     return iter;
 }
-- 
2.43.0


From 2461aa9d5fe1b5829b39c2dc841eea68c9ad45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 18/32] fix: tries without sparse levels read past the
 per-level node counts and counted in an empty sparse part

---
 include/louds_sparse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 53b7712..340851c 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -191,7 +191,8 @@ LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
     if (start_level_ == 0)
 	child_count_dense_ = 0;
     else
-	child_count_dense_ = node_count_dense_ + builder->getNodeCounts()[start_level_] - 1;
+	child_count_dense_ = node_count_dense_ - 1
+	    + ((start_level_ < height_) ? builder->getNodeCounts()[start_level_] : 0);
 
     labels_ = new LabelVector(builder->getLabels(), start_level_, height_);
 
@@ -361,7 +362,7 @@ uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
+    if (in_node_num_left == kMaxPos || start_level_ == height_) return 0;
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-- 
2.43.0


From 45d038057131f0ca976d6c6740a858729b29e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 19/32] fix: filters built without dense levels answered every
 lookup true and could not be iterated or counted

---
 include/louds_dense.hpp  | 22 +++++++++++++++++++---
 include/louds_sparse.hpp |  4 +++-
 include/surf.hpp         |  4 +++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index e54ad43..6f1dcc3 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -190,7 +190,7 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
@@ -307,6 +307,10 @@ uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
+    if (height_ == 0) { // both continue at the root in louds-sparse
+	out_node_num_left = out_node_num_right = 0;
+	return 0;
+    }
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
@@ -540,6 +544,9 @@ void LoudsDense::Iter::setToLastLabelInRoot() {
 }
 
 void LoudsDense::Iter::moveToLeftMostKey() {
+    if (trie_->getHeight() == 0)
+	// valid, search complete, moveLeft INCOMPLETE, moveRight complete
+	return setFlags(true, true, false, true);
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -573,6 +580,9 @@ void LoudsDense::Iter::moveToLeftMostKey() {
 }
 
 void LoudsDense::Iter::moveToRightMostKey() {
+    if (trie_->getHeight() == 0)
+	// valid, search complete, moveLeft complete, moveRight INCOMPLETE
+	return setFlags(true, true, true, false);
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -603,7 +613,10 @@ void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 void LoudsDense::Iter::operator ++(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	return moveToLeftMostKey();
@@ -625,7 +638,10 @@ void LoudsDense::Iter::operator ++(int) {
 }
 
 void LoudsDense::Iter::operator --(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	key_len_--;
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 340851c..0440f28 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -248,7 +248,9 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
 	node_num = getChildNodeNum(pos);
 	pos = getFirstLabelPos(node_num);
     }
-    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos)))
+    if ((labels_->read(pos) == kTerminator)
+	&& (!child_indicator_bits_->readBit(pos))
+	&& !isEndofNode(pos))
 	return suffixes_->checkEquality(getSuffixPos(pos), key, level + 1);
     return false;
 }
diff --git a/include/surf.hpp b/include/surf.hpp
index f617c22..bca3902 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -142,7 +142,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
@@ -200,6 +200,7 @@ SuRF::Iter SuRF::moveToFirst() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToLeftMostKey();
     } else {
+	iter.dense_iter_.moveToLeftMostKey(); // no dense levels: nothing to descend
 	iter.sparse_iter_.setToFirstLabelInRoot();
 	iter.sparse_iter_.moveToLeftMostKey();
     }
@@ -216,6 +217,7 @@ SuRF::Iter SuRF::moveToLast() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToRightMostKey();
     } else {
+	iter.dense_iter_.moveToRightMostKey(); // no dense levels: nothing to descend
 	iter.sparse_iter_.setToLastLabelInRoot();
 	iter.sparse_iter_.moveToRightMostKey();
     }
-- 
2.43.0


From ece12fc2ba3542682e3b819d2c5344888b4e04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 20/32] fix: a single key starting with byte 0xff was stored as
 the empty key in the dense levels

---
 include/surf_builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 1029bbc..ef10933 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -424,7 +424,11 @@ bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const
 
 bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
     label_t label = labels_[level][pos];
-    return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
+    // a terminator is always followed by other labels of its node;
+    // a lone leaf with the same byte is an ordinary label
+    bool is_last_in_node = (pos + 1 >= getNumItems(level)) || isStartOfNode(level, pos + 1);
+    return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos)
+	    && !is_last_in_node);
 }
 
 } // namespace surf
-- 
2.43.0


From 4df539620affe6fbc60c8ff9d5c2440867e36acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 21/32] fix: approxCount over dense levels miscounted labels
 with byte 0, prefix keys, level ends and unfinished descents

---
 include/louds_dense.hpp | 69 +++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 6f1dcc3..c7931fd 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -153,6 +153,8 @@ private:
 				  LoudsDense::Iter& iter) const;
     void extendPosList(std::vector<position_t>& pos_list,
 		       position_t& out_node_num) const;
+    // number of keys that end at a dense label or prefix key in front of pos
+    position_t numLeafsBefore(const position_t pos, const bool is_at_node_start) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -326,54 +328,39 @@ uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
     for (level_t i = 0; i < height_; i++) {
 	position_t left_pos = left_pos_list[i];
 	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
 	position_t right_pos = right_pos_list[i];
 	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
-	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
-		num_leafs--;
-	    count += num_leafs;
+	    right_pos = level_cuts_[i] + 1;
+	// below its own levels, and at a prefix key, an iterator's position stands
+	// for the start of the node, in front of the node's prefix key (if any)
+	bool is_left_at_node_start = (i >= ori_left_len)
+	    || (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_);
+	bool is_right_at_node_start = (i >= ori_right_len)
+	    || (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_);
+	position_t num_leafs_left = numLeafsBefore(left_pos, is_left_at_node_start);
+	position_t num_leafs_right = numLeafsBefore(right_pos, is_right_at_node_start);
+	if (num_leafs_left < num_leafs_right) {
+	    count += (num_leafs_right - num_leafs_left);
+	    // the key at the left iterator does not count
+	    if (iter_left->isComplete() && (i == ori_left_len - 1))
+		count--;
 	}
     }
     return count;
 }
 
+position_t LoudsDense::numLeafsBefore(const position_t pos, const bool is_at_node_start) const {
+    position_t node_num = pos / kNodeFanout;
+    position_t bit_pos = is_at_node_start ? node_num * kNodeFanout : pos;
+    position_t num_nodes = is_at_node_start ? node_num : node_num + 1;
+    position_t num_leafs = 0;
+    if (bit_pos > 0)
+	num_leafs += (label_bitmaps_->rank(bit_pos - 1) - child_indicator_bitmaps_->rank(bit_pos - 1));
+    if (num_nodes > 0)
+	num_leafs += prefixkey_indicator_bits_->rank(num_nodes - 1);
+    return num_leafs;
+}
+
 uint64_t LoudsDense::serializedSize() const {
     uint64_t size = sizeof(height_)
 	+ (sizeof(position_t) * height_);
-- 
2.43.0


From 71a4ed4c08efdc04dcf5cb76e67fd51cd916511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 22/32] fix: stepping back off the first sparse label left a
 stale level behind, which a count then subtracted

---
 include/louds_sparse.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 0440f28..5652271 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -674,10 +674,6 @@ void LoudsSparse::Iter::operator --(int) {
     assert(key_len_ > 0);
     is_at_terminator_ = false;
     position_t pos = pos_in_trie_[key_len_ - 1];
-    if (pos == 0) {
-	is_valid_ = false;
-	return;
-    }
     while (trie_->louds_bits_->readBit(pos)) {
 	key_len_--;
 	if (key_len_ == 0) {
-- 
2.43.0


From bd8898e5e536ecf5ca881c76d07a0ba7d7a921ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 23/32] fix: benchmark filters returned counts as bool, so
 count queries summed only ones

---
 bench/filter.hpp       | 2 +-
 bench/filter_bloom.hpp | 4 ++--
 bench/filter_surf.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index e9fc8d6..28366e8 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -10,7 +10,7 @@ class Filter {
 public:
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
-    virtual bool approxCount(const std::string& left_key, const std::string& right_key) = 0;
+    virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t getMemoryUsage() = 0;
 };
 
diff --git a/bench/filter_bloom.hpp b/bench/filter_bloom.hpp
index b36b737..0d33dd1 100644
--- a/bench/filter_bloom.hpp
+++ b/bench/filter_bloom.hpp
@@ -29,9 +29,9 @@ public:
 	return false;
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	std::cout << kRed << "A Bloom filter does not support approximate count queries\n" << kNoColor;
-	return false;
+	return 0;
     }
 
     uint64_t getMemoryUsage() {
diff --git a/bench/filter_surf.hpp b/bench/filter_surf.hpp
index 547d809..1e65e4f 100644
--- a/bench/filter_surf.hpp
+++ b/bench/filter_surf.hpp
@@ -33,7 +33,7 @@ public:
 	return filter_->lookupRange(left_key, true, right_key, true);
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	return filter_->approxCount(left_key, right_key);
     }
 
-- 
2.43.0


From d4dc69a0dca5963d065f885339d689d5fb78b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 24/32] fix: loading a workload file appended a record that is
 not in the file

---
 bench/bench.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/bench/bench.hpp b/bench/bench.hpp
index f2c84a8..6c02fc8 100644
--- a/bench/bench.hpp
+++ b/bench/bench.hpp
@@ -57,16 +57,14 @@ void loadKeysFromFile(const std::string& file_name, const bool is_key_int,
     std::string key;
     uint64_t count = 0;
     if (is_key_int) {
-	while (count < kNumIntRecords && infile.good()) {
-	    uint64_t int_key;
-	    infile >> int_key;
+	uint64_t int_key;
+	while (count < kNumIntRecords && infile >> int_key) {
 	    key = uint64ToString(int_key);
 	    keys.push_back(key);
 	    count++;
 	}
     } else {
-	while (count < kNumEmailRecords && infile.good()) {
-	    infile >> key;
+	while (count < kNumEmailRecords && infile >> key) {
 	    keys.push_back(key);
 	    count++;
 	}
@@ -77,9 +75,8 @@ void loadKeysFromFile(const std::string& file_name, uint64_t num_records,
 		      std::vector<uint64_t> &keys) {
     std::ifstream infile(file_name);
     uint64_t count = 0;
-    while (count < num_records && infile.good()) {
-	uint64_t key;
-	infile >> key;
+    uint64_t key;
+    while (count < num_records && infile >> key) {
 	keys.push_back(key);
 	count++;
     }
-- 
2.43.0


From 2a3b2fe3504d2c7d5070dddc727a803f8e5feed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 25/32] fix: the documented alterByte workload type was
 rejected

---
 bench/workload.cpp              | 2 +-
 bench/workload_multi_thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 9b4e0f3..59b7dc0 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -41,7 +41,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 29e02ff..47c20d7 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -85,7 +85,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
-- 
2.43.0


From 041878a3c6a457584ed5227ceb1c6f7d64d84fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 26/32] fix: the multi-threaded benchmark skipped the
 transactions left over by the division

---
 bench/workload_multi_thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 47c20d7..f3be2ca 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -168,6 +168,8 @@ int main(int argc, char *argv[]) {
 	thread_args[i].filter = filter;
 	thread_args[i].start_pos = num_txns_per_thread * i;
 	thread_args[i].end_pos = num_txns_per_thread * (i + 1);
+	if (i == num_threads - 1) // the last thread takes the remainder
+	    thread_args[i].end_pos = num_txns;
 	if (query_type.compare(std::string("point")) == 0)
 	    thread_args[i].query_type = 0;
 	else
-- 
2.43.0


From 923e39a400c4b7cc4b3a1720ecf17b4f96ff7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 27/32] fix: the multi-threaded benchmark report did not match
 the queries it runs

---
 bench/workload_multi_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index f3be2ca..569b3f4 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -205,7 +205,7 @@ int main(int argc, char *argv[]) {
 #ifdef VERBOSE
     std::cout << bench::kGreen << "Throughput = " << bench::kNoColor << tput << "\n";
 
-    int positives = 0;
+    int64_t positives = 0;
     for (int i = 0; i < num_threads; i++) {
 	positives += (thread_args[i].out_positives);
     }
@@ -224,7 +224,7 @@ int main(int argc, char *argv[]) {
 	}
     } else if (query_type.compare(std::string("range")) == 0) {
 	for (int i = 0; i < (int)txn_keys.size(); i++) {
-	    ht_iter = ht.upper_bound(txn_keys[i]);
+	    ht_iter = ht.lower_bound(txn_keys[i]);
 	    if (ht_iter != ht.end()) {
 		std::string fetched_key = ht_iter->first;
 		true_positives += (fetched_key.compare(upper_bound_keys[i]) < 0);
@@ -233,7 +233,7 @@ int main(int argc, char *argv[]) {
     }
     int64_t false_positives = positives - true_positives;
     assert(false_positives >= 0);
-    int64_t true_negatives = txn_keys.size() - true_positives;
+    int64_t true_negatives = txn_keys.size() - positives;
     double fp_rate = 0;
     if (false_positives > 0)
 	fp_rate = false_positives / (true_negatives + false_positives + 0.0);
-- 
2.43.0


From aea2084fdb2fd13142b3fd398a207a4ef4e99657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 28/32] fix: default-constructed iterators had uninitialized
 flags

---
 include/louds_dense.hpp  | 5 ++++-
 include/louds_sparse.hpp | 3 ++-
 include/surf.hpp         | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index c7931fd..30d12f0 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -14,7 +14,10 @@ class LoudsDense {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), is_search_complete_(false),
+		 is_move_left_complete_(false), is_move_right_complete_(false),
+		 trie_(NULL), send_out_node_num_(0), key_len_(0),
+		 is_at_prefix_key_(false) {};
 	Iter(LoudsDense* trie) : is_valid_(false), is_search_complete_(false),
 				 is_move_left_complete_(false),
 				 is_move_right_complete_(false),
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 5652271..08c8673 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -16,7 +16,8 @@ class LoudsSparse {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), trie_(NULL), start_level_(0), start_node_num_(0),
+		 key_len_(0), is_at_terminator_(false) {};
 	Iter(LoudsSparse* trie) : is_valid_(false), trie_(trie), start_node_num_(0), 
 				  key_len_(0), is_at_terminator_(false) {
 	    start_level_ = trie_->getStartLevel();
diff --git a/include/surf.hpp b/include/surf.hpp
index bca3902..7fec5d3 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -15,7 +15,7 @@ class SuRF {
 public:
     class Iter {
     public:
-	Iter() {};
+	Iter() : could_be_fp_(false) {};
 	Iter(const SuRF* filter) {
 	    dense_iter_ = LoudsDense::Iter(filter->louds_dense_);
 	    sparse_iter_ = LoudsSparse::Iter(filter->louds_sparse_);
-- 
2.43.0


From 9fef9ddaa156726def998d8d190e8d4fe9fb07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 29/32] fix: memory usage counted a pointer instead of the
 sparse trie object

---
 include/louds_sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 08c8673..714389c 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -420,7 +420,7 @@ uint64_t LoudsSparse::serializedSize() const {
 }
 
 uint64_t LoudsSparse::getMemoryUsage() const {
-    return (sizeof(this)
+    return (sizeof(LoudsSparse)
 	    + labels_->size()
 	    + child_indicator_bits_->size()
 	    + louds_bits_->size()
-- 
2.43.0


From 6d7d3ee63135e812d1e8d8b14c14ff3230d6137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 30/32] fix: label search midpoint overflows past 2^31 labels

---
 include/label_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index e663d83..f126416 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -138,7 +138,7 @@ bool LabelVector::binarySearch(const label_t target, position_t& pos, const posi
     position_t l = pos;
     position_t r = pos + search_len;
     while (l < r) {
-	position_t m = (l + r) >> 1;
+	position_t m = l + ((r - l) >> 1);
 	if (target < labels_[m]) {
 	    r = m;
 	} else if (target == labels_[m]) {
@@ -196,7 +196,7 @@ bool LabelVector::binarySearchGreaterThan(const label_t target, position_t& pos,
     position_t l = pos;
     position_t r = pos + search_len;
     while (l < r) {
-	position_t m = (l + r) >> 1;
+	position_t m = l + ((r - l) >> 1);
 	if (target < labels_[m]) {
 	    r = m;
 	} else if (target == labels_[m]) {
-- 
2.43.0


From f5c9c6ede049821eab9a65a4c82e2844a8263803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:46 +0000
Subject: [PATCH 31/32] fix: the benchmarks accepted the undocumented
 percentage 0 and then failed on an empty key set

---
 bench/workload.cpp              | 2 +-
 bench/workload_multi_thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 59b7dc0..bb96f5b 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -46,7 +46,7 @@ int main(int argc, char *argv[]) {
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 569b3f4..843a9da 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -90,7 +90,7 @@ int main(int argc, char *argv[]) {
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
-- 
2.43.0


From de837475765fb4ff20091e2a29dbb1f0e58804af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:46 +0000
Subject: [PATCH 32/32] fix: the multi-threaded benchmark divided by a thread
 count of 0

---
 bench/workload_multi_thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 843a9da..ae14ebf 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -115,6 +115,11 @@ int main(int argc, char *argv[]) {
 	return -1;
     }
 
+    if (num_threads <= 0) {
+	std::cout << bench::kRed << "WRONG number of threads\n" << bench::kNoColor;
+	return -1;
+    }
+
     // load keys from files =======================================
     std::string load_file = "workloads/load_";
     load_file += key_type;
-- 
2.43.0

