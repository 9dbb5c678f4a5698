From 48c20ba7ef24d108b07e055e1a2f7efccac4a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 01/29] fix: distanceToNextSetBit reads past the last word and
 overstates the distance to the end

---
 include/bitvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..4bbcf5d 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -81,6 +81,10 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     position_t word_id = (pos + 1) / kWordSize;
     position_t offset = (pos + 1) % kWordSize;
 
+    //pos is the last bit of the last word
+    if (word_id >= numWords())
+	return (num_bits_ - pos);
+
     //first word left-over bits
     word_t test_bits = bits_[word_id] << offset;
     if (test_bits > 0) {
@@ -98,7 +102,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    return (num_bits_ - pos);
 }
 
 position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
-- 
2.43.0


From b4eed1bcfbcc3934502ab77495be5904d1e84831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 02/29] fix: concatenateBitvectors writes past the end when a
 level ends on a word boundary

---
 include/bitvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 4bbcf5d..c939ca7 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -166,7 +166,8 @@ void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& b
 		bit_shift += bits_remain;
 	    } else {
 		word_id++;
-		bits_[word_id] |= (last_word << (kWordSize - bit_shift));
+		if (bit_shift + bits_remain > kWordSize)
+		    bits_[word_id] |= (last_word << (kWordSize - bit_shift));
 		bit_shift = bit_shift + bits_remain - kWordSize;
 	    }
 	}
-- 
2.43.0


From 87c21d9ceda0e596d6ab0378e1da512275ea1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 03/29] fix: storing an empty suffix shifts by the word size

---
 include/surf_builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..70da9c3 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) { // nothing to store (kNone)
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From 7d1a7290dd3fc815e841233f82b8cdfe19b33562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 04/29] fix: reading a suffix that spans two words shifts by a
 negative amount

---
 include/suffix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..5dc110a 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -197,7 +197,7 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
-- 
2.43.0


From b24d2fadcd26b80df5b7db00bf8f1e488b5ead82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 05/29] fix: hash suffixes over 57 bits and real suffixes of 64
 bits shift out of range

---
 include/suffix.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 5dc110a..c92c341 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -34,9 +34,11 @@ public:
     }
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
+	if (len == 0)
+	    return 0;
 	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
+	suffix >>= kHashShift;
+	suffix &= (kOneMask >> (kWordSize - len));
 	return suffix;
     }
 
@@ -94,6 +96,8 @@ public:
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+        if (real_suffix_len >= kWordSize)
+            return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
-- 
2.43.0


From ee0aac515f4078669da9300d65d863134addce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 06/29] fix: a single key starting with 0xFF is taken for a
 terminator

---
 include/louds_sparse.hpp | 3 ++-
 include/surf_builder.hpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..1c33375 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -243,7 +243,8 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
 	node_num = getChildNodeNum(pos);
 	pos = getFirstLabelPos(node_num);
     }
-    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos)))
+    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos))
+	&& !isEndofNode(pos))
 	return suffixes_->checkEquality(getSuffixPos(pos), key, level + 1);
     return false;
 }
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 70da9c3..672791d 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -424,7 +424,9 @@ bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const
 
 bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
     label_t label = labels_[level][pos];
-    return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
+    // the root has no terminator: a 0xFF leaf there is an ordinary label
+    return ((level > 0) && (label == kTerminator)
+	    && !readBit(child_indicator_bits_[level], pos));
 }
 
 } // namespace surf
-- 
2.43.0


From dfbe85812e0486245c80822b481c11e8b86dadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 07/29] fix: suffix comparison contradicts the key order when a
 key is too short for all suffix bits

---
 include/suffix.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index c92c341..2e197ba 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -260,14 +260,32 @@ int BitvectorSuffix::compare(const position_t idx,
     if (type_ == kMixed)
         stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
 
-    if ((stored_suffix == 0) && (querying_suffix == 0))
-	return kCouldBePositive;
-    else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
+    if (stored_suffix == 0) {
+	// The stored key may be too short to supply all the suffix bits.
+	// If it then has bytes left, nothing is known about them.
+	if ((querying_suffix == 0) || (real_suffix_len_ > 8))
+	    return kCouldBePositive;
 	return -1;
-    else if (stored_suffix == querying_suffix) 
-	return kCouldBePositive;
-    else 
+    }
+
+    // If the querying key is too short to supply all the suffix bits,
+    // compare the bits it has; the stored key is longer.
+    bool is_query_shorter = (key.length() < level)
+	|| ((key.length() - level) * 8 < real_suffix_len_);
+    if (is_query_shorter) {
+	level_t num_bits = (key.length() < level) ? 0 : (key.length() - level) * 8;
+	if (num_bits == 0)
+	    return 1;
+	stored_suffix >>= (real_suffix_len_ - num_bits);
+	querying_suffix = constructRealSuffix(key, level, num_bits);
+    }
+
+    if (stored_suffix < querying_suffix)
+	return -1;
+    else if (stored_suffix > querying_suffix || is_query_shorter)
 	return 1;
+    else
+	return kCouldBePositive;
 }
 
 } // namespace surf
-- 
2.43.0


From 9fccf2a54a3e0e2a84ebb2fd02e52f502157833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 08/29] fix: label vector allocates quadratic space, and too
 little after deserialization

---
 include/label_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..4e8c5c4 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -24,7 +24,8 @@ public:
 	    num_bytes_ += labels_per_level[level].size();
 
 	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
+	// simdSearch loads 16 bytes at a time
+	position_t alloc_bytes = num_bytes_ + kSimdPadding;
 	labels_ = new label_t[alloc_bytes];
 	for (position_t i = 0; i < alloc_bytes; i++)
 	  labels_[i] = 0;
@@ -85,8 +86,9 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->labels_ = new label_t[lv->num_bytes_ + kSimdPadding];
 	memcpy(lv->labels_, src, lv->num_bytes_);
+	memset(lv->labels_ + lv->num_bytes_, 0, kSimdPadding);
 	src += lv->num_bytes_;
 	
 	//lv->labels_ = const_cast<label_t*>(reinterpret_cast<const label_t*>(src));
@@ -100,6 +102,8 @@ public:
     }
 
 private:
+    static const position_t kSimdPadding = 16;
+
     position_t num_bytes_;
     label_t* labels_;
 };
-- 
2.43.0


From d0d8b254ab79170d075fd678d0c529c7fdc751b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 09/29] fix: sparse constructor reads past the node counts when
 all levels are dense

---
 include/louds_sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 1c33375..94732de 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -187,7 +187,8 @@ LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
     if (start_level_ == 0)
 	child_count_dense_ = 0;
     else
-	child_count_dense_ = node_count_dense_ + builder->getNodeCounts()[start_level_] - 1;
+	child_count_dense_ = node_count_dense_
+	    + (start_level_ < height_ ? builder->getNodeCounts()[start_level_] : 0) - 1;
 
     labels_ = new LabelVector(builder->getLabels(), start_level_, height_);
 
-- 
2.43.0


From 4cb974ff5924a426c0d1a9bb280f7020f26f398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 10/29] fix: decrementing a dense iterator skips a key starting
 with byte 0

---
 include/louds_dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..0f3c36d 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -403,7 +403,7 @@ position_t LoudsDense::getNextPos(const position_t pos) const {
 
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    if (pos == 0 || pos < distance) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From 2458d553f1f3c87d52ac850f8e53d12036f0e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 11/29] fix: seeking in a sparse node with a terminator runs
 past the node

---
 include/louds_sparse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 94732de..72225f7 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -258,9 +258,10 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     level_t level;
     for (level = start_level_; level < key.length(); level++) {
 	position_t node_size = nodeSize(pos);
+	position_t node_pos = pos; // search moves pos past a terminator
 	// if no exact match
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
@@ -451,9 +452,10 @@ bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    position_t node_pos = pos; // searchGreaterThan moves pos past a terminator
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(node_pos + node_size - 1);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From c47548d25b53afa012b5ea62410876de2c759709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 12/29] fix: a dense seek to a key that ends inside the trie
 rests on an inner node or on an excluded key

---
 include/louds_dense.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 0f3c36d..826a253 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -237,14 +237,17 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
+	    iter.append(label_bitmaps_->readBit(pos) ? pos : getNextPos(pos));
+	    if (prefixkey_indicator_bits_->readBit(node_num)) { //if the prefix is also a key
 		iter.is_at_prefix_key_ = true;
-	    else
+		// valid, search complete, moveLeft complete, moveRight complete
+		iter.setFlags(true, true, true, true); 
+		if (!inclusive)
+		    iter++;
+	    } else {
 		iter.moveToLeftMostKey();
-	    // valid, search complete, moveLeft complete, moveRight complete
-	    iter.setFlags(true, true, true, true); 
-	    return true;
+	    }
+	    return false;
 	}
 
 	pos += (label_t)key[level];
-- 
2.43.0


From e53d8d6f845c84c099d2302bbdc752e298d4e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 13/29] fix: comparing an iterator at a prefix key ignores the
 prefix itself

---
 include/louds_dense.hpp  | 4 ++--
 include/louds_sparse.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 826a253..12235c3 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -437,12 +437,12 @@ void LoudsDense::Iter::clear() {
 }
 
 int LoudsDense::Iter::compare(const std::string& key) const {
-    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
-	return -1;
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
     if (compare != 0) return compare;
+    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
+	return -1;
     if (isComplete()) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
 	return trie_->suffixes_->compare(suffix_pos, key, key_len_);
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 72225f7..4b34887 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -485,14 +485,14 @@ void LoudsSparse::Iter::clear() {
 }
 
 int LoudsSparse::Iter::compare(const std::string& key) const {
-    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
-	return -1;
     std::string iter_key = getKey();
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
     if (compare != 0) 
 	return compare;
+    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
+	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
-- 
2.43.0


From e30d04b61e2d726367928f59c86271097b810c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 14/29] fix: filters without dense levels answer true to every
 lookup and cannot be iterated

---
 include/louds_dense.hpp | 20 +++++++++++++++++++-
 include/surf.hpp        |  4 +++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 12235c3..fec42a0 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -185,7 +185,7 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
@@ -535,6 +535,11 @@ void LoudsDense::Iter::setToLastLabelInRoot() {
 }
 
 void LoudsDense::Iter::moveToLeftMostKey() {
+    if (trie_->getHeight() == 0) { // everything is in louds-sparse
+	send_out_node_num_ = 0;
+	// valid, search complete, moveLeft INCOMPLETE, moveRight complete
+	return setFlags(true, true, false, true);
+    }
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -568,6 +573,11 @@ void LoudsDense::Iter::moveToLeftMostKey() {
 }
 
 void LoudsDense::Iter::moveToRightMostKey() {
+    if (trie_->getHeight() == 0) { // everything is in louds-sparse
+	send_out_node_num_ = 0;
+	// valid, search complete, moveLeft complete, moveRight INCOMPLETE
+	return setFlags(true, true, true, false);
+    }
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -598,6 +608,10 @@ void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 void LoudsDense::Iter::operator ++(int) {
+    if (trie_->getHeight() == 0) { // everything is in louds-sparse
+	is_valid_ = false;
+	return;
+    }
     assert(key_len_ > 0);
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
@@ -620,6 +634,10 @@ void LoudsDense::Iter::operator ++(int) {
 }
 
 void LoudsDense::Iter::operator --(int) {
+    if (trie_->getHeight() == 0) { // everything is in louds-sparse
+	is_valid_ = false;
+	return;
+    }
     assert(key_len_ > 0);
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..6801ab7 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -144,7 +144,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
@@ -198,6 +198,7 @@ SuRF::Iter SuRF::moveToFirst() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToLeftMostKey();
     } else {
+	iter.dense_iter_.moveToLeftMostKey();
 	iter.sparse_iter_.setToFirstLabelInRoot();
 	iter.sparse_iter_.moveToLeftMostKey();
     }
@@ -214,6 +215,7 @@ SuRF::Iter SuRF::moveToLast() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToRightMostKey();
     } else {
+	iter.dense_iter_.moveToRightMostKey();
 	iter.sparse_iter_.setToLastLabelInRoot();
 	iter.sparse_iter_.moveToRightMostKey();
     }
-- 
2.43.0


From 20b90ab3eebce055d17cd50e8e3fe575e50a5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 15/29] fix: moveToKeyLessThan skips keys around prefix keys
 and hash collisions

---
 include/surf.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 6801ab7..14b739f 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -175,14 +175,16 @@ SuRF::Iter SuRF::moveToKeyGreaterThan(const std::string& key, const bool inclusi
 }
 
 SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive) const {
-    SuRF::Iter iter = moveToKeyGreaterThan(key, false);
+    SuRF::Iter iter = moveToKeyGreaterThan(key, true);
     if (!iter.isValid()) {
 	iter = moveToLast();
 	return iter;
     }
     if (!iter.getFpFlag()) {
-	iter--;
-	if (lookupKey(key))
+	// at a prefix key equal to key; conservative as for other matching keys
+	if (inclusive && iter.getKey() == key)
+	    iter.could_be_fp_ = true;
+	else
 	    iter--;
     }
     return iter;
-- 
2.43.0


From 81da867834e6961f2285a3a08b608f55f888ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 16/29] fix: range and count queries share iterators and race
 with each other

---
 include/surf.hpp | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 14b739f..697406f 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -110,7 +110,6 @@ public:
 	SuRF* surf = new SuRF();
 	surf->louds_dense_ = LoudsDense::deSerialize(src);
 	surf->louds_sparse_ = LoudsSparse::deSerialize(src);
-	surf->iter_ = SuRF::Iter(surf);
 	return surf;
     }
 
@@ -123,8 +122,6 @@ private:
     LoudsDense* louds_dense_;
     LoudsSparse* louds_sparse_;
     SuRFBuilder* builder_;
-    SuRF::Iter iter_;
-    SuRF::Iter iter2_;
 };
 
 void SuRF::create(const std::vector<std::string>& keys, 
@@ -136,7 +133,6 @@ void SuRF::create(const std::vector<std::string>& keys,
     builder_->build(keys);
     louds_dense_ = new LoudsDense(builder_);
     louds_sparse_ = new LoudsSparse(builder_);
-    iter_ = SuRF::Iter(this);
     delete builder_;
 }
 
@@ -226,23 +222,23 @@ SuRF::Iter SuRF::moveToLast() const {
 
 bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
 		       const std::string& right_key, const bool right_inclusive) {
-    iter_.clear();
-    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
-    if (!iter_.dense_iter_.isValid()) return false;
-    if (!iter_.dense_iter_.isComplete()) {
-	if (!iter_.dense_iter_.isSearchComplete()) {
-	    iter_.passToSparse();
-	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.sparse_iter_);
-	    if (!iter_.sparse_iter_.isValid()) {
-		iter_.incrementDenseIter();
+    SuRF::Iter iter(this);
+    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter.dense_iter_);
+    if (!iter.dense_iter_.isValid()) return false;
+    if (!iter.dense_iter_.isComplete()) {
+	if (!iter.dense_iter_.isSearchComplete()) {
+	    iter.passToSparse();
+	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter.sparse_iter_);
+	    if (!iter.sparse_iter_.isValid()) {
+		iter.incrementDenseIter();
 	    }
-	} else if (!iter_.dense_iter_.isMoveLeftComplete()) {
-	    iter_.passToSparse();
-	    iter_.sparse_iter_.moveToLeftMostKey();
+	} else if (!iter.dense_iter_.isMoveLeftComplete()) {
+	    iter.passToSparse();
+	    iter.sparse_iter_.moveToLeftMostKey();
 	}
     }
-    if (!iter_.isValid()) return false;
-    int compare = iter_.compare(right_key);
+    if (!iter.isValid()) return false;
+    int compare = iter.compare(right_key);
     if (compare == kCouldBePositive)
 	return true;
     if (right_inclusive)
@@ -267,14 +263,13 @@ uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
 
 uint64_t SuRF::approxCount(const std::string& left_key,
 			   const std::string& right_key) {
-    iter_.clear(); iter2_.clear();
-    iter_ = moveToKeyGreaterThan(left_key, true);
-    if (!iter_.isValid()) return 0;
-    iter2_ = moveToKeyGreaterThan(right_key, true);
-    if (!iter2_.isValid())
-	iter2_ = moveToLast();
-
-    return approxCount(&iter_, &iter2_);
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, true);
+    if (!iter.isValid()) return 0;
+    SuRF::Iter iter2 = moveToKeyGreaterThan(right_key, true);
+    if (!iter2.isValid())
+	iter2 = moveToLast();
+
+    return approxCount(&iter, &iter2);
 }
 
 uint64_t SuRF::serializedSize() const {
-- 
2.43.0


From 9dd112bd2d3ab9259b865034dc070adaafed13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 17/29] fix: default iterators leave their state uninitialized

---
 include/louds_dense.hpp  | 7 ++++++-
 include/louds_sparse.hpp | 3 ++-
 include/surf.hpp         | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index fec42a0..cd6fdd8 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -14,7 +14,12 @@ class LoudsDense {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), is_search_complete_(false),
+		 is_move_left_complete_(false),
+		 is_move_right_complete_(false),
+		 trie_(nullptr),
+		 send_out_node_num_(0), key_len_(0),
+		 is_at_prefix_key_(false) {};
 	Iter(LoudsDense* trie) : is_valid_(false), is_search_complete_(false),
 				 is_move_left_complete_(false),
 				 is_move_right_complete_(false),
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 4b34887..513d071 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -16,7 +16,8 @@ class LoudsSparse {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), trie_(nullptr), start_level_(0), start_node_num_(0),
+		 key_len_(0), is_at_terminator_(false) {};
 	Iter(LoudsSparse* trie) : is_valid_(false), trie_(trie), start_node_num_(0), 
 				  key_len_(0), is_at_terminator_(false) {
 	    start_level_ = trie_->getStartLevel();
diff --git a/include/surf.hpp b/include/surf.hpp
index 697406f..8a1ed70 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -15,7 +15,7 @@ class SuRF {
 public:
     class Iter {
     public:
-	Iter() {};
+	Iter() : could_be_fp_(false) {};
 	Iter(const SuRF* filter) {
 	    dense_iter_ = LoudsDense::Iter(filter->louds_dense_);
 	    sparse_iter_ = LoudsSparse::Iter(filter->louds_sparse_);
-- 
2.43.0


From 106fda8476867c8b16c7022b8be8a56aa0c42778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 18/29] fix: serialized filters contain uninitialized bytes

---
 include/surf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/surf.hpp b/include/surf.hpp
index 8a1ed70..a28a3dd 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -99,6 +99,7 @@ public:
     char* serialize() const {
 	uint64_t size = serializedSize();
 	char* data = new char[size];
+	memset(data, 0, size); // alignment gaps
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From 128c793a2672180f82908d92b9d74d7f912a4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 19/29] fix: getMemoryUsage leaves out level cuts and most of
 the sparse object

---
 include/louds_dense.hpp  | 1 +
 include/louds_sparse.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index cd6fdd8..c7b3e8d 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -384,6 +384,7 @@ uint64_t LoudsDense::serializedSize() const {
 
 uint64_t LoudsDense::getMemoryUsage() const {
     return (sizeof(LoudsDense)
+	    + sizeof(position_t) * height_
 	    + label_bitmaps_->size()
 	    + child_indicator_bitmaps_->size()
 	    + prefixkey_indicator_bits_->size()
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 513d071..b1c4875 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -415,7 +415,8 @@ uint64_t LoudsSparse::serializedSize() const {
 }
 
 uint64_t LoudsSparse::getMemoryUsage() const {
-    return (sizeof(this)
+    return (sizeof(LoudsSparse)
+	    + sizeof(position_t) * height_
 	    + labels_->size()
 	    + child_indicator_bits_->size()
 	    + louds_bits_->size()
-- 
2.43.0


From 32824c83dfd628e5bf2a5dc2d19a7d4fd3821b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 20/29] fix: destroy leaks the level cuts and the component
 objects

---
 include/louds_dense.hpp  | 5 +++++
 include/louds_sparse.hpp | 4 ++++
 include/surf.hpp         | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index c7b3e8d..746f255 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -136,10 +136,15 @@ public:
     }
 
     void destroy() {
+	delete[] level_cuts_;
 	label_bitmaps_->destroy();
+	delete label_bitmaps_;
 	child_indicator_bitmaps_->destroy();
+	delete child_indicator_bitmaps_;
 	prefixkey_indicator_bits_->destroy();
+	delete prefixkey_indicator_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index b1c4875..45d93f9 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -130,9 +130,13 @@ public:
     void destroy() {
 	delete[] level_cuts_;
 	labels_->destroy();
+	delete labels_;
 	child_indicator_bits_->destroy();
+	delete child_indicator_bits_;
 	louds_bits_->destroy();
+	delete louds_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/surf.hpp b/include/surf.hpp
index a28a3dd..ee5e96e 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -116,7 +116,9 @@ public:
 
     void destroy() {
 	louds_dense_->destroy();
+	delete louds_dense_;
 	louds_sparse_->destroy();
+	delete louds_sparse_;
     }
 
 private:
-- 
2.43.0


From 8b50b63eaf37f2304ba18a1e607aa567a72f4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 21/29] fix: approxCount overcounts at subtree borders and
 reads past the bit vectors

---
 include/louds_dense.hpp  | 118 ++++++++++++-----------------------
 include/louds_sparse.hpp | 131 ++++++++++-----------------------------
 2 files changed, 71 insertions(+), 178 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 746f255..ed71258 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -156,8 +156,11 @@ private:
     bool compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 				  const level_t level, const bool inclusive, 
 				  LoudsDense::Iter& iter) const;
-    void extendPosList(std::vector<position_t>& pos_list,
-		       position_t& out_node_num) const;
+    // Per level, the number of leafs before iter; out_node_num is the first
+    // louds-sparse node after iter.
+    void countLeafsBefore(const LoudsDense::Iter* iter,
+			  std::vector<position_t>& num_leafs,
+			  position_t& out_node_num) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -281,97 +284,52 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
-			       position_t& out_node_num) const {
+void LoudsDense::countLeafsBefore(const LoudsDense::Iter* iter,
+				  std::vector<position_t>& num_leafs,
+				  position_t& out_node_num) const {
     position_t node_num = 0;
-    position_t pos = pos_list[pos_list.size() - 1];
-    for (level_t i = pos_list.size(); i < height_; i++) {
-	node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    node_num++;
-	pos = (node_num * kNodeFanout);
-	if (pos > level_cuts_[i]) {
-	    pos = kMaxPos;
-	    pos_list.push_back(pos);
-	    break;
+    for (level_t level = 0; level < height_; level++) {
+	// Boundary at this level: the iter's own label, or the beginning of
+	// the first node after the iter's key.
+	position_t pos = node_num * kNodeFanout;
+	position_t num_prefix_keys = 0;
+	if ((level + 1 < iter->key_len_)
+	    || (level + 1 == iter->key_len_ && !iter->is_at_prefix_key_)) {
+	    pos = iter->pos_in_trie_[level];
+	    num_prefix_keys = prefixkey_indicator_bits_->rank(pos / kNodeFanout);
+	} else {
+	    if (level + 1 == iter->key_len_)
+		pos = (iter->pos_in_trie_[level] / kNodeFanout) * kNodeFanout;
+	    if (pos > 0)
+		num_prefix_keys = prefixkey_indicator_bits_->rank(pos / kNodeFanout - 1);
 	}
-	pos_list.push_back(pos);
-    }
-    if (pos == kMaxPos) {
-	for (level_t i = pos_list.size(); i < height_; i++)
-	    pos_list.push_back(pos);
-	out_node_num = pos;
-    } else {
-	out_node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    out_node_num++;
+	position_t num_labels = 0, num_children = 0;
+	if (pos > 0) {
+	    num_labels = label_bitmaps_->rank(pos - 1);
+	    num_children = child_indicator_bitmaps_->rank(pos - 1);
+	}
+	num_leafs.push_back(num_labels - num_children + num_prefix_keys);
+	node_num = num_children + 1;
     }
+    out_node_num = node_num;
 }
 
 uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    extendPosList(left_pos_list, out_node_num_left);
-    
-    for (level_t i = 0; i < iter_right->key_len_; i++)
-	right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    level_t ori_right_len = right_pos_list.size();
-    extendPosList(right_pos_list, out_node_num_right);
+    std::vector<position_t> num_leafs_left, num_leafs_right;
+    countLeafsBefore(iter_left, num_leafs_left, out_node_num_left);
+    countLeafsBefore(iter_right, num_leafs_right, out_node_num_right);
 
     uint64_t count = 0;
     for (level_t i = 0; i < height_; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
-	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
-		num_leafs--;
-	    count += num_leafs;
-	}
+	if (num_leafs_left[i] < num_leafs_right[i])
+	    count += (num_leafs_right[i] - num_leafs_left[i]);
     }
+    // offcount the left key itself
+    if (iter_left->isComplete() && count > 0)
+	count--;
     return count;
 }
 
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 45d93f9..9f154fd 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -154,13 +154,11 @@ private:
 				  const level_t level, const bool inclusive, 
 				  LoudsSparse::Iter& iter) const;
 
-    position_t appendToPosList(std::vector<position_t>& pos_list,
-			       const position_t node_num, const level_t level,
-			       const bool isLeft, bool& done) const;
-    void extendPosList(std::vector<position_t>& left_pos_list,
-		       std::vector<position_t>& right_pos_list,
-		       const position_t left_in_node_num,
-		       const position_t right_in_node_num) const;
+    // Per level, the number of leafs before iter; in_node_num is where
+    // louds-dense leaves off if iter is not valid here.
+    void countLeafsBefore(const LoudsSparse::Iter* iter,
+			  const position_t in_node_num,
+			  std::vector<position_t>& num_leafs) const;
 
 private:
     static const position_t kRankBasicBlockSize = 512;
@@ -301,62 +299,25 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
-					const position_t node_num,
-					const level_t level,
-					const bool isLeft, bool& done) const {
-    position_t pos = getFirstLabelPos(node_num);
-    if (pos > level_cuts_[start_level_ + level]) {
-	pos = kMaxPos;
-	if (isLeft) {
-	    pos_list.push_back(pos);
-	} else {
-	    for (level_t j = 0; j < (height_ - level) - 1; j++)
-		pos_list.push_back(pos);
-	}
-	done = true;
-    }
-    pos_list.push_back(pos);
-    return pos;
-}
-
-void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
-				std::vector<position_t>& right_pos_list,
-				const position_t left_in_node_num,
-				const position_t right_in_node_num) const {
-    position_t left_node_num = 0, right_node_num = 0, left_pos = 0, right_pos = 0;
-    bool left_done = false, right_done = false;
-    level_t start_depth = left_pos_list.size();
-    if (start_depth > right_pos_list.size())
-	start_depth = right_pos_list.size();
-    if (start_depth == 0) {
-	if (left_pos_list.size() == 0)
-	    left_pos = appendToPosList(left_pos_list, left_in_node_num,
-				       0, true, left_done);
-	if (right_pos_list.size() == 0)
-	    right_pos = appendToPosList(right_pos_list, right_in_node_num,
-					0, false, right_done);
-	start_depth++;
-    }
-
-    left_pos = left_pos_list[left_pos_list.size() - 1];
-    right_pos = right_pos_list[right_pos_list.size() - 1];
-    for (level_t i = start_depth; i < (height_ - start_level_); i++) {
-	if (left_pos == right_pos) break;
-	if (!left_done && left_pos_list.size() <= i) {
-	    left_node_num = getChildNodeNum(left_pos);
-	    if (!child_indicator_bits_->readBit(left_pos))
-		left_node_num++;
-	    left_pos = appendToPosList(left_pos_list, left_node_num,
-				       i, true, left_done);
-	}
-	if (!right_done && right_pos_list.size() <= i) {
-	    right_node_num = getChildNodeNum(right_pos);
-	    if (!child_indicator_bits_->readBit(right_pos))
-		right_node_num++;
-	    right_pos = appendToPosList(right_pos_list, right_node_num,
-					i, false, right_done);
-	}
+void LoudsSparse::countLeafsBefore(const LoudsSparse::Iter* iter,
+				   const position_t in_node_num,
+				   std::vector<position_t>& num_leafs) const {
+    position_t node_num = in_node_num;
+    for (level_t level = 0; level < (height_ - start_level_); level++) {
+	// Boundary at this level: the iter's own label, or the beginning of
+	// the first node after the iter's key.
+	position_t pos = 0;
+	if (iter->is_valid_ && level < iter->key_len_)
+	    pos = iter->pos_in_trie_[level];
+	else if (node_num - node_count_dense_ < louds_bits_->numOnes())
+	    pos = getFirstLabelPos(node_num);
+	else
+	    pos = louds_bits_->numBits();
+	position_t num_children = 0;
+	if (pos > 0)
+	    num_children = child_indicator_bits_->rank(pos - 1);
+	num_leafs.push_back(pos - num_children);
+	node_num = child_count_dense_ + num_children + 1;
     }
 }
 
@@ -364,44 +325,18 @@ uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    if (in_node_num_right == kMaxPos) {
-	for (level_t i = 0; i < (height_ - start_level_); i++)
-	    right_pos_list.push_back(kMaxPos);
-    } else {
-	for (level_t i = 0; i < iter_right->key_len_; i++)
-	    right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    }
-    extendPosList(left_pos_list, right_pos_list, in_node_num_left, in_node_num_right);
+    std::vector<position_t> num_leafs_left, num_leafs_right;
+    countLeafsBefore(iter_left, in_node_num_left, num_leafs_left);
+    countLeafsBefore(iter_right, in_node_num_right, num_leafs_right);
 
     uint64_t count = 0;
-    level_t search_depth = left_pos_list.size();
-    if (search_depth > right_pos_list.size())
-	search_depth = right_pos_list.size();
-    for (level_t i = 0; i < search_depth; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[start_level_ + i] + 1;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    position_t rank_left = child_indicator_bits_->rank(left_pos);
-	    position_t rank_right = child_indicator_bits_->rank(right_pos);
-	    position_t num_leafs = (right_pos - left_pos) - (rank_right - rank_left);
-	    if (child_indicator_bits_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bits_->readBit(left_pos))
-		num_leafs--;
-	    if (i == ori_left_len - 1)
-		num_leafs--;
-	    count += num_leafs;
-	}
+    for (level_t i = 0; i < (height_ - start_level_); i++) {
+	if (num_leafs_left[i] < num_leafs_right[i])
+	    count += (num_leafs_right[i] - num_leafs_left[i]);
     }
+    // offcount the left key itself
+    if (iter_left->is_valid_ && count > 0)
+	count--;
     return count;
 }
 
-- 
2.43.0


From a234f5bf7ec8e248347ea942551f7d79f716c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 22/29] fix: the builder adds an empty level below the deepest
 keys

---
 include/surf_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 672791d..cf88934 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -244,7 +244,7 @@ level_t SuRFBuilder::insertKeyBytesToTrieUntilUnique(const std::string& key, con
 }
 
 inline void SuRFBuilder::insertSuffix(const std::string& key, const level_t level) {
-    if (level >= getTreeHeight())
+    if (level > getTreeHeight())
 	addLevel();
     assert(level - 1 < suffixes_.size());
     word_t suffix_word = BitvectorSuffix::constructSuffix(suffix_type_, key, hash_suffix_len_,
-- 
2.43.0


From 04ce7bb838b413b7c36b97bde8721db9b63d1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 23/29] fix: benchmark filters truncate approximate counts to
 bool

---
 bench/filter.hpp       | 2 +-
 bench/filter_bloom.hpp | 4 ++--
 bench/filter_surf.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index e9fc8d6..28366e8 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -10,7 +10,7 @@ class Filter {
 public:
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
-    virtual bool approxCount(const std::string& left_key, const std::string& right_key) = 0;
+    virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t getMemoryUsage() = 0;
 };
 
diff --git a/bench/filter_bloom.hpp b/bench/filter_bloom.hpp
index b36b737..0d33dd1 100644
--- a/bench/filter_bloom.hpp
+++ b/bench/filter_bloom.hpp
@@ -29,9 +29,9 @@ public:
 	return false;
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	std::cout << kRed << "A Bloom filter does not support approximate count queries\n" << kNoColor;
-	return false;
+	return 0;
     }
 
     uint64_t getMemoryUsage() {
diff --git a/bench/filter_surf.hpp b/bench/filter_surf.hpp
index 547d809..1e65e4f 100644
--- a/bench/filter_surf.hpp
+++ b/bench/filter_surf.hpp
@@ -33,7 +33,7 @@ public:
 	return filter_->lookupRange(left_key, true, right_key, true);
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	return filter_->approxCount(left_key, right_key);
     }
 
-- 
2.43.0


From e89b722f301b4954e1aab7bc74167136dab049c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 24/29] fix: loading workload files appends a key that is not
 in the file

---
 bench/bench.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/bench/bench.hpp b/bench/bench.hpp
index f2c84a8..6c02fc8 100644
--- a/bench/bench.hpp
+++ b/bench/bench.hpp
@@ -57,16 +57,14 @@ void loadKeysFromFile(const std::string& file_name, const bool is_key_int,
     std::string key;
     uint64_t count = 0;
     if (is_key_int) {
-	while (count < kNumIntRecords && infile.good()) {
-	    uint64_t int_key;
-	    infile >> int_key;
+	uint64_t int_key;
+	while (count < kNumIntRecords && infile >> int_key) {
 	    key = uint64ToString(int_key);
 	    keys.push_back(key);
 	    count++;
 	}
     } else {
-	while (count < kNumEmailRecords && infile.good()) {
-	    infile >> key;
+	while (count < kNumEmailRecords && infile >> key) {
 	    keys.push_back(key);
 	    count++;
 	}
@@ -77,9 +75,8 @@ void loadKeysFromFile(const std::string& file_name, uint64_t num_records,
 		      std::vector<uint64_t> &keys) {
     std::ifstream infile(file_name);
     uint64_t count = 0;
-    while (count < num_records && infile.good()) {
-	uint64_t key;
-	infile >> key;
+    uint64_t key;
+    while (count < num_records && infile >> key) {
 	keys.push_back(key);
 	count++;
     }
-- 
2.43.0


From 0756820eed50d60bd58c5f2a9878eb2d20077e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 25/29] fix: the multi-threaded workload skips the last
 transactions

---
 bench/workload_multi_thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 29e02ff..201f9df 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -167,7 +167,7 @@ int main(int argc, char *argv[]) {
 	thread_args[i].thread_id = i;
 	thread_args[i].filter = filter;
 	thread_args[i].start_pos = num_txns_per_thread * i;
-	thread_args[i].end_pos = num_txns_per_thread * (i + 1);
+	thread_args[i].end_pos = (i == num_threads - 1) ? num_txns : num_txns_per_thread * (i + 1);
 	if (query_type.compare(std::string("point")) == 0)
 	    thread_args[i].query_type = 0;
 	else
-- 
2.43.0


From 4b4948f1de30117698c4af0b51d9f6fec9c49ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 26/29] fix: true positives and negatives of range workloads
 are miscounted

Range lookups include both bounds, and a query that was answered true is not a negative.
---
 bench/workload.cpp              | 8 ++++----
 bench/workload_multi_thread.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 9b4e0f3..60c9440 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -186,9 +186,9 @@ int main(int argc, char *argv[]) {
 		if (key_type.compare(std::string("email")) == 0) {
 		    std::string ret_str = txn_keys[i];
 		    ret_str[ret_str.size() - 1] += (char)bench::kEmailRangeSize;
-		    true_positives += (fetched_key.compare(ret_str) < 0);
+		    true_positives += (fetched_key.compare(ret_str) <= 0);
 		} else {
-		    true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) < 0);
+		    true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) <= 0);
 		}
 	    }
 	}
@@ -204,9 +204,9 @@ int main(int argc, char *argv[]) {
 		    if (key_type.compare(std::string("email")) == 0) {
 			std::string ret_str = txn_keys[i];
 			ret_str[ret_str.size() - 1] += (char)bench::kEmailRangeSize;
-			true_positives += (fetched_key.compare(ret_str) < 0);
+			true_positives += (fetched_key.compare(ret_str) <= 0);
 		    } else {
-			true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) < 0);
+			true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) <= 0);
 		    }
 		}	
 	    }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 201f9df..04103ee 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -222,16 +222,16 @@ int main(int argc, char *argv[]) {
 	}
     } else if (query_type.compare(std::string("range")) == 0) {
 	for (int i = 0; i < (int)txn_keys.size(); i++) {
-	    ht_iter = ht.upper_bound(txn_keys[i]);
+	    ht_iter = ht.lower_bound(txn_keys[i]);
 	    if (ht_iter != ht.end()) {
 		std::string fetched_key = ht_iter->first;
-		true_positives += (fetched_key.compare(upper_bound_keys[i]) < 0);
+		true_positives += (fetched_key.compare(upper_bound_keys[i]) <= 0);
 	    }
 	}
     }
     int64_t false_positives = positives - true_positives;
     assert(false_positives >= 0);
-    int64_t true_negatives = txn_keys.size() - true_positives;
+    int64_t true_negatives = txn_keys.size() - positives;
     double fp_rate = 0;
     if (false_positives > 0)
 	fp_rate = false_positives / (true_negatives + false_positives + 0.0);
-- 
2.43.0


From 3be91da8d8e969c6fe9747e4c217129538620f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 27/29] fix: the benchmark programs accept invalid arguments

Unknown workload types, a percentage or thread count of zero, negative byte
positions, filter kinds that do not exist, mixed suffixes that exceed 64 bits
and an empty set of keys to insert are refused.
---
 bench/workload.cpp              | 20 +++++++++++++++-----
 bench/workload_multi_thread.cpp | 22 ++++++++++++++++++----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 60c9440..fedaa6c 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -29,28 +29,33 @@ int main(int argc, char *argv[]) {
 	&& filter_type.compare(std::string("SuRFHash")) != 0
 	&& filter_type.compare(std::string("SuRFReal")) != 0
 	&& filter_type.compare(std::string("SuRFMixed")) != 0
-	&& filter_type.compare(std::string("Bloom")) != 0
-	&& filter_type.compare(std::string("ARF")) != 0) {
+	&& filter_type.compare(std::string("Bloom")) != 0) {
 	std::cout << bench::kRed << "WRONG filter type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (suffix_len == 0 || suffix_len > 64) {
+    if (suffix_len == 0 || suffix_len > 64
+	|| (filter_type.compare(std::string("SuRFMixed")) == 0 && suffix_len > 32)) {
 	std::cout << bench::kRed << "WRONG suffix length\n" << bench::kNoColor;
 	return -1;
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
 
+    if ((int)byte_pos < 0) {
+	std::cout << bench::kRed << "WRONG byte position\n" << bench::kNoColor;
+	return -1;
+    }
+
     if (key_type.compare(std::string("randint")) != 0
 	&& key_type.compare(std::string("timestamp")) != 0
 	&& key_type.compare(std::string("email")) != 0) {
@@ -96,6 +101,11 @@ int main(int argc, char *argv[]) {
     std::vector<std::string> insert_keys;
     bench::selectKeysToInsert(percent, insert_keys, load_keys);
 
+    if (insert_keys.empty()) {
+	std::cout << bench::kRed << "NO keys to insert\n" << bench::kNoColor;
+	return -1;
+    }
+
     if (workload_type.compare(std::string("alterByte")) == 0)
 	bench::modifyKeyByte(txn_keys, byte_pos);
 
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 04103ee..b3467b3 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -73,8 +73,7 @@ int main(int argc, char *argv[]) {
     if (filter_type.compare(std::string("SuRF")) != 0
 	&& filter_type.compare(std::string("SuRFHash")) != 0
 	&& filter_type.compare(std::string("SuRFReal")) != 0
-	&& filter_type.compare(std::string("Bloom")) != 0
-	&& filter_type.compare(std::string("ARF")) != 0) {
+	&& filter_type.compare(std::string("Bloom")) != 0) {
 	std::cout << bench::kRed << "WRONG filter type\n" << bench::kNoColor;
 	return -1;
     }
@@ -85,16 +84,21 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
 
+    if ((int)byte_pos < 0) {
+	std::cout << bench::kRed << "WRONG byte position\n" << bench::kNoColor;
+	return -1;
+    }
+
     if (key_type.compare(std::string("randint")) != 0
 	&& key_type.compare(std::string("timestamp")) != 0
 	&& key_type.compare(std::string("email")) != 0) {
@@ -115,6 +119,11 @@ int main(int argc, char *argv[]) {
 	return -1;
     }
 
+    if (num_threads <= 0) {
+	std::cout << bench::kRed << "WRONG number of threads\n" << bench::kNoColor;
+	return -1;
+    }
+
     // load keys from files =======================================
     std::string load_file = "workloads/load_";
     load_file += key_type;
@@ -137,6 +146,11 @@ int main(int argc, char *argv[]) {
     std::vector<std::string> insert_keys;
     bench::selectKeysToInsert(percent, insert_keys, load_keys);
 
+    if (insert_keys.empty()) {
+	std::cout << bench::kRed << "NO keys to insert\n" << bench::kNoColor;
+	return -1;
+    }
+
     if (workload_type.compare(std::string("alterByte")) == 0)
 	bench::modifyKeyByte(txn_keys, byte_pos);
 
-- 
2.43.0


From 65433a5fc91b9f6f7f3fe65cf274d9a469abaca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 28/29] fix: lookups miss every key when no suffix bits are
 retained

---
 include/suffix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 2e197ba..6dc3db5 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -211,7 +211,7 @@ word_t BitvectorSuffix::readReal(const position_t idx) const {
 
 bool BitvectorSuffix::checkEquality(const position_t idx, 
 				    const std::string& key, const level_t level) const {
-    if (type_ == kNone) 
+    if (type_ == kNone || getSuffixLen() == 0)
 	return true;
     if (idx * getSuffixLen() >= num_bits_) 
 	return false;
-- 
2.43.0


From 004d000ac20d0d226f847216c4a0d38f4a0b5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 29/29] fix: mixed suffixes without hash bits shift by the word
 size

---
 include/suffix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 6dc3db5..1f3155b 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -71,7 +71,8 @@ public:
         word_t hash_suffix = constructHashSuffix(key, hash_len);
         word_t real_suffix = constructRealSuffix(key, real_level, real_len);
         word_t suffix = hash_suffix;
-        suffix <<= real_len;
+        if (hash_len > 0)
+            suffix <<= real_len;
         suffix |= real_suffix;
         return suffix;
     }
-- 
2.43.0

