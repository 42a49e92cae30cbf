From f128d94e3212297cce3a4c421bc46eab3b1b23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 01/39] fix: compare integer and pointer variants without
 overflow or truncation

---
 src/common/cali_variant.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..c627ebf 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -444,6 +444,11 @@ static inline int imin(int l, int r)
     return l < r ? l : r;
 }
 
+static inline int compare_int64(int64_t l, int64_t r)
+{
+    return (l > r) - (l < r);
+}
+
 int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
 {
     uint64_t       t       = _EXTRACT_TYPE(lhs.type_and_size);
@@ -454,7 +459,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
     if (lhstype == rhstype) {
         switch (lhstype) {
         case CALI_TYPE_INV:
-            return lhs.value.v_int - rhs.value.v_int;
+            return compare_int64(lhs.value.v_int, rhs.value.v_int);
         case CALI_TYPE_USR:
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
@@ -472,7 +477,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return compare_int64(lhs.value.v_int, rhs.value.v_int);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -491,7 +496,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            {
+                uintptr_t l = (uintptr_t) lhs.value.unmanaged_ptr;
+                uintptr_t r = (uintptr_t) rhs.value.unmanaged_ptr;
+                return (l > r) - (l < r);
+            }
         }
     }
 
-- 
2.43.0


From 338408b71bb0fbfd29bf60ee82f09083d955d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 02/39] fix: don't read before the buffer when making a variant
 from an empty string

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From 91c10c7a8dc6f0d85a1f4b78e9a2910dd6eae386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 03/39] fix: account for text already written when checking the
 buffer length in cali_prop2string

---
 src/common/cali_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cali_types.c b/src/common/cali_types.c
index ac52666..b1cda26 100644
--- a/src/common/cali_types.c
+++ b/src/common/cali_types.c
@@ -70,7 +70,7 @@ int cali_prop2string(int prop, char* buf, size_t len)
 
         size_t slen = strlen(p->str);
 
-        if ((slen + (ret > 0 ? 2 : 1)) > len)
+        if ((ret + slen + (ret > 0 ? 2 : 1)) > len)
             return -1;
         if (ret > 0)
             buf[ret++] = ':';
-- 
2.43.0


From 59f901ff14a774430d658867211616080375ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 04/39] fix: report failure for double values that don't fit
 the requested integer type

---
 src/common/cali_variant.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index c627ebf..b153ccf 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -190,7 +190,10 @@ int cali_variant_to_int(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int) v.value.v_double;
+        if (v.value.v_double > INT_MIN - 1.0 && v.value.v_double < INT_MAX + 1.0)
+            ret = (int) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int) v.value.v_bool;
@@ -244,7 +247,10 @@ int64_t cali_variant_to_int64(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int64_t) v.value.v_double;
+        if (v.value.v_double >= -0x1p63 && v.value.v_double < 0x1p63)
+            ret = (int64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int64_t) v.value.v_bool;
@@ -298,7 +304,10 @@ uint64_t cali_variant_to_uint(cali_variant_t v, bool* okptr)
         ret = v.value.v_uint;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (uint64_t) v.value.v_double;
+        if (v.value.v_double > -1.0 && v.value.v_double < 0x1p64)
+            ret = (uint64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (uint64_t) v.value.v_bool;
-- 
2.43.0


From 26a998317f1c12e590161b667000e76a59cc0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 05/39] fix: append node blocks after the existing nodes of a
 compressed snapshot record

---
 src/common/CompressedSnapshotRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CompressedSnapshotRecord.cpp b/src/common/CompressedSnapshotRecord.cpp
index 4d01058..7800d9e 100644
--- a/src/common/CompressedSnapshotRecord.cpp
+++ b/src/common/CompressedSnapshotRecord.cpp
@@ -185,7 +185,7 @@ size_t CompressedSnapshotRecord::append(size_t n, const Node* const node_vec[])
         // size check, copy to actual buffer
         if (m_num_nodes + blk < 128 && m_imm_pos + m_imm_len + len <= m_buffer_len) {
             ::save_memmove(m_buffer + m_imm_pos + len, m_buffer + m_imm_pos, m_imm_len);
-            memcpy(m_buffer + 1, tmp, len);
+            memcpy(m_buffer + m_imm_pos, tmp, len);
 
             m_imm_pos += len;
             m_num_nodes += blk;
-- 
2.43.0


From 32fe20e43f6aa319a1301d2d957507db0e1c41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 06/39] fix: keep the snapshot visibility of blackboard entries
 moved by a deletion

---
 src/caliper/Blackboard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..fd19626 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,16 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // move the snapshot visibility bit along with the entry
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+                I = j;
             }
         }
     }
-- 
2.43.0


From 22a93eedc666a515951c2b6633c3286fc1452e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 07/39] fix: don't write past the end of a node block when
 creating long paths

---
 src/caliper/MetadataTree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..346ddc1 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -130,6 +130,17 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
+    // Create paths that don't fit into a single node block piece by piece
+
+    const size_t max_nodes = mG.load()->nodes_per_block - 1;
+
+    for (; n > max_nodes; n -= max_nodes, data += max_nodes) {
+        parent = create_path(attr, max_nodes, data, parent);
+
+        if (!parent)
+            return nullptr;
+    }
+
     // Get a node block with sufficient free space
 
     if (!have_free_nodeblock(n))
-- 
2.43.0


From 8b28cc6c6207f81b5a8596ed7cfd8cd288c9c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 08/39] fix: don't copy node data to a null pointer when the
 metadata memory pool is full

---
 src/caliper/MetadataTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 346ddc1..19a6f07 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -207,9 +207,13 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
 
-- 
2.43.0


From 950bdb07963baebc94f5d89b5ce1898cbcb40e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 09/39] fix: don't attach partial paths to the root when the
 context tree is full

---
 src/caliper/MetadataTree.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 19a6f07..14750bb 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -254,9 +254,13 @@ Node* MetadataTree::get_path(size_t n, const Node* nodelist[], Node* parent = nu
     Node* node = parent;
 
     for (size_t i = 0; i < n; ++i)
-        if (nodelist[i])
+        if (nodelist[i]) {
             node = get_or_copy_node(nodelist[i], node);
 
+            if (!node) // out of node blocks
+                return nullptr;
+        }
+
     return node;
 }
 
@@ -295,7 +299,7 @@ Node* MetadataTree::copy_path_without_attribute(const Attribute& attr, Node* nod
 
     Node* tmp = copy_path_without_attribute(attr, node->parent(), parent);
 
-    if (attr.id() != node->attribute())
+    if (tmp && attr.id() != node->attribute())
         tmp = get_or_copy_node(node, tmp);
 
     return tmp;
@@ -316,9 +320,13 @@ Node* MetadataTree::remove_first_in_path(Node* path, const Attribute& attr)
 
 Node* MetadataTree::replace_first_in_path(Node* path, const Attribute& attr, const Variant& data)
 {
-    if (path)
+    if (path) {
         path = remove_first_in_path(path, attr);
 
+        if (!path) // out of node blocks
+            return nullptr;
+    }
+
     return get_child(attr, data, path);
 }
 
@@ -332,7 +340,12 @@ Node* MetadataTree::replace_all_in_path(Node* path, const Attribute& attr, size_
 
     parent = parent ? parent->parent() : root();
 
-    return get_path(attr, n, data, copy_path_without_attribute(attr, path, parent));
+    parent = copy_path_without_attribute(attr, path, parent);
+
+    if (!parent) // out of node blocks
+        return nullptr;
+
+    return get_path(attr, n, data, parent);
 }
 
 Node* MetadataTree::get_child(const Attribute& attr, const Variant& val, Node* parent)
-- 
2.43.0


From 591c30252c7c8cacdff910f987bab292f4ff0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 10/39] fix: leave room for alignment when expanding the memory
 pool

---
 src/caliper/MemoryPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/MemoryPool.cpp b/src/caliper/MemoryPool.cpp
index 100c31d..28b9ae6 100644
--- a/src/caliper/MemoryPool.cpp
+++ b/src/caliper/MemoryPool.cpp
@@ -58,7 +58,7 @@ struct MemoryPool::MemoryPoolImpl {
 
         if (m_chunks.empty() || m_chunks.back().wmark + bytes + alignment > m_chunks.back().size) {
             if (can_expand)
-                expand(bytes);
+                expand(bytes + alignment);
             else
                 return nullptr;
         }
-- 
2.43.0


From 28b52f293c90ab40f08464a19008604136ba2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 11/39] fix: don't write past the end of the trace buffer after
 flushing a full buffer

---
 src/services/trace/Trace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..e12f6bb 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                clear_cb(c, &m_channel);
                 return tbuf;
             }
 
@@ -144,6 +145,11 @@ class Trace
             tbuf = handle_overflow(c, tbuf);
         if (!tbuf)
             return;
+        if (!tbuf->chunks->fits(rec)) {
+            // the record doesn't fit into an empty buffer
+            ++dropped_snapshots;
+            return;
+        }
 
         tbuf->chunks->save_snapshot(rec);
     }
-- 
2.43.0


From ee407867a9c32d6ea5adc22da119bc42bfa59121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 12/39] fix: keep the key of the skipped-snapshots entry when
 clearing the aggregation database

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..7bf134f 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -111,7 +111,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the "skipped" entry
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From a1bcd0026844a628edd2cd8b5a6b0bccbfb2f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 13/39] fix: keep non-ASCII characters when writing strings in
 .cali and JSON output

---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From b5f981c153827ef6810ac73e2038a2592528f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 14/39] fix: read keys at the end of a line in .cali records

---
 src/reader/CaliReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..f46ff46 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (N <= static_cast<size_t>(end_ - it_)) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
-- 
2.43.0


From 954c0a04791389b35a761f09e72d4897ff6fe7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 15/39] fix: don't dereference a null pointer for invalid node
 records

---
 src/reader/CaliperMetadataDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..9904691 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From 0be7bed25a0a1f64b84b810975977133edec2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 16/39] fix: skip unknown references in snapshot records and
 report them as reader error

---
 src/reader/CaliReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index f46ff46..fb7ccfc 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -198,10 +198,17 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        auto push_entry = [this, &rec](const Entry& e) {
+            if (e.empty())
+                set_error("Unknown node or attribute ID in snapshot record");
+            else
+                rec.push_back(e);
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            push_entry(db.merge_entry(id, idmap));
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            push_entry(db.merge_entry(attr[i], data[i], idmap));
 
         snap_proc(db, rec);
     }
-- 
2.43.0


From a3c0b53cc8c52b5379de354ec044043cdbb38007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 17/39] fix: invalid scale arguments in CalQL operators threw
 an uncaught exception

---
 src/reader/Aggregator.cpp   | 21 ++++++++++++++++++---
 src/reader/Preprocessor.cpp | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..e970214 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Log.h"
 #include "caliper/common/Node.h"
 
+#include "../common/StringConverter.h"
+
 #include <algorithm>
 #include <cassert>
 #include <cstring>
@@ -26,6 +28,19 @@ using namespace cali;
 namespace
 {
 
+double read_scale_argument(const std::string& str)
+{
+    bool   ok  = false;
+    double ret = StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "aggregator: Error: Invalid scale argument \"" << str << "\"" << std::endl;
+        ret = 1.0;
+    }
+
+    return ret;
+}
+
 std::size_t compute_key_hash(const std::vector<Entry>& key)
 {
     std::size_t hash = 0;
@@ -202,7 +217,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
-            , m_scale { std::stod(scale_str) }
+            , m_scale { read_scale_argument(scale_str) }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg.front()); }
@@ -323,7 +338,7 @@ public:
             , m_inclusive { inclusive }
         {
             if (cfg.size() > 1)
-                m_scale = std::stod(cfg[1]);
+                m_scale = read_scale_argument(cfg[1]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg, false); }
@@ -559,7 +574,7 @@ public:
             , m_inclusive { is_inclusive }
         {
             if (cfg.size() > 2)
-                m_scale = std::stod(cfg[2]);
+                m_scale = read_scale_argument(cfg[2]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..dc2cd0b 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/cali_types.h"
 
+#include "../common/StringConverter.h"
+
 #include <cmath>
 #include <vector>
 #include <utility>
@@ -45,6 +47,19 @@ Variant get_value(
     return Variant();
 }
 
+double read_scale_argument(const std::string& str)
+{
+    bool   ok  = false;
+    double ret = StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "preprocessor: Error: Invalid scale argument \"" << str << "\"" << std::endl;
+        ret = 1.0;
+    }
+
+    return ret;
+}
+
 class Kernel
 {
 public:
@@ -70,7 +85,7 @@ class ScaledRatioKernel : public Kernel
         : m_res_attr_name(def), m_nom_attr_name(args[0]), m_dnm_attr_name(args[1]), m_scale(1.0)
     {
         if (args.size() > 2)
-            m_scale = std::stod(args[2]);
+            m_scale = read_scale_argument(args[2]);
     }
 
 public:
@@ -116,7 +131,7 @@ class ScaleKernel : public Kernel
     ScaleKernel(const std::string& def, const std::vector<std::string>& args)
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_scale(1.0)
     {
-        m_scale = std::stod(args[1]);
+        m_scale = read_scale_argument(args[1]);
     }
 
 public:
@@ -155,7 +170,7 @@ class TruncateKernel : public Kernel
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_factor(1.0)
     {
         if (args.size() > 1)
-            m_factor = std::stod(args[1]);
+            m_factor = read_scale_argument(args[1]);
     }
 
 public:
-- 
2.43.0


From e54d650d671ae6f00a716607311785ea028c42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 18/39] fix: invalid field width in format() threw an uncaught
 exception

---
 src/reader/UserFormatter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..bc25f09 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -13,6 +13,8 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "../common/StringConverter.h"
+
 #include "../common/util/split.hpp"
 
 #include <algorithm>
@@ -81,7 +83,10 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    bool ok    = false;
+                    int  width = StringConverter(field_strings[wfbegin + 1]).to_int(&ok);
+
+                    field.width = ok && width > 0 ? width : 0;
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0


From c7d34f761359cb3ad615f26f75b61b4d3ab4ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 19/39] fix: invalid field width in snapshot text formats threw
 an uncaught exception

---
 src/common/SnapshotTextFormatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..2c20bf6 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -9,6 +9,8 @@
 #include "caliper/common/CaliperMetadataAccessInterface.h"
 #include "caliper/common/Node.h"
 
+#include "StringConverter.h"
+
 #include "util/split.hpp"
 
 #include <algorithm>
@@ -70,7 +72,7 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    field.width = StringConverter(field_strings[wfbegin + 1]).to_int();
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0


From 22eba1776fdb79058f479c94a28fe5ecd4a7141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 20/39] fix: text format fields of attributes created after the
 first record stayed empty

---
 src/common/SnapshotTextFormatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 2c20bf6..2301932 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -106,7 +106,9 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
         for (Field& f : fields) {
             if (!f.attr_name.empty()) {
                 f.attr = db.get_attribute(f.attr_name);
-                f.attr_name.clear();
+
+                if (f.attr)
+                    f.attr_name.clear();
 
                 cali_attr_type type = f.attr.type();
 
-- 
2.43.0


From ff716f2835ea98ffda718b236ffb7e840fdded4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 21/39] fix: truncate() in LET overflowed for 64-bit integers

---
 src/reader/Preprocessor.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index dc2cd0b..00b3994 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -191,14 +191,18 @@ public:
             m_res_attr = db.create_attribute(m_res_attr_name, type, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE);
 
         double val = v_tgt.to_double();
-        double res = val - fmod(val, m_factor);
+        double mod = fmod(val, m_factor);
 
-        Variant v_res(res);
+        Variant v_res(val - mod);
 
-        if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
-        else if (type == CALI_TYPE_UINT)
-            v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
+        // subtract in the integer type: the values may not fit in an int or a double
+        if (type == CALI_TYPE_INT) {
+            int64_t res = fabs(mod) < fabs(val) ? v_tgt.to_int64() - static_cast<int64_t>(mod < 0 ? floor(mod) : ceil(mod)) : 0;
+            v_res       = Variant(CALI_TYPE_INT, &res, sizeof(int64_t));
+        } else if (type == CALI_TYPE_UINT) {
+            uint64_t res = mod < val ? v_tgt.to_uint() - static_cast<uint64_t>(ceil(mod)) : 0;
+            v_res        = cali_make_variant_from_uint(res);
+        }
 
         rec.push_back(Entry(m_res_attr, Variant(v_res)));
     }
-- 
2.43.0


From 5f3c66875e6b7f89486ef3ce71a4e913084f8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 22/39] fix: don't write records without entries, which can't
 be read back

---
 src/reader/CaliWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader/CaliWriter.cpp b/src/reader/CaliWriter.cpp
index 7b87667..c8f74eb 100644
--- a/src/reader/CaliWriter.cpp
+++ b/src/reader/CaliWriter.cpp
@@ -122,6 +122,11 @@ struct CaliWriter::CaliWriterImpl {
 
     void write_entrylist(const CaliperMetadataAccessInterface& db, RecordKind kind, const std::vector<Entry>& rec)
     {
+        // a record without entries is not valid .cali
+
+        if (rec.empty())
+            return;
+
         // write node entries
 
         std::vector<Entry> ref_entries;
-- 
2.43.0


From 8734816c3b19a87acc213af0ba11d0470f06ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 23/39] fix: re-aggregating results was impossible without the
 original attribute

---
 src/reader/Aggregator.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index e970214..78bd1af 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -101,8 +101,12 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else // input may have been aggregated before and only contain the derived attribute
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -502,9 +506,9 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
@@ -778,7 +782,8 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
+            // input may have been aggregated before and only contain the statistics attributes
+            if (!m_target_attr && !db.get_attribute("var.count#" + m_target_attr_name))
                 return false;
             if (a.sum) {
                 a = m_stat_attrs;
-- 
2.43.0


From bd4421cc3ea54a79b00cf9b4b41a73711b1c83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 24/39] fix: percent_total dropped partial sums if their total
 wasn't positive

---
 src/reader/Aggregator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 78bd1af..5bd371a 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -693,10 +693,11 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
-        if (m_isum && total > 0.0) {
+        // keep the sum in any case so that partial results can be aggregated further
+        if (m_sum)
             list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (m_isum && total > 0.0)
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
-        }
     }
 
 private:
-- 
2.43.0


From 2628922dfde165ef80dae1e08e80002df55b4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 25/39] fix: ratios that share an attribute counted each
 other's sums when aggregated again

---
 src/reader/Aggregator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 5bd371a..133e10f 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -571,8 +571,9 @@ public:
         AggregateKernel* make_kernel() override { return new ScaledRatioKernel(this); }
 
         Config(const std::vector<std::string>& cfg, bool is_inclusive)
-            : m_tgt1 { cfg[0], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
-            , m_tgt2 { cfg[1], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
+            // the sums are specific to this ratio: another one may share an attribute with it
+            : m_tgt1 { cfg[0], std::string(is_inclusive ? "isr.nom#" : "sr.nom#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
+            , m_tgt2 { cfg[1], std::string(is_inclusive ? "isr.dnm#" : "sr.dnm#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
             , m_ratio_attr { std::string(is_inclusive ? "iratio#" : "ratio#")+cfg[0]+"/"+cfg[1], CALI_TYPE_DOUBLE }
             , m_scale { 1.0 }
             , m_inclusive { is_inclusive }
-- 
2.43.0


From b17a5cfc42f6f02e23021511215f50dcce71d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 26/39] fix: JSON output with addresses, types, inf or nan
 values was invalid

---
 src/reader/JsonFormatter.cpp      | 24 +++++++++++++++++++-----
 src/reader/JsonSplitFormatter.cpp | 11 ++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..f8b4c66 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -16,6 +16,7 @@
 #include "../common/util/split.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <mutex>
@@ -96,6 +97,22 @@ struct JsonFormatter::JsonFormatterImpl {
         return (it == m_aliases.end() ? name : it->second);
     }
 
+    // Only numbers and bools can be written without quotes. Note that there
+    // are no inf/nan numbers in JSON.
+    static bool is_json_literal(const Variant& value)
+    {
+        switch (value.type()) {
+        case CALI_TYPE_INT:
+        case CALI_TYPE_UINT:
+        case CALI_TYPE_BOOL:
+            return true;
+        case CALI_TYPE_DOUBLE:
+            return std::isfinite(value.to_double());
+        default:
+            return false;
+        }
+    }
+
     void begin_records_section(std::ostream& os)
     {
         if (m_layout == Records)
@@ -135,15 +152,12 @@ struct JsonFormatter::JsonFormatterImpl {
                         it->second = node->data().to_string().append("/").append(it->second);
                 }
             } else if (e.is_immediate()) {
-                Attribute   attr = db.get_attribute(e.attribute());
-                std::string key  = get_key(attr);
+                std::string key = get_key(db.get_attribute(e.attribute()));
 
                 if (key.empty())
                     continue;
 
-                cali_attr_type type = attr.type();
-
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
+                if (m_opt_quote_all || !is_json_literal(e.value()))
                     quote_kvs[std::move(key)] = e.value().to_string();
                 else
                     noquote_kvs[std::move(key)] = e.value().to_string();
diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ddca4c1..3bbf4e5 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -18,6 +18,7 @@
 #include "../common/util/format_util.h"
 
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <mutex>
@@ -275,11 +276,15 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
 
     void write_immediate_entry(std::ostream& os, const EntryList& list, const Attribute& attr)
     {
-        cali_attr_type type  = attr.type();
-        bool           quote = !(type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
-
         for (const Entry& e : list)
             if (e.attribute() == attr.id()) {
+                Variant        val  = e.value();
+                cali_attr_type type = val.type();
+
+                // there are no inf/nan numbers in JSON
+                bool quote = !(type == CALI_TYPE_INT || type == CALI_TYPE_UINT)
+                             && !(type == CALI_TYPE_DOUBLE && std::isfinite(val.to_double()));
+
                 if (quote)
                     util::write_json_esc_string(os << "\"", e.value().to_string()) << "\"";
                 else
-- 
2.43.0


From 659b667feb5903a364f5145e7999a3c80b3ad194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 27/39] fix: json-split showed the metadata of a value's
 attribute as the record's own

---
 src/reader/JsonSplitFormatter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index 3bbf4e5..e53c7d7 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -257,13 +257,16 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
     {
         std::vector<Entry> path;
 
-        for (const Entry& e : list)
+        for (const Entry& e : list) {
+            if (!e.is_reference())
+                continue;
             for (Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
                 for (const Attribute& a : path_attrs)
                     if (node->attribute() == a.id()) {
                         path.push_back(Entry(node));
                         break;
                     }
+        }
 
         std::reverse(path.begin(), path.end());
         cali_id_t id = m_hierarchy.get_id(path, column);
-- 
2.43.0


From a8697f26c1d353e611eadc48e399f33242691db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 28/39] fix: json-split columns shared hierarchy nodes, which
 belong to one column

---
 src/reader/JsonSplitFormatter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index e53c7d7..2274713 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -50,6 +50,7 @@ class Hierarchy
         {}
 
         const std::string& label() const { return m_label; }
+        const std::string& column() const { return m_column; }
 
         std::ostream& write_json(std::ostream& os) const
         {
@@ -105,7 +106,9 @@ public:
             HierarchyNode* parent = node;
             std::string    label  = e.value().to_string();
 
-            for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
+            // columns don't share nodes: a node belongs to the column it was created for
+            for (node = parent->first_child(); node && (label != node->label() || column != node->column());
+                 node = node->next_sibling())
                 ;
 
             if (!node) {
-- 
2.43.0


From 200e45051cd0779189515efd78df1ed613d59b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 29/39] fix: attribute names in JSON object output were not
 escaped, unknown ones empty

---
 src/reader/JsonFormatter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index f8b4c66..4f801c2 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -206,7 +206,7 @@ struct JsonFormatter::JsonFormatterImpl {
             for (const std::string& str : m_selected)
                 attrs.push_back(db.get_attribute(str));
 
-        // remove nested and hidden attributes
+        // remove nested, hidden, and unknown attributes
         if (!m_opt_sep_nested)
             attrs.erase(
                 std::remove_if(attrs.begin(), attrs.end(), [](const Attribute& a) { return a.is_nested(); }),
@@ -214,7 +214,7 @@ struct JsonFormatter::JsonFormatterImpl {
             );
 
         attrs.erase(
-            std::remove_if(attrs.begin(), attrs.end(), [](const Attribute& a) { return a.is_hidden(); }),
+            std::remove_if(attrs.begin(), attrs.end(), [](const Attribute& a) { return !a || a.is_hidden(); }),
             attrs.end()
         );
 
@@ -222,7 +222,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "");
+            util::write_json_esc_string(os << '\"', a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
-- 
2.43.0


From e9543a28f3b0e13c9aba4f2daf0818d1c769982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 30/39] fix: SELECT path was ignored in JSON output

---
 src/reader/JsonFormatter.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 4f801c2..f46c19e 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -29,6 +29,9 @@ using namespace cali;
 struct JsonFormatter::JsonFormatterImpl {
     std::set<std::string> m_selected;
 
+    bool m_select_all  = true;
+    bool m_select_path = false;
+
     OutputStream m_os;
     std::mutex m_os_lock;
 
@@ -73,7 +76,9 @@ struct JsonFormatter::JsonFormatterImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_all  = false;
+            m_select_path = spec.select.use_path;
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
             break;
         }
 
@@ -84,9 +89,9 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::string name = attr.name();
 
-        bool selected = m_selected.count(name) > 0;
+        bool selected = m_selected.count(name) > 0 || (m_select_path && attr.is_nested());
 
-        if (!selected && (!m_selected.empty() || attr.is_hidden() || attr.is_global()))
+        if (!selected && (!m_select_all || attr.is_hidden() || attr.is_global()))
             return "";
 
         if (attr.is_nested() && !m_opt_sep_nested)
@@ -200,12 +205,22 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::vector<Attribute> attrs;
 
-        if (m_selected.empty())
+        if (m_select_all || m_select_path)
             attrs = db.get_all_attributes();
         else
             for (const std::string& str : m_selected)
                 attrs.push_back(db.get_attribute(str));
 
+        if (m_select_path)
+            attrs.erase(
+                std::remove_if(
+                    attrs.begin(),
+                    attrs.end(),
+                    [this](const Attribute& a) { return !a.is_nested() && m_selected.count(a.name()) == 0; }
+                ),
+                attrs.end()
+            );
+
         // remove nested, hidden, and unknown attributes
         if (!m_opt_sep_nested)
             attrs.erase(
-- 
2.43.0


From 2f7661435584cfd678c854727fd108126415bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 31/39] fix: ORDER BY in tree output misplaced nodes when a
 subtree or record has no value

---
 src/reader/SnapshotTree.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/reader/SnapshotTree.cpp b/src/reader/SnapshotTree.cpp
index d9cb9a6..50f5106 100644
--- a/src/reader/SnapshotTree.cpp
+++ b/src/reader/SnapshotTree.cpp
@@ -33,8 +33,13 @@ Variant SnapshotTreeNode::min_val(const Attribute& key)
             val = val ? std::min(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::min(val, node->min_val(key)) : node->min_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant child_val = node->min_val(key);
+
+        // skip subtrees without the key
+        if (child_val)
+            val = val ? std::min(val, child_val) : child_val;
+    }
 
     m_v_min[key] = val;
     return val;
@@ -59,8 +64,13 @@ Variant SnapshotTreeNode::max_val(const Attribute& key)
             val = val ? std::max(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::max(val, node->max_val(key)) : node->max_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant child_val = node->max_val(key);
+
+        // skip subtrees without the key
+        if (child_val)
+            val = val ? std::max(val, child_val) : child_val;
+    }
 
     m_v_max[key] = val;
     return val;
@@ -76,10 +86,11 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
         auto l_it = std::find_if(lhs.begin(), lhs.end(), find_key);
         auto r_it = std::find_if(rhs.begin(), rhs.end(), find_key);
 
-        if (r_it == rhs.end())
-            return true;
+        // records without the key go last
         if (l_it == lhs.end())
             return false;
+        if (r_it == rhs.end())
+            return true;
 
         return ascending ? l_it->second < r_it->second : l_it->second > r_it->second;
     });
-- 
2.43.0


From 3dbbdc51553fed66e58be4d8a54157b7545b14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 32/39] fix: format() padded fields to at most 80 characters

---
 src/reader/UserFormatter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index bc25f09..8bd5eab 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -148,9 +148,14 @@ struct UserFormatter::FormatImpl {
                 "                                        ";
 
             size_t len = str.size();
-            size_t w   = len < f.width ? std::min<size_t>(f.width - len, 80) : 0;
+            size_t w   = len < f.width ? f.width - len : 0;
 
-            os << f.prefix << str << (w > 0 ? whitespace + (80 - w) : "");
+            os << f.prefix << str;
+
+            for (; w > 80; w -= 80)
+                os << whitespace;
+
+            os << whitespace + (80 - w);
         }
 
         {
-- 
2.43.0


From cba764f9c63c11fd25240c249af80a8fda016c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 33/39] fix: formatter arguments with spaces or backslashes
 were cut off

---
 src/reader/CalQLParser.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 5e3aa40..42e5ff6 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -36,17 +36,13 @@ int get_definition_id(const std::string& w, const QuerySpec::FunctionSignature*
 
 std::pair<std::string, std::string> get_keyval(const std::string& str)
 {
-    std::istringstream is(str);
-
-    std::string first = util::read_word(is, "=");
-    char        c     = util::read_char(is);
+    // Note that str was parsed and unquoted already
+    std::string::size_type pos = str.find('=');
 
-    if (c == '=') {
-        std::string val = util::read_word(is);
-        return std::make_pair(std::move(first), std::move(val));
-    } else {
-        return std::make_pair(std::string(), std::move(first));
-    }
+    if (pos != std::string::npos)
+        return std::make_pair(str.substr(0, pos), str.substr(pos + 1));
+    else
+        return std::make_pair(std::string(), str);
 }
 
 bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig)
-- 
2.43.0


From e8c54f79d3a7b358396c8f7408ad91adc66bab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 34/39] fix: attributes after "*" in SELECT cancelled it

---
 src/reader/CalQLParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 42e5ff6..4ae9369 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -315,7 +315,10 @@ struct CalQLParser::CalQLParserImpl {
                     if (w.empty())
                         set_error("Expected argument for SELECT", is);
                     else {
-                        spec.select.selection = QuerySpec::AttributeSelection::List;
+                        // don't override "*"
+                        if (spec.select.selection != QuerySpec::AttributeSelection::All)
+                            spec.select.selection = QuerySpec::AttributeSelection::List;
+
                         spec.select.list.push_back(w);
 
                         selection_attr_name = w;
-- 
2.43.0


From 9f1744fc12bd6bc9c550ceaf1af2caf614dfa620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 35/39] fix: printed query specs lost separators and quotes

---
 src/reader/QuerySpec.cpp | 52 +++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/reader/QuerySpec.cpp b/src/reader/QuerySpec.cpp
index 0e303c0..f97ab68 100644
--- a/src/reader/QuerySpec.cpp
+++ b/src/reader/QuerySpec.cpp
@@ -12,32 +12,49 @@ const cali::QuerySpec::FunctionSignature cali::QuerySpec::FunctionSignatureTermi
 namespace
 {
 
+// Write str as a CalQL word: use quotes if it contains special characters
+std::string quote(const std::string& str)
+{
+    if (str.find_first_of(" \t\r\n\v\f,;=<>()\"\\*") == std::string::npos)
+        return str;
+
+    std::string ret = "\"";
+
+    for (char c : str) {
+        if (c == '"' || c == '\\')
+            ret.push_back('\\');
+        ret.push_back(c);
+    }
+
+    return ret.append("\"");
+}
+
 std::ostream& format_condition(std::ostream& os, const QuerySpec::Condition& cond)
 {
     switch (cond.op) {
     case QuerySpec::Condition::Op::Exist:
-        os << cond.attr_name;
+        os << quote(cond.attr_name);
         break;
     case QuerySpec::Condition::Op::NotExist:
-        os << " not " << cond.attr_name;
+        os << " not " << quote(cond.attr_name);
         break;
     case QuerySpec::Condition::Op::Equal:
-        os << cond.attr_name << '=' << cond.value;
+        os << quote(cond.attr_name) << '=' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::NotEqual:
-        os << " not " << cond.attr_name << '=' << cond.value;
+        os << " not " << quote(cond.attr_name) << '=' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::LessThan:
-        os << cond.attr_name << '<' << cond.value;
+        os << quote(cond.attr_name) << '<' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::GreaterThan:
-        os << cond.attr_name << '>' << cond.value;
+        os << quote(cond.attr_name) << '>' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::LessOrEqual:
-        os << " not " << cond.attr_name << ">" << cond.value;
+        os << " not " << quote(cond.attr_name) << ">" << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::GreaterOrEqual:
-        os << " not " << cond.attr_name << "<" << cond.value;
+        os << " not " << quote(cond.attr_name) << "<" << quote(cond.value);
         break;
     default:
         break;
@@ -47,11 +64,11 @@ std::ostream& format_condition(std::ostream& os, const QuerySpec::Condition& con
 
 std::ostream& format_preprocess_op(std::ostream& os, const QuerySpec::PreprocessSpec& spec)
 {
-    os << spec.target << '=' << spec.op.op.name << '(';
+    os << quote(spec.target) << '=' << spec.op.op.name << '(';
 
     int count = 0;
     for (const std::string& arg : spec.op.args)
-        os << (count++ == 0 ? "" : ", ") << arg;
+        os << (count++ == 0 ? "" : ", ") << quote(arg);
     os << ')';
 
     if (spec.cond.op != QuerySpec::Condition::Op::None)
@@ -65,7 +82,7 @@ std::ostream& format_aggregation_op(std::ostream& os, const QuerySpec::Aggregati
     os << op.op.name << '(';
     int count = 0;
     for (const std::string& arg : op.args)
-        os << (count == 0 ? "" : ", ") << arg;
+        os << (count++ == 0 ? "" : ", ") << quote(arg);
     return os << ')';
 }
 
@@ -97,13 +114,13 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
             ++count;
         }
         for (const std::string& s : spec.select.list) {
-            os << (count++ == 0 ? " select " : ", ") << s;
+            os << (count++ == 0 ? " select " : ", ") << quote(s);
             auto as_it = spec.aliases.find(s);
             if (as_it != spec.aliases.end())
-                os << " as " << as_it->second;
+                os << " as " << quote(as_it->second);
             auto unit_it = spec.units.find(s);
             if (unit_it != spec.units.end())
-                os << " unit " << unit_it->second;
+                os << " unit " << quote(unit_it->second);
         }
     }
 
@@ -114,7 +131,7 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
             ++count;
         }
         for (const std::string& s : spec.groupby.list)
-            os << (count++ == 0 ? " group by " : ", ") << s;
+            os << (count++ == 0 ? " group by " : ", ") << quote(s);
     }
 
     if (spec.filter.selection == QuerySpec::FilterSelection::List) {
@@ -126,7 +143,8 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
     if (spec.sort.selection == QuerySpec::SortSelection::List) {
         int count = 0;
         for (const QuerySpec::SortSpec& s : spec.sort.list) {
-            os << (count++ == 0 ? " order by " : ", ") << s.attribute << (s.order == QuerySpec::SortSpec::Descending ? " DESC" : " ASC");
+            os << (count++ == 0 ? " order by " : ", ") << quote(s.attribute)
+               << (s.order == QuerySpec::SortSpec::Descending ? " DESC" : " ASC");
         }
     }
 
@@ -135,7 +153,7 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
         if (!spec.format.kwargs.empty()) {
             int count = 0;
             for (const auto &p : spec.format.kwargs)
-                os << (count++ == 0 ? "(" : ", ") << p.first << '=' << p.second;
+                os << (count++ == 0 ? "(" : ", ") << p.first << '=' << quote(p.second);
             os << ')';
         }
     }
-- 
2.43.0


From f8e40343146e84c382becea139c9917538637f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 36/39] fix: branch filter kept pointers to ended strings and
 leaked branches between threads

The event service remembered open branches in a per-channel list of
non-owning Variants. It read freed memory when the region name was a
temporary string, marked regions of other threads as inside the branch,
and stayed inside a branch whose end was not seen (e.g. set twice, or
ended while the channel was inactive). With include_regions, branches
not in the region filter were never entered. Look at the open regions
instead.
---
 src/services/event/EventTrigger.cpp | 60 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..07495a7 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -58,8 +58,6 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
-
     std::string channel_name;
 
     //
@@ -138,6 +136,40 @@ class EventTrigger
         return nullptr;
     }
 
+    bool is_branch(const Attribute& attr, const Variant& value)
+    {
+        return attr.type() == CALI_TYPE_STRING && find_marker(attr) && branch_filter.pass(value);
+    }
+
+    bool is_branch(Caliper* c, const Entry& e)
+    {
+        if (!e.is_reference())
+            return false;
+
+        for (const Node* node = e.node(); node && node->attribute() != CALI_INV_ID; node = node->parent())
+            if (is_branch(c->get_attribute(node->attribute()), node->data()))
+                return true;
+
+        return false;
+    }
+
+    //   Checks if the given new or current value, or any of the currently open
+    // regions, are in a selected branch.
+    bool is_in_branch(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
+    {
+        if (is_branch(attr, value) || is_branch(c, c->get(chB, attr)))
+            return true;
+
+        FixedSizeSnapshotRecord<120> context;
+        c->pull_context(context.builder());
+
+        for (const Entry& e : context.view())
+            if (is_branch(c, e))
+                return true;
+
+        return false;
+    }
+
     static inline bool is_subscription_attribute(const Attribute& attr)
     {
         return attr.get(cali::subscription_event_attr).to_bool();
@@ -155,12 +187,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, chB, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -199,12 +227,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, chB, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -235,12 +259,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
-                return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, chB, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
-- 
2.43.0


From 9b2cc1720d6be9566024643a1a33881b96f56944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:53 +0000
Subject: [PATCH 37/39] fix: later config file entries were ignored or dropped
 earlier ones

Entries for a profile that was already known (for example the default
profile from an earlier config file) were ignored if another profile
followed, and replaced all of the profile's earlier entries otherwise.
---
 src/common/RuntimeConfig.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..522b646 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -164,8 +164,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
         // * Other lines are parsed as NAME=VALUE, or ignored if no '=' is found
         //
 
-        ::config_profile_t current_profile;
-        std::string        current_profile_name { "default" };
+        std::string current_profile_name { "default" };
 
         for (std::string line; std::getline(in, line);) {
             if (line.length() < 1)
@@ -177,10 +176,6 @@ struct RuntimeConfig::RuntimeConfigImpl {
                 std::string::size_type e = line.find_first_of(']');
 
                 if (b != std::string::npos && e != std::string::npos && b + 1 < e) {
-                    if (current_profile.size() > 0)
-                        m_config_profiles[current_profile_name].insert(current_profile.begin(), current_profile.end());
-
-                    current_profile.clear();
                     current_profile_name = line.substr(b + 1, e - b - 1);
                 } else {
                     continue;
@@ -191,12 +186,9 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
             if (s > 0 && s < line.size()) {
                 std::istringstream is(line.substr(s + 1));
-                current_profile[line.substr(0, s)] = util::read_word(is, "");
+                m_config_profiles[current_profile_name][line.substr(0, s)] = util::read_word(is, "");
             }
         }
-
-        if (current_profile.size() > 0)
-            m_config_profiles[current_profile_name] = current_profile;
     }
 
     void read_config_files(const std::vector<std::string>& filenames)
-- 
2.43.0


From 608068a78ac018d28aa062c17514402e5fce7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:14 +0000
Subject: [PATCH 38/39] fix: empty dicts in config and option specs were
 rejected

---
 src/common/StringConverter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/StringConverter.cpp b/src/common/StringConverter.cpp
index 0a4e7b6..5fb3652 100644
--- a/src/common/StringConverter.cpp
+++ b/src/common/StringConverter.cpp
@@ -237,6 +237,15 @@ std::map<std::string, cali::StringConverter> cali::StringConverter::rec_dict(boo
         return ret;
     }
 
+    // an empty dict has no entries to read
+    if (util::read_char(is) == '}') {
+        if (okptr)
+            *okptr = true;
+        return ret;
+    }
+    if (is.good())
+        is.unget();
+
     do {
         std::string key = util::read_word(is, ":");
         c               = util::read_char(is);
-- 
2.43.0


From bb091a0e8afe81ebe274f8169a1aede5510a707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 39/39] fix: averages and variances of 2^32 or more values used
 a truncated count

Variant::div took the divisor as unsigned int and the variance operator kept
its count in one: counts wrapped (up to a division by zero).
---
 include/caliper/common/Variant.h | 2 +-
 src/common/Variant.cpp           | 2 +-
 src/reader/Aggregator.cpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/caliper/common/Variant.h b/include/caliper/common/Variant.h
index 7f92b21..81d09b1 100644
--- a/include/caliper/common/Variant.h
+++ b/include/caliper/common/Variant.h
@@ -88,7 +88,7 @@ public:
 
     Variant& min(const Variant& val);
     Variant& max(const Variant& val);
-    Variant  div(unsigned count);
+    Variant  div(uint64_t count);
 
     static void update_minmaxsum(const Variant& val, Variant& min_val, Variant& max_val, Variant& sum_val);
 
diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3614e2b..7de026e 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -302,7 +302,7 @@ Variant& Variant::max(const Variant& val)
     return *this;
 }
 
-Variant Variant::div(unsigned count)
+Variant Variant::div(uint64_t count)
 {
     cali_attr_type type = this->type();
 
diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 133e10f..1092003 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -864,7 +864,7 @@ public:
 
 private:
 
-    unsigned m_count;
+    uint64_t m_count;
     double   m_sum;
     double   m_sqsum;
     Config*  m_config;
-- 
2.43.0

