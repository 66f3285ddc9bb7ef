From d532fe1d24304eaeed9e39e6289b6354d5243c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 01/30] fix: release owned data when unpacking into a Blob

---
 src/utils/Blob.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..263c1c6 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -145,6 +145,11 @@ char *Blob::unpack(char *&src, const bool include_type, const bool copy) {
         throw std::runtime_error("unable to unpack blob");
     }
 
+    // release the existing data, if it is owned
+    if (clean) {
+        ::dealloc(ptr);
+    }
+
     little_endian::decode(len, src);
     src += sizeof(len);
 
@@ -194,6 +199,11 @@ char *Blob::unpack_ref(char *&src, const bool include_type) {
         return nullptr;
     }
 
+    // release the existing data, if it is owned
+    if (clean) {
+        ::dealloc(ptr);
+    }
+
     memcpy(&ptr, src, sizeof(ptr));
     src += sizeof(ptr);
 
-- 
2.43.0


From 188124c897d55df90a85d3a0433d533ee7ac7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 02/30] fix: pack empty Blobs that have no pointer

---
 src/utils/Blob.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 263c1c6..4e47503 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,15 +112,18 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // an empty Blob might not have a pointer
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
-    dst += len;
+    if (len) {
+        memcpy(dst, ptr, len);
+        dst += len;
+    }
 
     if (include_type) {
         little_endian::encode(dst, type);
-- 
2.43.0


From 9b301784efeae51b660b0245e5557987cc7454e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 03/30] fix: encode and decode the minimum signed integers

---
 include/utils/elen.tpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..1f3759d 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -41,11 +41,14 @@ std::string unique(const T value, const char prefix, const char neg, const char
 template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
+    // the magnitude of the minimum value does not fit in T
+    typedef typename std::make_unsigned<T>::type U;
+
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        return unique<U, Cond>((U) 0 - (U) value, neg, neg, pos);
     }
     else if (value > 0) {
-        return unique<T, Cond>(value, pos, neg, pos);
+        return unique<U, Cond>(value, pos, neg, pos);
     }
 
     return "0";
@@ -276,12 +279,16 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
     }
 
     // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
-    if (prefix == neg) {
-        out = -out;
+    // the magnitude of the minimum value does not fit in T
+    typedef typename std::make_unsigned<T>::type U;
+    const U out = next<U, std::true_type>(prefix, str, position, len, neg);
+
+    if (std::is_signed<T>::value &&
+        (out > (U) ((U) std::numeric_limits<T>::max() + ((prefix == neg)?1:0)))) {
+        throw std::out_of_range(ERROR_PREFIX + "Decoded integer does not fit: " + str);
     }
 
-    return out;
+    return (T) ((prefix == neg)?((U) 0 - out):out);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From 9bdc01f173b52e814b5afba438cad87958875284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:39 +0000
Subject: [PATCH 04/30] fix: GETOP responses always have space for one record

---
 src/datastore/datastore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..b570531 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,12 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // EQ ignores the number of records and errors are reported
+    // with one record, so there is always space for one
+    const std::size_t max_recs = req->num_recs[i]?req->num_recs[i]:1;
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
-- 
2.43.0


From 003e50f256567f7e26d6a719242973e013c8fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:15 +0000
Subject: [PATCH 05/30] fix: GETOP EQ does not return records of other keys

---
 src/datastore/InMemory.cpp | 6 ++++--
 src/datastore/LevelDB.cpp  | 6 ++++--
 src/datastore/RocksDB.cpp  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..e02baf4 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -197,9 +197,11 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
+                const std::string prefix((const char *) key.data(), prefix_len);
+                it = db.lower_bound(prefix);
 
-                if (it != db.end()) {
+                // the next key does not have to start with the prefix
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..e58221f 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
+                it->Seek(prefix);
 
-                if (it->Valid()) {
+                // the next key does not have to start with the prefix
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..fe0eabc 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
+                it->Seek(prefix);
 
-                if (it->Valid()) {
+                // the next key does not have to start with the prefix
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From b0de4af13a520d3a9dcf00352b79148d994b3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:15 +0000
Subject: [PATCH 06/30] fix: GETOP LAST on an empty in-memory datastore

---
 src/datastore/InMemory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index e02baf4..fcfb33b 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -259,9 +259,9 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    it--;
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
-- 
2.43.0


From 2e1ac39f2612c47a516adf811bf923b9a5be4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 07/30] fix: GETOP LOWEST and HIGHEST return the records with
 the prefix

---
 include/datastore/datastore.hpp |  5 +++++
 src/datastore/InMemory.cpp      | 28 +++++++++++++++-----------
 src/datastore/LevelDB.cpp       | 17 +++++++++-------
 src/datastore/RocksDB.cpp       | 17 +++++++++-------
 src/datastore/datastore.cpp     | 35 +++++++++++++++++++++++++++++++++
 5 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..6e22913 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,11 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        std::string BGetOp_get_end(const Blob &key,
+                                   std::size_t prefix_len,
+                                   std::size_t predicate_len,
+                                   hxhim_data_t predicate_type);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index fcfb33b..ffa6315 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -275,16 +275,17 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LOWEST) {
+                const std::string prefix((const char *) key.data(), prefix_len);
                 const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
                                                          req->predicates[i].data_type());
 
                 it = db.lower_bound(seek);
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, prefix) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
@@ -295,28 +296,31 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string prefix((const char *) key.data(), prefix_len);
+                const std::string end = BGetOp_get_end(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type());
 
-                // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                // find first key past the prefix
+                it = end.size()?db.lower_bound(end):db.end();
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                // go back one since the end is past the last value with the prefix
+                if (it != db.begin()) {
                     it--;
                 }
                 else {
-                    it = db.rbegin().base();
+                    it = db.end();
                 }
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, prefix) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index e58221f..2699b20 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -321,7 +321,7 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
@@ -336,21 +336,24 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type());
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                // find first key past the prefix
+                if (end.size()) {
+                    it->Seek(::leveldb::Slice(end.data(), end.size()));
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the end is past the last value with the prefix
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
                     it->SeekToLast();
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index fe0eabc..6a73b5e 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -321,7 +321,7 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
                 it->Seek(seek);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         it->Valid() &&
@@ -336,21 +336,24 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type());
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                // find first key past the prefix
+                if (end.size()) {
+                    it->Seek(::rocksdb::Slice(end.data(), end.size()));
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the end is past the last value with the prefix
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
                     it->SeekToLast();
                 }
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index b570531..09c994f 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -519,6 +519,41 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+/**
+ * BGetOp_get_end
+ * Get the smallest string that is larger than every key with the prefix.
+ * If the predicate is an empty number, only numbers are considered.
+ *
+ * @return the end of the prefix, or an empty string if there is no end
+ */
+std::string Datastore::Datastore::BGetOp_get_end(const Blob &key,
+                                                 std::size_t prefix_len,
+                                                 std::size_t predicate_len,
+                                                 hxhim_data_t predicate_type) {
+    std::string end((char *) key.data(), prefix_len);
+
+    if ((predicate_len == 0) &&
+        ((predicate_type == HXHIM_DATA_INT32)   ||
+         (predicate_type == HXHIM_DATA_INT64)   ||
+         (predicate_type == HXHIM_DATA_UINT32)  ||
+         (predicate_type == HXHIM_DATA_UINT64)  ||
+         (predicate_type == HXHIM_DATA_FLOAT)   ||
+         (predicate_type == HXHIM_DATA_DOUBLE))) {
+        // positive numbers are the last numerical values with the given prefix
+        end += callbacks->numeric_extra.pos;
+    }
+
+    while (end.size() && (((unsigned char) end.back()) == 0xff)) {
+        end.pop_back();
+    }
+
+    if (end.size()) {
+        end.back()++;
+    }
+
+    return end;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 138239096c204dd06a7cfaaab67ad428e021ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 08/30] fix: histogram upper bound of values that are not
 positive

---
 src/utils/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..1e3cd53 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -218,7 +218,7 @@ int Histogram::Histogram::add(const double &value) {
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From 26cd680704f4fd71133052972ad098e4029e9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 09/30] fix: generate buckets from the cached values only after
 a failed attempt

---
 src/utils/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 1e3cd53..e7fcba5 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -212,7 +212,7 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
-- 
2.43.0


From 7e059ec5f993ea6a0c8d2ee9c17f17da0b32b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 10/30] fix: unpacked histograms do not keep another
 histogram's cache

---
 src/utils/Histogram.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index e7fcba5..efe5ff7 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -289,7 +289,7 @@ int Histogram::Histogram::get_cache(std::size_t *first_n,
     }
 
     if (size) {
-        *size = std::min(first_n_, count_);
+        *size = cache_?std::min(first_n_, count_):0;
     }
 
     return HISTOGRAM_SUCCESS;
@@ -488,8 +488,11 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
+    // the cached values are only sent while they are needed
+    dealloc_array(cache_);
+    cache_ = nullptr;
+
     if (count_ < first_n_) {
-        dealloc_array(cache_);
         cache_ = alloc_array<double>(first_n_);
 
         for(std::size_t i = 0; i < count_; i++) {
@@ -517,6 +520,8 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
         curr += sizeof(buckets_[size_]);
     }
 
+    size -= curr - orig;
+
     if (used) {
         *used = curr - orig;
     }
-- 
2.43.0


From 05a00e6b0f71cc3b4844f3f7c43c83adc894977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 11/30] fix: bucket generators handle narrow ranges and Scott's
 rule

---
 src/utils/Histogram.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index efe5ff7..8eae863 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -31,11 +31,14 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+static int generate_using_bin_count(const double &min, const double &max, const double bins_wanted, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    // there is always at least one bucket, even if all values are the same
+    const std::size_t bin_count = (bins_wanted >= 1)?bins_wanted:1;
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -136,7 +139,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
@@ -148,7 +151,10 @@ int histogram_uniform_logn(const double *first_n, const size_t n, double **bucke
     double min, max;
     minmax(first_n, n, min, max);
 
-    return generate_using_bin_count(min, max, std::ceil((max - min) * std::log((std::size_t) (uintptr_t) extra) / std::log(max - min)), buckets, size);
+    // x / log(x) is only meaningful when x is at least e
+    const double range = std::max(max - min, std::exp(1.0));
+
+    return generate_using_bin_count(min, max, std::ceil(range * std::log((std::size_t) (uintptr_t) extra) / std::log(range)), buckets, size);
 }
 
 Histogram::Histogram::Histogram()
-- 
2.43.0


From 3447863ee8ea7d843f37a66a55e0bde1e37d4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 12/30] fix: adding to a histogram without a bucket generator

---
 src/utils/Histogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 8eae863..e934b1d 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -218,7 +218,8 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if (!gen_                                                                               ||
+                (gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
-- 
2.43.0


From 0d2117ad8feb78727c0e615c8453a46d346ccb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 13/30] fix: count everything an operation packs when checking
 the byte limit

---
 src/hxhim/ops/impl.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..431bdeb 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -29,8 +29,9 @@ void new_request(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue) {
  * Checks if the queue is empty or if the last queued packet
  * is full and creates a new request packet if necessary.
  *
- * @param hx      the HXHIM session
- * @param queue   the queue to push into
+ * @param hx               the HXHIM session
+ * @param queue            the queue to push into
+ * @param additional_size  the number of bytes the new set of data will add to the packet
  * @return pointer to a packet with space for a new set of data
  */
 template <typename Request_t,
@@ -59,14 +60,15 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
  * @param queue      the queue to push into
  * @param subject    the subject to hash
  * @param predicate  the predicate to hash
- * @param insert     the insert timerstamps - only start is filled
+ * @param extra      number of bytes packed along with the subject and predicate
  * @return pointer to a packet with space for a new set of data
  */
 template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 Request_t *get_packet(hxhim_t *hx,
                       hxhim::Queues<Request_t> &queues,
-                      const Blob &subject, const Blob &predicate) {
+                      const Blob &subject, const Blob &predicate,
+                      const std::size_t extra) {
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
 
@@ -85,7 +87,7 @@ Request_t *get_packet(hxhim_t *hx,
     ::Stats::Chronopoint insert_start = ::Stats::now();
 
     // set up the packet this triple should be placed into
-    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true));
+    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true) + extra);
     req->timestamps.reqs[req->count].hash = hash;
     req->timestamps.reqs[req->count].insert.start = insert_start;
     return req;
@@ -176,8 +178,8 @@ int hxhim::PutImpl(hxhim_t *hx,
 
         // add the triple to the last packet in the queue
         Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) +
-                                                   pred->pack_size(true) +
+                                                   sub->pack_size(true)  + sizeof(sub->data()) +
+                                                   pred->pack_size(true) + sizeof(pred->data()) +
                                                    obj->pack_size(true));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
@@ -214,7 +216,9 @@ int hxhim::GetImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
     Message::Request::BGet *get = get_packet(hx, gets,
-                                             subject, predicate);
+                                             subject, predicate,
+                                             sizeof(subject.data()) + sizeof(predicate.data()) +
+                                             sizeof(object_type));
     if (!get) {
         return HXHIM_ERROR;
     }
@@ -252,7 +256,8 @@ int hxhim::GetOpImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
     Message::Request::BGetOp *getop = get_packet(hx, getops,
-                                                 subject, predicate);
+                                                 subject, predicate,
+                                                 sizeof(object_type) + sizeof(num_records) + sizeof(op));
     if (!getop) {
         return HXHIM_ERROR;
     }
@@ -284,7 +289,8 @@ int hxhim::DeleteImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
     Message::Request::BDelete *del = get_packet(hx, dels,
-                                                subject, predicate);
+                                                subject, predicate,
+                                                sizeof(subject.data()) + sizeof(predicate.data()));
     if (!del) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From 6bef71b2cc1afd588272795fdbc2a4ebf0d6ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 14/30] fix: GETOP entries without records yield one valid
 result

---
 src/hxhim/Results.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..2c0f884 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -179,26 +179,22 @@ hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp
 
     hxhim::Result::GetOp *top = construct<hxhim::Result::GetOp>(hx, bgetop->src, status);
 
-    hxhim::Result::GetOp *prev = nullptr;
     hxhim::Result::GetOp *curr = top;
     for(std::size_t j = 0; j < bgetop->num_recs[i]; j++) {
+        // the first record is placed into top, so there is
+        // always one result, even if there are no records
+        if (j) {
+            curr->next = construct<hxhim::Result::GetOp>(hx, bgetop->src, status);
+            curr = curr->next;
+        }
+
         curr->subject = std::move(bgetop->subjects[i][j]);
         curr->predicate = std::move(bgetop->predicates[i][j]);
 
         if (curr->status == HXHIM_SUCCESS) {
             curr->object = std::move(bgetop->objects[i][j]);
         }
-
-        prev = curr;
-        curr = construct<hxhim::Result::GetOp>(hx, bgetop->src, status);
-        prev->next = curr;
-    }
-
-    // drop last item (empty)
-    if (prev) {
-        prev->next = nullptr;
     }
-    destruct(curr);
 
     return top;
 }
-- 
2.43.0


From 06c568abc5ba1291cc944360d0de42f9fc732d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 15/30] fix: send the packets of datastores that share a remote
 rank one at a time

---
 include/hxhim/private/process.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..2d8277e 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,13 +53,21 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only one packet can be sent to each remote rank at
+            // a time, so leave this one for the next iteration
+            const int dst_rank = hx->p->queues.ds_to_rank[ds];
+            if ((dst_rank != hx->p->bootstrap.rank) &&
+                (remote.find(dst_rank) != remote.end())) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
             // set because they were not set in impl
             req->src = hx->p->bootstrap.rank;
             req->dst = ds;
-            req->dst_rank = hx->p->queues.ds_to_rank[req->dst];
+            req->dst_rank = dst_rank;
 
             if (req->src == req->dst_rank) {
                 local.push_back(req);
-- 
2.43.0


From 3fb462bd82de739f4c47ea7624f44b3a5b6d8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:06 +0000
Subject: [PATCH 16/30] fix: background PUTs keep one queue per datastore

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From b379b81562c4de34abd4780635c47b82697ee3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:58 +0000
Subject: [PATCH 17/30] fix: FlushPuts returns the results of PUTs that were
 already processed

---
 src/hxhim/ops/FLUSH.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..5097237 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -40,12 +40,15 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
+    }
 
-        // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+    // move internal results to res to give to caller
+    // these might exist even if there is no background thread (serial_puts)
+    res->Append(hx->p->async_puts.results);
+    destruct(hx->p->async_puts.results);
+    hx->p->async_puts.results = nullptr;
 
+    if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.mutex.lock();
     }
 
-- 
2.43.0


From ce154815558a50caa4633d53938efc8ebdb18bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 18/30] fix: sessions with one datastore open and have queues

---
 src/hxhim/init.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..6dc25a1 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,14 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
+    // the datastores have not been opened yet, and the
+    // datastore configuration is needed below
 
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
-- 
2.43.0


From 01d3e6bc0fe482bb68b654b616d7b8e7c0181f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:56 +0000
Subject: [PATCH 19/30] fix: MPI endpoints check for MESSAGE_SUCCESS when
 packing and unpacking

---
 include/transport/backend/MPI/EndpointGroup.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..6545fc8 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -2,6 +2,7 @@
 #include <vector>
 
 #include "hxhim/constants.h"
+#include "message/constants.hpp"
 #include "transport/backend/MPI/constants.h"
 #include "utils/macros.hpp"
 #include "utils/memory.hpp"
@@ -40,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = msg->dst;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +313,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 14d0740da0c65eddb136b2d2aa78af1143efb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:18 +0000
Subject: [PATCH 20/30] fix: address MPI messages with the rank of the range
 server

---
 include/transport/backend/MPI/EndpointGroup.tpp |  3 ++-
 src/transport/backend/MPI/Init.cpp              | 10 +++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 6545fc8..ddd86c0 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -42,7 +42,8 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            // dst is a datastore id, which is not unique to a rank
+            dsts[pack_count] = msg->dst_rank;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..ee54480 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,17 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // create mapping between IDs and endpoint ranks
+    // messages are addressed with ranks, so the rank is the ID
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From ec5960d139f811bdb274673669de4c43cec00488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:33 +0000
Subject: [PATCH 21/30] fix: destroy messages handled by the MPI range server

---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..755fc03 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -58,7 +58,7 @@ void RangeServer::listener_thread() {
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
 
         // encode result
         void *res = nullptr;
@@ -67,7 +67,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From dfd85c2b124f504041abb54276647c9cdb541ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:33 +0000
Subject: [PATCH 22/30] fix: BGetOpSingleType accepts GETOPs

---
 src/hxhim/ops/single_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..1b84de4 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -113,7 +113,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     if (!started(hx) ||
         !subjects    || !subject_lens   ||
         !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From b9770185e8e2f0a5b98e8466ed4c22c09d98ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 23/30] fix: BPutSingleType holds the queue lock

---
 src/hxhim/ops/single_type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 1b84de4..fb0bb30 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,6 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
+        hx->p->queues.puts.mutex.unlock();
     }
     else {
         hxhim::serial_puts(hx);
-- 
2.43.0


From 475343083c912598cd47a0c30dde26a103ae7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 24/30] fix: read lists of endpoints and allow them to be
 missing

---
 src/hxhim/config.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..ad60f1a 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -235,16 +235,18 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             return true;
         }
         else {
+            std::stringstream ids(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
+            while (ids >> id) {
                 if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
                 }
             }
+            return ids.eof();
         }
     }
-    return false;
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From c2a70b5aaa780726cb87f8c434c62f2d5629efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 25/30] fix: options that are not found keep their defaults
 without hiding other options

---
 src/hxhim/config.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index ad60f1a..327db3b 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -404,6 +404,21 @@ int process_config_and_fill_options(hxhim_t *hx, Config::Sequence &sequence) {
 namespace hxhim {
 namespace config {
 
+/**
+ * DefaultConfig
+ * The hard coded values of the options that
+ * are not found in any other source
+ */
+class DefaultConfig : public Config::Reader {
+    public:
+        bool process(Config::Config &config) const {
+            for(decltype(DEFAULT_CONFIG)::value_type const &default_config : DEFAULT_CONFIG) {
+                config[default_config.first] = default_config.second;
+            }
+            return true;
+        }
+};
+
 int default_reader(hxhim_t *hx, MPI_Comm comm) {
     if (!hx || !hx->p) {
         return HXHIM_ERROR;
@@ -418,6 +433,10 @@ int default_reader(hxhim_t *hx, MPI_Comm comm) {
 
     Config::Sequence sequence;
 
+    // sources can be incomplete
+    DefaultConfig defaults;
+    sequence.add(&defaults);
+
     // try to find the default configuration file first
     Config::File file(hxhim::config::CONFIG_FILE);
     sequence.add(&file);
-- 
2.43.0


From b642a1bf1e0353347dcd33a7c4129cbeb5ec6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 26/30] fix: default symbols of encoded numbers

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From 61c75a36ccfc8fb835f59e1b4ca5197be73a8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 27/30] fix: string options can contain whitespace

---
 include/utils/Configuration.hpp | 12 ++++++++++++
 src/utils/Configuration.cpp     | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..4cd84e2 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -161,6 +161,18 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
  */
 int get_value(const Config &config, const std::string &config_key, bool &b);
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * Values might contain whitespace, so they are returned as they are
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return CONFIG_FOUND if the configuration key was found, or CONFIG_NOT_FOUND if the configuration key was not found
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &s);
+
 /**
  * get_from_map
  * Helper function for getting values from a map with the value read from the configuration
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..c21dd0e 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -163,3 +163,24 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
 
     return NOT_FOUND;
 }
+
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * Values might contain whitespace, so they are returned as they are
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return Config::FOUND if the configuration key was found, or Config::NOT_FOUND if the configuration key was not found
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &s) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        s = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
-- 
2.43.0


From 6543f899e6857fafeadc25226934dade112dfbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:24 +0000
Subject: [PATCH 28/30] fix: hold the lock of the background PUT results while
 accessing them

The background thread appended to async_puts.results before taking
async_puts.mutex, and FlushPuts took and destroyed the results without
it. A pass of the background thread that is left over after the two
passes FlushPuts waits for could use results that had been destroyed.
---
 src/hxhim/init.cpp      |  3 ++-
 src/hxhim/ops/FLUSH.cpp | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 6dc25a1..c65e321 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -263,6 +263,8 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -271,7 +273,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 5097237..ae3512d 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -44,9 +44,14 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
 
     // move internal results to res to give to caller
     // these might exist even if there is no background thread (serial_puts)
-    res->Append(hx->p->async_puts.results);
-    destruct(hx->p->async_puts.results);
-    hx->p->async_puts.results = nullptr;
+    {
+        // the background thread might be storing results
+        std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+
+        res->Append(hx->p->async_puts.results);
+        destruct(hx->p->async_puts.results);
+        hx->p->async_puts.results = nullptr;
+    }
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.mutex.lock();
-- 
2.43.0


From d0c3204f0d36749d350316da5f710ab8bfc47116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 29/30] fix: protect the packet statistics from concurrent
 updates

process() runs in the background PUT thread and in the user's thread,
and both inserted into the same maps without a lock.
---
 include/hxhim/private/Stats.hpp   | 5 +++++
 include/hxhim/private/process.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..970ce5d 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -19,6 +20,10 @@ struct Global {
     // how long each bulk operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > bulk_op;
 
+    // packets are sent by the background PUT thread as well
+    // as by user threads, so used and outgoing need a lock
+    std::mutex mutex;
+
     // how many entries of a message packet were used before sending
     // max number of entries per message should never change
     std::map<enum hxhim_op_t, std::list<std::size_t> > used;
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index 2d8277e..7fe1fd9 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -79,8 +79,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From bf74922e565cc83fd206133067fd099532bd42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:47 +0000
Subject: [PATCH 30/30] fix: persistent datastores report entries that could
 not be encoded

---
 src/datastore/LevelDB.cpp | 6 ++++--
 src/datastore/RocksDB.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 2699b20..f19dffd 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR); // only batched PUTs were written
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        res->statuses[i] = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,6 +434,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            res->statuses[i] = DATASTORE_UNSET;
         }
 
         if (subject != req->subjects[i].data()) {
@@ -450,7 +452,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR); // only batched DELETEs were written
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 6a73b5e..86ee2d6 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR); // only batched PUTs were written
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        res->statuses[i] = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,6 +434,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            res->statuses[i] = DATASTORE_UNSET;
         }
 
         if (subject != req->subjects[i].data()) {
@@ -450,7 +452,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR); // only batched DELETEs were written
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0

