From 8f4e718f3fd4cd0831c3dc036a0c241bf11d745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 01/58] fix: GETOP requests for zero records and partially
 failed GETOPs wrote out of bounds

---
 src/datastore/datastore.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..f896c77 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <iomanip>
 #include <sstream>
@@ -451,9 +452,11 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for EQ (num_recs is ignored) and for an error response
+    const std::size_t max_recs = std::max(req->num_recs[i], (std::size_t) 1);
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
@@ -520,10 +523,17 @@ void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
                                                  Datastore::Datastore::Stats::Event &event) {
-    std::size_t &index = res->num_recs[i];
-    res->subjects[i][index]   = std::move(subject);
-    res->predicates[i][index] = std::move(predicate);
-    index++;
+    // drop records that were copied before the error occurred
+    for(std::size_t j = 0; j < res->num_recs[i]; j++) {
+        res->subjects[i][j].dealloc();
+        res->predicates[i][j].dealloc();
+        res->objects[i][j].dealloc();
+    }
+
+    // respond with only the original subject and predicate
+    res->subjects[i][0]   = std::move(subject);
+    res->predicates[i][0] = std::move(predicate);
+    res->num_recs[i]      = 1;
 
     event.size += subject.pack_size(true) + predicate.pack_size(true);
 }
-- 
2.43.0


From e4fad652a0175c8a8ed89272cf1b501ea5f78a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 02/58] fix: GETOP that finds no records responds with one
 error instead of a dangling result

---
 src/datastore/InMemory.cpp | 7 ++++---
 src/datastore/LevelDB.cpp  | 7 ++++---
 src/datastore/RocksDB.cpp  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..49543f0 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -334,11 +334,12 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET, the operation succeeded if it found anything
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..bd2173e 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -376,11 +376,12 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET, the operation succeeded if it found anything
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..2f603b4 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -376,11 +376,12 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET, the operation succeeded if it found anything
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
-- 
2.43.0


From 2652a2f7f4616abec135ff66c9692a0e8d63c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 03/58] fix: GETOP EQ returned an unrelated record when no key
 has the prefix

---
 src/datastore/InMemory.cpp | 3 ++-
 src/datastore/LevelDB.cpp  | 6 ++++--
 src/datastore/RocksDB.cpp  | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 49543f0..99caf4b 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -199,7 +199,8 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
                 it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index bd2173e..fb2276c 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 2f603b4..a0bf914 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From 542f56f33d963ce13c7af61cbcee05c0a716be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 04/58] fix: InMemory GETOP LAST on an empty datastore and
 LOWEST over short keys read invalid memory

---
 src/datastore/InMemory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 99caf4b..506d0be 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -258,9 +258,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    it--;
+
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
@@ -283,7 +284,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
-- 
2.43.0


From 28bf55227c12c39732b385d5ff903933ff3c3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 05/58] fix: GETOP HIGHEST searched before the prefix and never
 found its records

---
 include/datastore/datastore.hpp |  3 +++
 src/datastore/InMemory.cpp      | 31 +++++++++----------------------
 src/datastore/LevelDB.cpp       | 11 ++++++-----
 src/datastore/RocksDB.cpp       | 11 ++++++-----
 src/datastore/datastore.cpp     | 15 +++++++++++++++
 5 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..55669ed 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,9 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        // get the first value after every key with the prefix (empty if there is none)
+        static std::string BGetOp_get_end(const Blob &key, std::size_t prefix_len);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 506d0be..b9e2d77 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -295,33 +295,20 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
 
-                // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                // find first key past the prefix
+                it = end.size()?db.lower_bound(end):db.end();
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                // walk backwards to get values
+                for(std::size_t j = 0; (j < req->num_recs[i]) && (it != db.begin()); j++) {
                     it--;
-                }
-                else {
-                    it = db.rbegin().base();
-                }
 
-                if (it != db.end()) {
-                    // walk backwards to get values
-                    for(std::size_t j = 0;
-                        (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
-                        j++) {
-                        this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
-                        it--;
+                    if (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) != 0) {
+                        break;
                     }
-                }
-                else {
-                    res->statuses[i] = DATASTORE_ERROR;
+
+                    this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                 }
             }
             else {
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index fb2276c..4e2340a 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -336,14 +336,15 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                if (end.size()) {
+                    it->Seek(::leveldb::Slice(end.data(), end.size()));
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the end is guaranteed to be past the last value found
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index a0bf914..e1dee06 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -336,14 +336,15 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string end = BGetOp_get_end(key, prefix_len);
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                if (end.size()) {
+                    it->Seek(::rocksdb::Slice(end.data(), end.size()));
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the end is guaranteed to be past the last value found
+                if (end.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index f896c77..d3b2494 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -519,6 +519,21 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+std::string Datastore::Datastore::BGetOp_get_end(const Blob &key, std::size_t prefix_len) {
+    std::string end((char *) key.data(), prefix_len);
+
+    // increment the last byte that can be incremented
+    while (end.size() && (end.back() == '\xff')) {
+        end.pop_back();
+    }
+
+    if (end.size()) {
+        end.back()++;
+    }
+
+    return end;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 192e15357d7ab7ecadf8ec3108a8a3f7dfd20d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 06/58] fix: HISTOGRAM refused the datastores beyond the number
 of range servers

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From c9bff1ace7b5cdc297201b19a240d8e749a36916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:58 +0000
Subject: [PATCH 07/58] fix: single-type operations refused GETOPs, lost PUT
 results, skipped the queue lock and exported a misspelled name

---
 src/hxhim/ops/single_type.cpp | 48 +++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..9d9f173 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -13,16 +13,29 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu PUTs of type %d", count, object_type);
 
     if (!started(hx)||
-        !subjects   || !subject_lens   ||
-        !predicates || !predicate_lens ||
+        !subjects   || !subject_lens   || !subject_types   ||
+        !predicates || !predicate_lens || !predicate_types ||
         !objects    || !object_lens    ||
         !permutations) {
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i]   || !subject_lens[i]   ||
+            !predicates[i] || !predicate_lens[i] ||
+            !objects[i]    || !object_lens[i]) {
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,9 +47,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
-    }
-    else {
-        hxhim::serial_puts(hx);
+        hx->p->queues.puts.mutex.unlock();
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
@@ -67,11 +78,19 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens) {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types) {
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i]   || !subject_lens[i]   ||
+            !predicates[i] || !predicate_lens[i]) {
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
@@ -111,12 +130,19 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types ||
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i] || !subject_lens[i]) { // NULL predicates are allowed
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
@@ -136,7 +162,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return HXHIM_SUCCESS;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From 9502b49f4272c893af4cb5d7aa844b07105d4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 08/58] fix: bulk operations queued null items that later crash
 instead of rejecting them

---
 src/hxhim/ops/BDELETE.cpp    | 8 ++++++++
 src/hxhim/ops/BGET.cpp       | 8 ++++++++
 src/hxhim/ops/BGETOP.cpp     | 7 +++++++
 src/hxhim/ops/BHISTOGRAM.cpp | 3 ++-
 src/hxhim/ops/BPUT.cpp       | 9 +++++++++
 src/hxhim/ops/HISTOGRAM.cpp  | 3 ++-
 6 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..ab01009 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -25,6 +25,14 @@ int hxhim::BDelete(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i]   || !subject_lens[i]   ||
+            !predicates[i] || !predicate_lens[i]) {
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..78d178f 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -28,6 +28,14 @@ int hxhim::BGet(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i]   || !subject_lens[i]   ||
+            !predicates[i] || !predicate_lens[i]) {
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..f53d901 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -31,6 +31,13 @@ int hxhim::BGetOp(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i] || !subject_lens[i]) { // NULL predicates are allowed
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index fb576ba..47544ea 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,8 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total) ||
+            (!names[i] && name_lens[i])) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..a60e60f 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -31,6 +31,15 @@ int hxhim::BPut(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every item must be valid before any item is queued
+    for(std::size_t i = 0; i < count; i++) {
+        if (!subjects[i]   || !subject_lens[i]   ||
+            !predicates[i] || !predicate_lens[i] ||
+            !objects[i]    || !object_lens[i]) {
+            return HXHIM_ERROR;
+        }
+    }
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index 1d2141c..a6a911e 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,8 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.datastores.total)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total) ||
+        (!name && len)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From d6fcb9340fc8ac4701b5f01fd005e79079f98ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:52 +0000
Subject: [PATCH 09/58] fix: GetDatastoreLocation computed the rank with the
 range server mapping

---
 src/hxhim/accessors.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..d44af82 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,10 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From b266a013acf6efe1a5b8db3d9498705505e51940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 10/58] fix: floating point values with the exponent -9
 (negative values: 9) decoded to a value without exponent

---
 include/utils/elen.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..441cb37 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -409,7 +409,8 @@ T floating_point(const std::string &str, const char neg, const char pos) {
     std::size_t position = prefix_count;
 
     // only decode exponent portion if the exponent is not 0
-    if (wo_sign[position] != '0') {
+    // (the digits of a negative exponent are flipped, so a prefixed '0' is a 9)
+    if (prefix_count || (wo_sign[position] != '0')) {
         // read the encoded lengths
         position = prefix_count;
         std::size_t len = 1;
-- 
2.43.0


From c69352abbc720848e23876208b7fd5ed1055ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 11/58] fix: encoding the smallest negative integers and
 decoding 8 bit integers

---
 include/utils/elen.tpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 441cb37..d36e8d3 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -41,11 +41,14 @@ std::string unique(const T value, const char prefix, const char neg, const char
 template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
+    // the magnitude of the smallest negative value only fits the unsigned type
+    typedef typename std::make_unsigned<T>::type Magnitude;
+
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        return unique<Magnitude, std::true_type>(0 - (Magnitude) value, neg, neg, pos);
     }
     else if (value > 0) {
-        return unique<T, Cond>(value, pos, neg, pos);
+        return unique<Magnitude, std::true_type>(value, pos, neg, pos);
     }
 
     return "0";
@@ -221,7 +224,7 @@ static std::size_t get_prefix_count(const char prefix, const std::string &str, c
 
 template <typename T,
           typename = enable_if_t<std::is_integral<T>::value> >
-T next(const char prefix, const std::string &str, std::size_t &position, const T &len, const char neg) {
+T next(const char prefix, const std::string &str, std::size_t &position, const std::size_t len, const char neg) {
     // read the next series of digits
     std::string str_len = str.substr(position, len);
 
@@ -234,14 +237,16 @@ T next(const char prefix, const std::string &str, std::size_t &position, const T
     position += len;
 
     // the digits become the new length
+    // read as the widest unsigned type because 8 bit types are read as characters
+    // and the magnitude of the smallest negative value does not fit into T
     std::stringstream s(str_len);
-    T out = 0;
+    unsigned long long out = 0;
 
     if (!(s >> out)) {
         throw std::invalid_argument(ERROR_PREFIX + "Could not read length of next set of digits at position " + std::to_string(position) + ": " + str_len + " from " + str);
     }
 
-    return out;
+    return (T) out;
 }
 
 // Chapter 3 Integers
@@ -278,7 +283,7 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
     // read the final value
     T out = next<T, std::true_type>(prefix, str, position, len, neg);
     if (prefix == neg) {
-        out = -out;
+        out = (T) (0 - (typename std::make_unsigned<T>::type) out);
     }
 
     return out;
-- 
2.43.0


From dac5b7e2a04b83f141ddb971d9cf8683a5e5f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 12/58] fix: large decimals beyond int and small decimals that
 round up to 1

---
 include/utils/elen.tpp | 45 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index d36e8d3..9051e38 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -72,6 +72,11 @@ std::string small_decimals_digits(const T value, const int precision) {
     std::string out;
     s >> out;
 
+    // rounded up to 1, which cannot be represented
+    if (tmp[0] != '0') {
+        out = std::string(out.size(), '9');
+    }
+
     // negatives get their digits flipped
     if (value < 0) {
         flip(out);
@@ -107,17 +112,35 @@ std::string large_decimals(const T value, const int precision, const char neg, c
     std::stringstream s;
     s << std::fixed << std::setprecision(precision) << value;
 
-    int integer = 0;
+    // the integer part might not fit into any integer type
+    std::string integer;
+    std::getline(s, integer, '.');
+    if (integer[0] == '-') {
+        integer.erase(0, 1);
+    }
+
     T decimal = 0;
-    s >> integer >> decimal;
+    std::string digits;
+    if (s >> digits) {
+        std::stringstream("0." + digits) >> decimal;
+    }
 
     if (value < 0) {
         decimal = -decimal;
     }
 
     std::string out;
-    if (integer != 0) {
-        out = integers<int, std::true_type>(integer, neg, pos);
+    if (integer != "0") {
+        const char prefix = (value < 0)?neg:pos;
+
+        out = prefix;
+        if (integer.size() > 1) {
+            out += unique<std::size_t, std::true_type>(integer.size(), prefix, neg, pos);
+        }
+        if (value < 0) {
+            flip(integer);
+        }
+        out += integer;
     }
     else {
         if (value < 0) {
@@ -348,7 +371,6 @@ T large_decimals(const std::string &str, const char neg, const char pos) {
         throw std::length_error(ERROR_PREFIX + "Decode Large Decimals: Need string longer than 2 characters (prefix + digits + postfix): " + str);
     }
 
-    int integer = 0;
     const char prefix = str[0];
     const std::size_t prefix_count = get_prefix_count(prefix, str, neg, pos);
     std::size_t position = prefix_count;
@@ -358,10 +380,17 @@ T large_decimals(const std::string &str, const char neg, const char pos) {
         len = next<std::size_t, std::true_type>(prefix, str, position, len, neg);
     }
 
-    // the final section is the integral value
-    integer = next<int, std::true_type>(prefix, str, position, len, neg);
+    // the final section is the integral value, which might not fit into any integer type
+    std::string integer = str.substr(position, len);
+    if (prefix == neg) {
+        flip(integer);
+    }
+    position += integer.size();
 
-    T out = integer;
+    T out = 0;
+    if (!(std::stringstream(integer) >> out) && (out == 0)) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Large Decimals: Could not read integer part: " + integer + " from " + str);
+    }
     if (prefix == neg) {
         out = -out;
     }
-- 
2.43.0


From 120fc85046e54949d00cc7426b12ccc3844d7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 13/58] fix: very large and very small doubles lost their value
 in the key encoding

---
 include/utils/elen.tpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 9051e38..13efbe2 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 namespace elen {
 
 // negatives get their digits flipped (9 - digit)
@@ -9,6 +11,15 @@ static inline void flip(std::string &str) {
     }
 }
 
+// value * 10^exp, where 10^exp might be out of range even though the result is not
+static inline double scale10(const double value, const int exp) {
+    if (std::abs(exp) < std::numeric_limits<double>::max_exponent10) {
+        return value * std::pow(10, exp);
+    }
+
+    return value * std::pow(10, exp / 2) * std::pow(10, exp - exp / 2);
+}
+
 namespace encode {
 
 // Chapter 2.3 Uniqueness
@@ -169,7 +180,8 @@ template <typename R, typename Z, typename = enable_if_t<std::is_arithmetic<R>::
                                                          std::is_integral<Z>::value> >
 R frexp10(const R arg, Z *exp) {
     *exp = (arg == 0) ? 0 : (Z)(1 + std::round(std::log10(std::fabs(arg))));
-    return arg * pow(10 , -(*exp));
+
+    return scale10(arg, -(*exp));
 }
 
 // Chapter 6 Floating Pointer Numbers
@@ -469,7 +481,14 @@ T floating_point(const std::string &str, const char neg, const char pos) {
         mantissa = small_decimals<T, std::true_type>(sign + wo_sign.substr(position, wo_sign.size() - position), neg, pos);
     }
 
-    return std::pow(10, ((sign == neg)?-1:1) * exp) * mantissa;
+    if (sign == neg) {
+        exp = -exp;
+    }
+
+    const double value = scale10(mantissa, exp);
+
+    // the largest values might have been rounded up to values that are out of range
+    return std::max<double>(std::numeric_limits<T>::lowest(), std::min<double>(std::numeric_limits<T>::max(), value));
 }
 
 }
-- 
2.43.0


From 6f2adec3042f42dedc934f4ce307ba85d1f49552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 14/58] fix: histogram generators on equal values, narrow
 ranges and Scott's rule

---
 src/utils/Histogram.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..ae913bc 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -31,11 +31,15 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+static int generate_using_bin_count(const double &min, const double &max, const double count, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    // use a single bucket if the values cannot be split up (all values are
+    // the same, or the formula has no usable result for these values)
+    const std::size_t bin_count = ((max > min) && std::isfinite(count) && (count >= 1))?count:1;
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -64,7 +68,8 @@ int histogram_n_buckets(const double *first_n, const size_t n, double **buckets,
     double min = 0, max = 0;
     minmax(first_n, n, min, max);
 
-    const double width = std::ceil((max - min) / *size);
+    // all of the values being the same still requires distinct buckets
+    const double width = (max > min)?std::ceil((max - min) / *size):1;
     for(std::size_t i = 0; i < *size; i++) {
         (*buckets)[i] = min;
         min += width;
@@ -136,7 +141,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
-- 
2.43.0


From d543d73344c7fb6010c5a2f587b491423a1fdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 15/58] fix: histogram upper bound for negative values

---
 src/utils/Histogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index ae913bc..7c422a7 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -22,7 +22,7 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     const double *max_it = std::max_element(values, values + len);
 
     if (max_it == (values + len)) {
-        max = std::numeric_limits<double>::min();
+        max = std::numeric_limits<double>::lowest();
     }
     else {
         max = *max_it;
@@ -223,7 +223,7 @@ int Histogram::Histogram::add(const double &value) {
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From ce7fb681b78e15d659709699a3f86522ce95bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 16/58] fix: unpacked histograms have a cache matching first_n

---
 src/utils/Histogram.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 7c422a7..116ada0 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -493,10 +493,11 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
-    if (count_ < first_n_) {
-        dealloc_array(cache_);
-        cache_ = alloc_array<double>(first_n_);
+    // the size of the cache might have changed
+    dealloc_array(cache_);
+    cache_ = alloc_array<double>(first_n_);
 
+    if (count_ < first_n_) {
         for(std::size_t i = 0; i < count_; i++) {
             memcpy(&cache_[i], curr, sizeof(cache_[i]));
             curr += sizeof(cache_[i]);
@@ -522,6 +523,8 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
         curr += sizeof(buckets_[size_]);
     }
 
+    size -= curr - orig;
+
     if (used) {
         *used = curr - orig;
     }
-- 
2.43.0


From 1480fd4103d08ad45ac8a2e177eeedfee754a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 17/58] fix: bucket generators were told of more values than
 are cached

---
 src/utils/Histogram.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 116ada0..1ac7e28 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -217,8 +217,9 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
-                (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
+            // count_ might be larger than first_n_ if a previous attempt failed
+            if ((gen_(cache_, std::min(count_, first_n_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+                (gen_counts()                                                        != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
-- 
2.43.0


From 7ed4c738b42e414b07876b35ef7c191104dbfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 18/58] fix: blobs without a pointer were skipped when packing

---
 src/utils/Blob.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..7b9e074 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,15 +112,19 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // empty blobs are allowed to not have a pointer, but still
+    // have to be found in the packed data when unpacking
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
-    dst += len;
+    if (len) {
+        memcpy(dst, ptr, len);
+        dst += len;
+    }
 
     if (include_type) {
         little_endian::encode(dst, type);
-- 
2.43.0


From 161dc1e9f4f58224534a895b96467b6e3d7b648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:04 +0000
Subject: [PATCH 19/58] fix: size of GETOP responses

---
 src/message/BGetOp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/message/BGetOp.cpp b/src/message/BGetOp.cpp
index 57adf0e..a31717b 100644
--- a/src/message/BGetOp.cpp
+++ b/src/message/BGetOp.cpp
@@ -103,8 +103,12 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     size_t ds = sizeof(num_rec);
     for(std::size_t i = 0; i < num_rec; i++) {
         ds += subject[i].pack_size(true) +
-            predicate[i].pack_size(true) +
-            object[i].pack_size(true);
+            predicate[i].pack_size(true);
+
+        // objects are only sent when the operation succeeded
+        if (status == DATASTORE_SUCCESS) {
+            ds += object[i].pack_size(true);
+        }
     }
 
     subjects[count] = subject;
@@ -113,7 +117,7 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     num_recs[count] = num_rec;
 
     // status is shared by all responses
-    return Response::add(status, sizeof(num_rec) + ds, true);
+    return Response::add(status, ds, true);
 }
 
 std::size_t Message::Response::BGetOp::update_size(const std::size_t index) {
-- 
2.43.0


From be80c8c83fe631be3e660b89a99e8eb0f03af864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 20/58] fix: destroying C results after the session was closed

---
 src/hxhim/Results.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..acfcdd8 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -777,12 +777,11 @@ hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
  * @param res A list of results
  */
 void hxhim_results_destroy(hxhim_results_t *res) {
+    // do not use res->hx, since results are allowed to outlive their session
     if (res) {
-        const int rank = res->hx->p->bootstrap.rank;
-
-        mlog(HXHIM_CLIENT_DBG, "Rank %d Destroying hxhim_results_t %p", rank, res);
+        mlog(HXHIM_CLIENT_DBG, "Destroying hxhim_results_t %p", res);
         hxhim::Results::Destroy(res->res);
         destruct(res);
-        mlog(HXHIM_CLIENT_DBG, "Rank %d Destroyed hxhim_results_t %p", rank, res);
+        mlog(HXHIM_CLIENT_DBG, "Destroyed hxhim_results_t %p", res);
     }
 }
-- 
2.43.0


From 10e6dd0cd6011028a337105fa580b0d5005e48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 21/58] fix: apply every configuration setting even when
 another one is missing or invalid

---
 src/hxhim/config.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..290eace 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -212,11 +212,12 @@ static bool parse_transport(hxhim_t *hx, const Config::Config &config) {
                 break;
             #endif
             default:
-                break;
+                return false;
         }
     }
 
-    return false;
+    // not being set is not an error
+    return true;
 }
 
 static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
@@ -242,9 +243,12 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
                     return false;
                 }
             }
+            return false;
         }
     }
-    return false;
+
+    // not being set is not an error
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
@@ -343,20 +347,22 @@ static int fill_options(hxhim_t *hx, const Config::Config &config) {
 
     using namespace hxhim::config;
 
-    return
-        parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level)                 &&
-        parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio)                &&
-        parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio)                &&
-        parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server)       &&
-        parse_datastore(hx, config)                                                                   &&
-        parse_transport(hx, config)                                                                   &&
-        parse_endpointgroup(hx, config)                                                               &&
-        parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at)         &&
-        parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request)     &&
-        parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request)    &&
-        parse_elen(hx, config)                                                                        &&
-        parse_histogram(hx, config)                                                                   &&
-        true?HXHIM_SUCCESS:HXHIM_ERROR;
+    // every setting is handled, no matter whether or not the settings before it were good
+    bool good = true;
+    good = parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level)                 && good;
+    good = parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio)                && good;
+    good = parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio)                && good;
+    good = parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server)       && good;
+    good = parse_datastore(hx, config)                                                                   && good;
+    good = parse_transport(hx, config)                                                                   && good;
+    good = parse_endpointgroup(hx, config)                                                               && good;
+    good = parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at)         && good;
+    good = parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request)     && good;
+    good = parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request)    && good;
+    good = parse_elen(hx, config)                                                                        && good;
+    good = parse_histogram(hx, config)                                                                   && good;
+
+    return good?HXHIM_SUCCESS:HXHIM_ERROR;
 }
 
 /**
-- 
2.43.0


From 877a1739d044e75e53a7f4c75e8b9c42337333da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 22/58] fix: a list of endpoints in the configuration is read
 to its end

---
 src/hxhim/config.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 290eace..46547fd 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -223,7 +223,8 @@ static bool parse_transport(hxhim_t *hx, const Config::Config &config) {
 static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
     Config::Config_it endpointgroup = config.find(hxhim::config::TRANSPORT_ENDPOINT_GROUP);
     if (endpointgroup != config.end()) {
-        hxhim_clear_endpoint_group(hx);
+        // only replace the group if all of the new endpoints are good
+        std::vector<int> endpoints;
         if (endpointgroup->second == "ALL") {
             int size = -1;
             if (MPI_Comm_size(hx->p->bootstrap.comm, &size) != MPI_SUCCESS) {
@@ -231,19 +232,29 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             }
 
             for(int rank = 0; rank < size; rank++) {
-                hxhim_add_endpoint_to_group(hx, rank);
+                endpoints.push_back(rank);
             }
-            return true;
         }
         else {
+            std::stringstream ids(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
-                if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
-                    // should probably write to mlog and continue instead of returning
+            while (ids >> id) {
+                if (id < 0) {
                     return false;
                 }
+                endpoints.push_back(id);
+            }
+
+            if (!ids.eof() || endpoints.empty()) {
+                return false;
+            }
+        }
+
+        hxhim_clear_endpoint_group(hx);
+        for(const int endpoint : endpoints) {
+            if (hxhim_add_endpoint_to_group(hx, endpoint) != HXHIM_SUCCESS) {
+                return false;
             }
-            return false;
         }
     }
 
-- 
2.43.0


From 1c368ca0131a677ae4703f3d21a5eadd7035ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 23/58] fix: reject configuration values that are only partly
 valid

---
 include/utils/Configuration.hpp | 28 +++++++++++++++++++++++++++-
 src/utils/Configuration.cpp     | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..fc24762 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -4,6 +4,7 @@
 #include <list>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 
 #include "utils/macros.hpp"
@@ -144,12 +145,37 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
     // find the key
     Config_it in_config = config.find(config_key);
     if (in_config != config.end()) {
-        return (std::stringstream(in_config->second) >> v)?FOUND:ERROR;
+        // negative values should not wrap around
+        if (std::is_unsigned<T>::value && (in_config->second.find('-') != std::string::npos)) {
+            return ERROR;
+        }
+
+        // the entire value has to be good
+        std::stringstream s(in_config->second);
+        T value;
+        if (!(s >> value) || !(s >> std::ws).eof()) {
+            return ERROR;
+        }
+
+        v = value;
+        return FOUND;
     }
 
     return NOT_FOUND;
 }
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * Strings are not broken up on whitespace
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return Config::FOUND if the configuration key was found, or Config::NOT_FOUND if the configuration key was not found
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &s);
+
 /**
  * get_value <bool> overload
  * Helper function for reading booleans from the configuration
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..77fe0ef 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -143,6 +143,27 @@ bool Config::EnvironmentVar::process(Config &config) const {
     return false;
 }
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * Strings are not broken up on whitespace
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return Config::FOUND if the configuration key was found, or Config::NOT_FOUND if the configuration key was not found
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &s) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        s = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
+
 /**
  * get_value <bool> overload
  * Helper function for reading booleans from the configuration
@@ -158,7 +179,16 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
     if (in_config != config.end()) {
         std::string config_value = in_config->second;
         std::transform(config_value.begin(), config_value.end(), config_value.begin(), ::tolower);
-        return (std::stringstream(config_value) >> std::boolalpha >> b)?FOUND:ERROR;
+
+        // the entire value has to be good
+        std::stringstream s(config_value);
+        bool value;
+        if (!(s >> std::boolalpha >> value) || !(s >> std::ws).eof()) {
+            return ERROR;
+        }
+
+        b = value;
+        return FOUND;
     }
 
     return NOT_FOUND;
-- 
2.43.0


From a072ee38ca5b1ea51b5883b4b50a2593a28ebef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 24/58] fix: each datastore setting of a configuration is
 applied on its own

---
 src/hxhim/config.cpp | 72 +++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 46547fd..a079547 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -2,6 +2,7 @@
 #include <sstream>
 #include <vector>
 
+#include "datastore/datastores.hpp"
 #include "datastore/transform.hpp"
 #include "hxhim/config.hpp"
 #include "hxhim/constants.h"
@@ -92,19 +93,22 @@ bool parse_map_value(hxhim_t *hx, const Config::Config &config, const std::strin
  * @return a boolean indicating whether or not an error was encountered
  */
 static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
-    // required
-    Datastore::Type datastore;
-    if ((Config::get_from_map(config,
-                              hxhim::config::DATASTORE_TYPE,
-                              hxhim::config::DATASTORES,
-                              datastore) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_PREFIX,
-                           hx->p->range_server.datastores.prefix) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_BASENAME,
-                           hx->p->range_server.datastores.basename) != Config::FOUND)) {
-        return false;
+    bool good = true;
+
+    // each part of the name can be set on its own
+    std::string name;
+    if (Config::get_value(config, hxhim::config::DATASTORE_PREFIX, name) == Config::FOUND) {
+        if (name.size()) {
+            hx->p->range_server.datastores.prefix = name;
+        }
+        good = name.size() && good;
+    }
+
+    if (Config::get_value(config, hxhim::config::DATASTORE_BASENAME, name) == Config::FOUND) {
+        if (name.size()) {
+            hx->p->range_server.datastores.basename = name;
+        }
+        good = name.size() && good;
     }
 
     // optional
@@ -112,36 +116,56 @@ static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
                       hxhim::config::DATASTORE_POSTFIX,
                       hx->p->range_server.datastores.postfix);
 
+    // if the type is not being set, the settings
+    // specific to the current type may still be set
+    const Datastore::Config *current = hx->p->range_server.datastores.config;
+    Datastore::Type datastore = current?current->type:Datastore::IN_MEMORY;
+    int ret = Config::get_from_map(config,
+                               hxhim::config::DATASTORE_TYPE,
+                               hxhim::config::DATASTORES,
+                               datastore);
+    good = (ret != Config::ERROR) && good;
+
+    if (!current && (ret != Config::FOUND)) {
+        return good;
+    }
+
     // datastore specific configuration
     switch (datastore) {
         case Datastore::IN_MEMORY:
-            return (hxhim_set_datastore_in_memory(hx) == HXHIM_SUCCESS);
+            return (hxhim_set_datastore_in_memory(hx) == HXHIM_SUCCESS) && good;
 
         #if HXHIM_HAVE_LEVELDB
         case Datastore::LEVELDB:
             {
-                bool create_if_missing = true; // default to true; do not error if not found
-                if (Config::get_value(config, hxhim::config::LEVELDB_CREATE_IF_MISSING,
-                    create_if_missing) == Config::ERROR) {
-                    return false;
+                // default to the current value or true; do not error if not found
+                bool create_if_missing = true;
+                if (current && (current->type == Datastore::LEVELDB)) {
+                    create_if_missing = static_cast<const Datastore::LevelDB::Config *>(current)->create_if_missing;
                 }
 
+                ret = Config::get_value(config, hxhim::config::LEVELDB_CREATE_IF_MISSING, create_if_missing);
+                good = (ret != Config::ERROR) && good;
+
                 return (hxhim_set_datastore_leveldb(hx,
-                                                    create_if_missing) == HXHIM_SUCCESS);
+                                                    create_if_missing) == HXHIM_SUCCESS) && good;
             }
         #endif
 
         #if HXHIM_HAVE_ROCKSDB
         case Datastore::ROCKSDB:
             {
-                bool create_if_missing = true; // default to true; do not error if not found
-                if (Config::get_value(config, hxhim::config::ROCKSDB_CREATE_IF_MISSING,
-                                      create_if_missing) == Config::ERROR) {
-                    return false;
+                // default to the current value or true; do not error if not found
+                bool create_if_missing = true;
+                if (current && (current->type == Datastore::ROCKSDB)) {
+                    create_if_missing = static_cast<const Datastore::RocksDB::Config *>(current)->create_if_missing;
                 }
 
+                ret = Config::get_value(config, hxhim::config::ROCKSDB_CREATE_IF_MISSING, create_if_missing);
+                good = (ret != Config::ERROR) && good;
+
                 return (hxhim_set_datastore_rocksdb(hx,
-                                                    create_if_missing) == HXHIM_SUCCESS);
+                                                    create_if_missing) == HXHIM_SUCCESS) && good;
             }
         #endif
 
-- 
2.43.0


From df27c4741cc1e8bc14023aee4adf89ceaf63bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 25/58] fix: default ELEN symbols

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From 238f0fa4f47f7c98e074a59b631b49bf93da123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 26/58] fix: partial ELEN and histogram configurations keep the
 other settings

---
 src/hxhim/config.cpp | 77 ++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 49 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index a079547..436b95a 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -287,65 +287,44 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-    char neg = elen::NEG_SYMBOL;
-    char pos = elen::POS_SYMBOL;
-    int  flt_precision = elen::encode::FLOAT_PRECISION;
-    int  dbl_precision = elen::encode::DOUBLE_PRECISION;
-
-    Config::Config_it neg_it = config.find(hxhim::config::ELEN_NEG_SYMBOL);
-    if (neg_it != config.end()) {
-        if (!(std::stringstream(neg_it->second) >> neg)) {
-            return false;
-        }
-    }
-
-    Config::Config_it pos_it = config.find(hxhim::config::ELEN_POS_SYMBOL);
-    if (pos_it != config.end()) {
-        if (!(std::stringstream(pos_it->second) >> pos)) {
-            return false;
-        }
-    }
+    // settings that are not in the configuration keep their current values
+    const auto &numeric = hx->p->range_server.datastores.transform.numeric_extra;
+    char        neg = numeric.neg;
+    char        pos = numeric.pos;
+    std::size_t flt = numeric.float_precision;
+    std::size_t dbl = numeric.double_precision;
 
-    Config::Config_it flt_it = config.find(hxhim::config::ELEN_ENCODE_FLOAT_PRECISION);
-    if (flt_it != config.end()) {
-        if (!(std::stringstream(flt_it->second) >> flt_precision)) {
-            return false;
-        }
-    }
-
-    Config::Config_it dbl_it = config.find(hxhim::config::ELEN_ENCODE_DOUBLE_PRECISION);
-    if (dbl_it != config.end()) {
-        if (!(std::stringstream(dbl_it->second) >> dbl_precision)) {
-            return false;
-        }
-    }
+    bool good = true;
+    good = (Config::get_value(config, hxhim::config::ELEN_NEG_SYMBOL,              neg) != Config::ERROR) && good;
+    good = (Config::get_value(config, hxhim::config::ELEN_POS_SYMBOL,              pos) != Config::ERROR) && good;
+    good = (Config::get_value(config, hxhim::config::ELEN_ENCODE_FLOAT_PRECISION,  flt) != Config::ERROR) && good;
+    good = (Config::get_value(config, hxhim::config::ELEN_ENCODE_DOUBLE_PRECISION, dbl) != Config::ERROR) && good;
 
     if (neg >= pos) {
-        return false;
+        neg  = numeric.neg;
+        pos  = numeric.pos;
+        good = false;
     }
 
-    if (flt_precision >= dbl_precision) {
-        return false;
+    if (!flt || (flt >= dbl)) {
+        flt  = numeric.float_precision;
+        dbl  = numeric.double_precision;
+        good = false;
     }
 
-    return (hxhim_set_transform_numeric_values(hx, neg, pos, flt_precision, dbl_precision) == HXHIM_SUCCESS);
+    return (hxhim_set_transform_numeric_values(hx, neg, pos, flt, dbl) == HXHIM_SUCCESS) && good;
 }
 
 static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
-    if (!parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,          hxhim_set_histogram_first_n)         ||
-        !parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME,  hxhim_set_histogram_bucket_gen_name)) {
-        return false;
-    }
-
-    bool read = true; // default to true; do not error if not found
-    if (Config::get_value(config, hxhim::config::HISTOGRAM_READ_EXISTING, read) == Config::ERROR) {
-        return false;
-    }
+    bool good = true;
+    good = parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,          hxhim_set_histogram_first_n)         && good;
+    good = parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME,  hxhim_set_histogram_bucket_gen_name) && good;
 
-    bool write = true; // default to true; do not error if not found
-    if (Config::get_value(config, hxhim::config::HISTOGRAM_WRITE_AT_EXIT, write) == Config::ERROR) {
-        return false;
-    }
+    // settings that are not in the configuration keep their current values
+    bool read  = hx->p->histograms.read;
+    bool write = hx->p->histograms.write;
+    good = (Config::get_value(config, hxhim::config::HISTOGRAM_READ_EXISTING, read)  != Config::ERROR) && good;
+    good = (Config::get_value(config, hxhim::config::HISTOGRAM_WRITE_AT_EXIT, write) != Config::ERROR) && good;
 
     if (hxhim_datastore_histograms(hx, read, write) != HXHIM_SUCCESS) {
         return false;
@@ -360,7 +339,7 @@ static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
         }
     }
 
-    return true;
+    return good;
 }
 
 /**
-- 
2.43.0


From 9d5c0e0b69864509e1ba878d2c35c68fc915ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 27/58] fix: read settings without default values from the
 environment too

---
 src/hxhim/config.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 436b95a..d84792e 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <set>
 #include <sstream>
 #include <vector>
 
@@ -445,9 +446,27 @@ int default_reader(hxhim_t *hx, MPI_Comm comm) {
     sequence.add(&fileenv);
 
     // overwite values with individual environment variables
-    std::vector<Config::EnvironmentVar *> vars;
+    std::set<std::string> keys = {
+        hxhim::config::MPI_LISTENERS,
+        hxhim::config::HISTOGRAM_TRACK_PREDICATES,
+        #if HXHIM_HAVE_LEVELDB
+        hxhim::config::LEVELDB_CREATE_IF_MISSING,
+        #endif
+        #if HXHIM_HAVE_ROCKSDB
+        hxhim::config::ROCKSDB_CREATE_IF_MISSING,
+        #endif
+        #if HXHIM_HAVE_THALLIUM
+        hxhim::config::THALLIUM_MODULE,
+        hxhim::config::THALLIUM_THREAD_COUNT,
+        #endif
+    };
     for(decltype(hxhim::config::DEFAULT_CONFIG)::value_type const &default_config : hxhim::config::DEFAULT_CONFIG) {
-        Config::EnvironmentVar *var = new Config::EnvironmentVar(hxhim::config::HXHIM_ENV_NAMESPACE + default_config.first, default_config.first);
+        keys.insert(default_config.first);
+    }
+
+    std::vector<Config::EnvironmentVar *> vars;
+    for(std::string const &key : keys) {
+        Config::EnvironmentVar *var = new Config::EnvironmentVar(hxhim::config::HXHIM_ENV_NAMESPACE + key, key);
         sequence.add(var);
         vars.push_back(var);
     }
-- 
2.43.0


From 2b82af842e25d0b4783576b460ae5ccc8eac2592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 28/58] fix: requests have to hold at least one operation

---
 src/hxhim/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..d7a7527 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -485,6 +485,10 @@ int hxhim_set_maximum_ops_per_request(hxhim_t *hx, const std::size_t count) {
         return HXHIM_ERROR;
     }
 
+    if (!count) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->queues.max_per_request.ops = count;
 
     return HXHIM_SUCCESS;
-- 
2.43.0


From 3b65b8ca809aeb334df392e755e796318ed473cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 29/58] fix: the MPI transport needs a listener and a session

---
 src/hxhim/options.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index d7a7527..a38336b 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -373,6 +373,14 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p || hx->p->running) {
+        return HXHIM_ERROR;
+    }
+
+    if (!listeners) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
-- 
2.43.0


From 4b58abce6868d9165aa752a3ec9172195385d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 30/58] fix: a datastore that cannot be opened is not a success

---
 include/hxhim/constants.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..0c9dbe0 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -24,11 +24,17 @@ extern "C"
 /** Generic Error */
 #define HXHIM_ERROR                   4
 
-/** hxhim::Open Errors */
+/**
+ * hxhim::Open Errors
+ * NONE and GENERIC take the values of HXHIM_SUCCESS and
+ * HXHIM_ERROR, so that the other errors do not
+ */
 #define HXHIM_OPEN_ERROR_GEN(PREFIX, GEN)       \
     GEN(PREFIX, BOOTSTRAP)                      \
     GEN(PREFIX, SET_RUNNING)                    \
     GEN(PREFIX, HASH)                           \
+    GEN(PREFIX, NONE)                           \
+    GEN(PREFIX, GENERIC)                        \
     GEN(PREFIX, DATASTORE)                      \
     GEN(PREFIX, TRANSPORT)                      \
     GEN(PREFIX, QUEUES)                         \
-- 
2.43.0


From c02a34a20038c6e3a257550fe52bbf5f701c014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 31/58] fix: closing a session completes its queued operations

---
 src/hxhim/hxhim.cpp   | 18 +++++++++++-------
 src/hxhim/private.cpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..ee13e94 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -95,7 +95,7 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
  */
 int hxhim::Open(hxhim_t *hx) {
     /** don't restart already running instances */
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -158,6 +158,7 @@ int hxhim::Open(hxhim_t *hx) {
     if (rc != HXHIM_OPEN_ERROR_BOOTSTRAP) {
         MPI_Barrier(hx->p->bootstrap.comm);
     }
+    destroy::running(hx);
     Close(hx);
     mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
     return rc;
@@ -184,7 +185,7 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -197,7 +198,7 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
         (init::one_datastore (hx, db_path) != HXHIM_SUCCESS) ||
         (init::queues        (hx)          != HXHIM_SUCCESS) ||
         (init::async_puts    (hx)          != HXHIM_SUCCESS)) {
-        MPI_Barrier(hx->p->bootstrap.comm);
+        destroy::running(hx);
         Close(hx);
         mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
         return HXHIM_ERROR;
@@ -241,15 +242,18 @@ int hxhim::Close(hxhim_t *hx) {
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Starting to shutdown HXHIM", rank);
 
-    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
-    destroy::running(hx);
-
+    // complete queued operations (does nothing if the session was not opened)
     mlog(HXHIM_CLIENT_DBG, "Rank %d Waiting for all ranks to complete syncing", rank);
     Results::Destroy(hxhim::Sync(hx));
+
+    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
+    destroy::running(hx);
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
     // make sure all ranks are ready to stop
-    MPI_Barrier(comm);
+    if (comm != MPI_COMM_NULL) {
+        MPI_Barrier(comm);
+    }
 
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
diff --git a/src/hxhim/private.cpp b/src/hxhim/private.cpp
index c7f592b..5cb0a38 100644
--- a/src/hxhim/private.cpp
+++ b/src/hxhim/private.cpp
@@ -7,7 +7,7 @@
 hxhim_private::hxhim_private()
     : epoch(::Stats::init()),
       debug_level(MLOG_DBG3),
-      bootstrap(),
+      bootstrap({MPI_COMM_NULL, -1, -1}),
       running(false),
       queues(),
       async_puts(),
-- 
2.43.0


From 6fb38138912d76541692be3e7885cfbf48f3210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 32/58] fix: flushing a session that is not open does nothing

---
 src/hxhim/Results.cpp   |  5 +++++
 src/hxhim/ops/FLUSH.cpp | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index acfcdd8..a4bc56b 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -760,6 +760,11 @@ int hxhim::Results::Timestamps(struct hxhim::Result::Timestamps **timestamps) co
  * @return the pointer to the C structure containing the hxhim::Results
  */
 hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
+    // nothing was done
+    if (!res) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_DBG, "Rank %d Creating hxhim_results_t using %p", rank, res);
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..1170967 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -31,6 +31,10 @@ hxhim::Results *FlushImpl(hxhim_t *hx,
  * @return results from sending the PUTs
  */
 hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Flushing PUTs", rank);
@@ -86,6 +90,10 @@ hxhim_results_t *hxhimFlushPuts(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGets(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -116,6 +124,10 @@ hxhim_results_t *hxhimFlushGets(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGetOps(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -146,6 +158,10 @@ hxhim_results_t *hxhimFlushGetOps(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushDeletes(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -176,6 +192,10 @@ hxhim_results_t *hxhimFlushDeletes(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushHistograms(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -209,6 +229,10 @@ hxhim_results_t *hxhimFlushHistograms(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::Flush(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
-- 
2.43.0


From d0963f34655fd7221ceef6ae4313bd60db94a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:02 +0000
Subject: [PATCH 33/58] fix: stop only a background thread that was started

---
 src/hxhim/destroy.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..976c5ba 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -38,9 +38,15 @@ int hxhim::destroy::running(hxhim_t *hx) {
  */
 int hxhim::destroy::async_puts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
-        wait_for_background_puts(hx, true);
-
-        hx->p->async_puts.thread.join();
+        // the thread might not have been started
+        if (hx->p->async_puts.thread.joinable()) {
+            {
+                std::lock_guard<std::mutex> queue_lock(hx->p->queues.puts.mutex);
+                hx->p->queues.puts.start_processing.notify_all();
+            }
+
+            hx->p->async_puts.thread.join();
+        }
     }
 
     // release unproceesed results from asynchronous PUTs
-- 
2.43.0


From 0a3a7fee21469c6d81a68b36329643d484b2edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 34/58] fix: the background thread leaves a queue for every
 datastore

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From fbb1f38eaa180e8d39562cd6e4c961bae41b1b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 35/58] fix: wait for the results of the background thread

---
 include/hxhim/private/hxhim.hpp |  5 ++--
 src/hxhim/init.cpp              |  9 +++++--
 src/hxhim/ops/FLUSH.cpp         |  9 ++++---
 src/hxhim/private.cpp           | 48 +++++++++++++++------------------
 4 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/include/hxhim/private/hxhim.hpp b/include/hxhim/private/hxhim.hpp
index 8d003a0..e0ac8fb 100644
--- a/include/hxhim/private/hxhim.hpp
+++ b/include/hxhim/private/hxhim.hpp
@@ -96,9 +96,8 @@ typedef struct hxhim_private {
         bool enabled;
         std::size_t max_queued;            // number of batches to hold before sending PUTs asynchronously
         std::thread thread;                // the thread that pushes PUTs off the PUT queue asynchronously
-        std::mutex mutex;
-        std::condition_variable done;
-        bool done_check;                   // whether or not the background puts have completed
+        std::mutex mutex;                  // protects results
+        std::condition_variable done;      // used with queues.puts.mutex
         hxhim::Results *results;           // the list of of PUT results
     } async_puts;
 
diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..bc6a705 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -252,6 +252,7 @@ static void async_put_thread(hxhim_t *hx) {
             hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
+            hx->p->queues.puts.processing = true;
         }
 
         // puts.mutex unlocked
@@ -262,6 +263,7 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -269,9 +271,12 @@ static void async_put_thread(hxhim_t *hx) {
             else {
                 hx->p->async_puts.results = results;
             }
+        }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
-            hx->p->async_puts.done_check = true;
+        // all of the PUTs that were popped now have results
+        {
+            std::lock_guard<std::mutex> queue_lock(hx->p->queues.puts.mutex);
+            hx->p->queues.puts.processing = false;
         }
 
         hx->p->async_puts.done.notify_all();
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 1170967..383aa7e 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -46,9 +46,12 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+        {
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+            res->Append(hx->p->async_puts.results);
+            destruct(hx->p->async_puts.results);
+            hx->p->async_puts.results = nullptr;
+        }
 
         hx->p->queues.puts.mutex.lock();
     }
diff --git a/src/hxhim/private.cpp b/src/hxhim/private.cpp
index 5cb0a38..c4eba3a 100644
--- a/src/hxhim/private.cpp
+++ b/src/hxhim/private.cpp
@@ -25,37 +25,31 @@ hxhim_private::~hxhim_private() {
 
 void hxhim::wait_for_background_puts(hxhim_t *hx, const bool clear_queued) {
     // keep this locked at all times except when waiting
-    std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+    std::unique_lock<std::mutex> queue_lock(hx->p->queues.puts.mutex);
 
-    // i = 0: wait for the background PUTs thread to finish
-    // i = 1: force the background PUTs thread to run again to clear out any items that queued up while i = 0 was running
-    for(int i = 0; i < 2; i++) {
-        hx->p->async_puts.done_check = false;
-
-        // force the background thread to flush
-        {
-            std::lock_guard<std::mutex> flush_lock(hx->p->queues.puts.mutex);
-            if (clear_queued) {
-                // clear each target range server's queue
-                for(hxhim::QueueTarget<Message::Request::BPut> &target : hx->p->queues.puts.queue) {
-                    // clear out queued items for a target single range server
-                    for(Message::Request::BPut *bput : target) {
-                        destruct(bput);
-                    }
-                    target.clear();
-                }
-                hx->p->queues.puts.queue.clear();
+    if (clear_queued) {
+        // clear each target range server's queue
+        for(hxhim::QueueTarget<Message::Request::BPut> &target : hx->p->queues.puts.queue) {
+            // clear out queued items for a target single range server
+            for(Message::Request::BPut *bput : target) {
+                destruct(bput);
             }
-            hx->p->queues.puts.flushed = true;
-            hx->p->queues.puts.start_processing.notify_all();
+            target.clear();
         }
-
-        // wait for the background thread to finish
-        hx->p->async_puts.done.wait(async_lock,
-                                   [hx]() -> bool {
-                                       return !hx->p->running || hx->p->async_puts.done_check;
-                                   });
+        hx->p->queues.puts.count = 0;
     }
+
+    // force the background thread to flush
+    hx->p->queues.puts.flushed = true;
+    hx->p->queues.puts.start_processing.notify_all();
+
+    // wait for the background thread to finish everything
+    // that was queued before this function was called
+    hx->p->async_puts.done.wait(queue_lock,
+                                [hx]() -> bool {
+                                    return (!hx->p->running ||
+                                            (!hx->p->queues.puts.flushed && !hx->p->queues.puts.processing));
+                                });
 }
 
 /**
-- 
2.43.0


From 900bb7daf010864eebc6ca427fbcb0e90770db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 36/58] fix: the background thread shares the session
 statistics

---
 include/hxhim/private/Stats.hpp   | 4 ++++
 include/hxhim/private/process.hpp | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..df62b48 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -19,6 +20,9 @@ struct Global {
     // how long each bulk operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > bulk_op;
 
+    // the background PUT thread updates used and outgoing too
+    std::mutex mutex;
+
     // how many entries of a message packet were used before sending
     // max number of entries per message should never change
     std::map<enum hxhim_op_t, std::list<std::size_t> > used;
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..cd0db1e 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -71,8 +71,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From f674bcc6330a16e83dce3db480b3a3ba0e442d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:14 +0000
Subject: [PATCH 37/58] fix: OpenOne destroyed the configuration it uses

---
 src/hxhim/init.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index bc6a705..c6fd6bd 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,11 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
-- 
2.43.0


From 996d80af8aaaf666f9aa71c8614270461c6b240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:15 +0000
Subject: [PATCH 38/58] fix: a session opens on every rank or on none

---
 src/hxhim/hxhim.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index ee13e94..563399f 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -100,6 +100,8 @@ int hxhim::Open(hxhim_t *hx) {
     }
 
     int rc = HXHIM_SUCCESS;
+    int failed = 0;
+    int any_failed = 0;
 
     #if PRINT_TIMESTAMPS
     ::Stats::Chronostamp init;
@@ -146,7 +148,11 @@ int hxhim::Open(hxhim_t *hx) {
     }
 
     mlog(HXHIM_CLIENT_INFO, "Waiting for everyone to complete initialization");
-    MPI_Barrier(hx->p->bootstrap.comm);
+    MPI_Allreduce(&failed, &any_failed, 1, MPI_INT, MPI_MAX, hx->p->bootstrap.comm);
+    if (any_failed) {
+        rc = HXHIM_ERROR;
+        goto close;
+    }
     mlog(HXHIM_CLIENT_INFO, "Successfully initialized HXHIM on rank %d/%d", hx->p->bootstrap.rank, hx->p->bootstrap.size);
     #if PRINT_TIMESTAMPS
     init.end = ::Stats::now();
@@ -155,9 +161,13 @@ int hxhim::Open(hxhim_t *hx) {
     return rc;
 
   error:
+    // every rank has to fail if one does
     if (rc != HXHIM_OPEN_ERROR_BOOTSTRAP) {
-        MPI_Barrier(hx->p->bootstrap.comm);
+        failed = 1;
+        MPI_Allreduce(&failed, &any_failed, 1, MPI_INT, MPI_MAX, hx->p->bootstrap.comm);
     }
+
+  close:
     destroy::running(hx);
     Close(hx);
     mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
-- 
2.43.0


From 91f02bcaa48276845ef7b2d4a1def1047d916850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 39/58] fix: report the operations of a batch that could not be
 encoded

---
 src/datastore/LevelDB.cpp | 8 ++++++--
 src/datastore/RocksDB.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 4e2340a..024a3d5 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -423,6 +423,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -432,8 +433,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -449,7 +453,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index e1dee06..ba8c8d3 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -423,6 +423,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -432,8 +433,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -449,7 +453,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From d58f411cf76a2518f8488289b068675d8f4f1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 40/58] fix: use the transform functions that were registered

---
 src/hxhim/init.cpp    | 4 ++--
 src/hxhim/options.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index c6fd6bd..1fea330 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a38336b..d77077d 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,8 +320,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 47b4e5c62dea932e5fa19dfaf5a5b11cf6bafb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 41/58] fix: report datastores that could not be changed

---
 src/hxhim/hxhim.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 563399f..e19c3ac 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -400,9 +400,13 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                                                                 ds->ID(),
                                                                 rs_ds->postfix);
 
-        ds->Change(new_path,
-                   write_histograms,
-                   read_histograms?&hx->p->histograms.names:nullptr);
+        if (!ds->Change(new_path,
+                        write_histograms,
+                        read_histograms?&hx->p->histograms.names:nullptr)) {
+            // the datastore cannot be used any more
+            res->Add(hxhim::Result::init(hx, DATASTORE_ERROR));
+            continue;
+        }
 
         if (create_missing) {
             const ::Datastore::Datastore::Histograms *hists = nullptr;
-- 
2.43.0


From 814b1634716476313536d44a51b23cb466347a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 42/58] fix: ChangeHash opens the datastores of the new hash

---
 src/hxhim/hxhim.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index e19c3ac..6fe34af 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -319,26 +319,23 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
         return nullptr;
     }
 
-    hxhim::Results *res = hxhim::Sync(hx);
+    // queued operations were placed with the old hash
+    hxhim::Results *res = hxhim::Flush(hx);
 
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
-        // change datastores
-        std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
-    }
-
-    MPI_Barrier(hx->p->bootstrap.comm);
+    // sync and change datastores
+    hxhim::Results *changed = hxhim::ChangeDatastoreName(hx, name,
+                                                         hx->p->histograms.write,
+                                                         hx->p->histograms.read,
+                                                         true);
+    res->Append(changed);
+    destruct(changed);
 
     return res;
 }
-- 
2.43.0


From a1c6389e3b1a74290ddd1ee895969c03f031ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:43 +0000
Subject: [PATCH 43/58] fix: operations on a datastore that is not usable fail

---
 src/datastore/datastore.cpp | 62 ++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index d3b2494..9bc9d64 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -115,9 +115,63 @@ int Datastore::Datastore::ID() const {
     return id;
 }
 
+// references to the subject and predicate sent by the requester
+template <typename Request_t>
+static Blob orig_subject(Request_t *req, const std::size_t i) {
+    return ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type());
+}
+
+template <typename Request_t>
+static Blob orig_predicate(Request_t *req, const std::size_t i) {
+    return ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type());
+}
+
+/**
+ * unusable
+ * Every operation fails when the underlying datastore cannot be used
+ *
+ * @param req  the packet requesting multiple operations
+ * @return a response with only errors
+ */
+static Message::Response::BPut *unusable(Message::Request::BPut *req) {
+    Message::Response::BPut *res = construct<Message::Response::BPut>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(orig_subject(req, i), orig_predicate(req, i), DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BGet *unusable(Message::Request::BGet *req) {
+    Message::Response::BGet *res = construct<Message::Response::BGet>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(orig_subject(req, i), orig_predicate(req, i), Blob(), DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BGetOp *unusable(Message::Request::BGetOp *req) {
+    Message::Response::BGetOp *res = construct<Message::Response::BGetOp>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        Blob *subject   = alloc_array<Blob>(1);
+        Blob *predicate = alloc_array<Blob>(1);
+        subject[0]      = std::move(req->subjects[i]);
+        predicate[0]    = std::move(req->predicates[i]);
+        res->add(subject, predicate, alloc_array<Blob>(1), 1, DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BDelete *unusable(Message::Request::BDelete *req) {
+    Message::Response::BDelete *res = construct<Message::Response::BDelete>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(orig_subject(req, i), orig_predicate(req, i), DATASTORE_ERROR);
+    }
+    return res;
+}
+
 Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    Message::Response::BPut *res = Usable()?BPutImpl(req):nullptr;
+    Message::Response::BPut *res = Usable()?BPutImpl(req):unusable(req);
 
     if (hists.size() && res) {
         // if a predicate is HXHIM_DATA_BYTE and the PUT was successful
@@ -159,17 +213,17 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
 
 Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetImpl(req):nullptr;
+    return Usable()?BGetImpl(req):unusable(req);
 }
 
 Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetOp *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetOpImpl(req):nullptr;
+    return Usable()?BGetOpImpl(req):unusable(req);
 }
 
 Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDelete *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BDeleteImpl(req):nullptr;
+    return Usable()?BDeleteImpl(req):unusable(req);
 }
 
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
-- 
2.43.0


From 91bb692e345bcf917cd46f33e65be41f17e75699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:07 +0000
Subject: [PATCH 44/58] fix: report histograms that could not be written

---
 src/datastore/datastore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 9bc9d64..2809b9c 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -423,10 +423,13 @@ int Datastore::Datastore::GetStats(uint64_t *put_time,
 
 int Datastore::Datastore::Sync(const bool write_histograms) {
     std::lock_guard<std::mutex> lock(mutex);
-    if (write_histograms) {
-        WriteHistograms();
+    if (!Usable()) {
+        return DATASTORE_ERROR;
     }
-    return Usable()?SyncImpl():DATASTORE_ERROR;
+
+    const int written = write_histograms?WriteHistograms():DATASTORE_SUCCESS;
+    const int synced = SyncImpl();
+    return (written == DATASTORE_SUCCESS)?synced:written;
 }
 
 int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
-- 
2.43.0


From 4b98163943841b562f2efcdccb5cf4143934282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:20 +0000
Subject: [PATCH 45/58] fix: MPI endpoints compare the results of packing with
 the right value

---
 include/transport/backend/MPI/EndpointGroup.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..6545fc8 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -2,6 +2,7 @@
 #include <vector>
 
 #include "hxhim/constants.h"
+#include "message/constants.hpp"
 #include "transport/backend/MPI/constants.h"
 #include "utils/macros.hpp"
 #include "utils/memory.hpp"
@@ -40,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = msg->dst;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +313,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 7f36c7a165acc6f07d243033d9c62565d1b2c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 46/58] fix: MPI endpoints are found by rank

---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 src/transport/backend/MPI/Init.cpp              | 9 ++-------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 6545fc8..eef14fc 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -42,7 +42,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            dsts[pack_count] = message.first;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
@@ -82,7 +82,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
             data_reqs[data_count] = construct<MPI_Request>();
             if (MPI_Isend(bufs[i], lens[i], MPI_CHAR, dst_it->second, TRANSPORT_MPI_DATA_REQUEST_TAG, comm, data_reqs[data_count]) == MPI_SUCCESS) {
                 mlog(MPI_DBG, "Successfully started data of size %zu to server %d", lens[i], dst_it->second);
-                srvs[data_count] = dst_it->second;
+                srvs[data_count] = dsts[i];
                 data_count++;
             }
             else {
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..de61883 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,16 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // add the endpoints, which are identified by their ranks
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 27ed6400b556675fb9dd5a4685fb9c325c439f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:41 +0000
Subject: [PATCH 47/58] fix: a failed MPI send releases its own request

---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index eef14fc..9c9cf10 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -87,13 +87,13 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
             }
             else {
                 mlog(MPI_ERR, "Errored while sending data of size %zu to server %d", lens[i], dst_it->second);
-                dealloc(data_reqs[i]);
+                dealloc(data_reqs[data_count]);
                 data_reqs[data_count] = nullptr;
             }
         }
         else {
             mlog(MPI_ERR, "Errored while sending size %zu to server %d", lens[i], dst_it->second);
-            dealloc(size_reqs[i]);
+            dealloc(size_reqs[size_count]);
             size_reqs[size_count] = nullptr;
         }
     }
-- 
2.43.0


From b716f5c468d3f23e4a9f8b3f2090523afda640f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:48 +0000
Subject: [PATCH 48/58] fix: MPI range servers destroy requests and responses

---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..755fc03 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -58,7 +58,7 @@ void RangeServer::listener_thread() {
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
 
         // encode result
         void *res = nullptr;
@@ -67,7 +67,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From d409e99031dd7f7ff4462ede1fd6538e53ca8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:58 +0000
Subject: [PATCH 49/58] fix: MPI exchanges of the background PUTs and the
 caller do not mix

---
 include/transport/backend/MPI/EndpointGroup.hpp | 4 ++++
 include/transport/backend/MPI/EndpointGroup.tpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..e0d959e 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -65,6 +66,9 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         volatile std::atomic_bool &running;
 
+        /** One set of requests and responses is in flight at a time */
+        std::mutex mutex;
+
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 9c9cf10..5a15047 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -335,6 +335,9 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
  */
 template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
+    // PUTs might be processed at the same time as other operations
+    std::lock_guard<std::mutex> lock(mutex);
+
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
     // return value here is not useful
-- 
2.43.0


From 607598546a9200461a3a6d4e3282a2e7996ee9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:21 +0000
Subject: [PATCH 50/58] fix: send every packet when a remote rank has several
 datastores

---
 include/hxhim/private/process.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index cd0db1e..b9a69d2 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -54,13 +54,19 @@ hxhim::Results *process(hxhim_t *hx,
             }
 
             Request_t *req = queues[ds].front();
-            queues[ds].pop_front();
 
             // set because they were not set in impl
             req->src = hx->p->bootstrap.rank;
             req->dst = ds;
             req->dst_rank = hx->p->queues.ds_to_rank[req->dst];
 
+            // only one packet can be sent to each remote range server at a time
+            if (remote.find(req->dst_rank) != remote.end()) {
+                continue;
+            }
+
+            queues[ds].pop_front();
+
             if (req->src == req->dst_rank) {
                 local.push_back(req);
             }
-- 
2.43.0


From 663269a28712195e12733f1049c675daf90216cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 51/58] fix: requests that cannot be delivered are answered
 with errors

---
 include/datastore/datastore.hpp   |  7 +++++++
 include/hxhim/private/process.hpp | 26 +++++++++++++++++++++++++-
 src/datastore/datastore.cpp       | 27 ++++++++++++++++++---------
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 55669ed..eeaada2 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -32,6 +32,13 @@ struct Config {
 // mapping from predicate name to id
 typedef std::set<std::string> HistNames_t;
 
+/** @description Responses for requests where every operation failed */
+Message::Response::BPut       *failed(Message::Request::BPut       *req);
+Message::Response::BGet       *failed(Message::Request::BGet       *req);
+Message::Response::BGetOp     *failed(Message::Request::BGetOp     *req);
+Message::Response::BDelete    *failed(Message::Request::BDelete    *req);
+Message::Response::BHistogram *failed(Message::Request::BHistogram *req);
+
 /**
  * Datatstores
  * The base class for all datastores used by HXHIM
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index b9a69d2..44a98e3 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -1,6 +1,7 @@
 #ifndef PROCESS_HPP
 #define PROCESS_HPP
 
+#include "datastore/datastore.hpp"
 #include "hxhim/private/Results.hpp"
 #include "hxhim/private/hxhim.hpp"
 #include "transport/backend/local/RangeServer.hpp"
@@ -102,7 +103,10 @@ hxhim::Results *process(hxhim_t *hx,
             #endif
 
             // send down transport layer
-            Response_t *response = hx->p->transport.transport->communicate(remote);
+            Response_t *response = nullptr;
+            if (hx->p->transport.transport) {
+                response = hx->p->transport.transport->communicate(remote);
+            }
 
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint remote_end = ::Stats::now();
@@ -111,6 +115,26 @@ hxhim::Results *process(hxhim_t *hx,
             ::Stats::Chronopoint serialize_start = ::Stats::now();
             #endif
 
+            // requests that were not answered failed
+            for(REF(remote)::value_type const &req : remote) {
+                bool answered = false;
+                for(Message::Response::Response *r = response; r && !answered; r = r->next) {
+                    answered = (r->src == req.second->dst);
+                }
+
+                if (!answered) {
+                    Response_t *failed = ::Datastore::failed(req.second);
+                    failed->src = req.second->dst;
+                    failed->dst = req.second->src;
+                    failed->steal_timestamps(req.second, false);
+                    for(std::size_t i = 0; i < failed->count; i++) {
+                        failed->timestamps.reqs[i] = std::move(req.second->timestamps.reqs[i]);
+                    }
+                    failed->next = response;
+                    response = failed;
+                }
+            }
+
             // serialize results
             hxhim::Result::AddAll(hx, res, response);
 
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 2809b9c..9f32dcf 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -127,13 +127,14 @@ static Blob orig_predicate(Request_t *req, const std::size_t i) {
 }
 
 /**
- * unusable
+ * failed
  * Every operation fails when the underlying datastore cannot be used
+ * or cannot be reached
  *
  * @param req  the packet requesting multiple operations
  * @return a response with only errors
  */
-static Message::Response::BPut *unusable(Message::Request::BPut *req) {
+Message::Response::BPut *Datastore::failed(Message::Request::BPut *req) {
     Message::Response::BPut *res = construct<Message::Response::BPut>(req->count);
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(orig_subject(req, i), orig_predicate(req, i), DATASTORE_ERROR);
@@ -141,7 +142,7 @@ static Message::Response::BPut *unusable(Message::Request::BPut *req) {
     return res;
 }
 
-static Message::Response::BGet *unusable(Message::Request::BGet *req) {
+Message::Response::BGet *Datastore::failed(Message::Request::BGet *req) {
     Message::Response::BGet *res = construct<Message::Response::BGet>(req->count);
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(orig_subject(req, i), orig_predicate(req, i), Blob(), DATASTORE_ERROR);
@@ -149,7 +150,7 @@ static Message::Response::BGet *unusable(Message::Request::BGet *req) {
     return res;
 }
 
-static Message::Response::BGetOp *unusable(Message::Request::BGetOp *req) {
+Message::Response::BGetOp *Datastore::failed(Message::Request::BGetOp *req) {
     Message::Response::BGetOp *res = construct<Message::Response::BGetOp>(req->count);
     for(std::size_t i = 0; i < req->count; i++) {
         Blob *subject   = alloc_array<Blob>(1);
@@ -161,7 +162,7 @@ static Message::Response::BGetOp *unusable(Message::Request::BGetOp *req) {
     return res;
 }
 
-static Message::Response::BDelete *unusable(Message::Request::BDelete *req) {
+Message::Response::BDelete *Datastore::failed(Message::Request::BDelete *req) {
     Message::Response::BDelete *res = construct<Message::Response::BDelete>(req->count);
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(orig_subject(req, i), orig_predicate(req, i), DATASTORE_ERROR);
@@ -169,9 +170,17 @@ static Message::Response::BDelete *unusable(Message::Request::BDelete *req) {
     return res;
 }
 
+Message::Response::BHistogram *Datastore::failed(Message::Request::BHistogram *req) {
+    Message::Response::BHistogram *res = construct<Message::Response::BHistogram>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(nullptr, DATASTORE_ERROR);
+    }
+    return res;
+}
+
 Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    Message::Response::BPut *res = Usable()?BPutImpl(req):unusable(req);
+    Message::Response::BPut *res = Usable()?BPutImpl(req):failed(req);
 
     if (hists.size() && res) {
         // if a predicate is HXHIM_DATA_BYTE and the PUT was successful
@@ -213,17 +222,17 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
 
 Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetImpl(req):unusable(req);
+    return Usable()?BGetImpl(req):failed(req);
 }
 
 Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetOp *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetOpImpl(req):unusable(req);
+    return Usable()?BGetOpImpl(req):failed(req);
 }
 
 Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDelete *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BDeleteImpl(req):unusable(req);
+    return Usable()?BDeleteImpl(req):failed(req);
 }
 
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
-- 
2.43.0


From 9bb1b6394646cf4393c10985698309530c009ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:58 +0000
Subject: [PATCH 52/58] fix: transform callbacks report success with
 HXHIM_SUCCESS

---
 src/datastore/datastore.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 9f32dcf..9b8919a 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -441,6 +441,18 @@ int Datastore::Datastore::Sync(const bool write_histograms) {
     return (written == DATASTORE_SUCCESS)?synced:written;
 }
 
+/**
+ * transformed
+ * Transform callbacks report HXHIM_SUCCESS (see transform.h).
+ * The built in ones report DATASTORE_SUCCESS.
+ *
+ * @param rc the value returned by a callback
+ * @return DATASTORE_SUCCESS or DATASTORE_ERROR
+ */
+static int transformed(const int rc) {
+    return ((rc == HXHIM_SUCCESS) || (rc == DATASTORE_SUCCESS))?DATASTORE_SUCCESS:DATASTORE_ERROR;
+}
+
 int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
                                  const Blob &src,
                                  void **dst, std::size_t *dst_size) {
@@ -457,7 +469,7 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return transformed(it->second.first(src.data(), src.size(), dst, dst_size, it->second.second));
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -476,7 +488,7 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return transformed(it->second.first(src.data(), src.size(), dst, dst_size, it->second.second));
 }
 
 Datastore::Datastore::Stats::Event::Event()
-- 
2.43.0


From 40d61cb2f8b2ad56e42d7e0078f5ce3d8f84a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:09 +0000
Subject: [PATCH 53/58] fix: histogram responses are copies instead of the
 histogram being updated

---
 include/utils/Histogram.hpp |  2 ++
 src/datastore/datastore.cpp |  3 ++-
 src/utils/Histogram.cpp     | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..ce954a1 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -27,6 +27,8 @@ class Histogram {
         Histogram();
         Histogram(const Config &config, const std::string &name);
         Histogram(const Config *config, const std::string &name);
+        Histogram(const Histogram &hist);               // deep copy
+        Histogram &operator=(const Histogram &hist) = delete;
         virtual ~Histogram();
 
         // Add a value to the histogram
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 9b8919a..f8fea48 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -257,7 +257,8 @@ Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::B
         clock_gettime(CLOCK_MONOTONIC, &end);
 
         if (it != hists.end()) {
-            res->add(it->second, DATASTORE_SUCCESS);
+            // the response is read after the datastore has been unlocked
+            res->add(Histogram(construct<::Histogram::Histogram>(*it->second), ::Histogram::deleter), DATASTORE_SUCCESS);
             event.size += it->second->pack_size();
         }
         else {
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 1ac7e28..df163c6 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -184,6 +184,30 @@ Histogram::Histogram::Histogram(const Config *config, const std::string &name)
     : Histogram(*config, name)
 {}
 
+Histogram::Histogram::Histogram(const Histogram &hist)
+    : name_(hist.name_),
+      first_n_(hist.first_n_),
+      gen_(hist.gen_),
+      extra_(hist.extra_),
+      cache_(alloc_array<double>(hist.first_n_)),
+      count_(hist.count_),
+      buckets_(nullptr),
+      counts_(nullptr),
+      size_(hist.size_)
+{
+    std::copy(hist.cache_, hist.cache_ + std::min(count_, first_n_), cache_);
+
+    if (hist.buckets_) {
+        buckets_ = alloc_array<double>(size_ + 1);
+        std::copy(hist.buckets_, hist.buckets_ + size_ + 1, buckets_);
+    }
+
+    if (hist.counts_) {
+        counts_ = alloc_array<std::size_t>(size_);
+        std::copy(hist.counts_, hist.counts_ + size_, counts_);
+    }
+}
+
 Histogram::Histogram::~Histogram() {
     std::stringstream s;
     print(s);
-- 
2.43.0


From 2549f3b5ce3b87b441a1282eb50cecfdd847a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:14 +0000
Subject: [PATCH 54/58] fix: stored histograms have a type like other objects

---
 src/datastore/InMemory.cpp | 5 ++++-
 src/datastore/LevelDB.cpp  | 5 ++++-
 src/datastore/RocksDB.cpp  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index b9e2d77..1c98527 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -421,7 +421,10 @@ int Datastore::InMemory::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
-        db[key] = std::string((char *) serial_hist, serial_hist_len);
+        // stored like any other object, so that scans can read past it
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
+        db[key] = (std::string) value;
     }
 
     for(void *ptr : ptrs) {
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 024a3d5..80cea2d 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -482,8 +482,11 @@ int Datastore::LevelDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // stored like any other object, so that scans can read past it
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
-                  ::leveldb::Slice((char *) serial_hist, serial_hist_len));
+                  ::leveldb::Slice((char *) value.data(), value.size()));
     }
 
     ::leveldb::Status status = db->Write(::leveldb::WriteOptions(), &batch);
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index ba8c8d3..10323aa 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -482,8 +482,11 @@ int Datastore::RocksDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // stored like any other object, so that scans can read past it
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::rocksdb::Slice((char *) key.data(), key.size()),
-                  ::rocksdb::Slice((char *) serial_hist, serial_hist_len));
+                  ::rocksdb::Slice((char *) value.data(), value.size()));
     }
 
     ::rocksdb::Status status = db->Write(::rocksdb::WriteOptions(), &batch);
-- 
2.43.0


From 29fde253fd08a90adfd3582ed2aaf11fe4ef4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:38 +0000
Subject: [PATCH 55/58] fix: histograms that are read back can generate buckets

---
 include/utils/Histogram.hpp  |  3 +++
 src/datastore/datastores.cpp | 11 ++++++-----
 src/hxhim/hxhim.cpp          | 15 +++++++--------
 src/utils/Histogram.cpp      | 15 ++++++++++++++-
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index ce954a1..88c84eb 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -31,6 +31,9 @@ class Histogram {
         Histogram &operator=(const Histogram &hist) = delete;
         virtual ~Histogram();
 
+        // Change how buckets are generated, such as after unpacking
+        void set_generator(const Config &config);
+
         // Add a value to the histogram
         int add(const double &value);
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..314eaaa 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -121,15 +121,16 @@ Datastore::Init(hxhim_t *hx,
             ds->ReadHistograms(hx->p->histograms.names);
         }
 
-        const Datastore::Datastore::Histograms *existing = nullptr;
-        ds->GetHistograms(&existing);
-
         // construct histograms that don't exist
         for(std::string const &name : hx->p->histograms.names) {
-            if (!read_histograms                          ||   // overwrite existing histogram
-                (existing->find(name) == existing->end())) {   // histogram doesn't exist
+            ::Histogram::Histogram *existing = nullptr;
+            if (!read_histograms                                             ||   // overwrite existing histogram
+                (ds->GetHistogram(name, &existing) != DATASTORE_SUCCESS)) {       // histogram doesn't exist
                 ds->AddHistogram(name, hist_config);
             }
+            else {
+                existing->set_generator(hist_config);                             // generators are not stored
+            }
         }
     }
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 6fe34af..0785ef8 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -405,14 +405,13 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
             continue;
         }
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
-
-            for(std::string const &hist_name : hx->p->histograms.names) {
-                if (hists->find(hist_name) == hists->end()){
-                    ds->AddHistogram(hist_name, hx->p->histograms.config);
-                }
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            ::Histogram::Histogram *existing = nullptr;
+            if (ds->GetHistogram(hist_name, &existing) == DATASTORE_SUCCESS) {
+                existing->set_generator(hx->p->histograms.config); // generators are not stored
+            }
+            else if (create_missing) {
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
             }
         }
     }
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index df163c6..e0e296f 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -217,6 +217,18 @@ Histogram::Histogram::~Histogram() {
     dealloc_array(cache_);
 }
 
+/**
+ * set_generator
+ * Set the function used to generate buckets, which is not serialized.
+ * The existing data (including first_n) is not modified.
+ *
+ * @param config the configuration containing the generator
+ */
+void Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+}
+
 /**
  * add
  * If there are not enough values (< limit), adds a value
@@ -242,7 +254,8 @@ int Histogram::Histogram::add(const double &value) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
             // count_ might be larger than first_n_ if a previous attempt failed
-            if ((gen_(cache_, std::min(count_, first_n_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if (!gen_ ||
+                (gen_(cache_, std::min(count_, first_n_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                                        != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
-- 
2.43.0


From ba8316e53bc2ac5011b78bfb867c22e76e411d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:45 +0000
Subject: [PATCH 56/58] fix: stored values that are not histograms are not read
 as histograms

---
 src/utils/Histogram.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index e0e296f..c6d3dac 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -517,11 +517,18 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     clear();
 
     char *orig = curr;
+    const char *end = curr + size;
 
     std::size_t name_len = 0;
     memcpy(&name_len, curr, sizeof(name_len));
     curr += sizeof(name_len);
 
+    // the name has to be followed by the counts
+    if (name_len > (size - (4 * sizeof(std::size_t)))) {
+        curr = orig;
+        return false;
+    }
+
     name_.assign(curr, name_len);
     curr += name_len;
 
@@ -531,6 +538,14 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
+    // values that have not been put into buckets are followed by the number of buckets
+    if ((count_ < first_n_) &&
+        (count_ > ((end - curr - sizeof(size_)) / sizeof(*cache_)))) {
+        clear();
+        curr = orig;
+        return false;
+    }
+
     // the size of the cache might have changed
     dealloc_array(cache_);
     cache_ = alloc_array<double>(first_n_);
@@ -542,8 +557,21 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
         }
     }
 
-    memcpy(&size_, curr, sizeof(size_));
-    curr += sizeof(size_);
+    std::size_t bucket_count = 0;
+    memcpy(&bucket_count, curr, sizeof(bucket_count));
+    curr += sizeof(bucket_count);
+
+    // the buckets are followed by the upper bound
+    const std::size_t remaining = end - curr;
+    if (bucket_count &&
+        ((remaining < sizeof(*buckets_)) ||
+         (bucket_count > ((remaining - sizeof(*buckets_)) / (sizeof(*buckets_) + sizeof(*counts_)))))) {
+        clear();
+        curr = orig;
+        return false;
+    }
+
+    size_ = bucket_count;
 
     if (size_) {
         buckets_ = alloc_array<double>(size_ + 1);
-- 
2.43.0


From 31633ae2bb927092d159a5763ebe329f29cce431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:52 +0000
Subject: [PATCH 57/58] fix: GETOP LOWEST finds records whose predicate type
 has a user transform

---
 src/datastore/datastore.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index f8fea48..6ae07b4 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -579,7 +579,12 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     // does not include the type or length information
     std::string seek((char *) key.data(), prefix_len + 2);    // last 2 chars will be overwritten
 
+    // the numeric prefix is only used by the built in encoders
+    REF(callbacks->encode)::const_iterator it = callbacks->encode.find(predicate_type);
+
     if ((predicate_len == 0) &&
+        (it != callbacks->encode.end()) &&
+        (it->second.second == &callbacks->numeric_extra) &&
         ((predicate_type == HXHIM_DATA_INT32)   ||
          (predicate_type == HXHIM_DATA_INT64)   ||
          (predicate_type == HXHIM_DATA_UINT32)  ||
-- 
2.43.0


From ad9d80f24c94bd890c131cda2f408f723bd0014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:02 +0000
Subject: [PATCH 58/58] fix: ranks receive responses before waiting for their
 requests to be sent

---
 .../transport/backend/MPI/EndpointGroup.hpp   |  13 +-
 .../transport/backend/MPI/EndpointGroup.tpp   | 195 +++++-------------
 src/transport/backend/MPI/EndpointGroup.cpp   |  33 +++
 3 files changed, 96 insertions(+), 145 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index e0d959e..139c76e 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 #include <mpi.h>
 
@@ -49,9 +50,19 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         Message::Response::BHistogram *communicate(const ReqList<Message::Request::BHistogram> &bhm_list);
 
     private:
+        /** @description Requests that are being sent */
+        struct Sends {
+            std::vector<void *> bufs;
+            std::vector<std::size_t> lens;
+            std::vector<MPI_Request *> size_reqs;
+            std::vector<MPI_Request *> data_reqs;
+        };
+
         /** @escription Functions that perform the actual MPI calls */
         template <typename Send_t, typename = enable_if_t<std::is_base_of<Message::Request::Request, Send_t>::value> >
-        std::size_t parallel_send(const ReqList<Send_t> &messages);                         // send to range server
+        std::size_t parallel_send(const ReqList<Send_t> &messages, Sends &sends);           // start sending to range server
+
+        void finish_send(Sends &sends);                                                     // wait for the sends to complete
 
         template <typename Recv_t, typename = enable_if_t<std::is_base_of<Message::Response::Response, Recv_t>::value> >
         std::size_t parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages);  // receive from range server
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 5a15047..278c0a3 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -11,16 +11,18 @@
 
 /**
  * parallel_send
- * This function packs data and sends it in parallel.
+ * This function packs data and starts sending it in parallel.
+ * The sends have to be completed with finish_send.
  * Each array is filled so that only the first n elements (from the previous operation) are valid.
  * This function does not error. It only sends as much as possible.
  *
  * @param num_srvs the maximum number of messages there are
  * @tparm messages the array of messages to send
+ * @param sends    the sends that were started
  * @return the number of messages successfully sent
  */
 template <typename Send_t, typename>
-std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages) {
+std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages, Sends &sends) {
     mlog(MPI_DBG, "Attempting to send %zu messages", messages.size());
 
     if (!messages.size()) {
@@ -30,7 +32,10 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
     // pack the data
     // packs might fail - use pack_count to keep track of successful packs
-    std::vector<void *> bufs(messages.size(), nullptr);
+    std::vector<void *> &bufs = sends.bufs;
+    std::vector<std::size_t> &lens = sends.lens;
+    bufs.resize(messages.size(), nullptr);
+    lens.resize(messages.size(), 0);
     std::size_t pack_count = 0;
     for(REF(messages)::value_type const &message : messages) {
         Send_t *msg = message.second;
@@ -54,8 +59,10 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     mlog(MPI_DBG, "Successfully packed %zu messages", pack_count);
 
     // send sizes and data in parallel
-    std::vector<MPI_Request *> size_reqs(pack_count);
-    std::vector<MPI_Request *> data_reqs(pack_count);
+    std::vector<MPI_Request *> &size_reqs = sends.size_reqs;
+    std::vector<MPI_Request *> &data_reqs = sends.data_reqs;
+    size_reqs.resize(pack_count, nullptr);
+    data_reqs.resize(pack_count, nullptr);
     std::size_t size_count = 0;
     std::size_t data_count = 0;
 
@@ -99,69 +106,6 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     }
     mlog(MPI_DBG, "Done sending messages asynchronously");
 
-    mlog(MPI_DBG, "Waiting for messages to complete");
-
-    //Wait for messages to complete
-    int rank;
-    MPI_Comm_rank(comm, &rank);
-    const std::size_t total_msgs = size_count + data_count;
-    std::size_t done = 0;
-    while (running && (done != total_msgs)) {
-        for(std::size_t i = 0; i < size_count; i++) {
-            if (!size_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-            MPI_Test(size_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(size_reqs[i]);
-                size_reqs[i] = nullptr;
-                done++;
-            }
-        }
-
-        for(std::size_t i = 0; i < data_count; i++) {
-            if (!data_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-
-            MPI_Test(data_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(data_reqs[i]);
-                data_reqs[i] = nullptr;
-                done++;
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_count; i++) {
-        if (size_reqs[i]) {
-            MPI_Request_free(size_reqs[i]);
-            dealloc(size_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < data_count; i++) {
-        if (data_reqs[i]) {
-            MPI_Request_free(data_reqs[i]);
-            dealloc(data_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < pack_count; i++) {
-        dealloc(bufs[i]);
-    }
-
-    mlog(MPI_DBG, "Messages completed: %zu", data_count);
-
     return data_count;
 }
 
@@ -190,96 +134,35 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
 
     mlog(MPI_DBG, "Waiting to receive %zu messages", nsrcs);
 
-    std::vector<MPI_Request *> reqs(nsrcs);
+    std::vector<MPI_Request *> reqs(nsrcs, nullptr);
+    std::vector<void *> recvbufs(nsrcs, nullptr);
 
     // use reqs to receive size messages from the servers in the list
-    std::size_t size_req_count = 0;
+    std::size_t pending = 0;
     for(std::size_t i = 0; i < nsrcs; i++) {
         //this is not really necessary
         std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
 
         if (src_it != ranks.end()) {
-            reqs[size_req_count] = construct<MPI_Request>();
+            reqs[i] = construct<MPI_Request>();
             if (MPI_Irecv(&lens[i], sizeof(lens[i]), MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[size_req_count]) == MPI_SUCCESS) {
+                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[i]) == MPI_SUCCESS) {
                 mlog(MPI_DBG, "Receiving size[%zu] from %d %d", i, src_it->second, srcs[i]);
-                size_req_count++;
+                pending++;
             }
             else {
                 mlog(MPI_DBG, "Failed to start receiving size[%zu]", i);
-                dealloc(reqs[size_req_count]);
-                reqs[size_req_count] = nullptr;
+                dealloc(reqs[i]);
+                reqs[i] = nullptr;
             }
         }
     }
 
-    // Wait for size messages to complete
-    mlog(MPI_DBG, "Waiting for size to be received");
-
-    std::size_t done = 0;
-    while (running && (done != size_req_count)) {
-        for(std::size_t i = 0; i < size_req_count; i++) {
-            // if there is a request
-            if (reqs[i]) {
-                int flag = 0;
-                MPI_Status status;
-
-                // test the request
-                MPI_Test(reqs[i], &flag, &status);
-
-                // if the request completed, add 1
-                if (flag) {
-                    // mlog(MPI_DBG, "size received: %zu", i);
-                    dealloc(reqs[i]);
-                    reqs[i] = nullptr;
-                    done++;
-                }
-                else {
-                    // mlog(MPI_DBG, "size[%zu] not completed yet %zu", i, sizeof(lens[i]));
-                }
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
-        }
-    }
-
-    mlog(MPI_DBG, "Received %zu sizes", done);
-
-    // reuse reqs to receive data messages from the servers
-    std::size_t data_req_count = 0;
-    std::vector<void *> recvbufs(size_req_count);
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-        if (src_it != ranks.end()) {
-            // Receive a message from the servers in the list
-            reqs[data_req_count] = construct<MPI_Request>();
-            recvbufs[data_req_count] = alloc(lens[i]);
-            if (MPI_Irecv(recvbufs[data_req_count], lens[i], MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[data_req_count]) == MPI_SUCCESS) {
-                data_req_count++;
-            }
-            else {
-                dealloc(reqs[data_req_count]);
-                reqs[data_req_count] = nullptr;
-                dealloc(recvbufs[data_req_count]);
-            }
-        }
-    }
-
-    mlog(MPI_DBG, "Completed receiving %zu sizes", done);
-
     // Wait for messages to complete
     mlog(MPI_DBG, "Waiting for data to be received");
 
-    done = 0;
-    while (running && (done != data_req_count)) {
-        for(std::size_t i = 0; i < data_req_count; i++) {
+    while (running && pending) {
+        for(std::size_t i = 0; i < nsrcs; i++) {
             if (!reqs[i]) {
                 continue;
             }
@@ -293,26 +176,45 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
                 continue;
             }
 
+            // the size was received, so receive the data without waiting for
+            // the other servers, because they might be waiting for this server
+            if (!recvbufs[i]) {
+                recvbufs[i] = alloc(lens[i]);
+                if (MPI_Irecv(recvbufs[i], lens[i], MPI_CHAR,
+                              ranks.at(srcs[i]), TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[i]) == MPI_SUCCESS) {
+                    continue;
+                }
+
+                dealloc(recvbufs[i]);
+                recvbufs[i] = nullptr;
+            }
+
             dealloc(reqs[i]);
             reqs[i] = nullptr;
-            done++;
+            pending--;
         }
     }
 
     mlog(MPI_DBG, "Data received");
 
     // Free any remaining requests
-    for(std::size_t i = 0; i < data_req_count; i++) {
+    for(std::size_t i = 0; i < nsrcs; i++) {
         if (reqs[i]) {
             MPI_Request_free(reqs[i]);
             dealloc(reqs[i]);
+            dealloc(recvbufs[i]);
+            recvbufs[i] = nullptr;
         }
     }
 
     // unpack the data
     std::size_t valid = 0;
-    *messages = alloc_array<Recv_t *>(data_req_count);
-    for(std::size_t i = 0; i < data_req_count; i++) {
+    *messages = alloc_array<Recv_t *>(nsrcs);
+    for(std::size_t i = 0; i < nsrcs; i++) {
+        if (!recvbufs[i]) {
+            continue;
+        }
+
         if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
@@ -341,7 +243,8 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
     // return value here is not useful
-    const std::size_t sent = parallel_send(messages);
+    Sends sends;
+    const std::size_t sent = parallel_send(messages, sends);
 
     mlog(MPI_DBG, "Sent to %zu servers:", sent);
     for(std::size_t i = 0; i < sent; i++) {
@@ -355,6 +258,10 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     const std::size_t recvd = parallel_recv(sent, srvs, &recv_list);
     mlog(MPI_DBG, "Received from %zu servers", recvd);
 
+    // the servers might not receive more requests until their responses
+    // are received, so the requests are only waited for after the responses
+    finish_send(sends);
+
     // convert the responses into a list
     Recv_t *head = nullptr;
     Recv_t *tail = nullptr;
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index 15f68b8..94ac1d7 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -45,6 +45,39 @@ void EndpointGroup::RemoveID(const int id) {
     ranks.erase(id);
 }
 
+/**
+ * finish_send
+ * Waits for sends to complete and cleans up.
+ *
+ * @param sends the sends that were started by parallel_send
+ */
+void EndpointGroup::finish_send(Sends &sends) {
+    for(std::vector<MPI_Request *> *reqs : {&sends.size_reqs, &sends.data_reqs}) {
+        for(MPI_Request *req : *reqs) {
+            if (!req) {
+                continue;
+            }
+
+            int flag = 0;
+            while (running && !flag) {
+                MPI_Status status;
+                MPI_Test(req, &flag, &status);
+            }
+
+            // the session stopped first
+            if (!flag) {
+                MPI_Request_free(req);
+            }
+
+            dealloc(req);
+        }
+    }
+
+    for(void *buf : sends.bufs) {
+        dealloc(buf);
+    }
+}
+
 /**
  * BPut
  *
-- 
2.43.0

