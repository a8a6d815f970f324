From 1206715f4b4cd2d1fd35f70cc89fc91af48f0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 01/52] fix: bulk single-type GETOP rejected every valid call
 and its C entry point was misspelled

---
 src/hxhim/ops/single_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..877628d 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -113,7 +113,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     if (!started(hx) ||
         !subjects    || !subject_lens   ||
         !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
@@ -136,7 +136,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return HXHIM_SUCCESS;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From 1de2e690f66f0d9be99058c9512c20ddeae723f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 02/52] fix: GETOP that finds no records reports an error
 instead of a success without records

---
 src/datastore/InMemory.cpp  | 7 ++++---
 src/datastore/LevelDB.cpp   | 7 ++++---
 src/datastore/RocksDB.cpp   | 7 ++++---
 src/datastore/datastore.cpp | 8 +++++---
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..3f48f13 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -334,11 +334,12 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..cd3aabd 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -376,11 +376,12 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..df72c80 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -376,11 +376,12 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
             dealloc(predicate);
         }
 
-        // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // if the status is still DATASTORE_UNSET and something was found, the operation succeeded
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..3aea0e7 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,11 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for 1 record (EQ ignores num_recs and errors place the request's data into index 0)
+    const std::size_t max_recs = req->num_recs[i]?req->num_recs[i]:1;
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
-- 
2.43.0


From 6d5774df6332d2df8b98fdd5b8a92491d87bccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 03/52] fix: GETOP EQ returned an unrelated record when no key
 has the requested prefix

---
 src/datastore/InMemory.cpp | 5 +++--
 src/datastore/LevelDB.cpp  | 5 +++--
 src/datastore/RocksDB.cpp  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 3f48f13..968874f 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -197,9 +197,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
+                const std::string prefix((const char *) key.data(), prefix_len);
+                it = db.lower_bound(prefix);
 
-                if (it != db.end()) {
+                if ((it != db.end()) && (it->first.compare(0, prefix_len, prefix) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index cd3aabd..1fadf18 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,10 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                const ::leveldb::Slice prefix((char *) key.data(), prefix_len);
+                it->Seek(prefix);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index df72c80..3570dc7 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,10 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                const ::rocksdb::Slice prefix((char *) key.data(), prefix_len);
+                it->Seek(prefix);
 
-                if (it->Valid()) {
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From ef77b06eb8c714276054447796af968a68bf9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 04/52] fix: GETOP LAST on an empty in-memory datastore
 dereferenced the end iterator

---
 src/datastore/InMemory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 968874f..0f6a241 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -258,9 +258,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (!db.empty()) {
+                    it--;
+
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
-- 
2.43.0


From 97553bd04c38239af20b89a6c16dce3d32167966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 05/52] fix: GETOP HIGHEST started before the prefix instead of
 at its end

---
 include/datastore/datastore.hpp |  6 +++++
 src/datastore/InMemory.cpp      | 22 +++++++++---------
 src/datastore/LevelDB.cpp       | 11 +++++----
 src/datastore/RocksDB.cpp       | 11 +++++----
 src/datastore/datastore.cpp     | 40 +++++++++++++++++++++++++++++++++
 5 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..9b7b0a3 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,12 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        bool BGetOp_get_seek_past(const Blob &key,
+                                  std::size_t prefix_len,
+                                  std::size_t predicate_len,
+                                  hxhim_data_t predicate_type,
+                                  std::string &seek);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 0f6a241..9a28c67 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -284,7 +284,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
@@ -295,28 +295,26 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                std::string seek;
+                const bool past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type(), seek);
 
                 // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                it = past?db.lower_bound(seek):db.end();
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                if (it != db.begin()) {
                     it--;
-                }
-                else {
-                    it = db.rbegin().base();
-                }
 
-                if (it != db.end()) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 1fadf18..5338bd1 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -335,14 +335,17 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                std::string seek;
+                const bool past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type(), seek);
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                if (past) {
+                    it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (past && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 3570dc7..25ba3b3 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -335,14 +335,17 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                std::string seek;
+                const bool past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                       req->predicates[i].data_type(), seek);
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                if (past) {
+                    it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (past && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 3aea0e7..3a59974 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -518,6 +518,46 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+/**
+ * BGetOp_get_seek_past
+ * Get the smallest string that is larger than all keys
+ * that HIGHEST should consider
+ *
+ * @param seek  the value to seek to
+ * @return whether or not such a string exists (false: start at the end of the datastore)
+ */
+bool Datastore::Datastore::BGetOp_get_seek_past(const Blob &key,
+                                                std::size_t prefix_len,
+                                                std::size_t predicate_len,
+                                                hxhim_data_t predicate_type,
+                                                std::string &seek) {
+    // does not include the type or length information
+    seek.assign((char *) key.data(), prefix_len);
+
+    if ((predicate_len == 0) &&
+        ((predicate_type == HXHIM_DATA_INT32)   ||
+         (predicate_type == HXHIM_DATA_INT64)   ||
+         (predicate_type == HXHIM_DATA_UINT32)  ||
+         (predicate_type == HXHIM_DATA_UINT64)  ||
+         (predicate_type == HXHIM_DATA_FLOAT)   ||
+         (predicate_type == HXHIM_DATA_DOUBLE))) {
+        // encoded numbers do not start with values larger than pos
+        seek += callbacks->numeric_extra.pos;
+    }
+
+    // increment the string
+    while (seek.size() && ((unsigned char) seek.back() == 0xffU)) {
+        seek.pop_back();
+    }
+
+    if (seek.empty()) {
+        return false;
+    }
+
+    seek.back()++;
+    return true;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 3efb5099440c24b403a9e18209883694ea4550eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 06/52] fix: converting a GETOP response without records
 returned a freed result

---
 src/hxhim/Results.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..3e89cc9 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -197,8 +197,8 @@ hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp
     // drop last item (empty)
     if (prev) {
         prev->next = nullptr;
+        destruct(curr);
     }
-    destruct(curr);
 
     return top;
 }
-- 
2.43.0


From a54a15e791d7bd418ed8f3ad0d8a3ccb372fb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 07/52] fix: packets for different datastores on the same
 remote rank overwrote each other

---
 include/hxhim/private/process.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..779e7bc 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,13 +53,21 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only 1 packet can be sent to each remote rank at a time
+            // other datastores on the same rank have to wait for the next round
+            const int dst_rank = hx->p->queues.ds_to_rank[ds];
+            if ((dst_rank != hx->p->bootstrap.rank) &&
+                (remote.find(dst_rank) != remote.end())) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
             // set because they were not set in impl
             req->src = hx->p->bootstrap.rank;
             req->dst = ds;
-            req->dst_rank = hx->p->queues.ds_to_rank[req->dst];
+            req->dst_rank = dst_rank;
 
             if (req->src == req->dst_rank) {
                 local.push_back(req);
-- 
2.43.0


From 4523523b379489888a39b0fa0c38ef5cbbcd1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 08/52] fix: MPI endpoint group confused datastore ids, range
 server ids and ranks

---
 include/transport/backend/MPI/EndpointGroup.tpp | 2 +-
 src/transport/backend/MPI/Init.cpp              | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..8c3eb0b 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -41,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            dsts[pack_count] = message.first; // rank
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..c811be7 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,16 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // create mapping of endpoint ranks
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i); // requests are addressed by rank
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 432b999daa037396f873852f682b5b614b354f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 09/52] fix: MPI exchanges of background PUTs and foreground
 operations were mixed up

---
 include/transport/backend/MPI/EndpointGroup.hpp | 5 +++++
 include/transport/backend/MPI/EndpointGroup.tpp | 2 ++
 src/transport/backend/MPI/EndpointGroup.cpp     | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..0c46c3f 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -65,6 +66,10 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         volatile std::atomic_bool &running;
 
+        /** Only one exchange can occur at a time (background PUTs and
+            foreground operations share the buffers and the MPI tags) */
+        std::mutex mutex;
+
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 8c3eb0b..8586dee 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -334,6 +334,8 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
  */
 template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
+    std::lock_guard<std::mutex> lock(mutex);
+
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
     // return value here is not useful
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index 15f68b8..f63f011 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -12,6 +12,7 @@ EndpointGroup::EndpointGroup(const MPI_Comm comm,
     EndpointBase(comm),
     ranks(),
     running(running),
+    mutex(),
     lens(new std::size_t[size]),
     dsts(new int[size]),
     srvs(new int[size])
-- 
2.43.0


From e071674a2da51a9c1cc23796fb15d00d8e59440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 10/52] fix: background PUT thread shrank the PUT queues to the
 number of range servers

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From 4097e0833b9b8f6b7d6f9b03ed5ccd0bf13acbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 11/52] fix: MPI range server freed requests and responses
 without destroying them

---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..755fc03 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -58,7 +58,7 @@ void RangeServer::listener_thread() {
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
 
         // encode result
         void *res = nullptr;
@@ -67,7 +67,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From 981c9537249e7f9922b0efee764886e6ba70b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 12/52] fix: stopped MPI range servers left receives into dead
 buffers posted

---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 755fc03..1c29d5d 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -172,6 +172,8 @@ int RangeServer::Flush(MPI_Request &req) {
     }
 
     // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
+    // do not leave the operation posted
+    MPI_Cancel(&req);
     MPI_Request_free(&req);
     return TRANSPORT_ERROR;
 }
@@ -198,6 +200,8 @@ int RangeServer::Flush(MPI_Request &req, MPI_Status &status) {
     }
 
     // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
+    // do not leave the operation posted
+    MPI_Cancel(&req);
     MPI_Request_free(&req);
     return TRANSPORT_ERROR;
 }
-- 
2.43.0


From de15a78bcbb7758577ecc4544fee5aef5ec77ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 13/52] fix: background PUT results were handed over without
 holding their mutex

---
 src/hxhim/init.cpp      |  3 ++-
 src/hxhim/ops/FLUSH.cpp | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..816867f 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -262,6 +262,8 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -270,7 +272,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..1b0ec2d 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -42,9 +42,13 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+        {
+            // the background thread might be running again
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+            res->Append(hx->p->async_puts.results);
+            destruct(hx->p->async_puts.results);
+            hx->p->async_puts.results = nullptr;
+        }
 
         hx->p->queues.puts.mutex.lock();
     }
-- 
2.43.0


From a23762c12813d6c69852abc433091332f378f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 14/52] fix: background PUT thread and flushes updated the
 packet statistics without synchronization

---
 include/hxhim/private/Stats.hpp   | 4 ++++
 include/hxhim/private/process.hpp | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..bd5fa06 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -13,6 +14,9 @@ namespace Stats {
 
 // Events sorted by op type
 struct Global {
+    // used and outgoing are updated by both the background PUT thread and flushes
+    std::mutex mutex;
+
     // how long each single operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > single_op;
 
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index 779e7bc..425cd47 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -79,8 +79,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From 97c865ff02d2c559a680694358fa9125eac41af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 15/52] fix: single-type bulk PUTs were executed immediately
 and their results lost

---
 src/hxhim/ops/single_type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 877628d..22e9125 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,9 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
-    }
-    else {
-        hxhim::serial_puts(hx);
+        hx->p->queues.puts.mutex.unlock();
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
-- 
2.43.0


From 81c6173142caf3da5eb22a0cac5c208d4dceaced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 16/52] fix: Close dropped queued operations and stopped range
 servers other ranks still needed

---
 src/hxhim/destroy.cpp | 3 ++-
 src/hxhim/hxhim.cpp   | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..1acd6c6 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -37,7 +37,8 @@ int hxhim::destroy::running(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::destroy::async_puts(hxhim_t *hx) {
-    if (hx->p->async_puts.enabled) {
+    // the background thread was not started if the session was not opened
+    if (hx->p->async_puts.enabled && hx->p->async_puts.thread.joinable()) {
         wait_for_background_puts(hx, true);
 
         hx->p->async_puts.thread.join();
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..4aa3ac8 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -158,6 +158,7 @@ int hxhim::Open(hxhim_t *hx) {
     if (rc != HXHIM_OPEN_ERROR_BOOTSTRAP) {
         MPI_Barrier(hx->p->bootstrap.comm);
     }
+    destroy::running(hx); // nothing to sync
     Close(hx);
     mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
     return rc;
@@ -198,6 +199,7 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
         (init::queues        (hx)          != HXHIM_SUCCESS) ||
         (init::async_puts    (hx)          != HXHIM_SUCCESS)) {
         MPI_Barrier(hx->p->bootstrap.comm);
+        destroy::running(hx); // nothing to sync
         Close(hx);
         mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
         return HXHIM_ERROR;
@@ -241,11 +243,12 @@ int hxhim::Close(hxhim_t *hx) {
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Starting to shutdown HXHIM", rank);
 
-    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
-    destroy::running(hx);
-
+    // queued operations have to complete on all ranks before any range server stops
     mlog(HXHIM_CLIENT_DBG, "Rank %d Waiting for all ranks to complete syncing", rank);
     Results::Destroy(hxhim::Sync(hx));
+
+    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
+    destroy::running(hx);
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
     // make sure all ranks are ready to stop
-- 
2.43.0


From 3f88d182a7321e2fab5b2453f3519ea7f1730b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 17/52] fix: ChangeHash opened wrongly named datastores on top
 of the ones in use

---
 src/hxhim/hxhim.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 4aa3ac8..419a0ff 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -313,18 +313,32 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
-        // change datastores
-        std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
+    // change datastores
+    decltype(hx->p->range_server.datastores) *rs_ds = &hx->p->range_server.datastores;
+    rs_ds->basename = name;
+
+    for(REF(rs_ds->ds)::value_type &ds : rs_ds->ds) {
+        // close the old datastore before opening the new one
+        ds->Change(::Datastore::generate_name(rs_ds->prefix,
+                                              rs_ds->basename,
+                                              ds->ID(),
+                                              rs_ds->postfix),
+                   hx->p->histograms.write,
+                   hx->p->histograms.read?&hx->p->histograms.names:nullptr);
+
+        // the new datastore tracks the same predicates
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            if (hists->find(hist_name) == hists->end()){
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
+            }
+        }
     }
 
     MPI_Barrier(hx->p->bootstrap.comm);
-- 
2.43.0


From 266daa64887a48a59e58a8850c2833086f3f9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 18/52] fix: OpenOne destroyed the datastore configuration it
 needs and set up no queues

---
 src/hxhim/init.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 816867f..6106820 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,10 +182,6 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
@@ -209,6 +205,8 @@ int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
 
     hx->p->range_server.id = 0;
     hx->p->range_server.datastores.ds.push_back(ds);
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
     hx->p->range_server.total_range_servers = 1;
 
     return HXHIM_SUCCESS;
-- 
2.43.0


From 418f917acf870ffe881aeeded3ed6aa38728025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 19/52] fix: on-disk backends reported success for PUTs and
 DELETEs that could not be encoded

---
 src/datastore/LevelDB.cpp | 9 +++++++--
 src/datastore/RocksDB.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 5338bd1..7a50308 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -424,8 +424,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR;
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
+            status = DATASTORE_UNSET;
+
             // create the key from the subject and predicate
             Blob key;
             sp_to_key(ReferenceBlob(subject,   subject_len,   req->subjects[i].data_type()),
@@ -435,6 +438,8 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
             event.size += key.size();
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +455,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 25ba3b3..558159a 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
@@ -424,8 +424,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR;
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
+            status = DATASTORE_UNSET;
+
             // create the key from the subject and predicate
             Blob key;
             sp_to_key(ReferenceBlob(subject,   subject_len,   req->subjects[i].data_type()),
@@ -435,6 +438,8 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
             event.size += key.size();
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +455,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:res->statuses[i]);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From 0ae354666630c59a80d2eb06d34ea3e18049ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 20/52] fix: histograms could only be requested from the first
 datastores

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 834c8c544537e87a6af11dfd2aa8bedb4dd50d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 21/52] fix: user transform functions never replaced the
 default ones of the numeric types

---
 src/hxhim/init.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 6106820..ee54162 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
-- 
2.43.0


From 771eb3469455cb81156401f39f73212676ed79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 22/52] fix: default configuration did not contain the ELEN
 symbols

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From ad2c02d71441ceee69e4d260978833e8073ada6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 23/52] fix: listing endpoints in the configuration never
 terminated and dropped all later options

---
 src/hxhim/config.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..1892e44 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -222,29 +222,43 @@ static bool parse_transport(hxhim_t *hx, const Config::Config &config) {
 static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
     Config::Config_it endpointgroup = config.find(hxhim::config::TRANSPORT_ENDPOINT_GROUP);
     if (endpointgroup != config.end()) {
-        hxhim_clear_endpoint_group(hx);
         if (endpointgroup->second == "ALL") {
             int size = -1;
             if (MPI_Comm_size(hx->p->bootstrap.comm, &size) != MPI_SUCCESS) {
                 return false;
             }
 
+            hxhim_clear_endpoint_group(hx);
             for(int rank = 0; rank < size; rank++) {
                 hxhim_add_endpoint_to_group(hx, rank);
             }
-            return true;
         }
         else {
+            // read the entire list before changing anything
+            std::vector<int> ids;
+            std::stringstream s(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
-                if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
+            while (s >> id) {
+                if (id < 0) {
+                    return false;
+                }
+                ids.push_back(id);
+            }
+
+            if (!s.eof()) {
+                return false;
+            }
+
+            hxhim_clear_endpoint_group(hx);
+            for(int const rank : ids) {
+                if (hxhim_add_endpoint_to_group(hx, rank) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
                 }
             }
         }
     }
-    return false;
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From aacd13fbb11ac9c3a849a4c017380a5a30c8f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 24/52] fix: configured options were ignored unless the
 datastore and transport options were also configured

---
 src/hxhim/config.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 1892e44..dd9605a 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -357,20 +357,22 @@ static int fill_options(hxhim_t *hx, const Config::Config &config) {
 
     using namespace hxhim::config;
 
-    return
-        parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level)                 &&
-        parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio)                &&
-        parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio)                &&
-        parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server)       &&
-        parse_datastore(hx, config)                                                                   &&
-        parse_transport(hx, config)                                                                   &&
-        parse_endpointgroup(hx, config)                                                               &&
-        parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at)         &&
-        parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request)     &&
-        parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request)    &&
-        parse_elen(hx, config)                                                                        &&
-        parse_histogram(hx, config)                                                                   &&
-        true?HXHIM_SUCCESS:HXHIM_ERROR;
+    // a bad option must not prevent the other options from being set
+    bool good = true;
+    good &= parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level);
+    good &= parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio);
+    good &= parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio);
+    good &= parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server);
+    good &= parse_datastore(hx, config);
+    good &= parse_transport(hx, config);
+    good &= parse_endpointgroup(hx, config);
+    good &= parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at);
+    good &= parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request);
+    good &= parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request);
+    good &= parse_elen(hx, config);
+    good &= parse_histogram(hx, config);
+
+    return good?HXHIM_SUCCESS:HXHIM_ERROR;
 }
 
 /**
@@ -399,6 +401,9 @@ int process_config_and_fill_options(hxhim_t *hx, Config::Sequence &sequence) {
     Config::Config config;
     sequence.process(config);
 
+    // options that were not provided keep their defaults
+    config.insert(hxhim::config::DEFAULT_CONFIG.begin(), hxhim::config::DEFAULT_CONFIG.end());
+
     // fill hx with values from configuration
     return fill_options(hx, config);
 }
-- 
2.43.0


From 64f00c6ca3528c1a14a30b31ee89680292a01aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 25/52] fix: transform functions of a type could not be set
 again

---
 src/hxhim/options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..3daef6f 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,8 +320,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 37a3c8310211c1543cdb212e35c85c59983c105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 26/52] fix: option setters accepted a null session and
 requests without slots

---
 src/hxhim/options.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 3daef6f..a0b7c6f 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -373,6 +373,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p || hx->p->running) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
@@ -485,6 +489,11 @@ int hxhim_set_maximum_ops_per_request(hxhim_t *hx, const std::size_t count) {
         return HXHIM_ERROR;
     }
 
+    // requests have to be able to hold at least 1 operation
+    if (!count) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->queues.max_per_request.ops = count;
 
     return HXHIM_SUCCESS;
-- 
2.43.0


From 439ba2e310f29f2f0fc91a8c196d90c95d4d42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 27/52] fix: flushing a session that is not open dereferenced a
 null pointer

---
 src/hxhim/ops/FLUSH.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 1b0ec2d..2af1e13 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -31,6 +31,10 @@ hxhim::Results *FlushImpl(hxhim_t *hx,
  * @return results from sending the PUTs
  */
 hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Flushing PUTs", rank);
@@ -90,6 +94,10 @@ hxhim_results_t *hxhimFlushPuts(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGets(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -120,6 +128,10 @@ hxhim_results_t *hxhimFlushGets(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGetOps(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -150,6 +162,10 @@ hxhim_results_t *hxhimFlushGetOps(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushDeletes(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -180,6 +196,10 @@ hxhim_results_t *hxhimFlushDeletes(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushHistograms(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -213,6 +233,10 @@ hxhim_results_t *hxhimFlushHistograms(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::Flush(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
-- 
2.43.0


From 19851ed501be55b33ee1dd6ce81adb04a2b7a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 28/52] fix: wrapping the results of a session that is not open
 dereferenced a null pointer

---
 src/hxhim/Results.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 3e89cc9..e4770fc 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -760,7 +760,7 @@ int hxhim::Results::Timestamps(struct hxhim::Result::Timestamps **timestamps) co
  * @return the pointer to the C structure containing the hxhim::Results
  */
 hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
-    const int rank = hx->p->bootstrap.rank;
+    const int rank = (hx && hx->p)?hx->p->bootstrap.rank:-1;
 
     mlog(HXHIM_CLIENT_DBG, "Rank %d Creating hxhim_results_t using %p", rank, res);
     hxhim_results_t *ret = construct<hxhim_results_t>();
-- 
2.43.0


From 608f537d1287474e6b20dfea0896257240c45231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 29/52] fix: PUT whose later permutation could not be hashed
 queued the earlier ones

---
 src/hxhim/ops/impl.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..fff8fcb 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -1,3 +1,5 @@
+#include <vector>
+
 #include "hxhim/private/hxhim.hpp"
 #include "utils/Blob.hpp"
 #include "utils/Stats.hpp"
@@ -112,6 +114,18 @@ int hxhim::PutImpl(hxhim_t *hx,
                    const hxhim_put_permutation_t permutations) {
     mlog(HXHIM_CLIENT_INFO, "Foreground PUT Start (%p, %p, %p)", subject.data(), predicate.data(), object.data());
 
+    // where each permutation is going
+    struct Destination {
+        int rs_id;
+        Blob *sub;
+        Blob *pred;
+        Blob *obj;
+        ::Stats::Chronostamp hash;
+    };
+
+    std::vector<Destination> dsts;
+
+    // all permutations have to be hashed successfully before any of them is queued
     for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
         if (!(permutations & HXHIM_PUT_PERMUTATIONS[i])) {
             continue;
@@ -169,20 +183,24 @@ int hxhim::PutImpl(hxhim_t *hx,
             return HXHIM_ERROR;
         }
 
+        dsts.push_back({rs_id, sub, pred, obj, hash});
+    }
+
+    for(Destination const &dst : dsts) {
         mlog(HXHIM_CLIENT_DBG, "Foreground PUT Insert SPO into queue");
 
         ::Stats::Chronostamp insert;
         insert.start = ::Stats::now();
 
         // add the triple to the last packet in the queue
-        Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) +
-                                                   pred->pack_size(true) +
-                                                   obj->pack_size(true));
-        put->add(*sub, *pred, *obj);
+        Message::Request::BPut *put = setup_packet(hx, puts[dst.rs_id],
+                                                   dst.sub->pack_size(true) +
+                                                   dst.pred->pack_size(true) +
+                                                   dst.obj->pack_size(true));
+        put->add(*dst.sub, *dst.pred, *dst.obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
 
-        put->timestamps.reqs[put->count - 1].hash = hash;
+        put->timestamps.reqs[put->count - 1].hash = dst.hash;
         put->timestamps.reqs[put->count - 1].insert = insert;
         put->timestamps.reqs[put->count - 1].insert.end = ::Stats::now();
     }
-- 
2.43.0


From 54cb5367b5b3b3ffaa9d417ecba9e3d0a1b434e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 30/52] fix: bulk calls reported success for entries that could
 not be queued

---
 src/hxhim/ops/BDELETE.cpp     | 14 ++++++----
 src/hxhim/ops/BGET.cpp        | 16 +++++++----
 src/hxhim/ops/BGETOP.cpp      | 18 +++++++-----
 src/hxhim/ops/BPUT.cpp        | 18 +++++++-----
 src/hxhim/ops/single_type.cpp | 52 +++++++++++++++++++++--------------
 5 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..593edf4 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -28,16 +28,20 @@ int hxhim::BDelete(hxhim_t *hx,
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::DeleteImpl(hx,
-                          hx->p->queues.deletes,
-                          ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                          ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]));
+        if (hxhim::DeleteImpl(hx,
+                              hx->p->queues.deletes,
+                              ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                              ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i])) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     bdel.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_DELETE].emplace_back(bdel);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..67facdc 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -31,17 +31,21 @@ int hxhim::BGet(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_types[i]);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_types[i]) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..cd3b7e7 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -34,18 +34,22 @@ int hxhim::BGetOp(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_types[i],
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_types[i],
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..62923a2 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -39,13 +39,17 @@ int hxhim::BPut(hxhim_t *hx,
     }
 
     // append these spo triples into the list of unsent PUTs
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_types[i]),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_types[i]),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -55,7 +59,7 @@ int hxhim::BPut(hxhim_t *hx,
 
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 22e9125..bba2d11 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -27,13 +27,17 @@ int hxhim::BPutSingleType(hxhim_t *hx,
         hx->p->queues.puts.mutex.lock();
     }
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_type),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_type),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -44,7 +48,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBPutSingleType(hxhim_t *hx,
@@ -77,19 +81,23 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_type);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_type) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetSingleType(hxhim_t *hx,
@@ -122,20 +130,24 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_type,
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_type,
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            // report the failure, but keep queuing the other entries
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetOpSingleType(hxhim_t *hx,
-- 
2.43.0


From 4d4b614933aed9c6b360a1a91e2057a20eb40a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 31/52] fix: datastore locations were computed with the wrong
 overload

---
 src/hxhim/accessors.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..4561210 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,11 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->bootstrap.size,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From 068f66019c119081bf228a52a57e53b19802b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 32/52] fix: MPI endpoint group treated every packed and
 unpacked message as failed

---
 include/transport/backend/MPI/EndpointGroup.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 8586dee..4428f2d 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -2,6 +2,7 @@
 #include <vector>
 
 #include "hxhim/constants.h"
+#include "message/constants.hpp"
 #include "transport/backend/MPI/constants.h"
 #include "utils/macros.hpp"
 #include "utils/memory.hpp"
@@ -40,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = message.first; // rank
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +313,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 9f4e795b4ed8bc3771c63464baafc379c2378a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:01 +0000
Subject: [PATCH 33/52] fix: histogram bucket generators computed invalid
 bucket counts

---
 src/utils/Histogram.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..cdb1805 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -31,11 +31,19 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+static int generate_using_bin_count(const double &min, const double &max, const double bins_wanted, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    // too many to allocate
+    if (bins_wanted > std::numeric_limits<int>::max()) {
+        return HISTOGRAM_ERROR;
+    }
+
+    // there is always at least 1 bucket (also when the count could not be calculated)
+    const std::size_t bin_count = (bins_wanted >= 1)?bins_wanted:1;
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -136,7 +144,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, std::ceil((max - min) / h), buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
-- 
2.43.0


From ba06d9bdb3261de3d23f1875834d15c768fd843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:10 +0000
Subject: [PATCH 34/52] fix: histograms read past their cached values after a
 failed bucket generation and had no upper bound below 0

---
 src/utils/Histogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cdb1805..dee8ca8 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -22,7 +22,7 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     const double *max_it = std::max_element(values, values + len);
 
     if (max_it == (values + len)) {
-        max = std::numeric_limits<double>::min();
+        max = std::numeric_limits<double>::lowest();
     }
     else {
         max = *max_it;
@@ -220,13 +220,13 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
-                (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
+            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+                (gen_counts()                                      != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From d4a9571d09e1f9a3a9f0c01dd70a707f666f2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:27 +0000
Subject: [PATCH 35/52] fix: unpacking a histogram read past the end of its
 buffer

---
 src/utils/Histogram.cpp | 84 ++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index dee8ca8..6505a9a 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -481,54 +481,86 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
 
     clear();
 
-    char *orig = curr;
+    char *src = curr;
+    std::size_t left = size;
+
+    // copies the next bytes if there are enough of them
+    auto next = [&src, &left](void *dst, const std::size_t len) {
+        if (left < len) {
+            return false;
+        }
+
+        memcpy(dst, src, len);
+        src += len;
+        left -= len;
+        return true;
+    };
 
     std::size_t name_len = 0;
-    memcpy(&name_len, curr, sizeof(name_len));
-    curr += sizeof(name_len);
+    if (!next(&name_len, sizeof(name_len)) || (left < name_len)) {
+        return false;
+    }
 
-    name_.assign(curr, name_len);
-    curr += name_len;
+    name_.assign(src, name_len);
+    src += name_len;
+    left -= name_len;
 
-    memcpy(&count_, curr, sizeof(count_));
-    curr += sizeof(count_);
+    std::size_t count = 0;
+    std::size_t first_n = 0;
+    if (!next(&count, sizeof(count)) || !next(&first_n, sizeof(first_n))) {
+        return false;
+    }
 
-    memcpy(&first_n_, curr, sizeof(first_n_));
-    curr += sizeof(first_n_);
+    if (count < first_n) {
+        if ((left / sizeof(*cache_)) < count) {
+            return false;
+        }
 
-    if (count_ < first_n_) {
         dealloc_array(cache_);
-        cache_ = alloc_array<double>(first_n_);
+        cache_ = alloc_array<double>(first_n);
 
-        for(std::size_t i = 0; i < count_; i++) {
-            memcpy(&cache_[i], curr, sizeof(cache_[i]));
-            curr += sizeof(cache_[i]);
-        }
+        next(cache_, count * sizeof(*cache_));
     }
 
-    memcpy(&size_, curr, sizeof(size_));
-    curr += sizeof(size_);
+    count_ = count;
+    first_n_ = first_n;
 
-    if (size_) {
+    std::size_t buckets = 0;
+    if (!next(&buckets, sizeof(buckets)) ||
+        ((left / (sizeof(*buckets_) + sizeof(*counts_))) < buckets)) {
+        clear();
+        return false;
+    }
+
+    if (buckets) {
+        // only generated once there are enough values
+        if (count_ < first_n_) {
+            clear();
+            return false;
+        }
+
+        size_ = buckets;
         buckets_ = alloc_array<double>(size_ + 1);
         gen_counts();
 
         for(std::size_t i = 0; i < size_; i++) {
-            memcpy(&buckets_[i], curr, sizeof(buckets_[i]));
-            curr += sizeof(buckets_[i]);
-
-            memcpy(&counts_[i], curr, sizeof(counts_[i]));
-            curr += sizeof(counts_[i]);
+            next(&buckets_[i], sizeof(buckets_[i]));
+            next(&counts_[i],  sizeof(counts_[i]));
         }
 
-        memcpy(&buckets_[size_], curr, sizeof(buckets_[size_]));
-        curr += sizeof(buckets_[size_]);
+        if (!next(&buckets_[size_], sizeof(buckets_[size_]))) {
+            clear();
+            return false;
+        }
     }
 
     if (used) {
-        *used = curr - orig;
+        *used = src - curr;
     }
 
+    curr = src;
+    size = left;
+
     return true;
 }
 
-- 
2.43.0


From 9694c9720c635641ac58701a71665b9e685a4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 36/52] fix: stored histograms made GETOPs that reach them fail

---
 src/datastore/InMemory.cpp | 3 ++-
 src/datastore/LevelDB.cpp  | 5 ++++-
 src/datastore/RocksDB.cpp  | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 9a28c67..4d5d276 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -432,7 +432,8 @@ int Datastore::InMemory::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
-        db[key] = std::string((char *) serial_hist, serial_hist_len);
+        // all records end with the type of the object
+        db[key] = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
     }
 
     for(void *ptr : ptrs) {
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 7a50308..44b5545 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -484,8 +484,11 @@ int Datastore::LevelDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // all records end with the type of the object
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
-                  ::leveldb::Slice((char *) serial_hist, serial_hist_len));
+                  ::leveldb::Slice((char *) value.data(), value.size()));
     }
 
     ::leveldb::Status status = db->Write(::leveldb::WriteOptions(), &batch);
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 558159a..efc9a35 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -484,8 +484,11 @@ int Datastore::RocksDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // all records end with the type of the object
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::rocksdb::Slice((char *) key.data(), key.size()),
-                  ::rocksdb::Slice((char *) serial_hist, serial_hist_len));
+                  ::rocksdb::Slice((char *) value.data(), value.size()));
     }
 
     ::rocksdb::Status status = db->Write(::rocksdb::WriteOptions(), &batch);
-- 
2.43.0


From 04f512fc484b2f58d07fc7a73a423ed246784177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 37/52] fix: histograms read back from a datastore had no
 bucket generator

---
 include/utils/Histogram.hpp  |  3 +++
 src/datastore/datastores.cpp |  3 +++
 src/hxhim/hxhim.cpp          | 18 +++++++++++-------
 src/utils/Histogram.cpp      | 15 ++++++++++++++-
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..cc65f54 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -29,6 +29,9 @@ class Histogram {
         Histogram(const Config *config, const std::string &name);
         virtual ~Histogram();
 
+        // Set the function used to generate the buckets (it is not part of the packed data)
+        void set_generator(const Config &config);
+
         // Add a value to the histogram
         int add(const double &value);
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..10caf66 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -130,6 +130,9 @@ Datastore::Init(hxhim_t *hx,
                 (existing->find(name) == existing->end())) {   // histogram doesn't exist
                 ds->AddHistogram(name, hist_config);
             }
+            else {
+                existing->at(name)->set_generator(hist_config);
+            }
         }
     }
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 419a0ff..531bb7c 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -338,6 +338,9 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
             if (hists->find(hist_name) == hists->end()){
                 ds->AddHistogram(hist_name, hx->p->histograms.config);
             }
+            else {
+                hists->at(hist_name)->set_generator(hx->p->histograms.config);
+            }
         }
     }
 
@@ -407,14 +410,15 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
 
-            for(std::string const &hist_name : hx->p->histograms.names) {
-                if (hists->find(hist_name) == hists->end()){
-                    ds->AddHistogram(hist_name, hx->p->histograms.config);
-                }
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            if (hists->find(hist_name) != hists->end()){
+                hists->at(hist_name)->set_generator(hx->p->histograms.config);
+            }
+            else if (create_missing) {
+                ds->AddHistogram(hist_name, hx->p->histograms.config);
             }
         }
     }
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 6505a9a..0665d0d 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -196,6 +196,18 @@ Histogram::Histogram::~Histogram() {
     dealloc_array(cache_);
 }
 
+/**
+ * set_generator
+ * Sets the bucket generator of a histogram that was unpacked.
+ * Values and buckets that already exist are not changed.
+ *
+ * @param config the configuration containing the generator
+ */
+void Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+}
+
 /**
  * add
  * If there are not enough values (< limit), adds a value
@@ -220,7 +232,8 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if (!gen_ || (first_n_ && !cache_) ||
+                (gen_(cache_, first_n_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                      != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
-- 
2.43.0


From d5fda79130c3eaf0e4018c6e25f4971a593a4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 38/52] fix: histogram results changed when values were added
 after they were returned

---
 src/datastore/datastore.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 3a59974..1a045c4 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -193,7 +193,20 @@ Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::B
         clock_gettime(CLOCK_MONOTONIC, &end);
 
         if (it != hists.end()) {
-            res->add(it->second, DATASTORE_SUCCESS);
+            // later PUTs must not change a response that has already been given out
+            Histogram copy(construct<::Histogram::Histogram>(), ::Histogram::deleter);
+
+            void *serial_hist = nullptr;
+            std::size_t serial_hist_len = 0;
+            if (it->second->pack(&serial_hist, &serial_hist_len) &&
+                copy->unpack(serial_hist, serial_hist_len)) {
+                res->add(copy, DATASTORE_SUCCESS);
+            }
+            else {
+                res->add(nullptr, DATASTORE_ERROR);
+            }
+            dealloc(serial_hist);
+
             event.size += it->second->pack_size();
         }
         else {
-- 
2.43.0


From b98f7374c8dfc7b904e8b3f654c1be44574030b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:34 +0000
Subject: [PATCH 39/52] fix: the smallest signed integers could not be encoded
 or decoded

---
 include/utils/elen.tpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..958bb8a 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -42,7 +42,9 @@ template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        // the magnitude of the minimum value does not fit into T
+        typedef typename std::make_unsigned<T>::type Magnitude_t;
+        return unique<Magnitude_t, Cond>(static_cast<Magnitude_t>(0) - static_cast<Magnitude_t>(value), neg, neg, pos);
     }
     else if (value > 0) {
         return unique<T, Cond>(value, pos, neg, pos);
@@ -276,12 +278,16 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
     }
 
     // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
-    if (prefix == neg) {
-        out = -out;
+    // the magnitude of the minimum value does not fit into T
+    typedef typename std::make_unsigned<T>::type Magnitude_t;
+    const Magnitude_t magnitude = next<Magnitude_t, std::true_type>(prefix, str, position, len, neg);
+    const Magnitude_t max = std::numeric_limits<T>::max();
+    if ((magnitude > max) &&
+        !((prefix == neg) && std::is_signed<T>::value && (magnitude == (max + 1)))) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Integer: Value does not fit into the type: " + str);
     }
 
-    return out;
+    return (prefix == neg)?static_cast<T>(static_cast<Magnitude_t>(0) - magnitude):static_cast<T>(magnitude);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From 0d0d251cea823726254ca13f1d6bfb53e4f4e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 40/52] fix: floating point values with a negative exponent of
 9 were decoded as having no exponent

---
 include/utils/elen.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 958bb8a..28c7864 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -415,7 +415,8 @@ T floating_point(const std::string &str, const char neg, const char pos) {
     std::size_t position = prefix_count;
 
     // only decode exponent portion if the exponent is not 0
-    if (wo_sign[position] != '0') {
+    // (the digits of a negative exponent can start with '0', but only after a prefix)
+    if (prefix_count != 0) {
         // read the encoded lengths
         position = prefix_count;
         std::size_t len = 1;
-- 
2.43.0


From f76caeeeed2af69a5e5970e79d72ce5593e954f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 41/52] fix: floating point values near the limits of their
 type were decoded as infinity or zero

---
 include/utils/elen.tpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 28c7864..00262f2 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -145,7 +145,8 @@ template <typename R, typename Z, typename = enable_if_t<std::is_arithmetic<R>::
                                                          std::is_integral<Z>::value> >
 R frexp10(const R arg, Z *exp) {
     *exp = (arg == 0) ? 0 : (Z)(1 + std::round(std::log10(std::fabs(arg))));
-    return arg * pow(10 , -(*exp));
+    // 10^exp can be outside of the range of R even if arg is not
+    return (long double) arg * std::pow((long double) 10, -(*exp));
 }
 
 // Chapter 6 Floating Pointer Numbers
@@ -441,7 +442,15 @@ T floating_point(const std::string &str, const char neg, const char pos) {
         mantissa = small_decimals<T, std::true_type>(sign + wo_sign.substr(position, wo_sign.size() - position), neg, pos);
     }
 
-    return std::pow(10, ((sign == neg)?-1:1) * exp) * mantissa;
+    // 10^exp can be outside of the range of T even if the value is not
+    const long double value = std::pow((long double) 10, ((sign == neg)?-1:1) * exp) * mantissa;
+
+    // rounding the mantissa can push the largest values out of range
+    if (std::abs(value) > std::numeric_limits<T>::max()) {
+        return (value < 0)?std::numeric_limits<T>::lowest():std::numeric_limits<T>::max();
+    }
+
+    return value;
 }
 
 }
-- 
2.43.0


From dc8f1a17cf5b5e1f1b475e62d85080550284cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:32 +0000
Subject: [PATCH 42/52] fix: ordered retrieval without a predicate sent to
 another rank was packed without its predicate

---
 src/utils/Blob.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..6a7697c 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,14 +112,17 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // a blob without data is packed as an empty blob
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
+    if (len) {
+        memcpy(dst, ptr, len);
+    }
     dst += len;
 
     if (include_type) {
@@ -148,7 +151,11 @@ char *Blob::unpack(char *&src, const bool include_type, const bool copy) {
     little_endian::decode(len, src);
     src += sizeof(len);
 
-    if ((clean = copy)) {
+    if (!len) {
+        ptr = nullptr;
+        clean = false;
+    }
+    else if ((clean = copy)) {
         ptr = alloc(len);
         memcpy(ptr, src, len);
     }
-- 
2.43.0


From 3a617c34785366ca6530afb1a2935764af4e3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 43/52] fix: destroying results after the session was closed
 dereferenced a null pointer

---
 src/hxhim/Results.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index e4770fc..56386cf 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -778,7 +778,7 @@ hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
  */
 void hxhim_results_destroy(hxhim_results_t *res) {
     if (res) {
-        const int rank = res->hx->p->bootstrap.rank;
+        const int rank = (res->hx && res->hx->p)?res->hx->p->bootstrap.rank:-1;
 
         mlog(HXHIM_CLIENT_DBG, "Rank %d Destroying hxhim_results_t %p", rank, res);
         hxhim::Results::Destroy(res->res);
-- 
2.43.0


From 5da8daf972983bf9f2bb0d8458abab65d0727e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 44/52] fix: ranks and range servers waiting for sends to
 complete deadlocked

parallel_send waited for its sends to complete before any response was
received, and parallel_recv for all sizes before any data. When sends are not
buffered, range servers sending responses to such ranks block, along with the
ranks that are sending to them.
---
 .../transport/backend/MPI/EndpointGroup.hpp   |   6 +
 .../transport/backend/MPI/EndpointGroup.tpp   | 182 +++++-------------
 src/transport/backend/MPI/EndpointGroup.cpp   |  48 ++++-
 3 files changed, 98 insertions(+), 138 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 0c46c3f..d387fde 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 #include <mpi.h>
 
@@ -53,6 +54,8 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         template <typename Send_t, typename = enable_if_t<std::is_base_of<Message::Request::Request, Send_t>::value> >
         std::size_t parallel_send(const ReqList<Send_t> &messages);                         // send to range server
 
+        void complete_sends();                                                              // finish sending to range server
+
         template <typename Recv_t, typename = enable_if_t<std::is_base_of<Message::Response::Response, Recv_t>::value> >
         std::size_t parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages);  // receive from range server
 
@@ -75,6 +78,9 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         std::size_t *lens; // buffer lengths
         int *dsts;         // request destination servers
         int *srvs;         // response source servers
+
+        std::vector<MPI_Request *> sends; // sends that have been started
+        std::vector<void *> send_bufs;    // data being sent
 };
 
 }
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 4428f2d..e299a22 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -99,68 +99,14 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     }
     mlog(MPI_DBG, "Done sending messages asynchronously");
 
-    mlog(MPI_DBG, "Waiting for messages to complete");
+    // The messages are completed by complete_sends once the responses have been
+    // received. Waiting for them here would block the servers that have already
+    // responded, and those servers might be the ones other ranks are sending to.
+    sends.insert(sends.end(), size_reqs.begin(), size_reqs.begin() + size_count);
+    sends.insert(sends.end(), data_reqs.begin(), data_reqs.begin() + data_count);
+    send_bufs.insert(send_bufs.end(), bufs.begin(), bufs.begin() + pack_count);
 
-    //Wait for messages to complete
-    int rank;
-    MPI_Comm_rank(comm, &rank);
-    const std::size_t total_msgs = size_count + data_count;
-    std::size_t done = 0;
-    while (running && (done != total_msgs)) {
-        for(std::size_t i = 0; i < size_count; i++) {
-            if (!size_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-            MPI_Test(size_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(size_reqs[i]);
-                size_reqs[i] = nullptr;
-                done++;
-            }
-        }
-
-        for(std::size_t i = 0; i < data_count; i++) {
-            if (!data_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-
-            MPI_Test(data_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(data_reqs[i]);
-                data_reqs[i] = nullptr;
-                done++;
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_count; i++) {
-        if (size_reqs[i]) {
-            MPI_Request_free(size_reqs[i]);
-            dealloc(size_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < data_count; i++) {
-        if (data_reqs[i]) {
-            MPI_Request_free(data_reqs[i]);
-            dealloc(data_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < pack_count; i++) {
-        dealloc(bufs[i]);
-    }
-
-    mlog(MPI_DBG, "Messages completed: %zu", data_count);
+    mlog(MPI_DBG, "Messages started: %zu", data_count);
 
     return data_count;
 }
@@ -191,95 +137,39 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Waiting to receive %zu messages", nsrcs);
 
     std::vector<MPI_Request *> reqs(nsrcs);
+    std::vector<std::size_t> recvlens(nsrcs);
+    std::vector<void *> recvbufs(nsrcs, nullptr);
+    std::vector<int> recvsrcs(nsrcs);
 
     // use reqs to receive size messages from the servers in the list
-    std::size_t size_req_count = 0;
+    std::size_t req_count = 0;
     for(std::size_t i = 0; i < nsrcs; i++) {
         //this is not really necessary
         std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
 
         if (src_it != ranks.end()) {
-            reqs[size_req_count] = construct<MPI_Request>();
-            if (MPI_Irecv(&lens[i], sizeof(lens[i]), MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[size_req_count]) == MPI_SUCCESS) {
+            reqs[req_count] = construct<MPI_Request>();
+            if (MPI_Irecv(&recvlens[req_count], sizeof(recvlens[req_count]), MPI_CHAR,
+                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[req_count]) == MPI_SUCCESS) {
                 mlog(MPI_DBG, "Receiving size[%zu] from %d %d", i, src_it->second, srcs[i]);
-                size_req_count++;
+                recvsrcs[req_count] = src_it->second;
+                req_count++;
             }
             else {
                 mlog(MPI_DBG, "Failed to start receiving size[%zu]", i);
-                dealloc(reqs[size_req_count]);
-                reqs[size_req_count] = nullptr;
+                dealloc(reqs[req_count]);
+                reqs[req_count] = nullptr;
             }
         }
     }
 
-    // Wait for size messages to complete
-    mlog(MPI_DBG, "Waiting for size to be received");
+    // Wait for the messages to complete. The data of a server is received as soon
+    // as its size is known, without waiting for the other servers.
+    mlog(MPI_DBG, "Waiting for sizes and data to be received");
 
     std::size_t done = 0;
-    while (running && (done != size_req_count)) {
-        for(std::size_t i = 0; i < size_req_count; i++) {
-            // if there is a request
-            if (reqs[i]) {
-                int flag = 0;
-                MPI_Status status;
-
-                // test the request
-                MPI_Test(reqs[i], &flag, &status);
-
-                // if the request completed, add 1
-                if (flag) {
-                    // mlog(MPI_DBG, "size received: %zu", i);
-                    dealloc(reqs[i]);
-                    reqs[i] = nullptr;
-                    done++;
-                }
-                else {
-                    // mlog(MPI_DBG, "size[%zu] not completed yet %zu", i, sizeof(lens[i]));
-                }
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
-        }
-    }
-
-    mlog(MPI_DBG, "Received %zu sizes", done);
-
-    // reuse reqs to receive data messages from the servers
-    std::size_t data_req_count = 0;
-    std::vector<void *> recvbufs(size_req_count);
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-        if (src_it != ranks.end()) {
-            // Receive a message from the servers in the list
-            reqs[data_req_count] = construct<MPI_Request>();
-            recvbufs[data_req_count] = alloc(lens[i]);
-            if (MPI_Irecv(recvbufs[data_req_count], lens[i], MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[data_req_count]) == MPI_SUCCESS) {
-                data_req_count++;
-            }
-            else {
-                dealloc(reqs[data_req_count]);
-                reqs[data_req_count] = nullptr;
-                dealloc(recvbufs[data_req_count]);
-            }
-        }
-    }
-
-    mlog(MPI_DBG, "Completed receiving %zu sizes", done);
-
-    // Wait for messages to complete
-    mlog(MPI_DBG, "Waiting for data to be received");
-
-    done = 0;
-    while (running && (done != data_req_count)) {
-        for(std::size_t i = 0; i < data_req_count; i++) {
+    while (running && (done != req_count)) {
+        for(std::size_t i = 0; i < req_count; i++) {
             if (!reqs[i]) {
                 continue;
             }
@@ -293,6 +183,18 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
                 continue;
             }
 
+            // the size has been received - reuse the request to receive the data
+            if (!recvbufs[i]) {
+                recvbufs[i] = alloc(recvlens[i]);
+                if (MPI_Irecv(recvbufs[i], recvlens[i], MPI_CHAR,
+                              recvsrcs[i], TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[i]) == MPI_SUCCESS) {
+                    continue;
+                }
+
+                dealloc(recvbufs[i]);
+                recvbufs[i] = nullptr;
+            }
+
             dealloc(reqs[i]);
             reqs[i] = nullptr;
             done++;
@@ -302,18 +204,22 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Data received");
 
     // Free any remaining requests
-    for(std::size_t i = 0; i < data_req_count; i++) {
+    for(std::size_t i = 0; i < req_count; i++) {
         if (reqs[i]) {
+            // do not leave the receive posted
+            MPI_Cancel(reqs[i]);
             MPI_Request_free(reqs[i]);
             dealloc(reqs[i]);
+            dealloc(recvbufs[i]);
+            recvbufs[i] = nullptr;
         }
     }
 
     // unpack the data
     std::size_t valid = 0;
-    *messages = alloc_array<Recv_t *>(data_req_count);
-    for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
+    *messages = alloc_array<Recv_t *>(req_count);
+    for(std::size_t i = 0; i < req_count; i++) {
+        if (recvbufs[i] && (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], recvlens[i]) == MESSAGE_SUCCESS)) {
             valid++;
         }
 
@@ -354,6 +260,8 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     const std::size_t recvd = parallel_recv(sent, srvs, &recv_list);
     mlog(MPI_DBG, "Received from %zu servers", recvd);
 
+    complete_sends();
+
     // convert the responses into a list
     Recv_t *head = nullptr;
     Recv_t *tail = nullptr;
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index f63f011..853fc01 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -15,7 +15,9 @@ EndpointGroup::EndpointGroup(const MPI_Comm comm,
     mutex(),
     lens(new std::size_t[size]),
     dsts(new int[size]),
-    srvs(new int[size])
+    srvs(new int[size]),
+    sends(),
+    send_bufs()
 {}
 
 EndpointGroup::~EndpointGroup() {
@@ -46,6 +48,50 @@ void EndpointGroup::RemoveID(const int id) {
     ranks.erase(id);
 }
 
+/**
+ * complete_sends
+ * Wait for the messages started by parallel_send to complete
+ */
+void EndpointGroup::complete_sends() {
+    mlog(MPI_DBG, "Waiting for messages to complete");
+
+    std::size_t done = 0;
+    while (running && (done != sends.size())) {
+        for(MPI_Request *&send : sends) {
+            if (!send) {
+                continue;
+            }
+
+            int flag = 0;
+            MPI_Status status;
+
+            MPI_Test(send, &flag, &status);
+
+            if (flag) {
+                dealloc(send);
+                send = nullptr;
+                done++;
+            }
+        }
+    }
+
+    // Free any remaining requests
+    for(MPI_Request *send : sends) {
+        if (send) {
+            MPI_Request_free(send);
+            dealloc(send);
+        }
+    }
+    sends.clear();
+
+    for(void *buf : send_bufs) {
+        dealloc(buf);
+    }
+    send_bufs.clear();
+
+    mlog(MPI_DBG, "Messages completed");
+}
+
 /**
  * BPut
  *
-- 
2.43.0


From 5411fa58fcbf34d906aecfd641fe8fccfa62d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:55 +0000
Subject: [PATCH 45/52] fix: a histogram that is not ready no longer touches
 the name outputs

---
 src/hxhim/Results.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 56386cf..2003b06 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -677,11 +677,11 @@ int hxhim::Results::Histogram(const char **name, std::size_t *name_len, double *
     }
 
     hxhim::Result::Hist *hist = static_cast<hxhim::Result::Hist *>(res);
-    if (hist->histogram->get_name(name, name_len) != HISTOGRAM_SUCCESS) {
+    if (hist->histogram->get(buckets, counts, size) != HISTOGRAM_SUCCESS) {
         return HXHIM_ERROR;
     }
 
-    if (hist->histogram->get(buckets, counts, size) != HISTOGRAM_SUCCESS) {
+    if (hist->histogram->get_name(name, name_len) != HISTOGRAM_SUCCESS) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From a65d28a99a4750853811deed9598614d763f1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 46/52] fix: opening a session that was not initialised or was
 closed crashed

---
 src/hxhim/hxhim.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 531bb7c..8f2d3b3 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -94,6 +94,11 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::Open(hxhim_t *hx) {
+    // Init has to be called first
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     /** don't restart already running instances */
     if (started(hx)) {
         return HXHIM_ERROR;
@@ -185,6 +190,11 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
+    // Init has to be called first
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     if (started(hx)) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From be5c1ee6b588d0acac4acdd0d8175d3a6d3583dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 47/52] fix: a rejected communicator no longer replaces the one
 in use

---
 src/hxhim/options.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a0b7c6f..9822fef 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -22,7 +22,13 @@ int hxhim_set_mpi_bootstrap(hxhim_t *hx, MPI_Comm comm) {
         return HXHIM_ERROR;
     }
 
-    return ((hx->p->bootstrap.comm = comm) == MPI_COMM_NULL)?HXHIM_ERROR:HXHIM_SUCCESS;
+    if (comm == MPI_COMM_NULL) {
+        return HXHIM_ERROR;
+    }
+
+    hx->p->bootstrap.comm = comm;
+
+    return HXHIM_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 45ade7f911212ccc1e24a2da8de653358356f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 48/52] fix: options without default values can be set through
 environment variables

---
 src/hxhim/config.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index dd9605a..3f590bf 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <set>
 #include <sstream>
 #include <vector>
 
@@ -445,8 +446,27 @@ int default_reader(hxhim_t *hx, MPI_Comm comm) {
 
     // overwite values with individual environment variables
     std::vector<Config::EnvironmentVar *> vars;
+    std::set<std::string> keys = {
+        // these do not have default values
+        hxhim::config::MPI_LISTENERS,
+        #if HXHIM_HAVE_LEVELDB
+        hxhim::config::LEVELDB_CREATE_IF_MISSING,
+        #endif
+        #if HXHIM_HAVE_ROCKSDB
+        hxhim::config::ROCKSDB_CREATE_IF_MISSING,
+        #endif
+        #if HXHIM_HAVE_THALLIUM
+        hxhim::config::THALLIUM_MODULE,
+        hxhim::config::THALLIUM_THREAD_COUNT,
+        #endif
+        hxhim::config::HISTOGRAM_TRACK_PREDICATES,
+    };
     for(decltype(hxhim::config::DEFAULT_CONFIG)::value_type const &default_config : hxhim::config::DEFAULT_CONFIG) {
-        Config::EnvironmentVar *var = new Config::EnvironmentVar(hxhim::config::HXHIM_ENV_NAMESPACE + default_config.first, default_config.first);
+        keys.insert(default_config.first);
+    }
+
+    for(std::string const &key : keys) {
+        Config::EnvironmentVar *var = new Config::EnvironmentVar(hxhim::config::HXHIM_ENV_NAMESPACE + key, key);
         sequence.add(var);
         vars.push_back(var);
     }
-- 
2.43.0


From 7495e819885a35ce059d1d5b2428f08b540e2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 49/52] fix: configuration values that cannot be read
 completely are rejected instead of changed

---
 include/utils/Configuration.hpp | 21 +++++++++++++++++++-
 src/hxhim/config.cpp            | 35 +++++++--------------------------
 src/utils/Configuration.cpp     | 27 ++++++++++++++++++++++++-
 3 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..426930c 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -4,6 +4,7 @@
 #include <list>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 
 #include "utils/macros.hpp"
@@ -144,12 +145,30 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
     // find the key
     Config_it in_config = config.find(config_key);
     if (in_config != config.end()) {
-        return (std::stringstream(in_config->second) >> v)?FOUND:ERROR;
+        // negative values would wrap around
+        if (std::is_unsigned<T>::value && (in_config->second.find('-') != std::string::npos)) {
+            return ERROR;
+        }
+
+        // only accept the value if all of it was used
+        std::stringstream s(in_config->second);
+        return ((s >> v) && (s >> std::ws).eof())?FOUND:ERROR;
     }
 
     return NOT_FOUND;
 }
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param v          the value of the configuration
+ * @return CONFIG_FOUND if the configuration value was good, CONFIG_NOT_FOUND if the configuration key was not found, or CONFIG_ERROR if the configuration value was bad
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &v);
+
 /**
  * get_value <bool> overload
  * Helper function for reading booleans from the configuration
diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3f590bf..3fe04d7 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -265,35 +265,14 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
     char neg = elen::NEG_SYMBOL;
     char pos = elen::POS_SYMBOL;
-    int  flt_precision = elen::encode::FLOAT_PRECISION;
-    int  dbl_precision = elen::encode::DOUBLE_PRECISION;
+    std::size_t flt_precision = elen::encode::FLOAT_PRECISION;
+    std::size_t dbl_precision = elen::encode::DOUBLE_PRECISION;
 
-    Config::Config_it neg_it = config.find(hxhim::config::ELEN_NEG_SYMBOL);
-    if (neg_it != config.end()) {
-        if (!(std::stringstream(neg_it->second) >> neg)) {
-            return false;
-        }
-    }
-
-    Config::Config_it pos_it = config.find(hxhim::config::ELEN_POS_SYMBOL);
-    if (pos_it != config.end()) {
-        if (!(std::stringstream(pos_it->second) >> pos)) {
-            return false;
-        }
-    }
-
-    Config::Config_it flt_it = config.find(hxhim::config::ELEN_ENCODE_FLOAT_PRECISION);
-    if (flt_it != config.end()) {
-        if (!(std::stringstream(flt_it->second) >> flt_precision)) {
-            return false;
-        }
-    }
-
-    Config::Config_it dbl_it = config.find(hxhim::config::ELEN_ENCODE_DOUBLE_PRECISION);
-    if (dbl_it != config.end()) {
-        if (!(std::stringstream(dbl_it->second) >> dbl_precision)) {
-            return false;
-        }
+    if ((Config::get_value(config, hxhim::config::ELEN_NEG_SYMBOL,              neg)           == Config::ERROR) ||
+        (Config::get_value(config, hxhim::config::ELEN_POS_SYMBOL,              pos)           == Config::ERROR) ||
+        (Config::get_value(config, hxhim::config::ELEN_ENCODE_FLOAT_PRECISION,  flt_precision) == Config::ERROR) ||
+        (Config::get_value(config, hxhim::config::ELEN_ENCODE_DOUBLE_PRECISION, dbl_precision) == Config::ERROR)) {
+        return false;
     }
 
     if (neg >= pos) {
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..40ba669 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -143,6 +143,30 @@ bool Config::EnvironmentVar::process(Config &config) const {
     return false;
 }
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param v          the value of the configuration
+ * @return Config::FOUND if the configuration value was good, Config::NOT_FOUND if the configuration key was not found, or Config::ERROR if the configuration value was bad
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &v) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        if (in_config->second.empty()) {
+            return ERROR;
+        }
+
+        v = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
+
 /**
  * get_value <bool> overload
  * Helper function for reading booleans from the configuration
@@ -158,7 +182,8 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
     if (in_config != config.end()) {
         std::string config_value = in_config->second;
         std::transform(config_value.begin(), config_value.end(), config_value.begin(), ::tolower);
-        return (std::stringstream(config_value) >> std::boolalpha >> b)?FOUND:ERROR;
+        std::stringstream s(config_value);
+        return ((s >> std::boolalpha >> b) && (s >> std::ws).eof())?FOUND:ERROR;
     }
 
     return NOT_FOUND;
-- 
2.43.0


From d744f0d2240ac000f0f658bc0a8694490d3445f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 50/52] fix: one bad histogram or datastore setting no longer
 discards the others

---
 src/hxhim/config.cpp | 46 ++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3fe04d7..9fd48fb 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -94,25 +94,29 @@ bool parse_map_value(hxhim_t *hx, const Config::Config &config, const std::strin
  */
 static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
     // required
+    // a bad option must not prevent the other options from being set
+    const int prefix   = Config::get_value(config,
+                                           hxhim::config::DATASTORE_PREFIX,
+                                           hx->p->range_server.datastores.prefix);
+    const int basename = Config::get_value(config,
+                                           hxhim::config::DATASTORE_BASENAME,
+                                           hx->p->range_server.datastores.basename);
+
+    // optional
+    Config::get_value(config,
+                      hxhim::config::DATASTORE_POSTFIX,
+                      hx->p->range_server.datastores.postfix);
+
     Datastore::Type datastore;
     if ((Config::get_from_map(config,
                               hxhim::config::DATASTORE_TYPE,
                               hxhim::config::DATASTORES,
                               datastore) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_PREFIX,
-                           hx->p->range_server.datastores.prefix) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_BASENAME,
-                           hx->p->range_server.datastores.basename) != Config::FOUND)) {
+        (prefix                          != Config::FOUND) ||
+        (basename                        != Config::FOUND)) {
         return false;
     }
 
-    // optional
-    Config::get_value(config,
-                      hxhim::config::DATASTORE_POSTFIX,
-                      hx->p->range_server.datastores.postfix);
-
     // datastore specific configuration
     switch (datastore) {
         case Datastore::IN_MEMORY:
@@ -287,24 +291,24 @@ static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
 }
 
 static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
-    if (!parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,          hxhim_set_histogram_first_n)         ||
-        !parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME,  hxhim_set_histogram_bucket_gen_name)) {
-        return false;
-    }
+    // a bad option must not prevent the other options from being set
+    bool good = true;
+    good &= parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,         hxhim_set_histogram_first_n);
+    good &= parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME, hxhim_set_histogram_bucket_gen_name);
 
     bool read = true; // default to true; do not error if not found
     if (Config::get_value(config, hxhim::config::HISTOGRAM_READ_EXISTING, read) == Config::ERROR) {
-        return false;
+        read = true;
+        good = false;
     }
 
     bool write = true; // default to true; do not error if not found
     if (Config::get_value(config, hxhim::config::HISTOGRAM_WRITE_AT_EXIT, write) == Config::ERROR) {
-        return false;
+        write = true;
+        good = false;
     }
 
-    if (hxhim_datastore_histograms(hx, read, write) != HXHIM_SUCCESS) {
-        return false;
-    }
+    good &= (hxhim_datastore_histograms(hx, read, write) == HXHIM_SUCCESS);
 
     Config::Config_it hist_name_it = config.find(hxhim::config::HISTOGRAM_TRACK_PREDICATES);
     if (hist_name_it != config.end()) {
@@ -315,7 +319,7 @@ static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
         }
     }
 
-    return true;
+    return good;
 }
 
 /**
-- 
2.43.0


From cd60a48adfb6c42cbd7ba8103aaa580a999254fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 51/52] fix: failing to open the datastores was reported as
 success

HXHIM_OPEN_ERROR_DATASTORE had the value of HXHIM_SUCCESS
---
 include/hxhim/constants.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..bf1ca5a 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -19,10 +19,11 @@ extern "C"
 #define GENERATE_STR(prefix, name)  #prefix "_" #name,
 
 /* not 0 to force return value checks to use this macro */
-#define HXHIM_SUCCESS                 3
+/* must not be the value of an hxhim::Open error (hxhim_open_t) */
+#define HXHIM_SUCCESS                 16
 
 /** Generic Error */
-#define HXHIM_ERROR                   4
+#define HXHIM_ERROR                   17
 
 /** hxhim::Open Errors */
 #define HXHIM_OPEN_ERROR_GEN(PREFIX, GEN)       \
-- 
2.43.0


From 60771fd3d25632c0ef067d80f319f55214684004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:21 +0000
Subject: [PATCH 52/52] fix: the size of ordered retrieval responses counted
 fields that are never packed

---
 src/message/BGetOp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/message/BGetOp.cpp b/src/message/BGetOp.cpp
index 57adf0e..5e34f95 100644
--- a/src/message/BGetOp.cpp
+++ b/src/message/BGetOp.cpp
@@ -103,8 +103,12 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     size_t ds = sizeof(num_rec);
     for(std::size_t i = 0; i < num_rec; i++) {
         ds += subject[i].pack_size(true) +
-            predicate[i].pack_size(true) +
-            object[i].pack_size(true);
+            predicate[i].pack_size(true);
+
+        // objects are only packed if the operation succeeded
+        if (status == DATASTORE_SUCCESS) {
+            ds += object[i].pack_size(true);
+        }
     }
 
     subjects[count] = subject;
@@ -113,7 +117,7 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     num_recs[count] = num_rec;
 
     // status is shared by all responses
-    return Response::add(status, sizeof(num_rec) + ds, true);
+    return Response::add(status, ds, true);
 }
 
 std::size_t Message::Response::BGetOp::update_size(const std::size_t index) {
-- 
2.43.0

