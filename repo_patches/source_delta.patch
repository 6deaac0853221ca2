From 652c585c0804eada9088fd5162a01c72df7157ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:11 +0000
Subject: [PATCH 01/47] fix: do not use the erased write set entry when
 deleting an upserted record

When a long transaction deletes a record that it upserted before, the write
set entry of the upsert is erased and the record is then registered as read.
The record pointer was taken from the erased entry, which is released memory.
Use the pointer that was saved before the entry was erased.
---
 src/concurrency_control/interface/delete.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..04dd03f 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -83,7 +83,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From c84a33b29bf104a013a84238f6e960638bdecdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:52 +0000
Subject: [PATCH 02/47] fix: checking a transaction state must not overwrite
 the state

check_tx_state wrote the state that it derived back to the shared object.
A transaction that was aborted or committed before its start epoch was
reported as waiting or started afterwards, forever.  The same happened when
the transaction ended while another thread was checking its state.
Derive the answer from the copied state and leave the shared object alone.
---
 src/concurrency_control/transaction_state.cpp | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..5ad7194 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -91,16 +91,17 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
     if (handle == undefined_handle) { return Status::WARN_INVALID_HANDLE; }
     auto rc{TxState::find_and_get_tx_state(handle, out)};
     if (rc == Status::WARN_INVALID_HANDLE) { return rc; }
-    // handle is valid
-    auto& ts{TxState::get_tx_state(handle)};
+    /**
+     * handle is valid. The owner of the handle may change the state at the same
+     * time, so what is derived here is not written back to the shared object.
+     */
     // short tx
     if (out.get_serial_epoch() == 0) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
-            if (ts.get_durable_epoch() <=
+            if (out.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
-                ts.set_kind(TxState::StateKind::DURABLE);  // for internal
-                out.set_kind(TxState::StateKind::DURABLE); // for external
+                out.set_kind(TxState::StateKind::DURABLE);
             }
 #else
             LOG_FIRST_N(ERROR, 1)
@@ -114,22 +115,17 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
 
     // long tx
     if (out.get_serial_epoch() <= epoch::get_global_epoch()) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_START) {
+        if (out.state_kind() == TxState::StateKind::WAITING_START) {
             // check high priori stx
-            auto* ti = static_cast<session*>(ts.get_token());
+            auto* ti = static_cast<session*>(out.get_token());
             if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
-                ts.set_kind(TxState::StateKind::STARTED);  // for internal
-                out.set_kind(TxState::StateKind::STARTED); // for external
-            }                                              // else : premature
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_CC_COMMIT) {
-            // waiting for commit by background worker.
-            out.set_kind(TxState::StateKind::WAITING_CC_COMMIT); // for external
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+                out.set_kind(TxState::StateKind::STARTED);
+            } // else : premature
+        } else if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
-            if (ts.get_durable_epoch() <=
+            if (out.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
-                ts.set_kind(TxState::StateKind::DURABLE);  // for internal
-                out.set_kind(TxState::StateKind::DURABLE); // for external
+                out.set_kind(TxState::StateKind::DURABLE);
             }
 #else
             LOG_FIRST_N(ERROR, 1)
@@ -138,10 +134,7 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
-    }
+    } // else : it waits for start or was ended before its start epoch
 
 
     return Status::OK;
-- 
2.43.0


From 58e65cb253bab71d91cd53bd2d4998fa5826d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:35 +0000
Subject: [PATCH 03/47] fix: reading a missing storage in a read only
 transaction

The lookup in the index answers WARN_STORAGE_NOT_FOUND for an unknown
storage and leaves the record pointer null.  Only WARN_NOT_FOUND was handled,
so the read dereferenced a null pointer.  Return every status but OK.
---
 src/concurrency_control/interface/read_only_tx/search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..cd53cf6 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,9 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
-    }
+    auto rc = get<Record>(storage, key, rec_ptr);
+    if (rc != Status::OK) { return rc; }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
 }
-- 
2.43.0


From 0e60fe357f27bc1eddb52001c088d4941918be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:19 +0000
Subject: [PATCH 04/47] fix: parallel recovery may register a storage twice

A recovery thread that finds the meta entry of a storage checks whether the
storage exists and registers it if not.  Another recovery thread may register
the same storage for a normal entry in between, which ended the process.
Accept that the storage is already registered.
---
 src/datastore/limestone/datastore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..41b9636 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -140,7 +140,8 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                 // not exist, so create.
                 auto ret = shirakami::storage::register_storage(st2,
                                                                 {id, payload});
-                if (ret != Status::OK) {
+                // other recovery threads may register it by normal entries
+                if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
                     /**
                      * This process was done because
                      * shirakami::storage::exist_storage(st2) said not exist,
-- 
2.43.0


From 4a5e5d4d5fbf8999a996eea48374166dd1e8f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:19 +0000
Subject: [PATCH 05/47] fix: parallel recovery of sequences without a lock

Recovery threads inserted into the map of sequences without holding its
mutex, so two of them could corrupt it.  Take the mutex for the insertion.
---
 src/datastore/limestone/datastore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 41b9636..4ffb203 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -171,6 +171,8 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            // other recovery threads may push at the same time
+            std::lock_guard<std::shared_mutex> lk{sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From b14e419368fea42ffc93326f9679a10af38d37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:33 +0000
Subject: [PATCH 06/47] fix: opening a scan overlooks own writes on records
 changed by others

---
 .../interface/scan/open_scan.cpp                | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..1b01eff 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,14 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
+        // check read own write: it is readable whatever the record's state is
+        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+        if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+            return Status::OK;
+        }
+    }
+
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
@@ -100,15 +108,6 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             return Status::OK;
         }
 
-        // check read own write
-        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
-        if (inws != nullptr) {
-            if (inws->get_op() == OP_TYPE::INSERT ||
-                inws->get_op() == OP_TYPE::UPSERT) {
-                return Status::OK;
-            }
-        }
-
         /**
          * first version must be inserting page or deleted page
          */
-- 
2.43.0


From 4f5c7b5bf5a81168b0792150db18a529c036169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:00 +0000
Subject: [PATCH 07/47] fix: a long transaction writing over a tombstone turns
 it into a visible version

---
 src/concurrency_control/interface/long_tx/termination.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..46f13f3 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -173,7 +173,6 @@ static inline void expose_local_write(
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
                     // prepare tid for old version
-                    pre_tid.set_absent(false);
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From e2618fbf6951ae86acba31f1def6b5ad8e8fe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:00 +0000
Subject: [PATCH 08/47] fix: a record inserted over a tombstone may get an
 older version than the delete

---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..f727cfb 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -398,10 +398,8 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update (or tombstone to reuse)
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From c8dc7c4733e5f1ce944b57603fd68d8b77d56c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:13 +0000
Subject: [PATCH 09/47] fix: an aborted insert strips the version from the
 tombstone it shared

---
 src/concurrency_control/interface/long_tx/termination.cpp  | 4 ++--
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 46f13f3..40b72f0 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -60,11 +60,11 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                 check = loadAcquire(
                         rec_ptr->get_tidw_ref().get_obj()); // reload
                 if (check_cd()) {                           // main-check
-                    tid_word tid{};
+                    // keep the version of the shared tombstone
+                    tid_word tid{check};
                     tid.set_absent(true);
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
                 } else {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index f727cfb..1af647e 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -132,13 +132,11 @@ static void change_inserting_records_state(session* const ti) {
 
                 // main-check
                 if (check_cd()) {
-                    // inserting yet
-                    tid_word tid{};
+                    // inserting yet, keep the version of the shared tombstone
+                    tid_word tid{check};
                     tid.set_absent(true);
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
-                    tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso_ptr->get_storage());
                 } else {
-- 
2.43.0


From 811043a580f3007574239b92005326f4666bc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:30 +0000
Subject: [PATCH 10/47] fix: range read protection ignores higher priority long
 transactions of later epochs

---
 src/concurrency_control/read_by.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..f0b4898 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -89,7 +89,12 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            /**
+             * reason to include =. The order of ltxs which has same epoch is
+             * undefined. The elements are ordered by neither epoch nor id
+             * because ltxs can commit ahead of higher priori ltxs.
+             */
+            if (std::get<range_read_by_long::index_epoch>(elem) >= ep) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +118,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 57353bf3649f7f83c819c2c18b81d2dffcb2ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:44 +0000
Subject: [PATCH 11/47] fix: a short transaction told that a key is absent by
 update or delete does not protect it

---
 src/concurrency_control/interface/delete.cpp  | 15 +++++-
 .../interface/short_tx/include/short_tx.h     | 11 +++++
 .../interface/short_tx/search.cpp             | 47 +++++++++++--------
 src/concurrency_control/interface/update.cpp  | 16 ++++++-
 4 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 04dd03f..8973468 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -8,6 +8,7 @@
 #include "concurrency_control/include/wp.h"
 #include "concurrency_control/interface/include/helper.h"
 #include "concurrency_control/interface/long_tx/include/long_tx.h"
+#include "concurrency_control/interface/short_tx/include/short_tx.h"
 #include "database/include/logging.h"
 #include "index/yakushima/include/interface.h"
 
@@ -137,7 +138,9 @@ static Status delete_record_body(Token token, Storage storage,
 
     // index access to check local write set
     Record* rec_ptr{};
-    rc = get<Record>(storage, key, rec_ptr);
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
     if (Status::OK == rc) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
@@ -145,6 +148,11 @@ static Status delete_record_body(Token token, Storage storage,
         // check absent
         tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
         if (ctid.get_absent()) {
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                // read the fact that it is absent
+                ti->push_to_read_set_for_stx({storage, rec_ptr, ctid});
+            }
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
@@ -154,6 +162,11 @@ static Status delete_record_body(Token token, Storage storage,
         return Status::OK;
     }
     if (rc == Status::WARN_NOT_FOUND) {
+        if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+            // read the fact that it is absent
+            auto rc_nf{short_tx::register_not_found(ti, storage, checked_version)};
+            if (rc_nf != Status::OK) { return rc_nf; }
+        }
         process_before_return_not_found(ti, storage, key);
         return Status::WARN_NOT_FOUND;
     }
diff --git a/src/concurrency_control/interface/short_tx/include/short_tx.h b/src/concurrency_control/interface/short_tx/include/short_tx.h
index fd0c032..13594a2 100644
--- a/src/concurrency_control/interface/short_tx/include/short_tx.h
+++ b/src/concurrency_control/interface/short_tx/include/short_tx.h
@@ -13,6 +13,17 @@ extern Status abort(session* ti);
 
 extern Status commit(session* ti);
 
+/**
+ * @brief register the read of a key for which the index has no record.
+ * @return Status::OK success
+ * @return Status::ERR_CC the transaction was aborted by phantom avoidance.
+ * @return Status::ERR_FATAL programming error
+ */
+extern Status register_not_found(
+        session* ti, Storage storage,
+        std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+                checked_version);
+
 extern Status search_key(session* ti, Storage storage, std::string_view key,
                          std::string& value, bool read_value = true); // NOLINT
 
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..cd50960 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -32,6 +32,32 @@ static inline Status wp_verify(session* const ti, Storage const st) {
     return Status::OK;
 }
 
+Status register_not_found(
+        session* ti, Storage const storage,
+        std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+                checked_version) {
+    // read protection for concurrent occ
+    auto rc_ns = ti->get_node_set().emplace_back(checked_version);
+    if (rc_ns == Status::ERR_CC) {
+        short_tx::abort(ti);
+        std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+        ti->get_result_info().set_storage_name(storage);
+        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+        return Status::ERR_CC;
+    }
+
+    // read protection for low priori ltx
+    wp::page_set_meta* psm{};
+    auto rc_fpsm{wp::find_page_set_meta(storage, psm)};
+    if (rc_fpsm == Status::WARN_NOT_FOUND) {
+        LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
+        return Status::ERR_FATAL;
+    }
+    range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
+    ti->push_to_range_read_by_short_set(rrbs);
+    return Status::OK;
+}
+
 Status search_key(session* ti, Storage const storage,
                   std::string_view const key, std::string& value,
                   bool const read_value) {
@@ -45,25 +71,8 @@ Status search_key(session* ti, Storage const storage,
             checked_version{};
     rc = get<Record>(storage, key, rec_ptr, &checked_version);
     if (rc != Status::OK) {
-        // read protection for concurrent occ
-        auto rc_ns = ti->get_node_set().emplace_back(checked_version);
-        if (rc_ns == Status::ERR_CC) {
-            short_tx::abort(ti);
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(storage);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            return Status::ERR_CC;
-        }
-
-        // read protection for low priori ltx
-        wp::page_set_meta* psm{};
-        auto rc_fpsm{wp::find_page_set_meta(storage, psm)};
-        if (rc_fpsm == Status::WARN_NOT_FOUND) {
-            LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-            return Status::ERR_FATAL;
-        }
-        range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        auto rc_nf{register_not_found(ti, storage, checked_version)};
+        if (rc_nf != Status::OK) { return rc_nf; }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..d5f5d86 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -70,7 +70,10 @@ static Status update_body(
 
     // index access to check local write set
     Record* rec_ptr{};
-    if (Status::OK == get<Record>(storage, key, rec_ptr)) {
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
+    if (rc == Status::OK) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) {
@@ -85,6 +88,11 @@ static Status update_body(
         // check absent
         tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
         if (ctid.get_absent()) {
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                // read the fact that it is absent
+                ti->push_to_read_set_for_stx({storage, rec_ptr, ctid});
+            }
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
@@ -94,6 +102,12 @@ static Status update_body(
         register_read_if_ltx(ti, rec_ptr);
         return Status::OK;
     }
+    if (rc == Status::WARN_NOT_FOUND &&
+        ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        // read the fact that it is absent
+        auto rc_nf{short_tx::register_not_found(ti, storage, checked_version)};
+        if (rc_nf != Status::OK) { return rc_nf; }
+    }
     process_before_return_not_found(ti, storage, key);
     return Status::WARN_NOT_FOUND;
 }
-- 
2.43.0


From a77e23489d0bb7150889aa1058359daaf11f07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:10 +0000
Subject: [PATCH 12/47] fix: write preserve verification overlooks absent keys
 and existence checks

---
 src/concurrency_control/include/session.h     |  8 +++--
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/search.cpp             |  2 +-
 .../interface/short_tx/termination.cpp        | 33 ++++++++++++++++++-
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..54a991e 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -6,6 +6,7 @@
 
 #include <array>
 #include <atomic>
+#include <map>
 #include <mutex>
 #include <set>
 
@@ -37,7 +38,7 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    using range_read_by_short_set_type = std::map<range_read_by_short*, Storage>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +442,12 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(range_read_by_short* rrbs,
+                                         Storage const storage) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(rrbs, storage);
     }
 
     void clear_read_set_for_stx() {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 1b01eff..e4f8e36 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -272,7 +272,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index cd50960..d48c7b1 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -54,7 +54,7 @@ Status register_not_found(
         return Status::ERR_FATAL;
     }
     range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-    ti->push_to_range_read_by_short_set(rrbs);
+    ti->push_to_range_read_by_short_set(rrbs, storage);
     return Status::OK;
 }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 1af647e..10abfbe 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -220,6 +220,7 @@ static Status wp_verify(Storage const st, epoch::epoch_t const commit_epoch) {
                    << "unreachable path. It strongly suspect that DML and DDL "
                       "are mixed."
                    << " rc:" << rc;
+        return Status::ERR_CC;
     }
     auto wps{wm->get_wped()};
     auto find_min_ep{wp::wp_meta::find_min_ep(wps)};
@@ -264,6 +265,34 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // range read or read of not existing key
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.second);
+        }
+    }
+
+    // insert, update and delete read whether the key exists
+    auto log_existence_read = [&accessed_st](write_set_obj const& wso) {
+        if (wso.get_op() != OP_TYPE::UPSERT) {
+            accessed_st.emplace_back(wso.get_storage());
+        }
+    };
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                log_existence_read(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                log_existence_read(itr);
+            }
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
@@ -695,7 +724,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.first->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From 6c3d5f7ccb8c78ee838589e3d25416792c2c61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:42 +0000
Subject: [PATCH 13/47] fix: the garbage collector overlooks transactions which
 begin while it looks for the oldest one

---
 src/concurrency_control/garbage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..6e494ce 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -107,13 +107,13 @@ void work_manager() {
             if (min_begin_epoch < epoch::initial_epoch) {
                 LOG_FIRST_N(ERROR, 1) << log_location_prefix << "epoch error";
             }
-        } else {
-            /**
-             * above loop didn't find living tx. at least, befor_loop epoch is
-             * minimum begin epoch.
-             */
-            min_begin_epoch = before_loop;
         }
+        /**
+         * above loop may overlook tx which began during the loop. at least,
+         * before_loop epoch is minimum epoch at which such tx can access
+         * records.
+         */
+        min_begin_epoch = std::min(min_begin_epoch, before_loop);
         // NB. The calculation method used in the code above has a potential concurrency flaws,
         // as it can miss recently begun transactions,
         // which can result in a smaller value than the previously calculated value of min_begin_epoch.
-- 
2.43.0


From 5e7ff730b00ab2c57b3840eadc283617f40d1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:27 +0000
Subject: [PATCH 14/47] fix: Register the nodes of own writes and skipped
 records during a scan

A short transaction which scanned its own write, or skipped deleted records,
did not register the index nodes of these records. Records which other
transactions inserted next to them were overlooked by the phantom check at
commit.
---
 .../interface/scan/next.cpp                   | 13 ++++++++-
 .../interface/scan/open_scan.cpp              | 11 ++++++++
 .../interface/scan/read_kv_from_scan.cpp      | 28 ++++++++++++++-----
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..11a7af1 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,18 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            // the skipped record is not read, so register its node here
+            if (ti->get_tx_type() == transaction_options::transaction_type::SHORT &&
+                ti->get_node_set().emplace_back({std::get<1>(*itr), std::get<2>(*itr)}) == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(st);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
+            }
+            continue;
+        }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index e4f8e36..3ecf06b 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -386,6 +386,17 @@ static Status open_scan_body(
                 if (rc == Status::ERR_CC) { return rc; }
             }
         }
+        // the skipped records are not read, so register their nodes here
+        for (std::size_t i = 0; i < head_skip_rec_n; ++i) {
+            auto rc_ns = ti->get_node_set().emplace_back(nvec.at(i + nvec_delta));
+            if (rc_ns == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(storage);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
+            }
+        }
     }
 
     // for hit, register left end point info as already read
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..78be732 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -89,12 +89,32 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         long_tx::update_local_read_range(ti, wp_meta_ptr, key_buf);
     }
 
+    // create node set info, maybe phantom (Status::ERR_CC)
+    auto check_phantom_if_stx = [ti, st, &node_check]() {
+        if (ti->get_tx_type() != transaction_options::transaction_type::SHORT) {
+            return Status::OK;
+        }
+        auto rc = node_check();
+        if (rc == Status::ERR_CC) {
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_storage_name(st);
+            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+            short_tx::abort(ti);
+            return Status::ERR_CC;
+        }
+        return Status::OK;
+    };
+
     /**
      * Check read-own-write
      */
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         const write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr) {
+            // the own write may be next to other tx's insert
+            if (check_phantom_if_stx() == Status::ERR_CC) {
+                return Status::ERR_CC;
+            }
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
                 return Status::WARN_NOT_FOUND;
@@ -128,13 +148,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         // optimization: set for re-read
         ti->push_to_read_set_for_stx({st, rec_ptr, tidb});
 
-        // create node set info, maybe phantom (Status::ERR_CC)
-        auto rc = node_check();
-        if (rc == Status::ERR_CC) {
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(st);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            short_tx::abort(ti);
+        if (check_phantom_if_stx() == Status::ERR_CC) {
             return Status::ERR_CC;
         } // else: return result about read (rr: read result)
         return rr;
-- 
2.43.0


From c3606493a962a635017366019d87937f86494640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:25 +0000
Subject: [PATCH 15/47] fix: Set the result of a failed commit before the abort
 clears the write set

The commit of a short transaction read the write set entry and the record of
a failed write after the abort had released them.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 10abfbe..6d0c076 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -414,7 +414,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     tid_word tid{rec_ptr->get_tidw_ref()};
                     if (tid.get_latest() && !tid.get_absent()) {
                         // the record is existing record (not inserting, deleted)
-                        abort_process();
+                        // abort clears write set, so set result before it
                         std::unique_lock<std::mutex> lk{
                                 ti->get_mtx_result_info()};
                         ti->get_result_info().set_reason_code(
@@ -422,6 +422,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         ti->get_result_info().set_key_storage_name(
                                 rec_ptr->get_key_view(),
                                 wso_ptr->get_storage());
+                        abort_process();
                         return Status::ERR_KVS;
                     }
                 }
@@ -455,7 +456,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
             ++num_locked;
             if (rec_ptr->get_tidw_ref().get_absent()) {
-                abort_process();
+                // abort clears write set, so set result before it
                 if (wso_ptr->get_op() == OP_TYPE::UPDATE) {
                     ti->set_result(reason_code::KVS_UPDATE);
                 } else if (wso_ptr->get_op() == OP_TYPE::DELETE) {
@@ -464,6 +465,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_key_storage_name(
                         rec_ptr->get_key_view(), wso_ptr->get_storage());
+                abort_process();
                 return Status::ERR_KVS;
             }
         } else {
-- 
2.43.0


From 4c92574ed91f104832efd1b6456ca8c86ea04bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:38 +0000
Subject: [PATCH 16/47] fix: Do not overlook a committing insert when verifying
 an absent key

The read verification accepted any record being inserted at the key of an
unhooked tombstone, even if the other transaction was already committing it.
Two transactions could miss each other's writes.
---
 .../interface/short_tx/termination.cpp                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 6d0c076..0951098 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -203,7 +203,16 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             tid_word check2{};
             std::string unused{};
             auto rr = read_record(rec_ptr2, check2, unused, false);
-            if (rr == Status::WARN_CONCURRENT_INSERT) { return Status::OK; }
+            if (rr == Status::WARN_CONCURRENT_INSERT) {
+                // deny if the other tx is committing it
+                check2.get_obj() = loadAcquire(rec_ptr2->get_tidw_ref().get_obj());
+                if (!check2.get_absent() ||
+                    (check2.get_lock() && !check2.get_lock_by_gc() &&
+                     ti->get_write_set().search(rec_ptr2) == nullptr)) {
+                    return Status::ERR_CC;
+                }
+                return Status::OK;
+            }
 
             // the record is modified
             return Status::ERR_CC;
-- 
2.43.0


From ddfe8776686c35acf183cf020aec16fb4a3ba3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:14 +0000
Subject: [PATCH 17/47] fix: A scan of a long transaction overlooks a committed
 one of the same epoch

The forwarding targets of a scan were collected only while a higher priority
write preserve was alive. A transaction of the same epoch that had already
committed is invisible to the scan, so it has to be a forwarding target too,
as it already is for point reads.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..468f81d 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -241,15 +241,9 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 }
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
+    // even if there is no wp now, a ltx of the same epoch may have committed
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From 2ce6250e1ed2d931de8bb1e66594596b9829f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:57 +0000
Subject: [PATCH 18/47] fix: Point read protection overlooks reads registered
 after a lower priority one

Long transactions can commit ahead of higher priority ones, so the entries are
not ordered by transaction id and the search must not stop at the first lower
priority entry.
---
 src/concurrency_control/read_by.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index f0b4898..9949c21 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,11 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
         }
+        /**
+         * else: elem is low priori than this. The elements are not ordered by
+         * id because ltxs can commit ahead of higher priori ltxs.
+         */
     }
 
     return false;
-- 
2.43.0


From 112a31b2b248b9b31957638ac4e24983654c5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:09 +0000
Subject: [PATCH 19/47] fix: Release the lock when a write preserve finds no
 free slot

---
 src/concurrency_control/wp_meta.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 682fb09..65efd0c 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -129,7 +129,10 @@ std::size_t wp_meta::find_min_id(const wp_meta::wped_type& wped) {
 Status wp_meta::register_wp(epoch::epoch_t ep, std::size_t id) {
     wp_lock_.lock();
     std::size_t slot{};
-    if (Status::OK != find_slot(slot)) { return Status::ERR_CC; }
+    if (Status::OK != find_slot(slot)) {
+        wp_lock_.unlock();
+        return Status::ERR_CC;
+    }
     wped_used_.set(slot);
     set_wped(slot, {ep, id});
     wp_lock_.unlock();
-- 
2.43.0


From 577028dd3999e78496b3835738334e44bf817c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:09 +0000
Subject: [PATCH 20/47] fix: Forget the write range of a long transaction when
 it ends

The entry was only removed if removing the write preserve failed, so every
committed long transaction left one behind.
---
 src/concurrency_control/wp_meta.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 65efd0c..2d9c7c5 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -147,11 +147,14 @@ wp_meta::register_wp_result_and_remove_wp(wp_result_elem_type const& elem) {
     }
     wp_lock_.lock();
     auto ret = remove_wp_without_lock(wp_result_elem_extract_id(elem));
-    if (ret == Status::OK) { return ret; }
-    wp_lock_.unlock();
+    if (ret != Status::OK) { wp_lock_.unlock(); }
 
-    // clear wp write range info
-    remove_write_range(std::get<1>(elem));
+    // clear wp write range info, it exists if the tx tried to commit
+    std::string left_key{};
+    std::string right_key{};
+    if (read_write_range(std::get<1>(elem), left_key, right_key)) {
+        remove_write_range(std::get<1>(elem));
+    }
     return ret;
 }
 
-- 
2.43.0


From 660b672cc34cf911d7c38942a828d8971d6ccd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:31 +0000
Subject: [PATCH 21/47] fix: Do not let a commit become durable before those it
 depends on

The log of a commit joined the open log session of its worker even if that
session belonged to an earlier epoch, and the session was begun only after the
writes had become visible. After a crash the log could hold a transaction but
not another one whose writes it had read, and a transaction without writes was
told the epoch of an old session. Begin the session before exposing writes and
do not reuse one of an earlier epoch.
---
 src/concurrency_control/include/epoch.h       | 14 ++++++++++++++
 src/concurrency_control/include/local_set.h   |  7 +++++++
 src/concurrency_control/include/lpwal.h       | 19 +++++++++++++++++--
 .../interface/long_tx/termination.cpp         | 17 +++++++++++++++--
 .../interface/short_tx/termination.cpp        | 11 +++++++++--
 .../limestone/limestone_api_helper.cpp        |  1 +
 src/datastore/limestone/lpwal.cpp             |  9 +++++++++
 7 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/epoch.h b/src/concurrency_control/include/epoch.h
index f80c16c..b052b1a 100644
--- a/src/concurrency_control/include/epoch.h
+++ b/src/concurrency_control/include/epoch.h
@@ -47,6 +47,12 @@ inline std::atomic<epoch_t> min_epoch_occ_potentially_write{0};
 
 inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
 
+/**
+ * @brief epoch which the datastore was switched to. It may be behind the
+ * global epoch while the epoch is changing.
+ */
+inline std::atomic<epoch_t> datastore_epoch{0}; // NOLINT
+
 [[maybe_unused]] inline std::thread epoch_thread; // NOLINT
 
 [[maybe_unused]] inline std::atomic<bool> epoch_thread_end; // NOLINT
@@ -57,6 +63,10 @@ inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
     return datastore_durable_epoch.load(std::memory_order_acquire);
 }
 
+[[maybe_unused]] static epoch_t get_datastore_epoch() { // NOLINT
+    return datastore_epoch.load(std::memory_order_acquire);
+}
+
 [[maybe_unused]] static bool get_epoch_thread_end() { // NOLINT
     return epoch_thread_end.load(std::memory_order_acquire);
 }
@@ -98,6 +108,10 @@ inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
     call_durability_callbacks(ep);
 }
 
+[[maybe_unused]] static void set_datastore_epoch(epoch_t ep) {
+    datastore_epoch.store(ep, std::memory_order_release);
+}
+
 [[maybe_unused]] static void set_cc_safe_ss_epoch(const epoch_t ep) {
     cc_safe_ss_epoch.store(ep, std::memory_order_release);
 }
diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index 4f166af..aafc4c0 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -203,6 +203,13 @@ public:
         return for_batch_.load(std::memory_order_acquire);
     }
 
+    /**
+     * @pre take mtx_ or no one else accesses this.
+     */
+    [[nodiscard]] bool empty() const {
+        return for_batch_ ? cont_for_bt_.empty() : cont_for_occ_.empty();
+    }
+
     std::shared_mutex& get_mtx() { return mtx_; }
 
     cont_for_bt_type& get_ref_cont_for_bt() { return cont_for_bt_; }
diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 067eae5..ee51541 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -188,7 +188,7 @@ public:
     void push_log(log_record const& log) {
         if (logs_.empty()) {
             set_min_log_epoch(log.get_wv().get_major_write_version());
-            begin_session();
+            if (!begun_session_) { begin_session(); }
         }
         logs_.emplace_back(log);
     }
@@ -212,6 +212,16 @@ public:
 
     void set_worker_number(std::size_t wn) { worker_number_ = wn; }
 
+    /**
+     * @brief prepare the session for the logs of a commit.
+     * @details The commit must not become durable before those it depends on.
+     * So call this before exposing any write of it: those which read the write
+     * can't begin their session earlier, and the logs don't join a session of
+     * an earlier epoch.
+     * @pre take mtx of logs
+     */
+    void prepare_session();
+
     /**
      * @pre take mtx of logs
      */
@@ -243,10 +253,15 @@ private:
      */
     logs_type logs_{};
 
-    // invariant: logs_.empty() == !begun_session_
+    // invariant: logs_.empty() == !begun_session_, except during write phase
     bool begun_session_{false};
     epoch::epoch_t durable_epoch_{};
 
+    /**
+     * @brief lower bound of the epoch which the session belongs to.
+     */
+    epoch::epoch_t session_epoch_{};
+
     /**
      * @brief log channel
      */
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 40b72f0..4964ded 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -304,9 +304,13 @@ static inline void expose_local_write(
 
     {
 #ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
+        auto& handle = ti->get_lpwal_handle();
+        std::unique_lock<std::mutex> lk0{handle.get_mtx_logs()};
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+#ifdef PWAL
+        if (!ti->get_write_set().empty()) { handle.prepare_session(); }
+#endif
         for (auto&& wso : ti->get_write_set().get_ref_cont_for_bt()) {
             std::string_view pkey_view =
                     wso.second.get_rec_ptr()->get_key_view();
@@ -329,6 +333,12 @@ static inline void expose_local_write(
             }
             process(wso, ctid);
         }
+#ifdef PWAL
+        // all writes may be invisible
+        if (handle.get_begun_session() && handle.get_logs().empty()) {
+            handle.end_session();
+        }
+#endif
     }
     garbage::set_dirty(dirty);
 }
@@ -823,7 +833,10 @@ extern Status commit(session* const ti) {
         {
             auto& handle = ti->get_lpwal_handle();
             std::unique_lock lk{handle.get_mtx_logs()};
-            if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+            // without write, what it read may belong to a later epoch
+            if (handle.get_begun_session() && !ti->get_write_set().empty()) {
+                this_dm = handle.get_durable_epoch();
+            }
         }
 #endif
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 0951098..83edaad 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -664,9 +664,13 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
 
     {
 #ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
+        auto& handle = ti->get_lpwal_handle();
+        std::unique_lock<std::mutex> lk0{handle.get_mtx_logs()};
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+#ifdef PWAL
+        if (!ti->get_write_set().empty()) { handle.prepare_session(); }
+#endif
         if (ti->get_write_set().get_for_batch()) {
             for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
                 auto rc = process(&itr.second);
@@ -819,7 +823,10 @@ extern Status commit(session* const ti) {
     {
         auto& handle = ti->get_lpwal_handle();
         std::unique_lock lk{handle.get_mtx_logs()};
-        if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+        // without write, what it read may belong to a later epoch
+        if (handle.get_begun_session() && !ti->get_write_set().empty()) {
+            this_dm = handle.get_durable_epoch();
+        }
     }
 #endif
 
diff --git a/src/datastore/limestone/limestone_api_helper.cpp b/src/datastore/limestone/limestone_api_helper.cpp
index 629bc40..2b05ff1 100644
--- a/src/datastore/limestone/limestone_api_helper.cpp
+++ b/src/datastore/limestone/limestone_api_helper.cpp
@@ -86,6 +86,7 @@ void switch_epoch(limestone::api::datastore* ds, epoch::epoch_t ep) {
     }
     shirakami_ex_log_entry << "datastore::switch_epoch()";
     ds->switch_epoch(ep);
+    epoch::set_datastore_epoch(ep);
     shirakami_ex_log_exit << "datastore::switch_epoch()";
 }
 
diff --git a/src/datastore/limestone/lpwal.cpp b/src/datastore/limestone/lpwal.cpp
index 22d5a74..b1973d8 100644
--- a/src/datastore/limestone/lpwal.cpp
+++ b/src/datastore/limestone/lpwal.cpp
@@ -119,6 +119,7 @@ void fin() {
 
 void handler::begin_session() {
     // assert begun_session_ = false
+    session_epoch_ = epoch::get_datastore_epoch();
     shirakami::begin_session(log_channel_ptr_);
     // TODO: global epoch is approximate value for durable epoch, but is guaranteed to be >= real durable epoch.
     // if the exact value becomes available, change this to use that.
@@ -152,6 +153,14 @@ static void flush_log_and_end_session_if_exists(lpwal::handler& handle) {
     }
 }
 
+void handler::prepare_session() {
+    if (begun_session_) {
+        if (session_epoch_ == epoch::get_global_epoch()) { return; }
+        flush_log_and_end_session_if_exists(*this);
+    }
+    begin_session();
+}
+
 void flush_log(Token token) {
     auto* ti = static_cast<session*>(token);
     auto& handle = ti->get_lpwal_handle();
-- 
2.43.0


From f3434b86079dcd11f1a6c10f7b8cabab8d8c775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:10 +0000
Subject: [PATCH 22/47] fix: Restart at an epoch later than every durable write
 version

The global epoch advances before the one of the log store, so a log of the last
durable epoch can carry a write version of the next epoch. After a restart which
began at just that epoch, a new write could get a smaller version than the
recovered one and was lost at the next recovery.
---
 src/concurrency_control/interface/start_up.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index 25e093a..903b6fc 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -188,7 +188,9 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
     epoch::set_datastore_durable_epoch(datastore::get_datastore()->last_epoch());
     auto new_epoch = epoch::initial_epoch;
     if (datastore::get_datastore()->last_epoch() >= epoch::initial_epoch) {
-        new_epoch = datastore::get_datastore()->last_epoch() + 1;
+        // the global epoch is changed before datastore's one, so the write
+        // version of a durable log may be one epoch later than last epoch.
+        new_epoch = datastore::get_datastore()->last_epoch() + 2;
     }
     epoch::set_global_epoch(new_epoch);
     epoch::set_cc_safe_ss_epoch(new_epoch + 1);
-- 
2.43.0


From 074f0f657c31c4339270b51bf982ac104935ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:10 +0000
Subject: [PATCH 23/47] fix: Keep a record which is going to be written from
 being unhooked

An upsert of an existing record did not block garbage collection. If another
transaction deleted the record, it could be unhooked before the upsert was
committed, and the write was lost or the commit failed without a reason. A
commit of a long transaction also gave up its share of the tombstone before it
wrote, and decided about the share of others without the lock.
---
 .../interface/long_tx/termination.cpp         | 51 +++++++++++--------
 src/concurrency_control/interface/upsert.cpp  | 23 ++++++++-
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 4964ded..e234760 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -108,23 +108,25 @@ static inline void expose_local_write(
         auto&& wso = std::get<1>(wse);
         dirty.insert(wso.get_storage());
         [[maybe_unused]] bool should_log{true};
+        // about tombstone count. this must be done while the record is locked
+        // for write, or others may change it to deleted state before the write
+        auto dec_tombstone_count = [rec_ptr, &wso]() {
+            if ((wso.get_op() != OP_TYPE::UPSERT &&
+                 wso.get_op() != OP_TYPE::INSERT) ||
+                !wso.get_inc_tombstone()) {
+                return;
+            }
+            if (rec_ptr->get_shared_tombstone_count() == 0) {
+                LOG_FIRST_N(ERROR, 1)
+                        << log_location_prefix << "unreachable path.";
+            } else {
+                --rec_ptr->get_shared_tombstone_count();
+            }
+        };
         // bw can backward including occ bw
         switch (wso.get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
-                // about tombstone count
-                if (wso.get_inc_tombstone()) {
-                    auto* rec_ptr = wso.get_rec_ptr();
-                    rec_ptr->get_tidw_ref().lock();
-                    if (rec_ptr->get_shared_tombstone_count() == 0) {
-                        LOG_FIRST_N(ERROR, 1)
-                                << log_location_prefix << "unreachable path.";
-                    } else {
-                        --rec_ptr->get_shared_tombstone_count();
-                    }
-                    rec_ptr->get_tidw_ref().unlock();
-                }
-
                 tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
                 auto check_cd = [&tid]() {
                     return tid.get_absent() && // inserting or deleted
@@ -137,6 +139,7 @@ static inline void expose_local_write(
                     tid = loadAcquire(
                             rec_ptr->get_tidw_ref().get_obj()); // reload
                     if (check_cd()) {                           // re-check
+                        dec_tombstone_count();
                         // update value
                         std::string vb{};
                         wso.get_value(vb);
@@ -149,8 +152,11 @@ static inline void expose_local_write(
                 }
                 [[fallthrough]]; // upsert is update
             }
-            case OP_TYPE::DELETE: {
-                if (wso.get_op() == OP_TYPE::DELETE) { // for fallthrough
+            case OP_TYPE::DELETE:
+            case OP_TYPE::UPDATE: {
+                // lock record
+                rec_ptr->get_tidw_ref().lock();
+                if (wso.get_op() == OP_TYPE::DELETE) {
                     if (rec_ptr->get_shared_tombstone_count() == 0) {
                         ctid.set_latest(false);
                         ctid.set_absent(true);
@@ -159,12 +165,13 @@ static inline void expose_local_write(
                         ctid.set_absent(true);
                     }
                 }
-                [[fallthrough]];
-            }
-            case OP_TYPE::UPDATE: {
-                // lock record
-                rec_ptr->get_tidw_ref().lock();
+                dec_tombstone_count();
                 tid_word pre_tid{rec_ptr->get_tidw_ref().get_obj()};
+                if (pre_tid.get_latest() && pre_tid.get_absent() &&
+                    rec_ptr->get_shared_tombstone_count() == 0) {
+                    // no one shares the tombstone, unblock gc
+                    pre_tid.set_latest(false);
+                }
 
                 if (ti->get_valid_epoch() > pre_tid.get_epoch()) {
                     // case: first of list
@@ -251,7 +258,9 @@ static inline void expose_local_write(
                         pre_ver = ver;
                         ver = ver->get_next();
                     }
-                    rec_ptr->get_tidw_ref().unlock();
+                    // unlock
+                    pre_tid.set_lock(false);
+                    rec_ptr->set_tid(pre_tid);
                 }
                 break;
             }
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..ca8c09f 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -76,6 +76,23 @@ static inline Status insert_process(session* const ti, Storage st,
     return Status::WARN_CONCURRENT_INSERT;
 }
 
+/**
+ * @brief increment the tombstone count of the existing record.
+ * @return true success.
+ * @return false the record was deleted or unhooked concurrently.
+ */
+static bool block_unhooking(Storage st, const std::string_view key,
+                            Record* const rec_ptr) {
+    rec_ptr->get_tidw_ref().lock();
+    Record* found_rec_ptr{};
+    bool can_block = get<Record>(st, key, found_rec_ptr) == Status::OK &&
+                     found_rec_ptr == rec_ptr &&
+                     !tid_word(rec_ptr->get_tidw_ref()).get_absent();
+    if (can_block) { ++rec_ptr->get_shared_tombstone_count(); }
+    rec_ptr->get_tidw_ref().unlock();
+    return can_block;
+}
+
 static Status upsert_body(
         Token token, Storage storage,
         const std::string_view key, const std::string_view val,
@@ -134,8 +151,10 @@ static Status upsert_body(
                 return Status::OK;
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
-                // prepare update
-                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
+                // prepare update with tombstone count, or gc may unhook the
+                // record if it is deleted before commit
+                if (!block_unhooking(storage, key, rec_ptr)) { continue; }
+                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; } // else
-- 
2.43.0


From 45018c483d2254aa42b564f53b317c327e235363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:10 +0000
Subject: [PATCH 24/47] fix: Log the version epoch of deleted records which a
 scan skips

A long transaction compares the newest version it read with the boundary it is
moved to. A scan which skipped a deleted record did not log the version of the
deletion, so one transaction could see a record and its absence and commit.
---
 src/concurrency_control/interface/scan/next.cpp      | 8 ++++++++
 src/concurrency_control/interface/scan/open_scan.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 11a7af1..fb7c71b 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -238,6 +238,14 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // it reads absence, so log the version epoch as well as search
+        std::string dummy{};
+        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+            Status::OK) {
+            return Status::OK;
+        }
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 3ecf06b..0389928 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -145,6 +145,14 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // it reads absence, so log the version epoch as well as search
+        std::string dummy{};
+        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+            Status::OK) {
+            return Status::OK;
+        }
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
-- 
2.43.0


From daa6a47abb99e07afd7134e65823f732996991aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:25 +0000
Subject: [PATCH 25/47] fix: Settle a transaction before its commit callback is
 called

The callback and the result of a long transaction whose commit was resolved
in the background were reset and set after the callback had been called. A
user who starts the next transaction of the session from then on lost the
callback of that one, or got the result of the previous one for it.
---
 src/concurrency_control/bg_work/bg_commit.cpp |  1 -
 src/concurrency_control/include/session.h     | 15 ++++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/bg_work/bg_commit.cpp b/src/concurrency_control/bg_work/bg_commit.cpp
index fb6c86d..3245c1c 100644
--- a/src/concurrency_control/bg_work/bg_commit.cpp
+++ b/src/concurrency_control/bg_work/bg_commit.cpp
@@ -155,7 +155,6 @@ void bg_commit::worker() {
             }
             goto REFIND; // NOLINT
         }                // termination was successed
-        ti->set_result_requested_commit(rc);
 
         // erase the tx from cont
         {
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 54a991e..80b5a0e 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -101,17 +101,26 @@ public:
 
     /**
      * @brief call commit callback and clear the callback stored
+     * @details The user may start the next transaction of this session as soon
+     * as the result is known, so everything about this transaction must be
+     * settled before.
      */
     void call_commit_callback(Status sc, reason_code rc,
                               durability_marker_type dm) {
         // get callback
         auto cb = get_commit_callback();
 
-        // call callback if it can
-        if (cb) { cb(sc, rc, dm); }
-
         // clear callback
         set_commit_callback({});
+
+        // set the result for check_commit
+        if (get_tx_type() == transaction_options::transaction_type::LONG &&
+            get_requested_commit()) {
+            set_result_requested_commit(sc);
+        }
+
+        // call callback if it can
+        if (cb) { cb(sc, rc, dm); }
     }
 
     /**
-- 
2.43.0


From 43dfb95864b4456e0ff82a31279a5fc3c4efdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:47 +0000
Subject: [PATCH 26/47] fix: Order a forwarded long transaction before the
 others of its epoch

A forwarded long transaction wrote versions with its own id, so that another
long transaction of the epoch with a smaller id which committed later took
its own writes for superseded. The forwarded one must be ordered before it.
---
 .../interface/long_tx/termination.cpp                    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index e234760..1028457 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -81,9 +81,14 @@ static inline void cancel_flag_inserted_records(session* const ti) {
     garbage::set_dirty(dirty);
 }
 
+static inline std::size_t order_in_epoch(session* ti) {
+    // a forwarded ltx is ordered before the other ltxs of the epoch
+    return ti->get_is_forwarding() ? 0 : ti->get_long_tx_id();
+}
+
 static inline void compute_tid(session* ti, tid_word& ctid) {
     ctid.set_epoch(ti->get_valid_epoch());
-    ctid.set_tid(ti->get_long_tx_id());
+    ctid.set_tid(order_in_epoch(ti));
     ctid.set_lock(false);
     ctid.set_absent(false);
     ctid.set_latest(true);
@@ -304,7 +309,7 @@ static inline void expose_local_write(
             ti->get_lpwal_handle().push_log(shirakami::lpwal::log_record(
                     lo,
                     lpwal::write_version_type(ti->get_valid_epoch(),
-                                              ti->get_long_tx_id()),
+                                              order_in_epoch(ti)),
                     wso.get_storage(), key, val, wso.get_lobs()));
         }
 #endif
-- 
2.43.0


From b72870fcd14398578a80d70b42fd5a88f8a43198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:16 +0000
Subject: [PATCH 27/47] fix: Include scanned ranges in the read area of a
 committing long transaction

A long transaction whose commit waits for others tells the ones of lower
priority what it has read. The ranges of its scans were missing, so they could
be ordered before it and insert records into the scanned ranges.
---
 src/concurrency_control/include/session.h     | 38 +++++++++++++++++++
 .../interface/scan/open_scan.cpp              |  1 +
 2 files changed, 39 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 80b5a0e..d2dcfb9 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -526,6 +526,44 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto itr = get_ltx_storage_read_set().find(st);
+        if (itr == get_ltx_storage_read_set().end()) {
+            // no hit
+            get_ltx_storage_read_set().emplace(
+                    st, std::make_tuple(std::string(l_key), l_end,
+                                        std::string(r_key), r_end));
+            return;
+        }
+        auto& [now_lkey, now_lpoint, now_rkey, now_rpoint] = itr->second;
+        // check initialize
+        if (now_lkey.empty() && now_lpoint == scan_endpoint::EXCLUSIVE &&
+            now_rkey.empty() && now_rpoint == scan_endpoint::EXCLUSIVE) {
+            itr->second = std::make_tuple(std::string(l_key), l_end,
+                                          std::string(r_key), r_end);
+            return;
+        }
+        // check left key
+        if (now_lpoint != scan_endpoint::INF &&
+            (l_end == scan_endpoint::INF || l_key < now_lkey ||
+             (l_key == now_lkey && l_end == scan_endpoint::INCLUSIVE))) {
+            now_lkey = l_key;
+            now_lpoint = l_end;
+        }
+        // check right key
+        if (now_rpoint != scan_endpoint::INF &&
+            (r_end == scan_endpoint::INF || now_rkey < r_key ||
+             (r_key == now_rkey && r_end == scan_endpoint::INCLUSIVE))) {
+            now_rkey = r_key;
+            now_rpoint = r_end;
+        }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 0389928..df2c7ba 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -271,6 +271,7 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From 94c7563c5e17b962f30271a023e39eae2f86722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:25 +0000
Subject: [PATCH 28/47] fix: Protect the existence read by writes of short
 transactions

Insert, update and delete of a short transaction depend on whether the record
exists. A long transaction which is forwarded could change that before the
position of a short transaction that had already committed.
---
 .../interface/short_tx/termination.cpp                    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 83edaad..c2a8f0c 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -725,6 +725,14 @@ static void register_point_read_by_short(session* const ti) {
     for (auto&& itr : ti->get_read_set_for_stx()) {
         recs.insert(itr.get_rec_ptr());
     }
+    // these operations read whether the record exists
+    for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+        if (itr.get_op() == OP_TYPE::INSERT ||
+            itr.get_op() == OP_TYPE::UPDATE ||
+            itr.get_op() == OP_TYPE::DELETE) {
+            recs.insert(itr.get_rec_ptr());
+        }
+    }
 
     for (auto&& itr : recs) {
         auto& ro{itr->get_read_by()};
-- 
2.43.0


From 2dcc308f3d8eaeb38e55a4c37d578543b7841974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:04 +0000
Subject: [PATCH 29/47] fix: Read verification mistakes a short transaction's
 version for a long one's

Tids of long and short transactions are numbered independently, so both can
write the same epoch and tid to a record. The verification of a short
transaction compared only these and overlooked the overwrite.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index c2a8f0c..65fd1c5 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -184,6 +184,8 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             read_tid.get_tid() != check.get_tid() ||
             // different epoch
             read_tid.get_epoch() != check.get_epoch() ||
+            // different kind of tx, whose tids are numbered independently
+            read_tid.get_by_short() != check.get_by_short() ||
             // locked and it's not own.
             (check.get_lock() &&
              ti->get_write_set().search(rec_ptr) == nullptr)) {
-- 
2.43.0


From e44e90c280473a1c791d27c14d17ec4171927ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:11 +0000
Subject: [PATCH 30/47] fix: A scan returns a deleted key when its version is
 being reused

When the optimistic read of the latest version fails, the scan read the
version itself, whose tid does not tell that the record is deleted. Start
over instead, as the point read does.
---
 .../interface/scan/read_kv_from_scan.cpp          | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 78be732..f244811 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -155,6 +155,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
         ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
+    RETRY:
         version* ver{};
         bool is_latest{false};
         tid_word f_check{};
@@ -200,17 +201,11 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
             }
             /**
              * else: fail to do optimistic read latest version. retry version
-             * function.
-             * It may find null version.
+             * function. The latest version may still be the version which
+             * this tx should read, and then only the tid of the record tells
+             * whether it is absent.
              */
-            ver = rec_ptr->get_latest();
-            rc = long_tx::version_function_without_optimistic_check(
-                    ti->get_valid_epoch(), ver);
-            if (rc == Status::WARN_NOT_FOUND) {
-                // version list traversed.
-                read_register_if_ltx(rec_ptr);
-                return rc;
-            }
+            goto RETRY; // NOLINT
         }
 
         if (!ver->get_tid().get_absent()) {
-- 
2.43.0


From 7edaeb1f5de3a6ca1e8a46253a85347575ee4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:11 +0000
Subject: [PATCH 31/47] fix: Verify write only long transactions which were
 ordered before others

A write only long transaction that is waited for by a bypassing one could be
forwarded without running the verification. Do not bypass it, and verify
every forwarded long transaction.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 2 +-
 src/concurrency_control/ongoing_tx.cpp                    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 1028457..06007b4 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -775,7 +775,7 @@ extern Status commit(session* const ti) {
                                  << "start_verify : " << str_tx_id;
 
     // verify not write only : start
-    if (!ti->get_ltx_storage_read_set().empty()) {
+    if (!ti->get_ltx_storage_read_set().empty() || ti->get_is_forwarding()) {
         rc = verify(ti);
     } else {
         rc = Status::OK;
diff --git a/src/concurrency_control/ongoing_tx.cpp b/src/concurrency_control/ongoing_tx.cpp
index 6a639d8..7402248 100644
--- a/src/concurrency_control/ongoing_tx.cpp
+++ b/src/concurrency_control/ongoing_tx.cpp
@@ -201,7 +201,9 @@ bool ongoing_tx::exist_wait_for(session* ti, Status& out_status) {
                          */
                         bool do_waiting_bypass_here =
                                 // if disabled -> false
-                                !optflag_disable_waiting_bypass_;
+                                !optflag_disable_waiting_bypass_ &&
+                                // without read, no need to be forwarded
+                                !ti->is_write_only_ltx_now();
                         if (do_waiting_bypass_here) {
                             out_status = waiting_bypass(ti);
                         }
-- 
2.43.0


From 474be2b9437269ed7378790a493aeb55ce6ece54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:23:07 +0000
Subject: [PATCH 32/47] fix: The garbage collector overlooks the snapshot of a
 beginning transaction

A long or read only transaction decides its valid epoch before it becomes
visible as begun. Consider the registered ones, too, when computing which
versions are still needed.
---
 src/concurrency_control/garbage.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index 6e494ce..49ed0b4 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -7,6 +7,7 @@
 
 #include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
 
@@ -126,13 +127,20 @@ void work_manager() {
             VLOG(log_debug) << log_location_prefix << "min_begin_epoch back from " << old << " to " << min_begin_epoch << " (ignored)";
         }
         // computing about ltx
-        if (valid_epoch != 0) {
-            // exist some ltx
-            auto csse = epoch::get_cc_safe_ss_epoch();
-            set_min_batch_epoch(std::min(csse, valid_epoch));
-        } else {
-            set_min_batch_epoch(epoch::get_cc_safe_ss_epoch());
+        auto min_batch_epoch = epoch::get_cc_safe_ss_epoch();
+        // exist some ltx
+        if (valid_epoch != 0) { min_batch_epoch = std::min(min_batch_epoch, valid_epoch); }
+        {
+            /**
+             * ltx / rtx which is beginning may have decided its valid epoch
+             * already though the above loop doesn't find it.
+             */
+            std::shared_lock<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+            for (auto&& elem : ongoing_tx::get_tx_info()) {
+                min_batch_epoch = std::min(min_batch_epoch, std::get<ongoing_tx::index_epoch>(elem));
+            }
         }
+        set_min_batch_epoch(min_batch_epoch);
 #ifdef PWAL
         switch_available_boundary_version(shirakami::datastore::get_datastore(), std::min(get_min_begin_epoch(), get_min_batch_epoch()));
 #endif
-- 
2.43.0


From 5cf97ded537cd6beaea210042925dff9699c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:01 +0000
Subject: [PATCH 33/47] fix: A short transaction overlooks a long one which
 commits during its verification

The read set was verified before the write preserves. A long transaction
which installs its writes and removes its write preserve in between was not
noticed by either of them.
---
 .../interface/short_tx/termination.cpp        | 58 ++++++++++---------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 65fd1c5..9e78202 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -245,35 +245,13 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
                              tid_word& commit_tid) {
     tid_word check{};
     std::vector<Storage> accessed_st{};
-    // read verify
+    /**
+     * wp verify must precede read verify. Otherwise, it may overlook a ltx
+     * which commits between them.
+     */
     for (auto&& itr : ti->get_read_set_for_stx()) {
-        auto* rec_ptr = itr.get_rec_ptr();
-        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-
-        while (check.get_lock_by_gc()) {
-            // gc takes locks equal or less than one lock.
-            _mm_pause();
-            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-        }
-
-        // verify
-        // ==============================
-        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
-            unlock_write_set(ti);
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
-                                                       itr.get_storage());
-            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
-            short_tx::abort(ti);
-            return Status::ERR_CC;
-        }
-        // ==============================
-
         // log accessed storage
         accessed_st.emplace_back(itr.get_storage());
-
-        // compute timestamp
-        commit_tid = std::max(check, commit_tid);
     }
 
     // range read or read of not existing key
@@ -318,6 +296,34 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
     }
 
+    // read verify
+    for (auto&& itr : ti->get_read_set_for_stx()) {
+        auto* rec_ptr = itr.get_rec_ptr();
+        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+
+        while (check.get_lock_by_gc()) {
+            // gc takes locks equal or less than one lock.
+            _mm_pause();
+            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+        }
+
+        // verify
+        // ==============================
+        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
+            unlock_write_set(ti);
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
+                                                       itr.get_storage());
+            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
+            short_tx::abort(ti);
+            return Status::ERR_CC;
+        }
+        // ==============================
+
+        // compute timestamp
+        commit_tid = std::max(check, commit_tid);
+    }
+
     return Status::OK;
 }
 
-- 
2.43.0


From 8cff04329a12458880d598a787cec9ee8e34e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:41 +0000
Subject: [PATCH 34/47] fix: Releasing a transaction state handle may detach
 the next transaction

The number of the handle became reusable before the session was checked
for it, so a transaction which got the same number lost its state.
---
 src/concurrency_control/transaction_state.cpp | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index 5ad7194..a3c1054 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -67,17 +67,20 @@ Status acquire_tx_state_handle(Token const token, // NOLINT
 
 static Status release_tx_state_handle_body(TxStateHandle handle) {
     if (handle == undefined_handle) { return Status::WARN_INVALID_HANDLE; }
-    Token token{};
-    auto rc{TxState::find_and_erase_tx_state(handle, token)};
-    if (rc == Status::OK) {
-        auto* ti{static_cast<session*>(token)};
-        if (handle == ti->get_current_tx_state_handle()) {
-            // the tx is running.
-            ti->clear_about_tx_state();
-        }
-        return Status::OK;
+    TxState state{};
+    auto rc{TxState::find_and_get_tx_state(handle, state)};
+    if (rc != Status::OK) { return rc; }
+    /**
+     * The session must forget the handle before it is erased. After that, the
+     * handle may be reused by another tx of the same session.
+     */
+    auto* ti{static_cast<session*>(state.get_token())};
+    if (handle == ti->get_current_tx_state_handle()) {
+        // the tx is running.
+        ti->clear_about_tx_state();
     }
-    return rc;
+    Token token{};
+    return TxState::find_and_erase_tx_state(handle, token);
 }
 
 Status release_tx_state_handle(TxStateHandle handle) {
-- 
2.43.0


From 1ad939bac43b71891b198266ed022fe9dd48022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:54 +0000
Subject: [PATCH 35/47] fix: Order long transactions which were forwarded into
 the same epoch

All forwarded long transactions of an epoch shared one position. When a long
transaction bypassed another one which was forwarded too, and committed first,
the writes of the other one were taken for superseded and were omitted, though
it must be ordered later. Order them by descending id.
---
 .../interface/long_tx/termination.cpp         | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 06007b4..e6bf30d 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -82,8 +82,12 @@ static inline void cancel_flag_inserted_records(session* const ti) {
 }
 
 static inline std::size_t order_in_epoch(session* ti) {
-    // a forwarded ltx is ordered before the other ltxs of the epoch
-    return ti->get_is_forwarding() ? 0 : ti->get_long_tx_id();
+    // forwarded ltxs are ordered before the other ltxs of the epoch. among
+    // them, the one with the larger id is ordered first because a ltx may have
+    // overlooked the writes of ltxs with smaller ids only
+    constexpr std::size_t middle{std::size_t{1} << 51U};
+    return ti->get_is_forwarding() ? middle - ti->get_long_tx_id()
+                                   : middle + ti->get_long_tx_id();
 }
 
 static inline void compute_tid(session* ti, tid_word& ctid) {
@@ -102,11 +106,8 @@ static inline void expose_local_write(
     compute_tid(ti, ctid);
     committed_id = ctid;
 
-    //bool should_backward{ti->is_write_only_ltx_now()};
-    bool should_backward{!ti->get_is_forwarding()};
-
     std::unordered_set<Storage> dirty{};
-    auto process = [ti, should_backward, &dirty](
+    auto process = [ti, &dirty](
                            std::pair<Record* const, write_set_obj>& wse,
                            tid_word ctid) {
         auto* rec_ptr = std::get<0>(wse);
@@ -194,8 +195,8 @@ static inline void expose_local_write(
                     // unlock and set ctid
                     rec_ptr->set_tid(ctid);
                 } else if (ti->get_valid_epoch() == pre_tid.get_epoch()) {
-                    if (should_backward && !pre_tid.get_by_short() &&
-                        ti->get_long_tx_id() > pre_tid.get_tid()) {
+                    if (!pre_tid.get_by_short() &&
+                        order_in_epoch(ti) > pre_tid.get_tid()) {
                         /**
                          * non invisible write due to
                          * 1: write only
@@ -248,8 +249,8 @@ static inline void expose_local_write(
                         }
                         if (tid.get_epoch() == ti->get_valid_epoch()) {
                             // para (partial order) write, normally invisible write
-                            if (should_backward && !tid.get_by_short() &&
-                                ti->get_long_tx_id() > tid.get_tid()) {
+                            if (!tid.get_by_short() &&
+                                order_in_epoch(ti) > tid.get_tid()) {
                                 // non invisible write due to bypass read wait
                                 std::string vb{};
                                 wso.get_value(vb);
-- 
2.43.0


From 7fbe3de0e60464f3e4a8fdd6fba782821e386c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:55 +0000
Subject: [PATCH 36/47] fix: Protect the existence read by writes of large
 short transactions

A short transaction with more than 100 writes keeps them in another container,
which was left out when the existence read by its writes was registered.
---
 .../interface/short_tx/termination.cpp        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 9e78202..c25029f 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -734,11 +734,20 @@ static void register_point_read_by_short(session* const ti) {
         recs.insert(itr.get_rec_ptr());
     }
     // these operations read whether the record exists
-    for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
-        if (itr.get_op() == OP_TYPE::INSERT ||
-            itr.get_op() == OP_TYPE::UPDATE ||
-            itr.get_op() == OP_TYPE::DELETE) {
-            recs.insert(itr.get_rec_ptr());
+    auto process = [&recs](write_set_obj const& wso) {
+        if (wso.get_op() == OP_TYPE::INSERT ||
+            wso.get_op() == OP_TYPE::UPDATE ||
+            wso.get_op() == OP_TYPE::DELETE) {
+            recs.insert(wso.get_rec_ptr());
+        }
+    };
+    if (ti->get_write_set().get_for_batch()) {
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+            process(itr.second);
+        }
+    } else {
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+            process(itr);
         }
     }
 
-- 
2.43.0


From c9c1514788d599c23837324667b33aa7d13418f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:25 +0000
Subject: [PATCH 37/47] fix: A sequence loses its latest version at a restart

A transaction which updates a sequence may have an older epoch than the one which
wrote the previous version: a long transaction, or a short one without writes. Its log
then had a smaller write version than that of the previous value and lost against it at
recovery. In addition, the map of versions dropped only the last of several versions of
later epochs, so that a read could return an older version than before. Use the epoch of
the latest version if it is later. The same holds for the epoch of a created and of a
recovered sequence.
---
 src/concurrency_control/sequence.cpp  | 30 +++++++++++++--------------
 src/concurrency_control/session.cpp   |  8 +++----
 src/datastore/limestone/datastore.cpp |  3 ++-
 src/include/sequence.h                |  7 ++++++-
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..e7107c6 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -187,7 +187,7 @@ sequence::sequence_map_find(SequenceId const id,
 }
 
 // for update sequence function
-Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
+Status sequence::sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                               SequenceId const id,
                                               SequenceVersion const version) {
     // check the sequence object whose id is the arguments of this function.
@@ -208,12 +208,8 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     }
 
     if (std::get<0>(last_itr->second) < version) {
-        if (last_itr->first > epoch) {
-            // fix sequence map
-            auto erased_itr = found_id_itr->second.end();
-            erased_itr--;
-            found_id_itr->second.erase(erased_itr);
-        }
+        // the order of the versions must be the order of the epochs too
+        if (last_itr->first > epoch) { epoch = last_itr->first; }
         return Status::OK;
     }
     return Status::WARN_ILLEGAL_OPERATION;
@@ -265,15 +261,6 @@ Status sequence::create_sequence(SequenceId* id) {
         return ret;
     }
 
-    // generate sequence object
-    ret = sequence::sequence_map_push(*id);
-    if (ret == Status::WARN_ALREADY_EXISTS) {
-        LOG_FIRST_N(ERROR, 1)
-                << log_location_prefix
-                << "Unexpected behavior. Id is already exist: " << *id;
-        return Status::ERR_FATAL;
-    }
-
     // generate transaction handle
     Token token{};
     while (Status::OK != enter(token)) { _mm_pause(); }
@@ -315,6 +302,17 @@ Status sequence::create_sequence(SequenceId* id) {
         return Status::ERR_FATAL;
     }
 
+    // generate sequence object, which has the same epoch as its log
+    auto epoch = static_cast<session*>(token)->get_mrc_tid().get_epoch();
+    ret = sequence::sequence_map_push(*id, epoch, initial_version,
+                                      initial_value);
+    if (ret == Status::WARN_ALREADY_EXISTS) {
+        LOG_FIRST_N(ERROR, 1)
+                << log_location_prefix
+                << "Unexpected behavior. Id is already exist: " << *id;
+        return Status::ERR_FATAL;
+    }
+
     // cleanup transaction handle
     ret = leave(token);
     if (ret != Status::OK) {
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..a8828c3 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -58,8 +58,9 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        epoch::epoch_t epoch = ctid.get_epoch();
+        auto ret =
+                sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +88,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 4ffb203..629e5cb 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -173,7 +173,8 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                    sizeof(version));
             // other recovery threads may push at the same time
             std::lock_guard<std::shared_mutex> lk{sequence::sequence_map_smtx()};
-            auto ret = sequence::sequence_map_push(id, 0, version, value);
+            // later updates must have an epoch which is not older
+            auto ret = sequence::sequence_map_push(id, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
             }
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..15f4b34 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -55,7 +55,12 @@ public:
     sequence_map_find(SequenceId id,
                       std::tuple<SequenceVersion, SequenceValue>& out);
 
-    static Status sequence_map_find_and_verify(epoch::epoch_t epoch,
+    /**
+     * @brief verify that the version is newer than the latest one.
+     * @param[in,out] epoch the epoch of the transaction which updates it. If
+     * the latest version belongs to a later epoch, it is set to that.
+     */
+    static Status sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                                SequenceId id,
                                                SequenceVersion version);
 
-- 
2.43.0


From ba91a8a4c7240b38d3b75e23207c21b040b8cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:32 +0000
Subject: [PATCH 38/47] fix: Records of a deleted storage come back after a
 restart

The log of a deletion had the version of the transaction which removes the metadata. That
one reads no record of the storage, so within an epoch its version could be smaller than
those of the records, which then survived the deletion in the log. Use the largest version
of the epoch, and wait for the next epoch, so that records written after the storage id
is used again have a larger version.
---
 src/concurrency_control/interface/storage.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..653815a 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -4,8 +4,10 @@
 
 #include <cstdlib>
 
+#include "clock.h"
 #include "storage.h"
 
+#include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
 #include "concurrency_control/include/record.h"
 #include "concurrency_control/include/wp.h"
@@ -83,16 +85,20 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
     if (commit(s) == Status::OK) {
 #ifdef PWAL
         auto* ti = static_cast<session*>(s);
-        // reuse mrc_tid of previous commit to calculate the write-version
-        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), ti->get_mrc_tid().get_tid() | (1UL << 63)};  // NOLINT
-        // note: this write-version is calculated without reading any Records in this storage,
-        // so it may be smaller than that of concurrent transactions writing this storage.
+        // this write-version is calculated without reading any Records in this storage,
+        // so use the largest one of the epoch of previous commit
+        auto epoch = ti->get_mrc_tid().get_epoch();
+        lpwal::write_version_type wv{epoch, UINT64_MAX};
         {
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
         }
 #endif
         leave(s);
+#ifdef PWAL
+        // the storage id may be used again, and the records written then must be newer
+        while (epoch::get_global_epoch() <= epoch) { sleepUs(epoch::get_global_epoch_time_us()); }
+#endif
         return;
     } // else
     LOG_FIRST_N(ERROR, 1) << log_location_prefix << "library programming error";
-- 
2.43.0


From 96172264a6e6215166ba45693fd32243822df325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 39/47] fix: A state inquiry may answer for the next
 transaction of the session

The inquiry about a waiting long transaction asks the session whether it
still has to wait. If the transaction ended in the meantime and the session
began another one, the answer was about the latter, and a transaction that
had been reported as started was reported as waiting again. Look at the
recorded state once more after the session was asked.
---
 src/concurrency_control/transaction_state.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index a3c1054..fc0f67d 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -121,10 +121,20 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
         if (out.state_kind() == TxState::StateKind::WAITING_START) {
             // check high priori stx
             auto* ti = static_cast<session*>(out.get_token());
-            if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
+            auto started = ti->find_high_priority_short(true) !=
+                           Status::WARN_PREMATURE;
+            /**
+             * If the tx ended in the meantime, the session may have been asked
+             * about its next tx.
+             */
+            rc = TxState::find_and_get_tx_state(handle, out);
+            if (rc == Status::WARN_INVALID_HANDLE) { return rc; }
+            if (started &&
+                out.state_kind() == TxState::StateKind::WAITING_START) {
                 out.set_kind(TxState::StateKind::STARTED);
             } // else : premature
-        } else if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        }
+        if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
             if (out.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
-- 
2.43.0


From f51ea60296497570900b02902de2c28a94ad9ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 00:23:40 +0000
Subject: [PATCH 40/47] fix: Record created by an aborted insert or upsert may
 stay unreadable

When an insert or upsert of a short transaction created a record and then
found that an earlier scan was invalid, the transaction was aborted before
the record was added to its write set. The abort therefore did not release
the record. Readers of that key were told WARN_CONCURRENT_INSERT until
another transaction wrote it. The record is now added first.
---
 src/concurrency_control/interface/insert.cpp | 3 ++-
 src/concurrency_control/interface/upsert.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..ef0c378 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -41,6 +41,8 @@ static inline Status insert_process(session* const ti, Storage st,
     yakushima::inserted_node_info ii{};
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // abort needs to find the created record
+        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -67,7 +69,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         out_rec_ptr = rec_ptr;
         return Status::OK;
     }
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca8c09f..1178be5 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -42,6 +42,8 @@ static inline Status insert_process(session* const ti, Storage st,
     // create tombstone
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // abort needs to find the created record
+        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -68,7 +70,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         return Status::OK;
     }
     // fail insert rec_ptr
-- 
2.43.0


From 7a87f12b7a0b3a4eb0688be662acfb140baa9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 00:23:40 +0000
Subject: [PATCH 41/47] fix: Deleted storage may keep its id and records after
 a crash

Deleting a storage logged the deletion of its metadata with the commit and
the removal of its records afterwards. After a crash in between, the storage
had no name but its records were recovered, so its id could not be used
again. Both are now logged by the same commit.
---
 .../interface/short_tx/termination.cpp        | 20 +++++++++++++++++++
 src/concurrency_control/interface/storage.cpp | 15 ++++----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index c25029f..157b3f1 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -519,6 +519,17 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                         << "\", value: \""
                         << binary_printer(wso_ptr->get_value_view()) << "\"";
         dirty.insert(wso_ptr->get_storage());
+#ifdef PWAL
+        // the metadata of a storage is deleted with the storage
+        bool remove_storage = wso_ptr->get_storage() == storage::meta_storage &&
+                              wso_ptr->get_op() == OP_TYPE::DELETE;
+        Storage removed_storage{};
+        if (remove_storage) {
+            std::string metadata{};
+            wso_ptr->get_rec_ptr()->get_value(metadata);
+            memcpy(&removed_storage, metadata.data(), sizeof(removed_storage));
+        }
+#endif
         switch (wso_ptr->get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
@@ -666,6 +677,15 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                 lpwal::write_version_type(update_tid.get_epoch(),
                                           minor_version),
                 wso_ptr->get_storage(), key, val, wso_ptr->get_lobs()));
+        if (remove_storage) {
+            // this write-version is calculated without reading any Records in
+            // the storage, so use the largest one of the epoch
+            ti->get_lpwal_handle().push_log(shirakami::lpwal::log_record(
+                    log_operation::REMOVE_STORAGE,
+                    lpwal::write_version_type(update_tid.get_epoch(),
+                                              UINT64_MAX),
+                    removed_storage, {}, {}, {}));
+        }
 #endif
         return Status::OK;
     };
diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 653815a..5d6fda5 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -65,7 +65,7 @@ static void write_storage_metadata(std::string_view key, Storage st,
     LOG_FIRST_N(ERROR, 1) << log_location_prefix << "library programming error";
 }
 
-static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Storage st) {
+static void remove_storage_metadata(std::string_view key) {
     Token s{};
     while (enter(s) != Status::OK) { _mm_pause(); }
     auto ret = tx_begin({s, transaction_options::transaction_type::SHORT});
@@ -84,15 +84,8 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
     }
     if (commit(s) == Status::OK) {
 #ifdef PWAL
-        auto* ti = static_cast<session*>(s);
-        // this write-version is calculated without reading any Records in this storage,
-        // so use the largest one of the epoch of previous commit
-        auto epoch = ti->get_mrc_tid().get_epoch();
-        lpwal::write_version_type wv{epoch, UINT64_MAX};
-        {
-            std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
-            ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
-        }
+        // the commit also logged the removal of the storage
+        auto epoch = static_cast<session*>(s)->get_mrc_tid().get_epoch();
 #endif
         leave(s);
 #ifdef PWAL
@@ -155,7 +148,7 @@ static Status delete_storage_body(Storage const storage) {
             return Status::ERR_FATAL;
         }
 
-        if (!get_is_shutdowning()) { remove_storage_metadata(key, storage); }
+        if (!get_is_shutdowning()) { remove_storage_metadata(key); }
     }
     return Status::OK;
 }
-- 
2.43.0


From 02a115a35a764044fc954e825555fd3bb02bf84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:14:56 +0000
Subject: [PATCH 42/47] fix: A scan may be accepted though another transaction
 inserted into its range

A transaction that ran a second scan over a node could register the node at
a newer version than a scan it had opened earlier. The older version was then
taken for the state before the transaction's own insert and accepted, so the
two scans of one committed transaction could disagree.

The version at which a node was first registered is now kept, and an older
version is accepted only if it is not older than that one.
---
 src/concurrency_control/include/local_set.h | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index aafc4c0..b7b9272 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -326,8 +326,13 @@ private:
 
 class node_set {
 public:
-    using set_type = std::vector<std::pair<yakushima::node_version64_body,
-                                           yakushima::node_version64*>>;
+    /**
+     * @brief first is the node version including inserts by this transaction,
+     * second is the node, third is the node version when it was registered.
+     */
+    using set_type = std::vector<std::tuple<yakushima::node_version64_body,
+                                            yakushima::node_version64*,
+                                            yakushima::node_version64_body>>;
 
     auto clear() {
         std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
@@ -371,9 +376,11 @@ public:
         // take write lock
         std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
         // engineering optimization, shrink nvec size.
-        if (!get_set().empty() &&       // not empty
-            get_set().back() == elem) { // last elem is same
-            return Status::OK;          // skip registering.
+        if (!get_set().empty() && // not empty
+            // last elem is same
+            std::get<0>(get_set().back()) == std::get<0>(elem) &&
+            std::get<1>(get_set().back()) == std::get<1>(elem)) {
+            return Status::OK; // skip registering.
         }
 
         // early validation
@@ -387,7 +394,10 @@ public:
                     /**
                      * Node versions already added in a previous scan operation.
                      */
-                    if (comp_ver_for_node_verify(cnvp, std::get<0>(elem_set))) {
+                    if (comp_ver_for_node_verify(cnvp, std::get<0>(elem_set)) &&
+                        // it is not older than the registered one
+                        std::get<0>(elem).get_vinsert_delete() >=
+                                std::get<2>(elem_set).get_vinsert_delete()) {
                         // the difference due to old self insert.
                         return Status::OK;
                     }
@@ -399,7 +409,8 @@ public:
             return Status::ERR_CC;
         }
 
-        get_set().emplace_back(elem);
+        get_set().emplace_back(std::get<0>(elem), std::get<1>(elem),
+                               std::get<0>(elem));
         return Status::OK;
     }
 
-- 
2.43.0


From 3cf1135b65cbd8ca232c8f27b6cc743bb0c4e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:28 +0000
Subject: [PATCH 43/47] fix: Deleting a storage may stop the epoch for ever

delete_storage waited for the next epoch while it held the mutex of the key
handle map. A begin of a long transaction which names an unknown storage
holds the mutex of write preserve and waits for the key handle map. The epoch
thread needs the mutex of write preserve, so nobody could go on. Now
create_storage waits for the epoch, without holding the mutex.
---
 src/concurrency_control/interface/storage.cpp | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 5d6fda5..c456336 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -65,6 +65,14 @@ static void write_storage_metadata(std::string_view key, Storage st,
     LOG_FIRST_N(ERROR, 1) << log_location_prefix << "library programming error";
 }
 
+#ifdef PWAL
+/**
+ * @brief The epoch of the newest removal of a storage, guarded by the mutex of
+ * key handle map.
+ */
+static epoch::epoch_t removed_epoch{0}; // NOLINT
+#endif
+
 static void remove_storage_metadata(std::string_view key) {
     Token s{};
     while (enter(s) != Status::OK) { _mm_pause(); }
@@ -85,13 +93,9 @@ static void remove_storage_metadata(std::string_view key) {
     if (commit(s) == Status::OK) {
 #ifdef PWAL
         // the commit also logged the removal of the storage
-        auto epoch = static_cast<session*>(s)->get_mrc_tid().get_epoch();
+        removed_epoch = static_cast<session*>(s)->get_mrc_tid().get_epoch();
 #endif
         leave(s);
-#ifdef PWAL
-        // the storage id may be used again, and the records written then must be newer
-        while (epoch::get_global_epoch() <= epoch) { sleepUs(epoch::get_global_epoch_time_us()); }
-#endif
         return;
     } // else
     LOG_FIRST_N(ERROR, 1) << log_location_prefix << "library programming error";
@@ -102,7 +106,16 @@ static Status create_storage_body(std::string_view const key, Storage& storage,
     auto ret = check_constraint_key_length(key);
     if (ret != Status::OK) { return ret; }
 
-    std::lock_guard<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
+    std::unique_lock<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
+#ifdef PWAL
+    // the id of a removed storage may be used again, and the records written
+    // then must be newer. The epoch may not change while the mutex is held.
+    while (epoch::get_global_epoch() <= removed_epoch) {
+        lk.unlock();
+        sleepUs(epoch::get_global_epoch_time_us());
+        lk.lock();
+    }
+#endif
     // check key existence
     Storage st{};
     if (storage::key_handle_map_get_storage_without_lock(key, st) ==
@@ -506,7 +519,12 @@ void storage::get_new_storage_num(Storage& storage) {
     storage = strg_ctr_.fetch_add(1);
 }
 
-void storage::init() { storage::set_strg_ctr(storage::initial_strg_ctr); }
+void storage::init() {
+    storage::set_strg_ctr(storage::initial_strg_ctr);
+#ifdef PWAL
+    removed_epoch = 0;
+#endif
+}
 
 void storage::init_meta_storage() {
     auto ret = storage::register_storage(storage::meta_storage);
-- 
2.43.0


From 47658855ac7ea7997d6b455308891392fa6850cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:31 +0000
Subject: [PATCH 44/47] fix: A refused abort becomes the reason of the failure

abort of a long transaction whose commit was requested is refused, but it had
already set the reason code of the transaction to USER_ABORT. A failure of the
commit was then reported with that reason.
---
 .../interface/termination.cpp                    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..d7d1f2a 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -17,6 +17,15 @@ static Status abort_body(Token token) { // NOLINT
     // check whether it already began.
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_ILLEGAL_OPERATION;
+    }
+
     // set result info
     ti->set_result(reason_code::USER_ABORT);
 
@@ -25,13 +34,6 @@ static Status abort_body(Token token) { // NOLINT
         rc = short_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_ILLEGAL_OPERATION;
-        }
         rc = long_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::READ_ONLY) {
-- 
2.43.0


From aa3cf787716cb26d9e8d441c1c0d60d36faf70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:58 +0000
Subject: [PATCH 45/47] fix: An open read only transaction hides the priority
 of long transactions

check_ltx_is_highest_priority compared the id of the long transaction with the
first entry of the list of ongoing transactions.  That list also holds read
only transactions, which have no priority, so a long transaction that began
after an open read only one was told that it does not have the highest
priority although no older long transaction existed.
---
 src/concurrency_control/transaction_state.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index fc0f67d..6ebde3c 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -175,9 +175,15 @@ static Status check_ltx_is_highest_priority_body(Token token, bool& out) {
         // take shared lock for ongoing tx info
         std::lock_guard<std::shared_mutex> lk{ongoing_tx::get_mtx()};
         // check highest tx id
-        std::size_t highest_tx_id{std::get<ongoing_tx::index_id>(
-                (*ongoing_tx::get_tx_info().begin()))};
-        out = highest_tx_id == ti->get_long_tx_id();
+        // ongoing_tx::tx_info may contain RTX, which has no priority, so skip RTX here
+        for (auto&& elem : ongoing_tx::get_tx_info()) {
+            if (std::get<ongoing_tx::index_session>(elem)->get_tx_type() ==
+                transaction_options::transaction_type::READ_ONLY) {
+                continue;
+            }
+            out = std::get<ongoing_tx::index_id>(elem) == ti->get_long_tx_id();
+            break;
+        }
     }
 
     return Status::OK;
-- 
2.43.0


From 798ec7dbd77e09aa86646437dbc53482df17fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:12 +0000
Subject: [PATCH 46/47] fix: Scans read the version word of a record in two
 halves

open_scan and next copied the 128 bit version word of a record with an access
that is not atomic, and then loaded atomically from the copy.  A writer which
replaced the word in between left a mixture of the old epoch and the new state,
so that a read only or long transaction skipped a record that it has to read.
Load the word of the record itself.
---
 src/concurrency_control/interface/scan/next.cpp      | 2 +-
 src/concurrency_control/interface/scan/open_scan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index fb7c71b..37424dd 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -156,7 +156,7 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
     }
     // not in local write set
 
-    tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
+    tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
     if (!tid.get_absent()) {
         // normal page
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index df2c7ba..be1a448 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -76,7 +76,7 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         }
     }
 
-    tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
+    tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
-- 
2.43.0


From de73f09327e052148333abadd71e92792a487fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:15:36 +0000
Subject: [PATCH 47/47] fix: A forwarded update of a long transaction may
 appear in a range others read

A long transaction that is ordered before others verifies that its writes
do not fall into ranges which they read. Updates were left out. An update
can concern a record that the readers found absent, because whether the
record exists is decided from its newest version.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index e6bf30d..0bd4816 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -614,6 +614,8 @@ static Status verify(session* const ti) {
                 if (wso.second.get_op() == OP_TYPE::INSERT ||
                     wso.second.get_op() ==
                             OP_TYPE::UPSERT || // upsert may cause phantom
+                    // the record may be absent for the readers of the range
+                    wso.second.get_op() == OP_TYPE::UPDATE ||
                     wso.second.get_op() == OP_TYPE::DELETE) {
                     wp::page_set_meta* psm{};
                     if (Status::OK ==
-- 
2.43.0

