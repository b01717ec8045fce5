From 7b574682a845904133b15e8993066b956f9afd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 01/11] fix: CreateSnapshot no longer changes snapshots already
 handed out

MemoryStorage::CreateSnapshot updated the shared snapshot object in place.
Every holder of a snapshot obtained earlier from SnapShot(), CreateSnapshot()
or a MsgSnap still queued in a Ready saw its index, term, configuration and
data change underneath it.
---
 src/storage.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..eedb970 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,15 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
-  if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
-  }
-
-  *(snapshot_->mutable_data()) = data;
+  // Snapshots that were handed out before share the old object, so a new one
+  // is made instead of updating it in place.
+  auto snapshot = std::make_shared<raftpb::Snapshot>();
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
+  *(snapshot->mutable_metadata()->mutable_conf_state()) =
+      cs != nullptr ? *cs : snapshot_->metadata().conf_state();
+  snapshot->set_data(data);
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From 6bf9e624507eb254201b83e6ad22095ad7b154c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 02/11] fix: Bootstrap refuses a storage that already has
 entries

RawNode::Bootstrap computed the last index of the storage and then ignored it.
Starting a node that had been used before reset its term to 1, forgot its vote
and either aborted (appending below the commit index) or overwrote its log.
---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..00035b9 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From 70464eca3c671e5c38326ac3b06c6e879ca77c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 03/11] fix: a leader outside the configuration does not answer
 reads alone

With a single voter left, the leader answered MsgReadIndex from its own commit
index without contacting anybody. That is only right when the single voter is
the leader itself; a leader that has just been removed or demoted may already
have been replaced, and returned stale read indexes.
---
 src/raft.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..238cfa5 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1038,8 +1038,9 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
-      // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      // only one voting member (the leader) in the cluster; a leader that was
+      // removed or demoted must ask the remaining voter
+      if (trk_.IsSingleton() && trk_.GetConfig().voters.IDs().count(id_) > 0) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 87cc6866c639149fb53125a960e63a46d1b92e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 04/11] fix: a leader that is no longer tracked can leave its
 joint configuration

A leader that had been demoted to learner and is then removed through a joint
configuration with auto-leave loses its Progress when it enters the joint
configuration. Advance then appended the leave entry and dereferenced the
missing Progress.
---
 src/raft.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 238cfa5..9f5cb0b 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -523,7 +523,11 @@ bool Raft::AppendEntry(const EntryPtrs& es) {
   }
   // use latest "last" index after truncate/append
   li = raft_log_->Append(es);
-  trk_.GetProgress(id_)->MaybeUpdate(li);
+  // A leader removed by its own joint change still appends the entry that
+  // leaves the joint configuration, but is no longer tracked itself.
+  if (auto pr = trk_.GetProgress(id_)) {
+    pr->MaybeUpdate(li);
+  }
   // Regardless of maybeCommit's return, our caller will call bcastAppend.
   MaybeCommit();
   return true;
-- 
2.43.0


From 3239928d2fc01935edc0cea45cef947deb3595ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 05/11] fix: a leader leaving the voters commits what the
 remaining quorum holds

SwitchToConfig returned early when the leader itself was removed or demoted and
skipped the commit re-evaluation every other membership change does. Entries
that all remaining voters had already acknowledged stayed uncommitted until
some later proposal.
---
 src/raft.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 9f5cb0b..c917a34 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1744,6 +1744,13 @@ raftpb::ConfState Raft::SwitchToConfig(const ProgressTracker::Config& cfg,
     // proposals but it's better than nothing.
     //
     // TODO(tbg): test this branch. It is untested at the time of writing.
+    //
+    // It leads on for now. Entries every remaining voter has acknowledged
+    // already may be committed under the new configuration, and no further
+    // acknowledgement would come to trigger that.
+    if (MaybeCommit()) {
+      BcastAppend();
+    }
     return cs;
   }
 
-- 
2.43.0


From 6f95a7aab10efe49daa11c0eeed043f06fff754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 06/11] fix: MemoryStorage::Entries read outside its deque on a
 compacted log

ents_.begin() + lo - offset first advances by the absolute index, which
leaves the deque's node map (and crashes for large indices) before the
offset is subtracted.
---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index eedb970..3de78fd 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -75,7 +75,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From 578743b0eaae730f53c6d6fe1a5d6bdbc451ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 07/11] fix: read the stored state under the lock in
 MemoryStorage::InitialState

---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 3de78fd..bead80f 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From b8dcd38fbe9f559c3e4d7abdea0c257d0eae524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 08/11] fix: Bootstrap refuses a storage that already has a
 term or vote

A node that had only persisted a hard state (it joined, voted or learned a
term, and crashed before it had any entry) could be bootstrapped: its term went
back to 1 and its vote was forgotten.
---
 src/rawnode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index 00035b9..057dc50 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,7 +60,7 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
-  if (last_index != 0) {
+  if (last_index != 0 || !IsEmptyHardState(raft_->GetHardState())) {
     return Status::Error("can't bootstrap a nonempty Storage");
   }
 
-- 
2.43.0


From c4bcb3b38096a1cbd3513f2871a390230e061e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 09/11] fix: a stale rejection never takes a follower's next
 index back to or below its match

---
 src/tracker/progress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/progress.cc b/src/tracker/progress.cc
index 7bb53cf..9cfcb4f 100644
--- a/src/tracker/progress.cc
+++ b/src/tracker/progress.cc
@@ -107,7 +107,7 @@ bool Progress::MaybeDecrTo(uint64_t rejected, uint64_t match_hint) {
     return false;
   }
 
-  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), 1);
+  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), match_ + 1);
   probe_sent_ = false;
   return true;
 }
-- 
2.43.0


From ccdf055a1bc565616f4a0e9681a846b8c696fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 10/11] fix: a read on a leader that is the only voter of both
 halves of a joint configuration was never answered

---
 src/raft.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index c917a34..af34661 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1042,9 +1042,11 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
-      // only one voting member (the leader) in the cluster; a leader that was
-      // removed or demoted must ask the remaining voter
-      if (trk_.IsSingleton() && trk_.GetConfig().voters.IDs().count(id_) > 0) {
+      // The leader is the only voting member (of both halves of a joint
+      // configuration): nobody else would confirm the read. A leader that was
+      // removed or demoted must ask the remaining voter.
+      if (trk_.GetConfig().voters.VoteResult({{id_, true}}) ==
+          VoteState::kVoteWon) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 549c37716d6100515adbbe451323296630674346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:39 +0000
Subject: [PATCH 11/11] fix: reads put off by a leader that then lost its
 leadership were kept in memory for good

---
 src/raft.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index af34661..a19f702 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -499,6 +499,9 @@ void Raft::Reset(uint64_t term) {
   pending_conf_index_ = 0;
   uncommitted_size_ = 0;
   read_only_ = std::make_unique<ReadOnly>(logger_, read_only_->Option());
+  // like the reads above, those put off until the leader commits in its term
+  // end with the leadership
+  pending_read_index_messages_.clear();
 }
 
 bool Raft::AppendEntry(const EntryPtr& e) {
-- 
2.43.0

