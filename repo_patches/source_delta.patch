From ac73565034545550a7b71e7badfc86fb290410c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 1/5] fix: reject a corrupt sequence length before sizing an
 allocation by it

ResizableUniformSizedElementSeqFormat::try_parse passed the length field read from
the buffer straight to Vec::with_capacity. On arbitrary bytes (for instance a u64
length of 2^63) that panics with a capacity overflow instead of returning None.
---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..b1b6977 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -528,6 +528,11 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
         match self.try_length(dslice, data) {
             None => { None },
             Some(len) => {
+                if self.max_length < len {
+                    // A length field this large is corrupt; don't let it size the allocation below.
+                    assert( !self.gettable(dslice@.i(data@), self.max_length as int) );
+                    return None;
+                }
                 let mut i: usize = 0;
                 let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
                 while i < len
-- 
2.43.0


From 888de76072a04dbc3075e7292273e028e84da9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 2/5] fix: completeWriteTasks no longer aborts when every
 outstanding write has completed while others wait for a slot

---
 framework/Framework.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 478e4e8..933e942 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -406,14 +406,18 @@ namespace MainDiskIOHandler_Compile {
         }
       }
       if (i == 0) {
-        if (any_not_started) {
+        if (!any_not_started) {
+          break;
+        }
+        // Everything that was outstanding has completed; the writes that
+        // were waiting for a slot can be started now.
+        if (nWriteReqsOut >= MAX_WRITE_REQS_OUT) {
           fail("completeWriteTasks: any_not_started");
         }
-        break;
+      } else {
+        aio_suspend(&tasks[0], i, NULL);
       }
 
-      aio_suspend(&tasks[0], i, NULL);
-
       maybeStartWriteReq();
     }
   }
-- 
2.43.0


From ec3846829209bd42a3cb440bc86bc4998911565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 3/5] fix: CoordinationSystem::commit_start can be taken (it
 demanded that the journal start a commit without changing)

---
 .../abstract_system/AbstractCrashAwareSystemRefinement_v.rs   | 2 +-
 Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
index 5a66632..c190786 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
@@ -723,7 +723,7 @@ verus! {
             v.inv(),
             CoordinationSystem::State::next(v, vp, label),
             CoordinationSystem::State::next_by(v, vp, label, step),
-            matches!(step, CoordinationSystem::Step::commit_start(_)),
+            matches!(step, CoordinationSystem::Step::commit_start(..)),
         ensures
             vp.inv()
     {
diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
index c1f7e24..afdb4cd 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
@@ -527,6 +527,7 @@ state_machine!{ CoordinationSystem {
     commit_start(
       label: Label,
       new_boundary_lsn: LSN,
+      new_journal: CrashTolerantJournal::State,
     ) {
       require pre.ephemeral is Some;
       let pre_ephemeral = pre.ephemeral.get_Some_0();
@@ -536,7 +537,7 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantJournal::State::next(
         pre.journal,
-        pre.journal,
+        new_journal,
         CrashTolerantJournal::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
           max_lsn: pre_ephemeral.map_lsn,
@@ -551,6 +552,7 @@ state_machine!{ CoordinationSystem {
         }
       );
 
+      update journal = new_journal;
       update superblock_in_flight = true;
 
       // ephemeral unchanged
-- 
2.43.0


From 63722d4f4121e65722b2e3d1610645da90d0add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 4/5] fix: cache writeback starts at most one write per page

writeback_initiate accepted two requests with different ids for the same dirty
page. Both ids then waited for the one slot (breaking the invariant that
outstanding_reqs is injective): the first response marked the page clean, and the
second, arriving after the page was written again and put under writeback again,
would mark contents clean that had not reached the disk.
---
 Splinter/src/implementation/Cache_v.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 0b7121e..176d226 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -214,6 +214,8 @@ state_machine!{ Cache {
         require !requests.is_empty();
         require responses == empty_responses();
 
+        // one request per page: a response must speak for the page as it is under writeback
+        require requests.is_injective();
         require requests.dom().disjoint(pre.outstanding_reqs.dom());
         require pre.valid_writeback_requests(requests);
 
-- 
2.43.0


From 1983a1d36d1c20ce431d6e29230e9b9b80d32709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:44 +0000
Subject: [PATCH 5/5] fix: the cache invariant holds in every reachable state

lookup_map also names reserved and loading slots, but the invariant compared it with the
filled ones only, and nothing said that a request is under way only for a page being loaded
or written back, so no step preserved it.
---
 Splinter/src/implementation/Cache_v.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 176d226..44bdea4 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -317,11 +317,11 @@ state_machine!{ Cache {
 
     pub open spec fn build_lookup_map(self) -> Map<Address, Slot>
     {
-        let filled_slot_addr_map = Map::new(
-            |slot| self.entries.contains_key(slot) && self.entries[slot] is Filled,
+        let slot_addr_map = Map::new(
+            |slot| self.non_empty_slot(slot),
             |slot| self.entries[slot].get_addr()
         );
-        filled_slot_addr_map.invert()
+        slot_addr_map.invert()
     }
 
     pub open spec fn non_empty_slot(self, slot: Slot) -> bool
@@ -355,6 +355,7 @@ state_machine!{ Cache {
     {
         forall |id| self.outstanding_reqs.contains_key(id)
             ==> #[trigger] self.non_empty_slot(self.outstanding_reqs[id])
+                && (self.entries[self.outstanding_reqs[id]] is Loading || self.status_map[self.outstanding_reqs[id]] is Writeback)
     }
 
     // pub open spec fn outstanding_reqs_unique_slots(self) -> bool
-- 
2.43.0

