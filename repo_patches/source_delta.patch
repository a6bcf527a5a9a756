From bd1bedaff11dba60a504880ceb72f95efe3a71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:44 +0000
Subject: [PATCH 01/96] fix: discard undelivered cross-partition events before
 complete()

Events left in the thread/rank sync queues when the run phase ends were
moved into the untimed-data queues by the first exchange of the complete
phase, where they blocked delivery of the untimed events sent by
components during complete().
---
 src/sst/core/sync/rankSyncParallelSkip.cc | 8 +++++++-
 src/sst/core/sync/rankSyncSerialSkip.cc   | 8 +++++++-
 src/sst/core/sync/syncQueue.cc            | 4 ++++
 src/sst/core/sync/threadSyncSimpleSkip.cc | 9 +++++++++
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sync/rankSyncParallelSkip.cc b/src/sst/core/sync/rankSyncParallelSkip.cc
index 94c67e4..e2f4eb9 100644
--- a/src/sst/core/sync/rankSyncParallelSkip.cc
+++ b/src/sst/core/sync/rankSyncParallelSkip.cc
@@ -141,7 +141,13 @@ RankSyncParallelSkip::finalizeLinkConfigurations()
 
 void
 RankSyncParallelSkip::prepareForComplete()
-{}
+{
+    // Events sent on cross-rank links after the last sync of the run phase will never be delivered. Discard them so they
+    // don't get put into the queues that hold the untimed events sent during complete().
+    for ( auto& i : comm_send_map ) {
+        i.second.squeue->clear();
+    }
+}
 
 void
 RankSyncParallelSkip::setSignals(int end, int usr, int alrm)
diff --git a/src/sst/core/sync/rankSyncSerialSkip.cc b/src/sst/core/sync/rankSyncSerialSkip.cc
index b371892..c59f4de 100644
--- a/src/sst/core/sync/rankSyncSerialSkip.cc
+++ b/src/sst/core/sync/rankSyncSerialSkip.cc
@@ -104,7 +104,13 @@ RankSyncSerialSkip::finalizeLinkConfigurations()
 
 void
 RankSyncSerialSkip::prepareForComplete()
-{}
+{
+    // Events sent on cross-rank links after the last sync of the run phase will never be delivered. Discard them so they
+    // don't get put into the queues that hold the untimed events sent during complete().
+    for ( auto& i : comm_map ) {
+        i.second.squeue->clear();
+    }
+}
 
 void
 RankSyncSerialSkip::setSignals(int end, int usr, int alrm)
diff --git a/src/sst/core/sync/syncQueue.cc b/src/sst/core/sync/syncQueue.cc
index 8546db3..7732e95 100644
--- a/src/sst/core/sync/syncQueue.cc
+++ b/src/sst/core/sync/syncQueue.cc
@@ -75,6 +75,10 @@ void
 RankSyncQueue::clear()
 {
     std::scoped_lock lock(slock);
+    // Anything still in the queue was never sent
+    for ( auto* activity : activities ) {
+        delete activity;
+    }
     activities.clear();
 }
 
diff --git a/src/sst/core/sync/threadSyncSimpleSkip.cc b/src/sst/core/sync/threadSyncSimpleSkip.cc
index 85127ef..38778fc 100644
--- a/src/sst/core/sync/threadSyncSimpleSkip.cc
+++ b/src/sst/core/sync/threadSyncSimpleSkip.cc
@@ -171,6 +171,15 @@ ThreadSyncSimpleSkip::finalizeLinkConfigurations()
 void
 ThreadSyncSimpleSkip::prepareForComplete()
 {
+    // Events sent on cross-thread links after the last sync of the run phase will never be delivered. Discard them so
+    // they don't get put into the queues that hold the untimed events sent during complete().
+    for ( auto* queue : queues ) {
+        for ( auto* activity : queue->getVector() ) {
+            delete activity;
+        }
+        queue->clear();
+    }
+
     for ( auto i = link_map.begin(); i != link_map.end(); ++i ) {
         prepareForCompleteInt(i->second);
     }
-- 
2.43.0


From 13bb9a2f72028dfac32051ecd2417d48982c20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 02/96] fix: keep thread synchronization with
 --interthread-links

ThreadSyncDirectSkip did not report a sync interval, so it was replaced by
an empty sync and threads ran ahead of each other; with a minimum latency
of one core cycle its sync time also never advanced.
---
 src/sst/core/sync/threadSyncDirectSkip.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index d6c5ddb..a7f512a 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -67,14 +67,15 @@ public:
     /** Clear interactive flags before next run */
     void clearFlags() override;
 
-    SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
-
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
     ActivityQueue* registerRemoteLink(int UNUSED(id), Link* UNUSED(link)) override { return nullptr; }
 
     uint64_t getDataSize() const;
 
+    /** Links are not registered with this sync, so the interval comes from the configured link latencies */
+    SimTime_t findSyncInterval() override { return my_max_period; }
+
 private:
     SimTime_t                        my_max_period;
     int                              num_threads;
-- 
2.43.0


From ab7fff742fcfeba6b70656423cd9f5b4d2a87c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 03/96] fix: avoid division by zero in BoundedQueue with no
 capacity

A multi-threaded rank without any cross-rank link initializes the queues
used by RankSyncParallelSkip with a capacity of zero.
---
 src/sst/core/threadsafe.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index db32fcb..b7359ed 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -216,6 +216,7 @@ public:
 
     bool try_insert(const T& arg)
     {
+        if ( 0 == dsize ) return false; // A queue with no capacity is always full
         cell_t* cell = nullptr;
         size_t  pos  = wPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
@@ -240,6 +241,7 @@ public:
 
     bool try_remove(T& res)
     {
+        if ( 0 == dsize ) return false; // A queue with no capacity is always empty
         cell_t* cell = nullptr;
         size_t  pos  = rPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
-- 
2.43.0


From 6ad17506186ff1a1ada21e68e1836fe68a968622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 04/96] fix: do not sort in TimeVortexBinnedMap::front()

front() is called on every thread's queue by every thread during a thread
sync; sorting there raced and corrupted the event bins.
---
 src/sst/core/impl/timevortex/timeVortexBinnedMap.cc |  9 +++++++++
 src/sst/core/impl/timevortex/timeVortexBinnedMap.h  | 10 +++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index 5832321..ccc6e12 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -35,6 +35,15 @@ TimeVortexBinnedMapBase<TS>::TimeUnit::sort()
     sorted = true;
 }
 
+template <bool TS>
+Activity*
+TimeVortexBinnedMapBase<TS>::TimeUnit::front() const
+{
+    if ( 0 == activities.size() ) return nullptr;
+    if ( sorted ) return activities.back();
+    return *std::max_element(activities.begin(), activities.end(), my_less);
+}
+
 
 template <bool TS>
 TimeVortexBinnedMapBase<TS>::TimeVortexBinnedMapBase(Params& UNUSED(params)) :
diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index d3f01de..4ac8798 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -109,13 +109,9 @@ private:
             return ret;
         }
 
-        // front only happens by one thread
-        Activity* front()
-        {
-            if ( 0 == activities.size() ) return nullptr;
-            if ( !sorted ) sort();
-            return activities.back();
-        }
+        // front can happen by multiple threads at a sync (they all
+        // look for the next activity time), so it can't sort
+        Activity* front() const;
 
         void sort();
 
-- 
2.43.0


From ac0da2652385ea97a3322132fd59b5f3beee5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 05/96] fix: always advance the direct thread sync by at least
 one cycle

Keeps the early sync of ThreadSyncDirectSkip, but makes progress when the
minimum interthread latency is a single core cycle.
---
 src/sst/core/sync/threadSyncDirectSkip.cc | 3 ++-
 src/sst/core/sync/threadSyncDirectSkip.h  | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.cc b/src/sst/core/sync/threadSyncDirectSkip.cc
index 8a644e8..589f0ce 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.cc
+++ b/src/sst/core/sync/threadSyncDirectSkip.cc
@@ -60,7 +60,8 @@ void
 ThreadSyncDirectSkip::after()
 {
     // Use this nextSyncTime computation for no skip
-    nextSyncTime = sim->getCurrentSimCycle() + my_max_period;
+    // Since the sync executes one cycle early, a period of one cycle would never advance
+    nextSyncTime = sim->getCurrentSimCycle() + (my_max_period > 1 ? my_max_period : 2);
 
     // Use this nextSyncTime computation for skipping
 
diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index a7f512a..613a6d9 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -67,6 +67,9 @@ public:
     /** Clear interactive flags before next run */
     void clearFlags() override;
 
+    // Sync one cycle early so that no other thread inserts events for the cycle the sync executes in
+    SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
+
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
     ActivityQueue* registerRemoteLink(int UNUSED(id), Link* UNUSED(link)) override { return nullptr; }
-- 
2.43.0


From fd0a04829d143b574cacec2174a42b8675197fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 06/96] fix: tear down simulations with direct interthread
 links one at a time

---
 src/sst/core/main.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index e764f6a..a53c096 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -24,6 +24,7 @@ DISABLE_WARN_DEPRECATED_REGISTER
 #include <cstdint>
 #include <cstdio>
 #include <map>
+#include <mutex>
 #include <string>
 #include <thread>
 #include <utility>
@@ -764,7 +765,16 @@ start_simulation(uint32_t tid, SimThreadInfo_t& info, Core::ThreadSafe::Barrier&
     // Put in info about sync memory usage
     info.sync_data_size = sim->getSyncQueueDataSize();
 
-    delete sim;
+    if ( sim->direct_interthread ) {
+        // With direct interthread links, the two halves of a link belong to different threads and each destructor
+        // accesses the other half, so only one Simulation can be torn down at a time
+        static std::mutex           teardown_mutex;
+        std::lock_guard<std::mutex> lock(teardown_mutex);
+        delete sim;
+    }
+    else {
+        delete sim;
+    }
 }
 
 
-- 
2.43.0


From 53f19ef6332c364d4417edd04534651ca9174804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 07/96] fix: implement TimeVortexBinnedMap::getContents so that
 checkpoints keep pending events

---
 src/sst/core/impl/timevortex/timeVortexBinnedMap.cc | 11 +++++++++++
 src/sst/core/impl/timevortex/timeVortexBinnedMap.h  |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index ccc6e12..6c599ec 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -172,6 +172,17 @@ TimeVortexBinnedMapBase<TS>::print(Output& out) const
     // Still need to figure out a reasonable way to print the state
 }
 
+template <bool TS>
+void
+TimeVortexBinnedMapBase<TS>::getContents(std::vector<Activity*>& activities) const
+{
+    activities = current_time_unit->getActivities();
+    for ( auto& x : map ) {
+        auto& next = x.second->getActivities();
+        activities.insert(activities.end(), next.begin(), next.end());
+    }
+}
+
 
 class TimeVortexBinnedMap : public TimeVortexBinnedMapBase<false>
 {
diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index 4ac8798..cf5b953 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -115,6 +115,8 @@ private:
 
         void sort();
 
+        const std::vector<Activity*>& getActivities() const { return activities; }
+
         inline bool operator<(const TimeUnit& rhs) { return this->sort_time < rhs.sort_time; }
 
         /** To use with STL priority queues, that order in reverse. */
@@ -150,9 +152,7 @@ public:
     uint64_t getCurrentDepth() const override { return current_depth; }
     uint64_t getMaxDepth() const override { return max_depth; }
 
-    // TODO: Implement getContents(). For now, just return an empty
-    // vector.
-    void getContents(std::vector<Activity*>& UNUSED(activities)) const override {}
+    void getContents(std::vector<Activity*>& activities) const override;
 
 private:
     // Should only ever be accessed by the "active" thread.  Not safe
-- 
2.43.0


From 31fb3b2b2358edde2084dd25e9820d92c865e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 08/96] fix: preserve the event order tags of cross-partition
 links across checkpoint and restart

---
 src/sst/core/link.cc       | 10 ++++++++--
 src/sst/core/simulation.cc |  1 -
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index 13189d3..533b95b 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -135,6 +135,9 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         SST_SER(s->type);
         SST_SER(s->mode);
         SST_SER(s->tag);
+        // The order tag for the events this link receives is stored in the pair link.  It is needed on restart if the
+        // link is (or becomes) part of a sync pair.
+        if ( type == SYNC || type == REG ) SST_SER(s->pair_link->tag);
 
         /*
           Store handler for handler links, or store the contents
@@ -317,7 +320,11 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         */
         SST_SER(s->type);
         SST_SER(s->mode);
-        SST_SER(s->tag);
+        uint32_t tag;
+        SST_SER(tag);
+        // If originally part of a sync pair, the order tag for this link is restored by its pair
+        if ( !is_orig_sync ) s->tag = tag;
+        if ( type == SYNC || type == REG ) SST_SER(s->pair_link->tag);
 
         /*
           Get handler for handler links, or restore the contents
@@ -415,7 +422,6 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         if ( is_restart_sync ) {
             s->pair_link->type = Link::SYNC;
             s->pair_link->mode = s->mode;
-            s->pair_link->tag  = s->tag;
 
             s->pair_link->defaultTimeBase = 1;
             s->pair_link->id              = s->getId();
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..c27caa6 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2412,7 +2412,6 @@ Simulation::discoverRemoteLinks()
                 Link* link = link_restart_tracking[local_id];
                 link->type = Link::SYNC;
                 link->mode = link->pair_link->mode;
-                link->tag  = link->pair_link->tag;
 
                 link->defaultTimeBase = 1;
                 link->id              = link->pair_link->getId();
-- 
2.43.0


From 471bc69fb2de7b95228e3be3b0421d93ddc468b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 09/96] fix: do not let idle threads leave early when
 checkpoints are periodic

---
 src/sst/core/simulation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index c27caa6..9d36cd9 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -647,8 +647,12 @@ Simulation::processGraphInfo(ConfigGraph& graph, const RankInfo& UNUSED(myRank),
 
 
     // Determine if this thread is independent.  That means there is
-    // no need to synchronize with any other threads or ranks.
-    if ( min_part == MAX_SIMTIME_T && num_cross_thread_links == 0 ) {
+    // no need to synchronize with any other threads or ranks.  In
+    // parallel runs, a checkpoint period is also a reason to
+    // synchronize.
+    bool periodic_sync =
+        (num_ranks.rank > 1 || num_ranks.thread > 1) && checkpoint_action_->getPeriod().isInitialized();
+    if ( min_part == MAX_SIMTIME_T && num_cross_thread_links == 0 && !periodic_sync ) {
         independent = true;
     }
     else {
-- 
2.43.0


From 8e01533c0f8e9d9a6d5af2205b1812c9dda43ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 10/96] fix: use the checkpoint period for rank syncs when
 there are no cross-rank links

---
 src/sst/core/sync/syncManager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 7613926..ee9d39c 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -394,6 +394,8 @@ SyncManager::setupSyncObjects()
             else {
                 rankSync_ = new RankSyncParallelSkip(num_ranks_);
             }
+            // Without cross rank links, min_part_ is the checkpoint period
+            rankSync_->setMaxPeriod(min_part_);
         }
         else {
             rankSync_ = new EmptyRankSync(num_ranks_);
-- 
2.43.0


From 633ffc18a881ee8c97af0e62bb26e55b534b2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 11/96] fix: keep periodic checkpoints scheduled across thread
 syncs of multi-rank runs

---
 src/sst/core/sync/syncManager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index ee9d39c..6cd209d 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -565,7 +565,7 @@ SyncManager::execute()
     }
     if ( profile_tools_ ) profile_tools_->syncManagerStart(next_sync_type_ == RANK);
 
-    SimTime_t next_checkpoint_time = MAX_SIMTIME_T;
+    SimTime_t next_checkpoint_time = checkpoint_->getNextCheckpointSimTime();
 
     switch ( next_sync_type_ ) {
     case RANK:
-- 
2.43.0


From 7dc50584e30fb210fcc9d1dcf28ab9f2b21b4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 12/96] fix: keep the queue order of pending events of
 different links across a restart

---
 src/sst/core/link.cc       | 19 ++++++++-----------
 src/sst/core/link.h        |  3 +--
 src/sst/core/simulation.cc |  7 +++++++
 src/sst/core/simulation.h  |  1 +
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index 533b95b..78c3bff 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -36,8 +36,7 @@ namespace SST {
 bool Link::is_restart_same_parallelism = false;
 
 void
-SST::Core::Serialization::serialize_impl<Link*>::serialize_events(
-    serializer& ser, uintptr_t delivery_info, ActivityQueue* queue)
+SST::Core::Serialization::serialize_impl<Link*>::serialize_events(serializer& ser, uintptr_t delivery_info)
 {
     if ( ser.mode() == serializer::SIZER || ser.mode() == serializer::PACK ) {
         // Look up all the events for the specified handler
@@ -57,10 +56,10 @@ SST::Core::Serialization::serialize_impl<Link*>::serialize_events(
         for ( size_t i = 0; i < count; ++i ) {
             Event* ev = nullptr;
             SST_SER(ev);
-            // Insert into the specified ActivityQueue after updating
-            // delvery_info
+            // Updating delvery_info. The events are inserted into the TimeVortex after all links have been
+            // restored, so that the original queue order is preserved for events of different links
             Link::updateEventDeliveryInfo(ev, delivery_info);
-            queue->insert(ev);
+            Simulation::getSimulation()->restart_events_.push_back(ev);
         }
     }
 }
@@ -410,12 +409,10 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
           Deserialize the events targetting this link
         */
 
-        // Need to send the events on the pair's send_queue, with
-        // the delivery_info stored there. If this happens to be a
-        // PollingLinkQueue, then nothing will actually get sent
-        // since no events would have been serialized at this
-        // point in Link serialization.
-        serialize_events(ser, s->pair_link->delivery_info, s->pair_link->send_queue);
+        // The events get the delivery_info stored in the pair link.
+        // For polling links, no events would have been serialized at
+        // this point in Link serialization.
+        serialize_events(ser, s->pair_link->delivery_info);
 
         // Need to finish initializing the links if this is now a
         // sync link.
diff --git a/src/sst/core/link.h b/src/sst/core/link.h
index b364537..21589e7 100644
--- a/src/sst/core/link.h
+++ b/src/sst/core/link.h
@@ -45,8 +45,7 @@ class SST::Core::Serialization::serialize_impl<Link*>
 {
     // Function implemented in link.cc
     void operator()(Link*& s, SST::Core::Serialization::serializer& ser, ser_opt_t options);
-    void serialize_events(
-        SST::Core::Serialization::serializer& ser, uintptr_t delivery_info, ActivityQueue* queue = nullptr);
+    void serialize_events(SST::Core::Serialization::serializer& ser, uintptr_t delivery_info);
 
     SST_FRIEND_SERIALIZE();
 };
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 9d36cd9..2086ee0 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2326,6 +2326,13 @@ Simulation::restart(ConfigGraph* graph)
         }
     }
 
+    // All the links have been restored, so the pending events can be inserted in their original order
+    std::stable_sort(restart_events_.begin(), restart_events_.end(),
+        [](const Activity* lhs, const Activity* rhs) { return lhs->getQueueOrder() < rhs->getQueueOrder(); });
+    for ( auto* ev : restart_events_ )
+        timeVortex->insert(ev);
+    restart_events_.clear();
+
     // If we are a parallel job, need to call
     // finalizeLinkConfigurations() in order to finish setting up all
     // the sync data structures. This will also cause the SyncManager to
diff --git a/src/sst/core/simulation.h b/src/sst/core/simulation.h
index 53eaa92..fbdae3a 100644
--- a/src/sst/core/simulation.h
+++ b/src/sst/core/simulation.h
@@ -700,6 +700,7 @@ public:
 
     /******** Checkpoint/restart tracking data structures ***********/
     std::map<LinkId_t, Link*>      link_restart_tracking;
+    std::vector<Activity*>         restart_events_;
     std::map<uintptr_t, uintptr_t> event_handler_restart_tracking;
     uint32_t                       checkpoint_id_       = 0;
     std::string                    checkpoint_prefix_   = "";
-- 
2.43.0


From 2425c891bf33553a876465a15692345c00673f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 13/96] fix: take the sign into account in decimal_fixedpoint
 comparisons and double conversions, and refuse strings out of range

---
 src/sst/core/decimal_fixedpoint.h | 92 +++++++++++++++----------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 4129258..559cf65 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -22,6 +22,7 @@
 #include <limits>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -124,7 +125,7 @@ private:
         // Convert digits to numbers
 
         // Compute the first mult
-        int      start_pos_word = start_of_digits % digits_per_word;
+        int      start_pos_word = start_of_digits > 0 ? start_of_digits % digits_per_word : 0;
         uint32_t mult           = 1;
         for ( int i = 0; i < start_pos_word; i++ ) {
             mult *= 10;
@@ -132,7 +133,13 @@ private:
 
         for ( int i = init.length() - 1; i >= 0; --i ) {
             int digit = start_of_digits + (init.length() - 1 - i);
-            int word  = (digit / digits_per_word);
+            // Digits smaller than the resolution are dropped
+            if ( digit < 0 ) continue;
+            int word = (digit / digits_per_word);
+            if ( word >= whole_words + fraction_words ) {
+                if ( init[i] == '0' ) continue;
+                throw std::out_of_range("decimal_fixedpoint: value is too large: " + init_str);
+            }
 
             data[word] += (SST::Core::from_string<uint32_t>(init.substr(i, 1)) * mult);
             mult *= 10;
@@ -175,7 +182,8 @@ private:
      */
     void from_double(double init)
     {
-        negative = false;
+        negative = init < 0;
+        if ( negative ) init = -init;
 
         for ( int i = 0; i < whole_words + fraction_words; ++i ) {
             data[i] = 0;
@@ -345,7 +353,7 @@ public:
             factor *= storage_radix;
         }
 
-        return ret;
+        return negative ? -ret : ret;
     }
 
     /**
@@ -394,7 +402,7 @@ public:
         uint64_t ret    = 0;
         uint64_t factor = 1;
         for ( int i = 0; i < whole_words; ++i ) {
-            ret += (static_cast<int64_t>(data[i]) * factor);
+            ret += (static_cast<uint64_t>(data[fraction_words + i]) * factor);
             factor *= storage_radix;
         }
         return ret;
@@ -682,7 +690,7 @@ public:
         }
 
         // Signs don't match, so we need to sort
-        if ( operator>=(v) ) {
+        if ( compare_magnitude(v) >= 0 ) {
             // Calculate the result for each digit.  Need to negate the
             // second operand and pass a 1 in as carry-in (carry-over).
             uint64_t carry_over = 1;
@@ -827,40 +835,21 @@ public:
 
        @param v Number to check equality against
      */
-    bool operator==(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator==(const decimal_fixedpoint& v) const { return compare(v) == 0; }
 
     /**
        Checks to see if two numbers are not equal
 
        @param v Number to check equality against
      */
-    bool operator!=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return true;
-        }
-        return false;
-    }
+    bool operator!=(const decimal_fixedpoint& v) const { return compare(v) != 0; }
 
     /**
        Checks to see if this number is greater than another number
 
        @param v Number to compare to
      */
-    bool operator>(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator>(const decimal_fixedpoint& v) const { return compare(v) > 0; }
 
     /**
        Checks to see if this number is greater than or equal to
@@ -868,28 +857,14 @@ public:
 
        @param v Number to compare to
      */
-    bool operator>=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator>=(const decimal_fixedpoint& v) const { return compare(v) >= 0; }
 
     /**
        Checks to see if this number is less than another number
 
        @param v Number to compare to
      */
-    bool operator<(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator<(const decimal_fixedpoint& v) const { return compare(v) < 0; }
 
     /**
        Checks to see if this number is less than or equal to another
@@ -897,13 +872,34 @@ public:
 
        @param v Number to compare to
      */
-    bool operator<=(const decimal_fixedpoint& v) const
+    bool operator<=(const decimal_fixedpoint& v) const { return compare(v) <= 0; }
+
+private:
+    /**
+       Compare the magnitude of two numbers
+
+       @return <0, 0 or >0 if the magnitude of this number is less than, equal to or greater than that of v
+     */
+    int compare_magnitude(const decimal_fixedpoint& v) const
     {
         for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
+            if ( data[i] != v.data[i] ) return data[i] > v.data[i] ? 1 : -1;
         }
-        return true;
+        return 0;
+    }
+
+    /**
+       Compare two numbers, taking the sign into account
+
+       @return <0, 0 or >0 if this number is less than, equal to or greater than v
+     */
+    int compare(const decimal_fixedpoint& v) const
+    {
+        if ( negative != v.negative ) {
+            if ( isZero() && v.isZero() ) return 0;
+            return negative ? -1 : 1;
+        }
+        return negative ? -compare_magnitude(v) : compare_magnitude(v);
     }
 };
 
-- 
2.43.0


From f7a3e2a2ce1e7be7910f119e1ca16dd91fca7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 14/96] fix: UnitAlgebra inequality of different units,
 prefixes in denominators, best SI of negative values and malformed numbers

---
 src/sst/core/model/python/pymodel_unitalgebra.cc |  2 +-
 src/sst/core/unitAlgebra.cc                      | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sst/core/model/python/pymodel_unitalgebra.cc b/src/sst/core/model/python/pymodel_unitalgebra.cc
index 3e93743..8d0687f 100644
--- a/src/sst/core/model/python/pymodel_unitalgebra.cc
+++ b/src/sst/core/model/python/pymodel_unitalgebra.cc
@@ -48,7 +48,7 @@ unitAlgebraInit(UnitAlgebraPy_t* self, PyObject* args, PyObject* UNUSED(kwds))
         try {
             self->obj = SST_ConvertToCppString(vstr);
         }
-        catch ( const UnitAlgebra::InvalidUnitType& e ) {
+        catch ( const UnitAlgebra::UnitAlgebraException& e ) {
             PyErr_SetString(PyExc_ValueError, e.what());
             return -1;
         }
diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index eb73656..48cf918 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -128,7 +128,10 @@ Units::addUnit(const std::string& units, sst_big_num& multiplier, bool invert)
 
     if ( si_length > 0 ) {
         std::string si_unit = units.substr(0, si_length);
-        multiplier *= si_unit_map()[si_unit];
+        if ( !invert )
+            multiplier *= si_unit_map()[si_unit];
+        else
+            multiplier /= si_unit_map()[si_unit];
     }
 
     // Check to see if the unit is valid and get its ID
@@ -336,7 +339,7 @@ UnitAlgebra::init(const std::string& val)
     try {
         value = sst_big_num(number);
     }
-    catch ( const std::runtime_error& e ) {
+    catch ( const std::exception& e ) {
         throw InvalidNumberString(number);
     }
 
@@ -381,8 +384,10 @@ UnitAlgebra::toStringBestSI(int32_t precision) const
         // Divide by the value, if it's between 1 and 1000, we have
         // the most natural SI unit
         if ( it.first.length() == 2 ) continue; // Don't do power of 2 units
-        temp = value / it.second;
-        if ( temp >= 1 && temp < 1000 ) {
+        temp                  = value / it.second;
+        sst_big_num magnitude = temp;
+        if ( magnitude < 0 ) magnitude.negate();
+        if ( magnitude >= 1 && magnitude < 1000 ) {
             found = true;
             si    = it.first;
             break;
@@ -482,7 +487,7 @@ UnitAlgebra::operator==(const UnitAlgebra& v) const
 bool
 UnitAlgebra::operator!=(const UnitAlgebra& v) const
 {
-    if ( unit != v.unit ) return false;
+    if ( unit != v.unit ) return true;
     return value != v.value;
 }
 
-- 
2.43.0


From 9d0c7853633005a63133936023c2a3955c00c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:54 +0000
Subject: [PATCH 15/96] fix: precedence of scoped parameters over shared sets,
 set names are not keys, and recognition of array values

---
 src/sst/core/params.cc | 7 ++++++-
 src/sst/core/params.h  | 5 +----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 1a617ff..99b64e8 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -201,6 +201,8 @@ Params::getKeys() const
     std::set<std::string> ret;
     for ( auto map : data ) {
         for ( auto value : *map ) {
+            // ID 0 holds the name of a shared set, it is not a parameter
+            if ( value.first == 0 ) continue;
             ret.insert(keyMapReverse[value.first]);
         }
     }
@@ -219,7 +221,8 @@ Params::get_scoped_params(const std::string& scope) const
         for ( auto value : *map ) {
             std::string key = keyMapReverse[value.first].substr(0, prefix.length());
             if ( key == prefix ) {
-                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second);
+                // The maps are in order of precedence, highest to lowest, so never overwrite
+                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second, false);
             }
         }
     }
@@ -335,6 +338,8 @@ Params::serialize_order(SST::Core::Serialization::serializer& ser)
             // exists will be ignored.
             for ( auto& map : data ) {
                 for ( auto& kvp : *map ) {
+                    // ID 0 holds the name of a shared set, it is not a parameter
+                    if ( kvp.first == 0 ) continue;
                     tmp_map.insert(std::make_pair(getParamName(kvp.first), kvp.second));
                 }
             }
diff --git a/src/sst/core/params.h b/src/sst/core/params.h
index 4b0970f..fb27ffb 100644
--- a/src/sst/core/params.h
+++ b/src/sst/core/params.h
@@ -783,10 +783,7 @@ public:
         std::string value = getString(k, found);
         if ( !found ) return false;
         // String should start with [ and end with ]
-        if ( (value.find("[") == std::string::npos) || (value.find("]") == std::string::npos) ) {
-            return false;
-        }
-        return true;
+        return value.size() >= 2 && value.front() == '[' && value.back() == ']';
     }
 
     /** Print all key/value parameter pairs to specified ostream */
-- 
2.43.0


From c4bae80bfdfb9e2c23b381b8dcfbd3108473dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 16/96] fix: accumulator maximum of all-negative floating point
 data

numeric_limits<T>::min() is the smallest positive value for floating point
types, so the maximum of negative data was reported as ~0.
---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..087e17e 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -164,7 +164,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From 87b4193645e53398a22f32a396964f20fb20dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 17/96] fix: histogram bins start at minvalue

The bin of a value was computed on a grid anchored at 0, whereas the output
reads the bins anchored at minvalue: with a minvalue that is not a multiple of
binwidth the collected items did not show up in any bin.
---
 src/sst/core/statapi/stathistogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..899fc3f 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -140,9 +140,10 @@ protected:
         // To support signed and unsigned values along with floating point types,
         // the calculation to find the bin_start value must be done in floating point
         // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
+        // Bins are m_binWidth wide and start at m_minValue
+        double      calc1     = ((double)value - (double)m_minValue) / (double)m_binWidth;
         double      calc2     = floor(calc1); // Find the floor of the value
-        double      calc3     = m_binWidth * calc2;
+        double      calc3     = m_binWidth * calc2 + (double)m_minValue;
         BinDataType bin_start = (BinDataType)calc3;
         //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
         //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
-- 
2.43.0


From 1c759341576273bde92c3f91617fbb0d17a15352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 18/96] fix: histogram addDataNTimes counts N binned items

---
 src/sst/core/statapi/stathistogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index 899fc3f..e0355f4 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -134,7 +134,7 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
+        m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
         // To support signed and unsigned values along with floating point types,
-- 
2.43.0


From 10821754734743412eb6a8b019e52c0fe2c9887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 19/96] fix: default statistic groups get their output on
 restart

The loop assigned the output to a copy of each group.
---
 src/sst/core/statapi/statengine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 6858f55..1a3c88e 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -89,7 +89,7 @@ StatisticProcessingEngine::restart()
 {
     simulation_started_ = false;
     if ( stat_default_groups_.empty() ) stat_default_groups_.insert(std::make_pair(0, StatisticGroup()));
-    for ( auto group : stat_default_groups_ ) {
+    for ( auto& group : stat_default_groups_ ) {
         group.second.output = stat_outputs_[0];
     }
     for ( std::vector<StatisticGroup>::iterator it = stat_groups_.begin(); it != stat_groups_.end(); it++ ) {
-- 
2.43.0


From ac27193a062eae26eefb35f6e4b2cd4cfcc48693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 20/96] fix: honour a statistic's OutputAtEndOfSim flag

setFlagOutputAtEndOfSim(false) is documented to suppress the output at the end
of the simulation, but the flag was never consulted.
---
 src/sst/core/statapi/statengine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 1a3c88e..6f4beb9 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -273,7 +273,7 @@ StatisticProcessingEngine::endOfSimulation()
     // Output default group stats
     for ( auto& group : stat_default_groups_ ) {
         for ( StatisticBase* stat : group.second.stats ) {
-            performStatisticOutputImpl(stat, true);
+            if ( stat->getFlagOutputAtEndOfSim() ) performStatisticOutputImpl(stat, true);
         }
     }
 
-- 
2.43.0


From 61ba00e466166d5fad4aa0c9abe5bd4cbb24f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 21/96] fix: accumulator variance is divided by the squared
 count

getVariance() returned n*sum(x^2) - sum(x)^2, which is n^2 times the variance
of the collected values, and getStandardDeviation() its square root.
---
 src/sst/core/statapi/stataccumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 087e17e..82cfee2 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -144,7 +144,7 @@ public:
     NumberBase getVariance()
     {
         uint64_t count = getCount();
-        return (count > 0) ? (m_sum_sq * count) - (m_sum * m_sum) : 0;
+        return (count > 0) ? ((m_sum_sq * count) - (m_sum * m_sum)) / ((NumberBase)count * (NumberBase)count) : 0;
     }
 
     /**
-- 
2.43.0


From 560a6c11d47d4938d3551c9c14205a43e542eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 22/96] fix: top header of the text statistic output

The SimTime and Rank columns were printed to stdout instead of the file, and
every field name was printed with all earlier names in front of it.
---
 src/sst/core/statapi/statoutputtxt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/statapi/statoutputtxt.cc b/src/sst/core/statapi/statoutputtxt.cc
index 28fde8d..59f5fa7 100644
--- a/src/sst/core/statapi/statoutputtxt.cc
+++ b/src/sst/core/statapi/statoutputtxt.cc
@@ -74,13 +74,13 @@ StatisticOutputTextBase::startOfSimulation()
         if ( true == m_outputSimTime ) {
             // Add a Simulation Time Header to the front
             m_outputBuffer = "SimTime";
-            printf("%s; ", m_outputBuffer.c_str());
+            print("%s; ", m_outputBuffer.c_str());
         }
 
         if ( true == m_outputRank ) {
             // Add a Rank Header to the front
             m_outputBuffer = "Rank";
-            printf("%s; ", m_outputBuffer.c_str());
+            print("%s; ", m_outputBuffer.c_str());
         }
 
         // Output all Headers
@@ -88,7 +88,7 @@ StatisticOutputTextBase::startOfSimulation()
 
         while ( it_v != getFieldInfoArray().end() ) {
             statField = *it_v;
-            m_outputBuffer += statField->getStatName();
+            m_outputBuffer = statField->getStatName();
             m_outputBuffer += ".";
             m_outputBuffer += statField->getFieldName();
 
-- 
2.43.0


From 5d977cf46fd377071c69ff219167a7c55d77e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:49 +0000
Subject: [PATCH 23/96] fix: a restart keeps a statistic enabled before its
 start time

A statistic that was explicitly enabled before its startat time was disabled
again by re-registering its start time on restart.
---
 src/sst/core/statapi/statengine.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 6f4beb9..602b6d2 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -239,7 +239,12 @@ StatisticProcessingEngine::reregisterStatisticWithEngine(
         group.addStatistic(stat);
     }
 
-    if ( start_at_time != 0 ) setStatisticStartTime(stat, start_at_time);
+    if ( start_at_time != 0 ) {
+        // Setting the start time disables the statistic; keep the state that was restored from the checkpoint
+        bool enabled = stat->isEnabled();
+        setStatisticStartTime(stat, start_at_time);
+        if ( enabled ) stat->enable();
+    }
     if ( stop_at_time != 0 ) setStatisticStopTime(stat, stop_at_time);
 
     return success;
-- 
2.43.0


From 77fe0624411e3e84bed935aed5df7c3298b8af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:39 +0000
Subject: [PATCH 24/96] fix: statistics whose start or stop time is the time of
 the checkpoint

After a restart the pending start (stop) time was considered passed, so the
statistic never started (stopped) collecting.
---
 src/sst/core/statapi/statengine.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 602b6d2..2e44bee 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -401,8 +401,9 @@ StatisticProcessingEngine::setStatisticStartTime(StatisticBase* stat, SimTime_t
     Simulation*  sim = Simulation::getSimulation();
     StatArray_t* stat_array;
 
-    // Check to see if the time is zero or has already passed, if it is we skip this work
-    if ( factor > sim->getCurrentSimCycle() ) {
+    // Check to see if the time has already passed, if it has we skip this work (times are handled after all events of the
+    // current cycle, so on a restart the current cycle is still to come)
+    if ( factor >= sim->getCurrentSimCycle() ) {
         // See if the map contains an entry for this factor
         if ( start_time_map_.find(factor) == start_time_map_.end() ) {
             sim->one_shot_manager_.registerAbsoluteHandler<StatisticProcessingEngine,
@@ -443,8 +444,9 @@ StatisticProcessingEngine::setStatisticStopTime(StatisticBase* stat, SimTime_t f
     Simulation*  sim = Simulation::getSimulation();
     StatArray_t* stat_array;
 
-    // Check to see if the time is zero or has already passed, if it is we skip this work
-    if ( factor > sim->getCurrentSimCycle() ) {
+    // Check to see if the time has already passed, if it has we skip this work (times are handled after all events of the
+    // current cycle, so on a restart the current cycle is still to come)
+    if ( factor >= sim->getCurrentSimCycle() ) {
         // See if the map contains an entry for this factor
         if ( stop_time_map_.find(factor) == stop_time_map_.end() ) {
             // This tcFactor is not found in the map, so create a new OneShot handler.
-- 
2.43.0


From 7afe09442aca00612929c33dab3690a321e48a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:34 +0000
Subject: [PATCH 25/96] fix: restart waits for all threads before starting the
 statistic outputs

Thread 0 wrote the headers and sized the row buffers of the shared outputs
while other threads were still registering their statistics: missing columns
and writes past the end of the buffers.
---
 src/sst/core/simulation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 2086ee0..9ff6695 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2349,6 +2349,10 @@ Simulation::restart(ConfigGraph* graph)
 
     // Prepare stat engine for restart now that stats are registered
     stat_engine.finalizeInitialization();
+
+    // The outputs are shared by all threads, so all of them need to be done registering their statistics
+    setupBarrier.wait();
+
     if ( my_rank.thread == 0 ) {
         StatisticProcessingEngine::stat_outputs_simulation_start();
     }
-- 
2.43.0


From d86ad80e2be163eacfa88fb34749bfde8b5d5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 26/96] fix: pointer tracking of cycles through pointers to
 containers, adapters, tuples and arrays

---
 src/sst/core/serialization/impl/serialize_adapter.h    | 7 ++++++-
 src/sst/core/serialization/impl/serialize_array.h      | 3 +++
 src/sst/core/serialization/impl/serialize_insertable.h | 7 ++++++-
 src/sst/core/serialization/impl/serialize_tuple.h      | 7 ++++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/serialization/impl/serialize_adapter.h b/src/sst/core/serialization/impl/serialize_adapter.h
index 16c93cb..85c6e47 100644
--- a/src/sst/core/serialization/impl/serialize_adapter.h
+++ b/src/sst/core/serialization/impl/serialize_adapter.h
@@ -19,6 +19,7 @@
 
 #include "sst/core/serialization/serializer.h"
 
+#include <cstdint>
 #include <queue>
 #include <stack>
 #include <type_traits>
@@ -68,7 +69,11 @@ class serialize_impl<T*, std::enable_if_t<is_adapter_v<T>>>
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            // The contents may include pointers back to this object
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
diff --git a/src/sst/core/serialization/impl/serialize_array.h b/src/sst/core/serialization/impl/serialize_array.h
index acf14fb..02c547d 100644
--- a/src/sst/core/serialization/impl/serialize_array.h
+++ b/src/sst/core/serialization/impl/serialize_array.h
@@ -21,6 +21,7 @@
 
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <type_traits>
 
 namespace SST::Core::Serialization {
@@ -151,6 +152,8 @@ struct serialize_impl_fixed_array
                     ary = reinterpret_cast<OBJ_TYPE>(new std::remove_extent_t<T>[std::extent_v<T>]);
                 else
                     ary = reinterpret_cast<OBJ_TYPE>(new T);
+                // The elements may include pointers back to this object
+                ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(ary));
             }
             [[fallthrough]];
 
diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 1f12f50..1375be5 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -20,6 +20,7 @@
 #include "sst/core/serialization/serializer.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <deque>
 #include <forward_list>
 #include <iterator>
@@ -280,7 +281,11 @@ class serialize_impl<OBJ*, std::enable_if_t<is_insertable_v<OBJ>>>
 {
     void operator()(OBJ*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new OBJ;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new OBJ;
+            // The contents may include pointers back to this object
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
 
diff --git a/src/sst/core/serialization/impl/serialize_tuple.h b/src/sst/core/serialization/impl/serialize_tuple.h
index b1f361c..e350551 100644
--- a/src/sst/core/serialization/impl/serialize_tuple.h
+++ b/src/sst/core/serialization/impl/serialize_tuple.h
@@ -19,6 +19,7 @@
 
 #include "sst/core/serialization/serializer.h"
 
+#include <cstdint>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -80,7 +81,11 @@ class serialize_impl<T*,
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            // The contents may include pointers back to this object
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
-- 
2.43.0


From b795365b2e99166b155bc514f284b7a32c63aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:12 +0000
Subject: [PATCH 27/96] fix: clock handlers may activate and deactivate
 handlers of the clock that is calling them

---
 src/sst/core/clock.cc | 133 +++++++++++++++++-------------------------
 src/sst/core/clock.h  |   2 +
 2 files changed, 55 insertions(+), 80 deletions(-)

diff --git a/src/sst/core/clock.cc b/src/sst/core/clock.cc
index 1210fa5..1434d9b 100644
--- a/src/sst/core/clock.cc
+++ b/src/sst/core/clock.cc
@@ -110,44 +110,25 @@ Clock::Group::deactivateHandler(HandlerBase* handler)
 bool
 Clock::Group::execute(Cycle_t current_cycle)
 {
-    int32_t call_index = 0;
-    for ( ; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            handler->toggleActiveState();
-            // Just break here. This will break us into the compacting version of the iteration in the loop below
-            break;
+    int32_t index = 0;
+    while ( index < inactive_start_ ) {
+        HandlerBase* handler = handlers_[index];
+        if ( (*handler)(current_cycle) ) deactivateHandler(handler);
+
+        if ( index < inactive_start_ && handlers_[index] == handler ) {
+            ++index;
+            continue;
         }
-    }
 
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then, then reset inactive_start_ to the appropriate place. This gets rid of the need to constantly delete
-    // individual elements, doing multiple memcpy's of all entries below. This also allows us to update the index for
-    // each handler.
-
-    int32_t copy_index = call_index;
-
-    // Need to increment call_index for the case where we broke out of the upper loop before completing.  If it did
-    // complete, then incrementing it won't hurt anything and the next loop will just be skipped.  It will also be
-    // skipped if the break was on the last entry in the vector
-    for ( ++call_index; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            // Just mark it as inactive and continue on
-            handler->toggleActiveState();
-        }
-        else {
-            // Need to swap this with the handler at copy_index and increment copy_index.  For the swap, the current
-            // handler is active and the one at copy_index is inactive, by construction
-            swapActiveWithInactive(handlers_[call_index], handlers_[copy_index]);
-            ++copy_index;
-        }
+        // The active handlers changed, either because this handler removed itself or because it activated or
+        // deactivated handlers in this group.  The active handlers are always sorted by order_, so continue with the
+        // first one that comes after the handler that was just called.
+        while ( index > 0 && handlers_[index - 1]->order_ > handler->order_ )
+            --index;
+        while ( index < inactive_start_ && handlers_[index]->order_ <= handler->order_ )
+            ++index;
     }
 
-    // inactive_start_ is now at copy_index
-    inactive_start_ = copy_index;
-
     if ( inactive_start_ == 0 ) {
         return true; // No active handlers
     }
@@ -235,14 +216,21 @@ Clock::unregisterHandler(Clock::HandlerBase* handler, bool& empty)
 {
     if ( handler->isActive() ) {
         // Need to get index before marking it as inactive, which sets index to -1
-        int  index = handler->index_;
-        auto iter  = handlers_.begin() + index;
-        iter       = handlers_.erase(iter);
+        int index = handler->index_;
         handler->markAsInactive();
 
-        // Need to update the index for every handler below this one
-        for ( ; iter != handlers_.end(); ++iter ) {
-            (*iter)->index_ = index++;
+        if ( executing_ ) {
+            // execute() is walking the list, so just leave an empty slot that it will remove when it's done
+            handlers_[index] = nullptr;
+            has_empty_slots_ = true;
+        }
+        else {
+            auto iter = handlers_.erase(handlers_.begin() + index);
+
+            // Need to update the index for every handler below this one
+            for ( ; iter != handlers_.end(); ++iter ) {
+                (*iter)->index_ = index++;
+            }
         }
     }
     empty = handlers_.empty();
@@ -321,52 +309,37 @@ Clock::execute()
     // Derive the current cycle from the core time
     current_cycle_++;
 
-    auto sop_iter = handlers_.begin();
-    for ( ; sop_iter != handlers_.end(); ++sop_iter ) {
-        Clock::HandlerBase* handler = *sop_iter;
-
-        if ( (*handler)(current_cycle_) ) {
+    // Handlers can activate and deactivate any handler of this clock, including themselves, while they are being called.
+    // Handlers that get activated are added to the end of the list and first fire in the next cycle.  Handlers that get
+    // deactivated leave an empty slot.
+    executing_             = true;
+    const size_t num_calls = handlers_.size();
+    for ( size_t i = 0; i < num_calls; ++i ) {
+        Clock::HandlerBase* handler = handlers_[i];
+        if ( handler == nullptr ) continue;
+
+        if ( (*handler)(current_cycle_) && handler->isActive() ) {
+            // The handler may have been reactivated, so it's not necessarily at index i
+            handlers_[handler->index_] = nullptr;
+            has_empty_slots_           = true;
             handler->markAsInactive();
-            // Just break here.  The handler has been marked inactive and the pointer will be overwritten or removed at
-            // the end as an empty slot.  This will break us into the compacting version of the iteration in the loop
-            // below
-            break;
         }
     }
-
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then delete any empty spaces at the end. This gets rid of the need to constantly delete individual
-    // elements, doing multiple memcpy's of all entries below. This also allows us to update the index for each handler.
-    if ( sop_iter != handlers_.end() ) {
-        // sop_iter becomes the location to copy to and we will start one past this calling the handler.  Then, we will
-        // copy the handler to the copy_iter and update its index.
-        auto   copy_iter = sop_iter; // Rename for clarity
-        size_t index     = copy_iter - handlers_.begin();
-
-        for ( auto call_iter = sop_iter + 1; call_iter != handlers_.end(); ++call_iter ) {
-            Clock::HandlerBase* handler = *call_iter;
-
-            if ( (*handler)(current_cycle_) ) {
-                // just mark as inactive.  The pointer will either get overwritten, or removed at the end as an empty
-                // slot
-                handler->markAsInactive();
-            }
-            else {
-                // Still active.  Need to copy up to copy_iter location and update the index
-                handler->index_ = index++;
-                *copy_iter      = *call_iter;
-
-                // Advance the copy location
-                ++copy_iter;
-            }
+    executing_ = false;
+
+    // Remove all the empty slots at once and update the index of the handlers that move. This gets rid of the need to
+    // constantly delete individual elements, doing multiple memcpy's of all entries below.
+    if ( has_empty_slots_ ) {
+        size_t index = 0;
+        for ( auto* handler : handlers_ ) {
+            if ( handler == nullptr ) continue;
+            handler->index_    = index;
+            handlers_[index++] = handler;
         }
-
-        // Need to remove any empty locations in the vector
-        handlers_.erase(copy_iter, handlers_.end());
+        handlers_.resize(index);
+        has_empty_slots_ = false;
     }
 
-
     // Now we need to go through all the active groups.  This loop is a bit weird because each iteration through the
     // loop can do one of too things to the control variables:
 
diff --git a/src/sst/core/clock.h b/src/sst/core/clock.h
index eb255c4..a20003c 100644
--- a/src/sst/core/clock.h
+++ b/src/sst/core/clock.h
@@ -362,6 +362,8 @@ private:
     std::vector<HandlerBase*> handlers_;
     std::vector<Group*>       groups_;
     int32_t                   groups_inactive_start_ = 0;
+    bool                      executing_             = false; // handlers_ is being walked by execute()
+    bool                      has_empty_slots_       = false; // handlers were deactivated while executing
 
     Cycle_t       current_cycle_ = 0;
     TimeConverter period_;
-- 
2.43.0


From 1a6386973c101ac727be57bda293655dfab2cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 28/96] fix: Component.setCoordinates accepts lists and tuples
 and uses each of their values

---
 src/sst/core/model/python/pymodel_comp.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/model/python/pymodel_comp.cc b/src/sst/core/model/python/pymodel_comp.cc
index cbe3adf..04c3742 100644
--- a/src/sst/core/model/python/pymodel_comp.cc
+++ b/src/sst/core/model/python/pymodel_comp.cc
@@ -382,17 +382,18 @@ compSetCoords(PyObject* self, PyObject* args)
     std::vector<double> coords(3, 0.0);
     if ( !PyArg_ParseTuple(args, "d|dd", &coords[0], &coords[1], &coords[2]) ) {
         PyObject* list = nullptr;
+        PyErr_Clear();
         if ( PyArg_ParseTuple(args, "O!", &PyList_Type, &list) && PyList_Size(list) > 0 ) {
             coords.clear();
             for ( Py_ssize_t i = 0; i < PyList_Size(list); i++ ) {
-                coords.push_back(PyFloat_AsDouble(PyList_GetItem(list, 0)));
+                coords.push_back(PyFloat_AsDouble(PyList_GetItem(list, i)));
                 if ( PyErr_Occurred() ) goto error;
             }
         }
-        else if ( PyArg_ParseTuple(args, "O!", &PyTuple_Type, &list) && PyTuple_Size(list) > 0 ) {
+        else if ( PyErr_Clear(), PyArg_ParseTuple(args, "O!", &PyTuple_Type, &list) && PyTuple_Size(list) > 0 ) {
             coords.clear();
             for ( Py_ssize_t i = 0; i < PyTuple_Size(list); i++ ) {
-                coords.push_back(PyFloat_AsDouble(PyTuple_GetItem(list, 0)));
+                coords.push_back(PyFloat_AsDouble(PyTuple_GetItem(list, i)));
                 if ( PyErr_Occurred() ) goto error;
             }
         }
-- 
2.43.0


From 6083e8ea37754dd581fd9ee9faf8b0218e05ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 29/96] fix: comparison of component, statistic and port module
 objects in Python configurations

---
 src/sst/core/model/python/pymodel_comp.cc       | 14 ++++++++------
 src/sst/core/model/python/pymodel_portmodule.cc | 13 +++++++------
 src/sst/core/model/python/pymodel_stat.cc       | 13 +++++++------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/sst/core/model/python/pymodel_comp.cc b/src/sst/core/model/python/pymodel_comp.cc
index 04c3742..16570dc 100644
--- a/src/sst/core/model/python/pymodel_comp.cc
+++ b/src/sst/core/model/python/pymodel_comp.cc
@@ -269,24 +269,26 @@ compCompare(PyObject* obj0, PyObject* obj1, int op)
 {
     PyObject* result;
     bool      cmp = false;
+    if ( !(PyObject_TypeCheck(obj1, &PyModel_ComponentType) || PyObject_TypeCheck(obj1, &PyModel_SubComponentType)) )
+        Py_RETURN_NOTIMPLEMENTED;
     switch ( op ) {
     case Py_LT:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) == -1;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) == -1;
         break;
     case Py_LE:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) != 1;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) != 1;
         break;
     case Py_EQ:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) == 0;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) == 0;
         break;
     case Py_NE:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) != 0;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) != 0;
         break;
     case Py_GT:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) == 1;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) == 1;
         break;
     case Py_GE:
-        cmp = ((ComponentHolder*)obj0)->compare(((ComponentPy_t*)obj1)->obj) != -1;
+        cmp = ((ComponentPy_t*)obj0)->obj->compare(((ComponentPy_t*)obj1)->obj) != -1;
         break;
     }
     result = cmp ? Py_True : Py_False;
diff --git a/src/sst/core/model/python/pymodel_portmodule.cc b/src/sst/core/model/python/pymodel_portmodule.cc
index a4254d6..1830206 100644
--- a/src/sst/core/model/python/pymodel_portmodule.cc
+++ b/src/sst/core/model/python/pymodel_portmodule.cc
@@ -129,24 +129,25 @@ portModCompare(PyObject* obj0, PyObject* obj1, int op)
 {
     PyObject* result;
     bool      cmp = false;
+    if ( !PyObject_TypeCheck(obj1, &PyModel_PortModuleType) ) Py_RETURN_NOTIMPLEMENTED;
     switch ( op ) {
     case Py_LT:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) == -1;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) == -1;
         break;
     case Py_LE:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) != 1;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) != 1;
         break;
     case Py_EQ:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) == 0;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) == 0;
         break;
     case Py_NE:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) != 0;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) != 0;
         break;
     case Py_GT:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) == 1;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) == 1;
         break;
     case Py_GE:
-        cmp = ((PyPortModule*)obj0)->compare(((PortModulePy_t*)obj1)->obj) != -1;
+        cmp = ((PortModulePy_t*)obj0)->obj->compare(((PortModulePy_t*)obj1)->obj) != -1;
         break;
     }
     result = cmp ? Py_True : Py_False;
diff --git a/src/sst/core/model/python/pymodel_stat.cc b/src/sst/core/model/python/pymodel_stat.cc
index 1da3459..ffd09b4 100644
--- a/src/sst/core/model/python/pymodel_stat.cc
+++ b/src/sst/core/model/python/pymodel_stat.cc
@@ -132,24 +132,25 @@ statCompare(PyObject* obj0, PyObject* obj1, int op)
 {
     PyObject* result;
     bool      cmp = false;
+    if ( !PyObject_TypeCheck(obj1, &PyModel_StatType) ) Py_RETURN_NOTIMPLEMENTED;
     switch ( op ) {
     case Py_LT:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) == -1;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) == -1;
         break;
     case Py_LE:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) != 1;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) != 1;
         break;
     case Py_EQ:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) == 0;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) == 0;
         break;
     case Py_NE:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) != 0;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) != 0;
         break;
     case Py_GT:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) == 1;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) == 1;
         break;
     case Py_GE:
-        cmp = ((PyStatistic*)obj0)->compare(((StatisticPy_t*)obj1)->obj) != -1;
+        cmp = ((StatisticPy_t*)obj0)->obj->compare(((StatisticPy_t*)obj1)->obj) != -1;
         break;
     }
     result = cmp ? Py_True : Py_False;
-- 
2.43.0


From 78abed74ae8d6b30a5c7959ac7e9bafd9024cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 30/96] fix: index of a port module added to a port

---
 src/sst/core/model/configComponent.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/model/configComponent.cc b/src/sst/core/model/configComponent.cc
index e891d8f..4ee9e04 100644
--- a/src/sst/core/model/configComponent.cc
+++ b/src/sst/core/model/configComponent.cc
@@ -539,8 +539,9 @@ ConfigComponent::findStatistic(StatisticId_t sid) const
 size_t
 ConfigComponent::addPortModule(const std::string& port, const std::string& type, const Params& params)
 {
-    port_modules[port].emplace_back(type, params);
-    return port_modules.size() - 1;
+    auto& modules = port_modules[port];
+    modules.emplace_back(type, params);
+    return modules.size() - 1;
 }
 
 std::vector<LinkId_t>
-- 
2.43.0


From ce07e6f2aabde7066a692254021c1b0e9e5ca135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 31/96] fix: parameters of statistics enabled on port modules

---
 src/sst/core/model/python/pymodel_portmodule.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/model/python/pymodel_portmodule.cc b/src/sst/core/model/python/pymodel_portmodule.cc
index 1830206..d03a3b8 100644
--- a/src/sst/core/model/python/pymodel_portmodule.cc
+++ b/src/sst/core/model/python/pymodel_portmodule.cc
@@ -193,7 +193,7 @@ portModEnableAllStatistics(PyObject* self, PyObject* args)
     PyErr_Clear();
 
     // Parse the Python Args and get optional Stat Params (as a Dictionary)
-    argOK = PyArg_ParseTuple(args, "|O", &PyDict_Type, &stat_param_dict);
+    argOK = PyArg_ParseTuple(args, "|O!", &PyDict_Type, &stat_param_dict);
 
     if ( argOK ) {
         SST::ConfigPortModule* pm = getPortModule(self);
@@ -225,14 +225,14 @@ portModEnableStatistics(PyObject* self, PyObject* args)
     PyErr_Clear();
 
     // Can either have a single string, or a list of strings.  Try single string first
-    arg_ok = PyArg_ParseTuple(args, "s|O", &stat_str, &PyDict_Type, &stat_param_dict);
+    arg_ok = PyArg_ParseTuple(args, "s|O!", &stat_str, &PyDict_Type, &stat_param_dict);
     if ( arg_ok ) {
         stat_list = PyList_New(1);
         PyList_SetItem(stat_list, 0, SST_ConvertToPythonString(stat_str));
     }
     else { // Try list version
         PyErr_Clear();
-        arg_ok = PyArg_ParseTuple(args, "O!|O", &PyList_Type, &stat_list, &PyDict_Type, &stat_param_dict);
+        arg_ok = PyArg_ParseTuple(args, "O!|O!", &PyList_Type, &stat_list, &PyDict_Type, &stat_param_dict);
         if ( arg_ok ) Py_INCREF(stat_list);
     }
 
-- 
2.43.0


From aca0ad09b2c34f209545c6d2d207df4f6dac62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 32/96] fix: enabling a statistic of a subcomponent again
 reaches its parameters

---
 src/sst/core/model/configComponent.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/model/configComponent.cc b/src/sst/core/model/configComponent.cc
index 4ee9e04..5033484 100644
--- a/src/sst/core/model/configComponent.cc
+++ b/src/sst/core/model/configComponent.cc
@@ -325,10 +325,10 @@ ConfigComponent::enableStatistic(const std::string& statisticName, const SST::Pa
         }
     }
 
-    ConfigStatistic& cs = statistics_[stat_id];
-    cs.id               = stat_id;
-    cs.params.insert(params);
-    return &cs;
+    ConfigStatistic* cs = insertStatistic(stat_id);
+    cs->id              = stat_id;
+    cs->params.insert(params);
+    return cs;
 }
 
 bool
-- 
2.43.0


From 10d923fed19e96230fe985b09502b340943d20b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 33/96] fix: latencies and frequencies are written to
 configuration files with all their digits

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc   | 2 +-
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 2 +-
 src/sst/core/model/configLink.cc                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 27a3d1b..98c421c 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -324,7 +324,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
             sgRecord["name"] = grp.second.name;
 
             if ( grp.second.outputFrequency.getValue() != 0 ) {
-                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI();
+                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI(0);
             }
 
             // output
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 61603ac..7ada229 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -328,7 +328,7 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
 
     fprintf(outputFile, "%s = sst.StatisticGroup(\"%s\")\n", pyGroupName, esGroupName);
     if ( grp.outputFrequency.getValue() != 0 ) {
-        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName, grp.outputFrequency.toStringBestSI().c_str());
+        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName, grp.outputFrequency.toStringBestSI(0).c_str());
     }
     if ( grp.outputID != 0 ) {
         const ConfigStatOutput& out = graph->getStatOutput(grp.outputID);
diff --git a/src/sst/core/model/configLink.cc b/src/sst/core/model/configLink.cc
index 4724ba7..7cc3191 100644
--- a/src/sst/core/model/configLink.cc
+++ b/src/sst/core/model/configLink.cc
@@ -66,7 +66,7 @@ ConfigLink::latency_str(uint32_t index) const
     static TimeLord* timelord = Simulation::getTimeLord();
     UnitAlgebra      tb       = timelord->getTimeBase();
     auto             tmp      = tb * latency_[index];
-    return tmp.toStringBestSI();
+    return tmp.toStringBestSI(0); // 0: all digits
 }
 
 void
-- 
2.43.0


From e2375d660ee33b77e19f7b356ae41d28001527df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 34/96] fix: JSON configurations keep the parameters of 'enable
 all statistics'

---
 .../core/model/cfgoutput/jsonConfigOutput.cc   | 18 ++++++++++++++++++
 src/sst/core/model/json/jsonmodel.cc           |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 98c421c..bb21f28 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -104,6 +104,10 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
             // statistics options
             if ( comp_itr->enabledAllStats ) {
                 comp_record["statistics_options"]["enable_all_statistics"] = true;
+                for ( auto const& param_itr : comp_itr->allStatConfig.params.getKeys() ) {
+                    comp_record["statistics_options"]["params"][param_itr] =
+                        comp_itr->allStatConfig.params.find<std::string>(param_itr);
+                }
             }
             if ( comp_itr->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
                 comp_record["statistics_options"]["statistic_load_level"] = comp_itr->statLoadLevel;
@@ -174,6 +178,11 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
                             pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                             pm_record["statistics_options"]["enable_all_statistics"] = true;
                         }
+                        for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                            pm_record["statistics_options"]["enable_all_statistics"] = true;
+                            pm_record["statistics_options"]["params"][param] =
+                                port_vec_itr.all_stat_config.find<std::string>(param);
+                        }
                         for ( auto const& param : port_vec_itr.params.getKeys() ) {
                             pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                         }
@@ -220,6 +229,10 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
     // general statistics options
     if ( sub->enabledAllStats ) {
         record["statistics_options"]["enable_all_statistics"] = sub->enabledAllStats;
+        for ( auto const& param_itr : sub->allStatConfig.params.getKeys() ) {
+            record["statistics_options"]["params"][param_itr] =
+                sub->allStatConfig.params.find<std::string>(param_itr);
+        }
     }
     if ( sub->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
         record["statistics_options"]["statistic_load_level"] = sub->statLoadLevel;
@@ -284,6 +297,11 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
                     pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                     pm_record["statistics_options"]["enable_all_statistics"] = true;
                 }
+                for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                    pm_record["statistics_options"]["enable_all_statistics"] = true;
+                    pm_record["statistics_options"]["params"][param] =
+                        port_vec_itr.all_stat_config.find<std::string>(param);
+                }
                 for ( auto const& param : port_vec_itr.params.getKeys() ) {
                     pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                 }
diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index e993001..3c40ea5 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -673,6 +673,9 @@ SSTConfigSaxHandler::end_object()
     case State::Comp_Stat_Params:
     case State::SubComp_Stat_Params:
     case State::PortMod_Stat_Params:
+    case State::Comp_StatOptions_Params:
+    case State::SubComp_StatOptions_Params:
+    case State::PortMod_StatOptions_Params:
     case State::Link_Left:
     case State::Link_Right:
         break;
-- 
2.43.0


From db2dc67e26033f0be18b5c86dadbed43e13cdce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 35/96] fix: JSON configurations keep the statistics without
 parameters of a statistic group

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index bb21f28..1611ea4 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -359,14 +359,12 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
 
             auto statsArray = nlohmann::ordered_json::array();
             for ( auto& i : grp.second.statMap ) {
-                if ( !i.second.empty() ) {
-                    auto statRecord    = nlohmann::ordered_json::object();
-                    statRecord["name"] = i.first;
-                    for ( auto const& param : i.second.getKeys() ) {
-                        statRecord["params"][param] = i.second.find<std::string>(param);
-                    }
-                    statsArray.push_back(statRecord);
+                auto statRecord    = nlohmann::ordered_json::object();
+                statRecord["name"] = i.first;
+                for ( auto const& param : i.second.getKeys() ) {
+                    statRecord["params"][param] = i.second.find<std::string>(param);
                 }
+                statsArray.push_back(statRecord);
             }
             sgRecord["statistics"] = statsArray;
 
@@ -374,7 +372,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
                 auto compArray = nlohmann::ordered_json::array();
                 for ( SST::ComponentId_t id : grp.second.components ) {
                     const SST::ConfigComponent* comp = graph->findComponent(id);
-                    compArray.push_back(comp->name);
+                    compArray.push_back(comp->getFullName());
                 }
                 sgRecord["components"] = compArray;
             }
-- 
2.43.0


From 3e9a0fc598932856b94f5ef7e702d63c05c2a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 36/96] fix: JSON parameters of a group statistic do not leak
 into the next statistic

---
 src/sst/core/model/json/jsonmodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index 3c40ea5..6c0b317 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -591,7 +591,6 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::StatOptions_Params_key:         // Parse params -> StatOptions_Params
     case State::StatGroup_Output_key:           // Parse output config -> StatGroup_Output
     case State::StatGroup_Output_Params_key:    // Parse params -> StatGroup_Output_Params
-    case State::StatGroup_StatArray:            // Parse statistic -> StatGroup_Stat
     case State::StatGroup_Stat_Params_key:      // Parse params -> STATGRP_OBJ_STATOPT_PARAMS
     case State::Comp_StatOptions_Params_key:    // Parse params
     case State::Comp_Stat_Params_key:           // Parse params
@@ -621,6 +620,7 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::SubComp_StatArray: // Parse statstic object
     case State::PortMod_StatArray:
     case State::PortMod_StatOptions_key: // Parse statistic options (params)
+    case State::StatGroup_StatArray:     // Parse statistic -> StatGroup_Stat
         shadow_statistic_.reset();
         break;
     // These component/subcomponent sections require that the component/subcomponent be constructed
-- 
2.43.0


From d7441d810bce3a9124cf5edcfb926647d062d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 37/96] fix: shared parameter sets of port modules in JSON
 configurations

---
 src/sst/core/model/json/jsonmodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index 6c0b317..70f4974 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -425,7 +425,7 @@ SSTConfigSaxHandler::string(std::string& val)
         shadow_component_stack_.back().comp->addSharedParamSet(val);
         break;
     case State::PortMod_SharedParamsArray:
-        shadow_port_module_.shared_param_sets.push_back(val);
+        shadow_port_module_.pm->addSharedParamSet(val);
         break;
     case State::Comp_Stat:
     case State::SubComp_Stat:
-- 
2.43.0


From 511cb54ec2a65dd67cfb04813f106c5324c84095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 38/96] fix: strings in written Python configurations are
 escaped completely

---
 .../model/cfgoutput/pythonConfigOutput.cc     | 34 +++++++++++++++----
 .../core/model/cfgoutput/pythonConfigOutput.h |  2 ++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 7ada229..a26941c 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -67,7 +67,7 @@ PythonConfigGraphOutput::getLinkObject(LinkId_t id, const std::string& name, boo
 {
     if ( link_map_.find(id) == link_map_.end() ) {
         char* pyLinkName = makePythonSafeWithPrefix(name.c_str(), "link_");
-        fprintf(outputFile, "%s = sst.Link(\"%s\")\n", pyLinkName, name.c_str());
+        fprintf(outputFile, "%s = sst.Link(\"%s\")\n", pyLinkName, escape(name).c_str());
         if ( no_cut ) fprintf(outputFile, "%s.setNoCut()\n", pyLinkName);
         link_map_[id] = pyLinkName;
     }
@@ -166,7 +166,7 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
         fprintf(outputFile, ")\n");
         // Add shared param sets
         for ( auto x : getSubscribedSharedParamSets(comp->params) ) {
-            fprintf(outputFile, "%s.addSharedParamSet(\"%s\")\n", objName, x.c_str());
+            fprintf(outputFile, "%s.addSharedParamSet(\"%s\")\n", objName, escape(x).c_str());
         }
     }
 
@@ -341,7 +341,7 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
     }
 
     for ( auto& i : grp.statMap ) {
-        fprintf(outputFile, "%s.addStatistic(\"%s\"", pyGroupName, i.first.c_str());
+        fprintf(outputFile, "%s.addStatistic(\"%s\"", pyGroupName, escape(i.first).c_str());
         if ( !i.second.empty() ) {
             fprintf(outputFile, ", ");
             generateParams(i.second);
@@ -395,7 +395,8 @@ PythonConfigGraphOutput::generate(const Config* cfg, ConfigGraph* graph)
     fprintf(outputFile, "sst.setProgramOption(\"timeVortex\", \"%s\")\n", cfg->timeVortex().c_str());
     fprintf(outputFile, "sst.setProgramOption(\"interthread-links\", \"%s\")\n",
         cfg->interthread_links() ? "true" : "false");
-    fprintf(outputFile, "sst.setProgramOption(\"output-prefix-core\", \"%s\")\n", cfg->output_core_prefix().c_str());
+    fprintf(outputFile, "sst.setProgramOption(\"output-prefix-core\", \"%s\")\n",
+        escape(cfg->output_core_prefix()).c_str());
 
     fprintf(
         outputFile, "sst.setProgramOption(\"checkpoint-sim-period\", \"%s\")\n", cfg->checkpoint_sim_period().c_str());
@@ -406,12 +407,12 @@ PythonConfigGraphOutput::generate(const Config* cfg, ConfigGraph* graph)
     fprintf(outputFile, "# Define the shared parameter sets:\n");
     std::vector<std::string> shared_param_sets = getSharedParamSetNames();
     for ( auto& x : shared_param_sets ) {
-        fprintf(outputFile, "sst.addSharedParams(\"%s\", {\n", x.c_str());
+        fprintf(outputFile, "sst.addSharedParams(\"%s\", {\n", escape(x).c_str());
         for ( auto y : getSharedParamSet(x) ) {
             // If the key is <set_name>, then we can skip since it's
             // just metadata
             if ( y.first != "<set_name>" )
-                fprintf(outputFile, "    \"%s\" : \"%s\",\n", y.first.c_str(), y.second.c_str());
+                fprintf(outputFile, "    \"%s\" : \"%s\",\n", escape(y.first).c_str(), escape(y.second).c_str());
         }
         fprintf(outputFile, "})\n");
     }
@@ -589,6 +590,15 @@ PythonConfigGraphOutput::strncmp(const char* a, const char* b, const size_t n) c
     return matched;
 };
 
+std::string
+PythonConfigGraphOutput::escape(const std::string& input) const
+{
+    char*       buffer = makeEscapeSafe(input);
+    std::string result(buffer);
+    free(buffer);
+    return result;
+}
+
 char*
 PythonConfigGraphOutput::makeEscapeSafe(const std::string& input) const
 {
@@ -600,6 +610,9 @@ PythonConfigGraphOutput::makeEscapeSafe(const std::string& input) const
         const char nextChar = input.at(i);
 
         switch ( nextChar ) {
+        case '\\':
+            escapedInput = escapedInput + "\\\\";
+            break;
         case '\"':
             escapedInput = escapedInput + "\\\"";
             break;
@@ -610,7 +623,14 @@ PythonConfigGraphOutput::makeEscapeSafe(const std::string& input) const
             escapedInput = escapedInput + "\\n";
             break;
         default:
-            escapedInput.push_back(nextChar);
+            if ( static_cast<unsigned char>(nextChar) < 0x20 || nextChar == 0x7f ) {
+                char code[5];
+                snprintf(code, sizeof(code), "\\x%02x", static_cast<unsigned char>(nextChar));
+                escapedInput = escapedInput + code;
+            }
+            else {
+                escapedInput.push_back(nextChar);
+            }
         }
     }
 
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.h b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
index d0bae3c..64c4dfa 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.h
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
@@ -46,6 +46,8 @@ protected:
     char* makePythonSafeWithPrefix(const std::string& name, const std::string& prefix) const;
     void  makeBufferPythonSafe(char* buffer) const;
     char* makeEscapeSafe(const std::string& input) const;
+
+    std::string escape(const std::string& input) const;
     bool  strncmp(const char* a, const char* b, const size_t n) const;
     bool  isMultiLine(const char* check) const;
     bool  isMultiLine(const std::string& check) const;
-- 
2.43.0


From 9c5dc2ac0ffdedb9b4bd7e5a483eb92a08888687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 39/96] fix: written Python configurations use a distinct
 variable for every element

---
 .../model/cfgoutput/pythonConfigOutput.cc     | 184 ++++++------------
 .../core/model/cfgoutput/pythonConfigOutput.h |   8 +-
 2 files changed, 62 insertions(+), 130 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index a26941c..3c3228c 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -19,6 +19,7 @@
 #include "sst/core/timeConverter.h"
 #include "sst/core/timeLord.h"
 
+#include <cctype>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdio>
@@ -66,54 +67,43 @@ const std::string&
 PythonConfigGraphOutput::getLinkObject(LinkId_t id, const std::string& name, bool no_cut)
 {
     if ( link_map_.find(id) == link_map_.end() ) {
-        char* pyLinkName = makePythonSafeWithPrefix(name.c_str(), "link_");
-        fprintf(outputFile, "%s = sst.Link(\"%s\")\n", pyLinkName, escape(name).c_str());
-        if ( no_cut ) fprintf(outputFile, "%s.setNoCut()\n", pyLinkName);
+        std::string pyLinkName = uniqueName(makePythonSafeWithPrefix(name.c_str(), "link_"));
+        fprintf(outputFile, "%s = sst.Link(\"%s\")\n", pyLinkName.c_str(), escape(name).c_str());
+        if ( no_cut ) fprintf(outputFile, "%s.setNoCut()\n", pyLinkName.c_str());
         link_map_[id] = pyLinkName;
     }
     return link_map_[id];
 }
 
-char*
-PythonConfigGraphOutput::generateCompName(const ConfigComponent* comp)
+const std::string&
+PythonConfigGraphOutput::getCompName(const ConfigComponent* comp)
 {
-    char* buffer = nullptr;
-
-    if ( auto firstParent = comp->getParent() ) {
-        if ( auto secondParent = firstParent->getParent() ) {
-            char* p1 = makePythonSafeWithPrefix(secondParent->name.c_str(), "comp_");
-            char* p2 = makePythonSafeWithPrefix(firstParent->name.c_str(), "_subcomp_");
-            char* p3 = makePythonSafeWithPrefix(comp->name.c_str(), "_subcomp_");
-
-            size_t slen = strlen(p1) + strlen(p2) + strlen(p3) + 3;
-            buffer      = (char*)calloc(1, slen);
-
-            snprintf(buffer, slen, "%s%s%d%s%d", p1, p2, firstParent->slot_num, p3, comp->slot_num);
+    auto it = comp_map_.find(comp->id);
+    if ( it != comp_map_.end() ) return it->second;
 
-            free(p1);
-            free(p2);
-            free(p3);
-        }
-        else {
-            char*  owner    = makePythonSafeWithPrefix(firstParent->name.c_str(), "comp_");
-            size_t slen     = strlen(owner) + strlen("_subcomp_") + 1;
-            char*  combName = (char*)calloc(1, slen);
-            snprintf(combName, slen, "%s%s", owner, "_subcomp_");
-            char*  tmpName = makePythonSafeWithPrefix(comp->name.c_str(), combName);
-            size_t flen    = strlen(tmpName) + 2;
-            buffer         = (char*)calloc(1, flen);
-            snprintf(buffer, flen, "%s%d", tmpName, comp->slot_num);
-
-            free(combName);
-            free(owner);
-            free(tmpName);
-        }
+    std::string name;
+    if ( auto* parent = comp->getParent() ) {
+        name = uniqueName(makePythonSafeWithPrefix(comp->name, getCompName(parent) + "_subcomp_"), comp->slot_num);
     }
     else {
-        buffer = makePythonSafeWithPrefix(comp->name.c_str(), "comp_");
+        name = uniqueName(makePythonSafeWithPrefix(comp->name, "comp_"));
     }
+    return comp_map_[comp->id] = name;
+}
 
-    return buffer;
+std::string
+PythonConfigGraphOutput::uniqueName(char* buffer, int slot_num)
+{
+    // Different names can map to the same python identifier
+    std::string name(buffer);
+    free(buffer);
+    if ( slot_num >= 0 ) name += std::to_string(slot_num);
+
+    std::string unique = name;
+    for ( int i = 2; !used_names_.insert(unique).second; ++i ) {
+        unique = name + "_" + std::to_string(i);
+    }
+    return unique;
 }
 
 void
@@ -127,18 +117,15 @@ PythonConfigGraphOutput::generateCommonLink(const char* objName, const ConfigCom
             int   srcIdx     = 0;
             int   destIdx    = 1;
             char* esPortName = makeEscapeSafe(link->port_[srcIdx].c_str());
-            char* destName   = nullptr;
 
             const std::string& linkName = getLinkObject(linkID, link->name_, link->no_cut_);
 
             if ( !link->nonlocal_ ) {
                 char* edPortName = makeEscapeSafe(link->port_[destIdx].c_str());
                 auto  destComp   = getGraph()->findComponent(link->component_[1]);
-                destName         = generateCompName(destComp);
-
 
                 fprintf(outputFile, "%s.connect((%s, \"%s\", \"%s\"),(%s, \"%s\", \"%s\"))\n", linkName.c_str(),
-                    objName, esPortName, link->latency_str(srcIdx).c_str(), destName, edPortName,
+                    objName, esPortName, link->latency_str(srcIdx).c_str(), getCompName(destComp).c_str(), edPortName,
                     link->latency_str(destIdx).c_str());
                 fprintf(outputFile, "\n");
 
@@ -151,7 +138,6 @@ PythonConfigGraphOutput::generateCommonLink(const char* objName, const ConfigCom
                     esPortName, link->latency_str(srcIdx).c_str(), rank, thread);
             }
             free(esPortName);
-            free(destName);
         }
     }
 }
@@ -185,10 +171,10 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
         if ( si->shared ) {
             if ( shared_stat_map_.find(si->id) == shared_stat_map_.end() ) {
                 std::string prefix        = "statObj" + std::to_string(shared_stat_map_.size()) + "_";
-                char*       pyStatObjName = makePythonSafeWithPrefix(si->name, prefix);
+                std::string pyStatObjName = uniqueName(makePythonSafeWithPrefix(si->name, prefix));
                 char*       esStatObjName = makeEscapeSafe(si->name.c_str());
 
-                fprintf(outputFile, "%s = %s.createStatistic(\"%s\"", pyStatObjName, py_parent_name_.c_str(),
+                fprintf(outputFile, "%s = %s.createStatistic(\"%s\"", pyStatObjName.c_str(), py_parent_name_.c_str(),
                     esStatObjName);
 
                 // Output the Statistic Parameters
@@ -198,8 +184,7 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
                 }
                 fprintf(outputFile, ")\n");
 
-                shared_stat_map_[si->id].assign(pyStatObjName, strlen(pyStatObjName));
-                free(pyStatObjName);
+                shared_stat_map_[si->id] = pyStatObjName;
                 free(esStatObjName);
             }
             std::string pyStatObjName = shared_stat_map_.find(si->id)->second;
@@ -242,97 +227,56 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
 }
 
 void
-PythonConfigGraphOutput::generateSubComponentLinks(const char* owner, const ConfigComponent* comp)
+PythonConfigGraphOutput::generateSubComponent(const char* owner, const ConfigComponent* comp)
 {
-    size_t slen     = strlen(owner) + strlen("_subcomp_") + 1;
-    char*  combName = (char*)calloc(1, slen);
-    snprintf(combName, slen, "%s%s", owner, "_subcomp_");
-    char*  pyCompName = makePythonSafeWithPrefix(comp->name.c_str(), combName);
-    size_t slotlen    = strlen(pyCompName) + 2;
-    char*  slotName   = (char*)calloc(1, slotlen);
-    snprintf(slotName, slotlen, "%s%d", pyCompName, comp->slot_num);
+    const std::string& pyCompName = getCompName(comp);
 
-    generateCommonLink(slotName, comp);
+    fprintf(outputFile, "%s = %s.setSubComponent(\"%s\", \"%s\", %d)\n", pyCompName.c_str(), owner,
+        escape(comp->name).c_str(), escape(comp->type).c_str(), comp->slot_num);
 
-    for ( auto subComp : comp->subComponents ) {
-        generateSubComponentLinks(slotName, subComp);
-    }
-
-    free(pyCompName);
-    free(combName);
-    free(slotName);
-}
-
-void
-PythonConfigGraphOutput::generateSubComponent(const char* owner, const ConfigComponent* comp)
-{
-    size_t slen     = strlen(owner) + strlen("_subcomp_") + 1;
-    char*  combName = (char*)calloc(1, slen);
-    snprintf(combName, slen, "%s%s", owner, "_subcomp_");
-    char*  pyCompName = makePythonSafeWithPrefix(comp->name.c_str(), combName);
-    char*  esCompName = makeEscapeSafe(comp->name.c_str());
-    size_t slotlen    = strlen(pyCompName) + 2;
-    char*  slotName   = (char*)calloc(1, slotlen);
-    snprintf(slotName, slotlen, "%s%d", pyCompName, comp->slot_num);
-
-    fprintf(outputFile, "%s = %s.setSubComponent(\"%s\", \"%s\", %d)\n", slotName, owner, esCompName,
-        comp->type.c_str(), comp->slot_num);
-
-    generateCommonComponent(slotName, comp);
-
-    free(pyCompName);
-    free(esCompName);
-    free(combName);
-    free(slotName);
+    generateCommonComponent(pyCompName.c_str(), comp);
 }
 
 void
 PythonConfigGraphOutput::generateComponentLinks(const ConfigComponent* comp)
 {
-    char* pyCompName = makePythonSafeWithPrefix(comp->name.c_str(), "comp_");
-
-    generateCommonLink(pyCompName, comp);
+    generateCommonLink(getCompName(comp).c_str(), comp);
 
     for ( auto subComp : comp->subComponents ) {
-        generateSubComponentLinks(pyCompName, subComp);
+        generateComponentLinks(subComp);
     }
-
-    free(pyCompName);
 }
 
 void
 PythonConfigGraphOutput::generateComponent(const ConfigComponent* comp, bool output_parition_info)
 {
-    char* pyCompName = makePythonSafeWithPrefix(comp->name.c_str(), "comp_");
-    char* esCompName = makeEscapeSafe(comp->name.c_str());
+    const std::string& pyCompName = getCompName(comp);
 
-    fprintf(outputFile, "%s = sst.Component(\"%s\", \"%s\")\n", pyCompName, esCompName, comp->type.c_str());
+    fprintf(outputFile, "%s = sst.Component(\"%s\", \"%s\")\n", pyCompName.c_str(), escape(comp->name).c_str(),
+        escape(comp->type).c_str());
 
     if ( output_parition_info ) {
-        fprintf(outputFile, "%s.setRank(%d,%d)\n", pyCompName, comp->rank.rank, comp->rank.thread);
+        fprintf(outputFile, "%s.setRank(%d,%d)\n", pyCompName.c_str(), comp->rank.rank, comp->rank.thread);
     }
 
     shared_stat_map_.clear();
-    py_parent_name_.assign(pyCompName, strlen(pyCompName));
-    generateCommonComponent(pyCompName, comp);
-
-    free(pyCompName);
-    free(esCompName);
+    py_parent_name_ = pyCompName;
+    generateCommonComponent(pyCompName.c_str(), comp);
 }
 
 void
 PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const ConfigStatGroup& grp)
 {
-    char* pyGroupName = makePythonSafeWithPrefix(grp.name.c_str(), "statGroup_");
-    char* esGroupName = makeEscapeSafe(grp.name.c_str());
+    std::string pyGroupName = uniqueName(makePythonSafeWithPrefix(grp.name.c_str(), "statGroup_"));
+    char*       esGroupName = makeEscapeSafe(grp.name.c_str());
 
-    fprintf(outputFile, "%s = sst.StatisticGroup(\"%s\")\n", pyGroupName, esGroupName);
+    fprintf(outputFile, "%s = sst.StatisticGroup(\"%s\")\n", pyGroupName.c_str(), esGroupName);
     if ( grp.outputFrequency.getValue() != 0 ) {
-        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName, grp.outputFrequency.toStringBestSI(0).c_str());
+        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName.c_str(), grp.outputFrequency.toStringBestSI(0).c_str());
     }
     if ( grp.outputID != 0 ) {
         const ConfigStatOutput& out = graph->getStatOutput(grp.outputID);
-        fprintf(outputFile, "%s.setOutput(sst.StatisticOutput(\"%s\"", pyGroupName, out.type.c_str());
+        fprintf(outputFile, "%s.setOutput(sst.StatisticOutput(\"%s\"", pyGroupName.c_str(), out.type.c_str());
         if ( !out.params.empty() ) {
             fprintf(outputFile, ", ");
             generateParams(out.params);
@@ -341,7 +285,7 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
     }
 
     for ( auto& i : grp.statMap ) {
-        fprintf(outputFile, "%s.addStatistic(\"%s\"", pyGroupName, escape(i.first).c_str());
+        fprintf(outputFile, "%s.addStatistic(\"%s\"", pyGroupName.c_str(), escape(i.first).c_str());
         if ( !i.second.empty() ) {
             fprintf(outputFile, ", ");
             generateParams(i.second);
@@ -350,14 +294,11 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
     }
 
     for ( ComponentId_t id : grp.components ) {
-        const ConfigComponent* comp       = graph->findComponent(id);
-        char*                  pyCompName = makePythonSafeWithPrefix(comp->name.c_str(), "comp_");
-        fprintf(outputFile, "%s.addComponent(%s)\n", pyGroupName, pyCompName);
-        free(pyCompName);
+        const ConfigComponent* comp = graph->findComponent(id);
+        fprintf(outputFile, "%s.addComponent(%s)\n", pyGroupName.c_str(), getCompName(comp).c_str());
     }
 
     free(esGroupName);
-    free(pyGroupName);
 }
 
 void
@@ -463,6 +404,8 @@ PythonConfigGraphOutput::generate(const Config* cfg, ConfigGraph* graph)
 
     this->graph_ = nullptr;
     link_map_.clear();
+    comp_map_.clear();
+    used_names_.clear();
     shared_stat_map_.clear();
 }
 
@@ -554,23 +497,8 @@ PythonConfigGraphOutput::makeBufferPythonSafe(char* buffer) const
     const auto length = strlen(buffer);
 
     for ( size_t i = 0; i < length; i++ ) {
-        switch ( buffer[i] ) {
-        case ' ':
-            buffer[i] = '_';
-            break;
-        case '.':
-            buffer[i] = '_';
-            break;
-        case ':':
-            buffer[i] = '_';
-            break;
-        case ',':
-            buffer[i] = '_';
-            break;
-        case '-':
-            buffer[i] = '_';
-            break;
-        }
+        // Identifiers have only letters, digits and underscores
+        if ( !isalnum(static_cast<unsigned char>(buffer[i])) ) buffer[i] = '_';
     }
 }
 
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.h b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
index 64c4dfa..a12a4d0 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.h
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
@@ -18,6 +18,7 @@
 
 #include <cstddef>
 #include <map>
+#include <set>
 #include <string>
 
 namespace SST::Core {
@@ -37,12 +38,13 @@ protected:
     void         generateComponent(const ConfigComponent* comp, bool output_parition_info);
     void         generateStatGroup(const ConfigGraph* graph, const ConfigStatGroup& grp);
     void         generateCommonLink(const char* objName, const ConfigComponent* comp);
-    void         generateSubComponentLinks(const char* objName, const ConfigComponent* comp);
     void         generateComponentLinks(const ConfigComponent* comp);
 
     const std::string& getLinkObject(LinkId_t id, const std::string& name, bool no_cut);
 
-    char* generateCompName(const ConfigComponent* comp);
+    const std::string& getCompName(const ConfigComponent* comp);
+    std::string        uniqueName(char* buffer, int slot_num = -1);
+
     char* makePythonSafeWithPrefix(const std::string& name, const std::string& prefix) const;
     void  makeBufferPythonSafe(char* buffer) const;
     char* makeEscapeSafe(const std::string& input) const;
@@ -55,6 +57,8 @@ protected:
 private:
     ConfigGraph*                         graph_;
     std::map<LinkId_t, std::string>      link_map_;
+    std::map<ComponentId_t, std::string> comp_map_;
+    std::set<std::string>                used_names_;
     std::string                          py_parent_name_;
     std::map<StatisticId_t, std::string> shared_stat_map_;
 };
-- 
2.43.0


From c242a3c13dd12221496a606eaa3a7ff8df37c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 40/96] fix: coordinates in written Python configurations are
 exact

---
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 3c3228c..2890a57 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -156,13 +156,18 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
         }
     }
 
-    fprintf(outputFile, "%s.setCoordinates(", objName);
+    // More than three coordinates can only be passed as a list
+    fprintf(outputFile, "%s.setCoordinates(%s", objName, comp->coords.size() > 3 ? "[" : "");
     bool first = true;
     for ( double d : comp->coords ) {
-        fprintf(outputFile, first ? "%lg" : ", %lg", d);
+        // Use the short form when it is exact
+        char buffer[40];
+        snprintf(buffer, sizeof(buffer), "%lg", d);
+        if ( strtod(buffer, nullptr) != d ) snprintf(buffer, sizeof(buffer), "%.17lg", d);
+        fprintf(outputFile, first ? "%s" : ", %s", buffer);
         first = false;
     }
-    fprintf(outputFile, ")\n");
+    fprintf(outputFile, "%s)\n", comp->coords.size() > 3 ? "]" : "");
 
     for ( auto& pair : comp->enabledStatNames ) {
         auto& name = pair.first;
-- 
2.43.0


From 339d1a542f3e52c9a13c7df3fc9822d76c086926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 41/96] fix: statistic load levels in written Python
 configurations

---
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 2890a57..ba37196 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -147,9 +147,11 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
 {
     if ( !comp->params.empty() ) {
         // Add local params
-        fprintf(outputFile, "%s.addParams(", objName);
-        generateParams(comp->params);
-        fprintf(outputFile, ")\n");
+        if ( !getParamsLocalKeys(comp->params).empty() ) {
+            fprintf(outputFile, "%s.addParams(", objName);
+            generateParams(comp->params);
+            fprintf(outputFile, ")\n");
+        }
         // Add shared param sets
         for ( auto x : getSubscribedSharedParamSets(comp->params) ) {
             fprintf(outputFile, "%s.addSharedParamSet(\"%s\")\n", objName, escape(x).c_str());
@@ -215,8 +217,11 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
         }
     }
 
-    if ( comp->enabledAllStats ) {
+    if ( comp->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
         fprintf(outputFile, "%s.setStatisticLoadLevel(%d)\n", objName, comp->statLoadLevel);
+    }
+
+    if ( comp->enabledAllStats ) {
         fprintf(outputFile, "%s.enableAllStatistics(", objName);
 
         // Output the Statistic Parameters
-- 
2.43.0


From 54ccc39ceafe2262c71c0440b34f7b5e8a19d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 42/96] fix: written Python configurations keep the port
 modules

---
 .../model/cfgoutput/pythonConfigOutput.cc     | 38 +++++++++++++++++++
 .../core/model/cfgoutput/pythonConfigOutput.h |  1 +
 2 files changed, 39 insertions(+)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index ba37196..7af2b05 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -231,11 +231,49 @@ PythonConfigGraphOutput::generateCommonComponent(const char* objName, const Conf
         fprintf(outputFile, ")\n");
     }
 
+    generatePortModules(objName, comp);
+
     for ( auto subComp : comp->subComponents ) {
         generateSubComponent(objName, subComp);
     }
 }
 
+void
+PythonConfigGraphOutput::generatePortModules(const char* objName, const ConfigComponent* comp)
+{
+    for ( auto& [port, modules] : comp->port_modules ) {
+        for ( auto& module : modules ) {
+            fprintf(outputFile, "portModule = %s.addPortModule(\"%s\", \"%s\"", objName, escape(port).c_str(),
+                escape(module.type).c_str());
+            if ( !getParamsLocalKeys(module.params).empty() ) {
+                fprintf(outputFile, ", ");
+                generateParams(module.params);
+            }
+            fprintf(outputFile, ")\n");
+
+            for ( auto& set : getSubscribedSharedParamSets(module.params) ) {
+                fprintf(outputFile, "portModule.addSharedParamSet(\"%s\")\n", escape(set).c_str());
+            }
+            if ( module.stat_load_level != STATISTICLOADLEVELUNINITIALIZED ) {
+                fprintf(outputFile, "portModule.setStatisticLoadLevel(%d)\n", module.stat_load_level);
+            }
+            if ( !module.all_stat_config.empty() ) {
+                fprintf(outputFile, "portModule.enableAllStatistics(");
+                generateParams(module.all_stat_config);
+                fprintf(outputFile, ")\n");
+            }
+            for ( auto& [name, params] : module.per_stat_configs ) {
+                fprintf(outputFile, "portModule.enableStatistic(\"%s\"", escape(name).c_str());
+                if ( !params.empty() ) {
+                    fprintf(outputFile, ", ");
+                    generateParams(params);
+                }
+                fprintf(outputFile, ")\n");
+            }
+        }
+    }
+}
+
 void
 PythonConfigGraphOutput::generateSubComponent(const char* owner, const ConfigComponent* comp)
 {
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.h b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
index a12a4d0..1838136 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.h
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.h
@@ -34,6 +34,7 @@ protected:
     ConfigGraph* getGraph() { return graph_; }
     void         generateParams(const Params& params);
     void         generateCommonComponent(const char* objName, const ConfigComponent* comp);
+    void         generatePortModules(const char* objName, const ConfigComponent* comp);
     void         generateSubComponent(const char* owner, const ConfigComponent* comp);
     void         generateComponent(const ConfigComponent* comp, bool output_parition_info);
     void         generateStatGroup(const ConfigGraph* graph, const ConfigStatGroup& grp);
-- 
2.43.0


From c729dac7d99e41427753a4d63057b92a67ab0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 43/96] fix: written Python configurations keep the weights of
 components

---
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 7af2b05..0bd6563 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -307,6 +307,10 @@ PythonConfigGraphOutput::generateComponent(const ConfigComponent* comp, bool out
         fprintf(outputFile, "%s.setRank(%d,%d)\n", pyCompName.c_str(), comp->rank.rank, comp->rank.thread);
     }
 
+    if ( comp->weight != 1.0f ) {
+        fprintf(outputFile, "%s.setWeight(%.9g)\n", pyCompName.c_str(), comp->weight);
+    }
+
     shared_stat_map_.clear();
     py_parent_name_ = pyCompName;
     generateCommonComponent(pyCompName.c_str(), comp);
-- 
2.43.0


From 9b5aa6a575531597e46749cce38a64ebc7b05e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:33 +0000
Subject: [PATCH 44/96] fix: latencies in written configurations are exact for
 divisions that are not

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc   | 2 +-
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 2 +-
 src/sst/core/model/configLink.cc                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 1611ea4..751754a 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -342,7 +342,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
             sgRecord["name"] = grp.second.name;
 
             if ( grp.second.outputFrequency.getValue() != 0 ) {
-                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI(0);
+                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI(20);
             }
 
             // output
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 0bd6563..7adcd06 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -324,7 +324,7 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
 
     fprintf(outputFile, "%s = sst.StatisticGroup(\"%s\")\n", pyGroupName.c_str(), esGroupName);
     if ( grp.outputFrequency.getValue() != 0 ) {
-        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName.c_str(), grp.outputFrequency.toStringBestSI(0).c_str());
+        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName.c_str(), grp.outputFrequency.toStringBestSI(20).c_str());
     }
     if ( grp.outputID != 0 ) {
         const ConfigStatOutput& out = graph->getStatOutput(grp.outputID);
diff --git a/src/sst/core/model/configLink.cc b/src/sst/core/model/configLink.cc
index 7cc3191..cbb73c7 100644
--- a/src/sst/core/model/configLink.cc
+++ b/src/sst/core/model/configLink.cc
@@ -66,7 +66,7 @@ ConfigLink::latency_str(uint32_t index) const
     static TimeLord* timelord = Simulation::getTimeLord();
     UnitAlgebra      tb       = timelord->getTimeBase();
     auto             tmp      = tb * latency_[index];
-    return tmp.toStringBestSI(0); // 0: all digits
+    return tmp.toStringBestSI(20); // as many digits as a latency can have
 }
 
 void
-- 
2.43.0


From 739a48a7e97f9a7efa22c95ade3d03a0432e82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 45/96] fix: sst.single places the subcomponents with their
 component

---
 src/sst/core/impl/partitioners/singlepart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/impl/partitioners/singlepart.cc b/src/sst/core/impl/partitioners/singlepart.cc
index e9e9c2f..4ab8ad9 100644
--- a/src/sst/core/impl/partitioners/singlepart.cc
+++ b/src/sst/core/impl/partitioners/singlepart.cc
@@ -26,6 +26,6 @@ SSTSinglePartition::performPartition(ConfigGraph* graph)
     ConfigComponentMap_t& compMap = graph->getComponentMap();
 
     for ( auto comp : compMap ) {
-        comp->rank = RankInfo(0, 0);
+        comp->setRank(RankInfo(0, 0));
     }
 }
-- 
2.43.0


From 422ba12bd3c090fdd4021a565c148a99c312e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 46/96] fix: SharedMap::upper_bound returns the upper bound

---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From 0ea7ecef1731b1362483573b4d694d8148c496cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 47/96] fix: checkpoints keep the publishing state of shared
 objects

---
 src/sst/core/shared/sharedObject.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..dbd990c 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -214,7 +214,14 @@ protected:
      */
     virtual ~SharedObjectData() {}
 
-    void serialize_order(serializer& ser) override { SST_SER(name); }
+    void serialize_order(serializer& ser) override
+    {
+        SST_SER(name);
+        SST_SER(share_count);
+        SST_SER(publish_count);
+        SST_SER(fully_published);
+        SST_SER(locked);
+    }
 
     ImplementVirtualSerializable(SharedObjectData);
 };
-- 
2.43.0


From 8d049808f8a6f7b16fc2baaae579a66e27a1446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 48/96] fix: in-place modifications of a SharedMap take effect
 on the writing rank as on the others

---
 src/sst/core/shared/sharedMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index 8a0d96c..b66ae09 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -322,7 +322,10 @@ private:
             auto success = map.insert(std::make_pair(key, value));
             if ( !success.second ) {
                 // Wrote to a key that already existed
-                if ( verify != NO_VERIFY && value != success.first->second ) {
+                if ( verify == NO_VERIFY ) {
+                    success.first->second = value;
+                }
+                else if ( value != success.first->second ) {
                     Private::getSimulationOutput().fatal(
                         CALL_INFO, 1, "ERROR: wrote two different values to same key in SharedMap %s\n", name.c_str());
                 }
-- 
2.43.0


From 4024d4f1132491ba46429ae62ff85c160fd24106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:10 +0000
Subject: [PATCH 49/96] fix: simulations ended by a signal or exit-after end at
 the time they had reached

---
 src/sst/core/simulation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 9ff6695..4178945 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -1222,7 +1222,9 @@ Simulation::signalShutdown(bool abnormal)
         shutdown_mode_ = SHUTDOWN_CLEAN;
     }
 
-    endSim = true;
+    // The simulation ends here
+    endSimCycle = currentSimCycle;
+    endSim      = true;
 }
 
 void
-- 
2.43.0


From 06dc1278d19dbdfb3e252589fb7e907d6a378990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 50/96] fix: the Exit action is in the event queue only once
 and is deleted only once

---
 src/sst/core/exit.cc       | 9 +++++++--
 src/sst/core/exit.h        | 8 ++++++++
 src/sst/core/simulation.cc | 2 ++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index c2e994e..af733df 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -64,7 +64,11 @@ Exit::refDec(uint32_t thread)
     if ( single_rank_ && num_threads_ == 1 && ref_count_ == 0 ) {
         end_time_       = Simulation::getSimulation()->getCurrentSimCycle();
         Simulation* sim = Simulation::getSimulation();
-        sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        // The count can reach 0 again before the Exit fires, but it must only be in the queue once
+        if ( !in_queue_ ) {
+            in_queue_ = true;
+            sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        }
     }
     else if ( thread_counts_[thread] == 0 ) {
         SimTime_t end_time_new = Simulation::getSimulation()->getCurrentSimCycle();
@@ -87,7 +91,8 @@ Exit::getRefCount()
 void
 Exit::execute()
 {
-    // Only gets put into queue once, no need to reschedule
+    // refDec() puts it back into the queue if the count reaches 0 again, no need to reschedule
+    in_queue_ = false;
     check();
 }
 
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 6449be8..715ebcc 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -65,6 +65,13 @@ public:
      */
     unsigned int getRefCount();
 
+    /**
+       Whether the Exit is waiting in the TimeVortex, which then owns it
+
+       @return true if it was inserted and did not fire yet
+     */
+    bool inQueue() const { return in_queue_; }
+
     /**
        Gets the end time of the simulation
 
@@ -129,6 +136,7 @@ private:
     unsigned int  global_count_  = 0;
     SimTime_t     end_time_      = 0;
     bool          single_rank_   = true;
+    bool          in_queue_      = false; // true while waiting in the TimeVortex
 
     Core::ThreadSafe::Spinlock slock_;
 };
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 4178945..d8a6b5a 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -200,7 +200,9 @@ Simulation::~Simulation()
 
     // Delete the timeVortex first.  This will delete all events left
     // in the queue, as well as the Sync, Exit and Clock objects.
+    bool exit_in_queue = m_exit && m_exit->inQueue();
     delete timeVortex;
+    if ( exit_in_queue ) m_exit = nullptr;
 
     // For serial runs, the sync object is not in the timevortex
     if ( num_ranks.rank == 1 && num_ranks.thread == 1 ) delete syncManager;
-- 
2.43.0


From 72871b684d60bf1a71b6bb695238b7e6ff455a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:41 +0000
Subject: [PATCH 51/96] fix: enableStatistics() returns the statistics instead
 of overwriting the caller's list with them

---
 src/sst/core/model/python/pymodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/python/pymodel.cc b/src/sst/core/model/python/pymodel.cc
index 18f418f..e48f534 100644
--- a/src/sst/core/model/python/pymodel.cc
+++ b/src/sst/core/model/python/pymodel.cc
@@ -1535,7 +1535,7 @@ SST::Core::buildEnabledStatistics(ConfigComponent* cc, PyObject* statList, PyObj
         std::string      name       = SST_ConvertToCppString(pyname);
         ConfigStatistic* cs         = cc->enableStatistic(name, params, apply_to_children);
         PyObject*        statObj    = buildStatisticObject(cc->id, cs->id);
-        PyList_SetItem(statList, x, statObj);
+        PyList_SetItem(statObjectList, x, statObj);
         Py_XDECREF(pyname);
     }
     return statObjectList;
-- 
2.43.0


From 6cae8ec6c0f476d5a8e8f220a3a53a5731229bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:41 +0000
Subject: [PATCH 52/96] fix: enabling statistics of an unknown component name
 is a fatal error instead of a crash

---
 src/sst/core/model/python/pymodel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sst/core/model/python/pymodel.cc b/src/sst/core/model/python/pymodel.cc
index e48f534..589426d 100644
--- a/src/sst/core/model/python/pymodel.cc
+++ b/src/sst/core/model/python/pymodel.cc
@@ -583,6 +583,10 @@ enableAllStatisticsForComponentName(PyObject* UNUSED(self), PyObject* args)
 
     if ( argOK ) {
         ConfigComponent* cc = gModel->findComponentByName(compName);
+        if ( nullptr == cc ) {
+            gModel->getOutput()->fatal(CALL_INFO, 1,
+                "component name not found in call to enableAllStatisticsForComponentName(): %s\n", compName);
+        }
         cc->enableStatistic(STATALLFLAG, pythonToCppParams(statParamDict), apply_to_children);
     }
     else {
@@ -608,6 +612,10 @@ enableStatisticForComponentName(PyObject* UNUSED(self), PyObject* args)
 
     if ( argOK ) {
         ConfigComponent* cc = gModel->findComponentByName(compName);
+        if ( nullptr == cc ) {
+            gModel->getOutput()->fatal(
+                CALL_INFO, 1, "component name not found in call to enableStatisticForComponentName(): %s\n", compName);
+        }
         return buildEnabledStatistic(cc, statName, statParamDict, apply_to_children);
     }
     else {
-- 
2.43.0


From f75be9afb37c99f47ad588db87e793cb487c66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:01 +0000
Subject: [PATCH 53/96] fix: the core timebase can be given as a frequency and
 has to be greater than zero

---
 src/sst/core/main.cc     | 7 ++++++-
 src/sst/core/timeLord.cc | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index a53c096..69393f9 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -978,7 +978,12 @@ main(int argc, char* argv[])
     perfReporter.configureOutput(cfg.profiling_output());
 
     // TimeLord must be initialized prior to postCreationCleanup() call
-    Simulation::getTimeLord()->init(cfg.timeBase());
+    try {
+        Simulation::getTimeLord()->init(cfg.timeBase());
+    }
+    catch ( const std::exception& e ) {
+        g_output.fatal(CALL_INFO, 1, "Error while initializing the timebase: %s\n", e.what());
+    }
 
     // Check the ConfigGraph and finalize things
 
diff --git a/src/sst/core/timeLord.cc b/src/sst/core/timeLord.cc
index 3a8d49c..1c4becf 100644
--- a/src/sst/core/timeLord.cc
+++ b/src/sst/core/timeLord.cc
@@ -68,6 +68,13 @@ TimeLord::init(const std::string& timebase_string)
     timebase_string_ = timebase_string;
     timebase_        = UnitAlgebra(timebase_string_);
 
+    if ( timebase_.getValue() <= 0 ) {
+        throw std::invalid_argument("Error:  The core timebase must be greater than zero, " + timebase_string_ +
+                                    " was specified");
+    }
+    // The timebase can also be specified as a frequency
+    if ( timebase_.hasUnits("Hz") ) timebase_.invert();
+
     try {
         nano_ = getTimeConverter("1ns");
     }
-- 
2.43.0


From 1a4c67fb401954262d58de5b6e99cf2deac5994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:01 +0000
Subject: [PATCH 54/96] fix: an invalid link latency is a fatal error instead
 of an uncaught exception

---
 src/sst/core/main.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index 69393f9..00926e3 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -995,7 +995,12 @@ main(int argc, char* argv[])
         if ( cfg.parallel_load() ) {
             graph->reduceGraphToSingleRank(myRank.rank);
         }
-        graph->postCreationCleanup();
+        try {
+            graph->postCreationCleanup();
+        }
+        catch ( const std::exception& e ) {
+            g_output.fatal(CALL_INFO, 1, "Error in the ConfigGraph: %s\n", e.what());
+        }
         Simulation::basicPerf.endRegion("graph-cleanup");
 
         // Check config graph to see if there are structural errors.
-- 
2.43.0


From 981c6afa241f1d5e58cbad57bf1dae3ee839c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:01 +0000
Subject: [PATCH 55/96] fix: a configuration file without extension is reported
 instead of ending in an uncaught exception

---
 src/sst/core/main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index 00926e3..b71e625 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -332,7 +332,9 @@ start_graph_creation(ConfigGraph*& graph, const RankInfo& world_size, const Rank
 
     if ( cfg.configFile() != "NONE" ) {
         // Get the file extension by finding the last .
-        std::string extension = cfg.configFile().substr(cfg.configFile().find_last_of('.'));
+        std::string extension;
+        const size_t dot = cfg.configFile().find_last_of('.');
+        if ( dot != std::string::npos ) extension = cfg.configFile().substr(dot);
 
         std::string model_name;
         try {
-- 
2.43.0


From 360e793c2b0726d262191ac31011931b7f2e30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:30 +0000
Subject: [PATCH 56/96] fix: a fatal error while creating the profile tools no
 longer deadlocks

---
 src/sst/core/simulation.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index d8a6b5a..2a686d7 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -254,10 +254,13 @@ Simulation::createSimulation(
     std::thread::id tid      = std::this_thread::get_id();
     Simulation*     instance = new Simulation(my_rank, num_ranks, restart, currentSimCycle, currentPriority);
 
-    std::scoped_lock lock(simulationMutex);
-    instanceMap[tid] = instance;
-    instanceVec_.resize(num_ranks.thread);
-    instanceVec_[my_rank.thread] = instance;
+    {
+        std::scoped_lock lock(simulationMutex);
+        instanceMap[tid] = instance;
+        instanceVec_.resize(num_ranks.thread);
+        instanceVec_[my_rank.thread] = instance;
+    }
+    // Not under the lock, a fatal error in here takes it to shut down all the instances
     instance->initializeProfileTools(config.enabled_profiling());
 
     return instance;
@@ -1204,6 +1207,8 @@ Simulation::emergencyShutdown()
     std::scoped_lock lock(simulationMutex);
 
     for ( auto&& instance : instanceVec_ ) {
+        // Other threads may not have created their instance yet
+        if ( nullptr == instance ) continue;
         instance->shutdown_mode_ = SHUTDOWN_EMERGENCY;
         instance->endSim         = true;
         //// Function not available with gcc 4.6
-- 
2.43.0


From 81dad0d42edcf706d9e4c3a1415bca38d5b41ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:30 +0000
Subject: [PATCH 57/96] fix: exceptions on threads other than the first are
 reported as those on the first

---
 src/sst/core/main.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index b71e625..f4e3da7 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -1506,8 +1506,15 @@ main(int argc, char* argv[])
     try {
         Output::setThreadID(std::this_thread::get_id(), 0);
         for ( uint32_t i = 1; i < world_size.thread; i++ ) {
-            threads[i] = std::thread(start_simulation, i, std::ref(threadInfo[i]), std::ref(mainBarrier),
-                graph->cpt_currentSimCycle, graph->cpt_currentPriority);
+            threads[i] = std::thread([&, i]() {
+                try {
+                    start_simulation(
+                        i, threadInfo[i], mainBarrier, graph->cpt_currentSimCycle, graph->cpt_currentPriority);
+                }
+                catch ( const std::exception& e ) {
+                    g_output.fatal(CALL_INFO, -1, "Error encountered during simulation: %s\n", e.what());
+                }
+            });
             Output::setThreadID(threads[i].get_id(), i);
         }
 
-- 
2.43.0


From 3d870c7f038d9e4d3cb2c7057b33d31b6509f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 58/96] fix: a dangling link of a subcomponent is reported
 instead of ending in an uncaught exception

---
 src/sst/core/model/configGraph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index c4b68dc..750e535 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -263,7 +263,7 @@ ConfigGraph::checkForStructuralErrors()
         // If we do this check, we know component_[0] is set
         else if ( clink->component_[1] == UNSET_COMPONENT_ID && !clink->nonlocal_ ) {
             output.output("WARNING:  Found dangling link: %s.  It is connected on one side to component %s.\n",
-                clink->name_.c_str(), comps_[clink->component_[0]]->name.c_str());
+                clink->name_.c_str(), findComponent(clink->component_[0])->getFullName().c_str());
             found_error = true;
         }
     }
-- 
2.43.0


From 64e40f36f597c2a57a35e43392ebc154b92b69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 59/96] fix: a nonlocal link to the own or to an unknown rank
 is a fatal error instead of a crash

---
 src/sst/core/model/configGraph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index 750e535..fa5ec6a 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -182,6 +182,11 @@ ConfigGraph::checkRanks(RankInfo ranks)
         if ( link->nonlocal_ ) {
             r1.rank   = link->component_[1];
             r1.thread = link->latency_[1];
+            // The other side of a nonlocal link has to be on another, existing rank
+            if ( r1.rank == r0.rank || r1.rank >= ranks.rank ) {
+                fprintf(stderr, "Bad rank for nonlocal link %s: %u\n", link->name_.c_str(), r1.rank);
+                return false;
+            }
         }
         else {
             r1 = comps_[COMPONENT_ID_MASK(link->component_[1])]->rank;
-- 
2.43.0


From 7a6d726b7c0f68eefbd4bb8c6288bd07a23b3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 60/96] fix: setStatistic() with something other than a
 statistic is an error instead of a crash

---
 src/sst/core/model/configGraph.cc         | 3 ++-
 src/sst/core/model/python/pymodel_comp.cc | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index fa5ec6a..b3657f1 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -505,7 +505,8 @@ ConfigGraph::findComponentByName(const std::string& name)
 ConfigStatistic*
 ConfigGraph::findStatistic(ComponentId_t comp_id, StatisticId_t stat_id) const
 {
-    return findComponent(comp_id)->findStatistic(stat_id);
+    const ConfigComponent* comp = findComponent(comp_id);
+    return comp ? comp->findStatistic(stat_id) : nullptr;
 }
 
 
diff --git a/src/sst/core/model/python/pymodel_comp.cc b/src/sst/core/model/python/pymodel_comp.cc
index 16570dc..d69b38a 100644
--- a/src/sst/core/model/python/pymodel_comp.cc
+++ b/src/sst/core/model/python/pymodel_comp.cc
@@ -340,13 +340,14 @@ compSetStatistic(PyObject* self, PyObject* args)
 {
     PyObject* statObj;
     char*     name = nullptr;
-    if ( !PyArg_ParseTuple(args, "sO", &name, &statObj) ) return nullptr;
+    if ( !PyArg_ParseTuple(args, "sO!", &name, &PyModel_StatType, &statObj) ) return nullptr;
 
     ConfigComponent* c = getComp(self);
     if ( nullptr == c ) return nullptr;
 
-    ConfigStatistic* s     = getStat(statObj);
-    bool             valid = c->reuseStatistic(name, s->id);
+    ConfigStatistic* s = getStat(statObj);
+    if ( nullptr == s ) return nullptr;
+    bool valid = c->reuseStatistic(name, s->id);
     if ( valid ) {
         Py_INCREF(statObj);
         return statObj;
-- 
2.43.0


From 05b3432b2e3c2ff749fdac13f2d00dba8f0d0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 61/96] fix: a number of threads that is not at least one is
 refused instead of crashing

---
 src/sst/core/config.cc | 14 ++++++++++++++
 src/sst/core/config.h  |  9 ++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/config.cc b/src/sst/core/config.cc
index 696ac39..d79b395 100644
--- a/src/sst/core/config.cc
+++ b/src/sst/core/config.cc
@@ -25,6 +25,7 @@
 #include <functional>
 #include <getopt.h>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <sys/ioctl.h>
 #include <sys/stat.h>
@@ -673,6 +674,19 @@ Config::canInitiateInteractive()
 }
 
 // Set the prefix for checkpoint files
+int
+Config::parse_num_threads(uint32_t& var, std::string arg)
+{
+    long threads = 0;
+    if ( StandardConfigParsers::from_string<long>(threads, arg) != 0 ) return -1;
+    if ( threads < 1 || threads > std::numeric_limits<uint32_t>::max() ) {
+        fprintf(stderr, "ERROR: The number of threads has to be at least one: \"%s\"\n", arg.c_str());
+        return -1;
+    }
+    var = static_cast<uint32_t>(threads);
+    return 0;
+}
+
 int
 Config::parse_checkpoint_name_format(std::string& var, std::string arg)
 {
diff --git a/src/sst/core/config.h b/src/sst/core/config.h
index e22327b..6a0eaae 100644
--- a/src/sst/core/config.h
+++ b/src/sst/core/config.h
@@ -168,7 +168,7 @@ private:
     /**
        Number of threads requested
     */
-    SST_CONFIG_DECLARE_OPTION(uint32_t, num_threads, 1, &StandardConfigParsers::from_string<uint32_t>);
+    SST_CONFIG_DECLARE_OPTION(uint32_t, num_threads, 1, &Config::parse_num_threads);
 
     /**
        Name of the SDL file to use to generate the simulation
@@ -609,6 +609,13 @@ private:
     */
     static int parse_checkpoint_name_format(std::string& var, std::string arg);
 
+    /**
+       Parses a number of threads, which has to be at least one
+
+       @param arg argument passed to the command line option
+     */
+    static int parse_num_threads(uint32_t& var, std::string arg);
+
     static std::string ext_help_checkpoint_format();
 
     SST_CONFIG_DECLARE_OPTION(std::string, checkpoint_name_format, "%p_%n_%t/%p_%n_%t",
-- 
2.43.0


From 2276ed1ca523b6044107e5bd8ed51531f845c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 62/96] fix: setThreadCount() sets the num-threads option
 instead of an unknown one

---
 src/sst/core/model/python/pymodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/python/pymodel.cc b/src/sst/core/model/python/pymodel.cc
index 589426d..da2c69c 100644
--- a/src/sst/core/model/python/pymodel.cc
+++ b/src/sst/core/model/python/pymodel.cc
@@ -462,7 +462,7 @@ setSSTThreadCount(PyObject* UNUSED(self), PyObject* args)
     Config* cfg     = gModel->getConfig();
     long    oldNThr = cfg->num_threads();
     long    nThr    = SST_ConvertToCppLong(args);
-    gModel->setConfigEntryFromModel("num_threads", std::to_string(nThr));
+    gModel->setConfigEntryFromModel("num-threads", std::to_string(nThr));
     return SST_ConvertToPythonLong(oldNThr);
 }
 
-- 
2.43.0


From 2bedda76f825279a48c8aa32fa3f990e1adddf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 63/96] fix: the rank is inserted in the name of a statistics
 file, not in that of its directory

---
 src/sst/core/statapi/statoutputcsv.cc  | 6 +++---
 src/sst/core/statapi/statoutputjson.cc | 6 +++---
 src/sst/core/statapi/statoutputtxt.cc  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sst/core/statapi/statoutputcsv.cc b/src/sst/core/statapi/statoutputcsv.cc
index 498faad..e5f7cd1 100644
--- a/src/sst/core/statapi/statoutputcsv.cc
+++ b/src/sst/core/statapi/statoutputcsv.cc
@@ -246,9 +246,9 @@ StatisticOutputCSV::openFile()
         int         rank    = getRank().rank;
         std::string rankstr = "_" + std::to_string(rank);
 
-        // Search for any extension
-        size_t index = m_FilePath.find_last_of('.');
-        if ( std::string::npos != index ) {
+        // Search for any extension of the file's name, not of the directories it is in
+        size_t index = m_FilePath.find_last_of("./");
+        if ( std::string::npos != index && m_FilePath[index] == '.' ) {
             // We found a . at the end of the file, insert the rank string
             filename.insert(index, rankstr);
         }
diff --git a/src/sst/core/statapi/statoutputjson.cc b/src/sst/core/statapi/statoutputjson.cc
index c896444..91431ba 100644
--- a/src/sst/core/statapi/statoutputjson.cc
+++ b/src/sst/core/statapi/statoutputjson.cc
@@ -235,9 +235,9 @@ StatisticOutputJSON::openFile()
         int         rank    = getRank().rank;
         std::string rankstr = "_" + std::to_string(rank);
 
-        // Search for any extension
-        size_t index = m_FilePath.find_last_of('.');
-        if ( std::string::npos != index ) {
+        // Search for any extension of the file's name, not of the directories it is in
+        size_t index = m_FilePath.find_last_of("./");
+        if ( std::string::npos != index && m_FilePath[index] == '.' ) {
             // We found a . at the end of the file, insert the rank string
             filename.insert(index, rankstr);
         }
diff --git a/src/sst/core/statapi/statoutputtxt.cc b/src/sst/core/statapi/statoutputtxt.cc
index 59f5fa7..937f56b 100644
--- a/src/sst/core/statapi/statoutputtxt.cc
+++ b/src/sst/core/statapi/statoutputtxt.cc
@@ -296,9 +296,9 @@ StatisticOutputTextBase::openFile()
         int         rank    = getRank().rank;
         std::string rankstr = "_" + std::to_string(rank);
 
-        // Search for any extension
-        size_t index = filename.find_last_of('.');
-        if ( std::string::npos != index ) {
+        // Search for any extension of the file's name, not of the directories it is in
+        size_t index = filename.find_last_of("./");
+        if ( std::string::npos != index && filename[index] == '.' ) {
             // We found a . at the end of the file, insert the rank string
             filename.insert(index, rankstr);
         }
-- 
2.43.0


From 2aa8637554c87262e69b06a554a4799152fec28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:38 +0000
Subject: [PATCH 64/96] fix: the rank is inserted in the name of a per-rank
 configuration file, not in that of its directory

---
 src/sst/core/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/main.cc b/src/sst/core/main.cc
index f4e3da7..8ddd7d5 100644
--- a/src/sst/core/main.cc
+++ b/src/sst/core/main.cc
@@ -245,11 +245,11 @@ do_link_preparation(ConfigGraph* graph, SST::Simulation* sim, const RankInfo& my
 static std::string
 addRankToFileName(std::string& file_name, int rank)
 {
-    auto        index = file_name.find_last_of('.');
+    auto        index = file_name.find_last_of("./");
     std::string base;
     std::string ext;
     // If there is an extension, add it before the extension
-    if ( index != std::string::npos ) {
+    if ( index != std::string::npos && file_name[index] == '.' ) {
         base = file_name.substr(0, index);
         ext  = file_name.substr(index);
     }
-- 
2.43.0


From 8f99d2a74dde98dce5dd9b21a12eadf47f707258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:01 +0000
Subject: [PATCH 65/96] fix: an unknown command line option ends the run with
 an error code

---
 src/sst/core/configBase.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/configBase.cc b/src/sst/core/configBase.cc
index 0bc28c5..d7b870e 100644
--- a/src/sst/core/configBase.cc
+++ b/src/sst/core/configBase.cc
@@ -486,7 +486,8 @@ ConfigBase::parseCmdLine(int argc, char* argv[], bool ignore_unknown)
         if ( c == '?' ) {
             // Unknown option
             if ( !ignore_unknown ) {
-                status = printUsage();
+                printUsage();
+                status = -1;
             }
         }
         else if ( option_index != 0 ) {
-- 
2.43.0


From c9b483c7ca2ac09348d2723e833e2f54bc3f30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:01 +0000
Subject: [PATCH 66/96] fix: a subcomponent slot filled twice in a JSON file is
 reported as such

---
 src/sst/core/model/json/jsonmodel.cc | 6 ++++++
 src/sst/core/model/json/jsonmodel.h  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index 70f4974..1c3a6c5 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -1093,6 +1093,12 @@ SSTConfigSaxHandler::constructSubComponent()
         shadow_component_stack_[shadow_component_stack_.size() - 2].comp->addSubComponent(
             shadow_component_stack_.back().name, shadow_component_stack_.back().type,
             shadow_component_stack_.back().slot_number);
+    if ( shadow_component_stack_.back().comp == nullptr ) {
+        error_str_ = "Error: Unable to create subcomponent in slot '" + shadow_component_stack_.back().name +
+                     "', number " + std::to_string(shadow_component_stack_.back().slot_number) + ", of '" +
+                     shadow_component_stack_[shadow_component_stack_.size() - 2].comp->getFullName() +
+                     "'. Is the slot already filled?";
+    }
 }
 
 void
diff --git a/src/sst/core/model/json/jsonmodel.h b/src/sst/core/model/json/jsonmodel.h
index f4e3c30..5c6ee76 100644
--- a/src/sst/core/model/json/jsonmodel.h
+++ b/src/sst/core/model/json/jsonmodel.h
@@ -65,7 +65,7 @@ public:
     const std::map<std::string, std::string> getProgramOptions();
 
     // error state
-    std::size_t error_pos_;
+    std::size_t error_pos_ = 0;
     std::string error_str_;
 
 private:
-- 
2.43.0


From dbc9879a3e5678af329ec724a502b3f43f914cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 67/96] fix: clock profile data of several threads is not
 nested in that of the first one

---
 src/sst/core/profile/clockHandlerProfileTool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/profile/clockHandlerProfileTool.cc b/src/sst/core/profile/clockHandlerProfileTool.cc
index 5ce1b4c..0c099cf 100644
--- a/src/sst/core/profile/clockHandlerProfileTool.cc
+++ b/src/sst/core/profile/clockHandlerProfileTool.cc
@@ -94,6 +94,7 @@ ClockHandlerProfileToolCount::outputData(SST::Util::DataRecord* record, RankInfo
         record->addData("count", x.second);
         record->changeLevelUp();
     }
+    record->changeLevelUp();
 }
 
 
@@ -125,6 +126,7 @@ ClockHandlerProfileToolTime<T>::outputData(SST::Util::DataRecord* record, RankIn
         }
         record->changeLevelUp();
     }
+    record->changeLevelUp();
 }
 
 
-- 
2.43.0


From d2e37fbd65238490c0be57256f2d29bdf7ab1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 68/96] fix: the times of profiled code segments are not nested
 in each other nor overwritten by their averages

---
 src/sst/core/profile/componentProfileTool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/profile/componentProfileTool.cc b/src/sst/core/profile/componentProfileTool.cc
index d44b129..ccea471 100644
--- a/src/sst/core/profile/componentProfileTool.cc
+++ b/src/sst/core/profile/componentProfileTool.cc
@@ -126,7 +126,8 @@ ComponentCodeSegmentProfileToolTime<T>::outputData(SST::Util::DataRecord* record
         record->addData("count", x.second.count);
         record->addData("time", UnitAlgebra(std::to_string(((double)x.second.time) / 1000000000) + "s"));
         if ( x.second.count != 0 )
-            record->addData("time", UnitAlgebra(std::to_string((x.second.time) / x.second.count) + "ns"));
+            record->addData("avg_time", UnitAlgebra(std::to_string((x.second.time) / x.second.count) + "ns"));
+        record->changeLevelUp();
     }
 }
 
-- 
2.43.0


From 0246f1f139b19d475441e97848e67b1d4abe6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 69/96] fix: the sync profile tools count every sync once

---
 src/sst/core/sync/syncManager.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 6cd209d..14685d9 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -563,7 +563,6 @@ SyncManager::execute()
     if ( sim_->interactive_ ) {
         interactive_enabled = true;
     }
-    if ( profile_tools_ ) profile_tools_->syncManagerStart(next_sync_type_ == RANK);
 
     SimTime_t next_checkpoint_time = checkpoint_->getNextCheckpointSimTime();
 
-- 
2.43.0


From e02b86733e526a76c133dca594d260bdb0298be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 70/96] fix: the sync profile of runs with several threads per
 rank is complete

---
 src/sst/core/profile/syncProfileTool.cc | 58 +++++++++++++------------
 src/sst/core/profile/syncProfileTool.h  | 24 +++++-----
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/sst/core/profile/syncProfileTool.cc b/src/sst/core/profile/syncProfileTool.cc
index aa9a77c..8629ba9 100644
--- a/src/sst/core/profile/syncProfileTool.cc
+++ b/src/sst/core/profile/syncProfileTool.cc
@@ -53,22 +53,24 @@ SyncProfileToolCount::updateSyncSize(size_t bytes, size_t events)
 void
 SyncProfileToolCount::outputData(SST::Util::DataRecord* record, RankInfo rank)
 {
-    if ( rank.thread == 0 ) {
-        record->setFormat(SST::Util::DataRecord::TextFormat::list);
+    // All threads of a rank take part in the same syncs
+    if ( rank.thread != 0 ) return;
 
-        std::map<std::string, std::pair<std::string, std::string>> keys = { { "sync", { "Sync Profiling Data", "" } },
-            { "ranksync_total_count", { "RankSync Total Syncs", "" } },
-            { "threadsync_total_count", { "ThreadSync Total Syncs", "" } },
-            { "ranksync_total_events", { "RankSync Total Events Exchanged", "" } },
-            { "ranksync_total_data", { "RankSync Total Data Exchanged", "" } } };
+    record->setFormat(SST::Util::DataRecord::TextFormat::list);
 
-        record->setKeys(keys);
-    }
+    std::map<std::string, std::pair<std::string, std::string>> keys = { { "sync", { "Sync Profiling Data", "" } },
+        { "ranksync_total_count", { "RankSync Total Syncs", "" } },
+        { "threadsync_total_count", { "ThreadSync Total Syncs", "" } },
+        { "ranksync_total_events", { "RankSync Total Events Exchanged", "" } },
+        { "ranksync_total_data", { "RankSync Total Data Exchanged", "" } } };
+
+    record->setKeys(keys);
     record->addChild("rank" + std::to_string(rank.rank));
     record->addData("ranksync_total_count", syncmanager_count);
     record->addData("threadsync_total_count", threadsync_count_);
-    record->addData("ranksync_total_events", events_exchanged_);
-    record->addData("ranksync_total_data", UnitAlgebra(std::to_string(bytes_exchanged_) + "B"));
+    record->addData("ranksync_total_events", events_exchanged_.load());
+    record->addData("ranksync_total_data", UnitAlgebra(std::to_string(bytes_exchanged_.load()) + "B"));
+    record->changeLevelUp();
 }
 
 
@@ -81,20 +83,21 @@ template <typename T>
 void
 SyncProfileToolTime<T>::outputData(SST::Util::DataRecord* record, RankInfo rank)
 {
-    if ( rank.thread == 0 ) {
-        std::map<std::string, std::pair<std::string, std::string>> keys = { { "sync", { "Sync Profiling Data", "" } },
-            { "ranksync_total_count", { "RankSync Total Syncs", "" } },
-            { "ranksync_total_time", { "RankSync Total Time", "" } },
-            { "ranksync_avg_time", { "RankSync Time per Sync", "" } },
-            { "threadsync_total_count", { "ThreadSync Total Syncs", "" } },
-            { "threadsync_total_time", { "ThreadSync Total Time", "" } },
-            { "threadsync_avg_time", { "ThreadSync Time per Sync", "" } },
-            { "ranksync_total_events", { "RankSync Total Events Exchanged", "" } },
-            { "ranksync_total_data", { "RankSync Total Data Exchanged", "" } } };
-
-        record->setKeys(keys);
-        record->setFormat(SST::Util::DataRecord::TextFormat::list);
-    }
+    // All threads of a rank take part in the same syncs
+    if ( rank.thread != 0 ) return;
+
+    std::map<std::string, std::pair<std::string, std::string>> keys = { { "sync", { "Sync Profiling Data", "" } },
+        { "ranksync_total_count", { "RankSync Total Syncs", "" } },
+        { "ranksync_total_time", { "RankSync Total Time", "" } },
+        { "ranksync_avg_time", { "RankSync Time per Sync", "" } },
+        { "threadsync_total_count", { "ThreadSync Total Syncs", "" } },
+        { "threadsync_total_time", { "ThreadSync Total Time", "" } },
+        { "threadsync_avg_time", { "ThreadSync Time per Sync", "" } },
+        { "ranksync_total_events", { "RankSync Total Events Exchanged", "" } },
+        { "ranksync_total_data", { "RankSync Total Data Exchanged", "" } } };
+
+    record->setKeys(keys);
+    record->setFormat(SST::Util::DataRecord::TextFormat::list);
     record->addChild("rank" + std::to_string(rank.rank));
     record->addData("ranksync_total_count", syncmanager_count);
     record->addData("ranksync_total_time", UnitAlgebra(std::to_string((float)syncmanager_time / 1000000000.0) + "s"));
@@ -113,8 +116,9 @@ SyncProfileToolTime<T>::outputData(SST::Util::DataRecord* record, RankInfo rank)
     else {
         record->addData("threadsync_avg_time", UnitAlgebra("0ns"));
     }
-    record->addData("ranksync_total_events", events_exchanged_);
-    record->addData("ranksync_total_data", UnitAlgebra(std::to_string(bytes_exchanged_) + "B"));
+    record->addData("ranksync_total_events", events_exchanged_.load());
+    record->addData("ranksync_total_data", UnitAlgebra(std::to_string(bytes_exchanged_.load()) + "B"));
+    record->changeLevelUp();
 }
 
 
diff --git a/src/sst/core/profile/syncProfileTool.h b/src/sst/core/profile/syncProfileTool.h
index d839465..f224a4c 100644
--- a/src/sst/core/profile/syncProfileTool.h
+++ b/src/sst/core/profile/syncProfileTool.h
@@ -19,6 +19,7 @@
 #include "sst/core/ssthandler.h"
 #include "sst/core/warnmacros.h"
 
+#include <atomic>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -81,10 +82,11 @@ public:
     void outputData(SST::Util::DataRecord* record, RankInfo rank) override;
 
 private:
-    uint64_t syncmanager_count = 0;
-    uint64_t threadsync_count_ = 0;
-    uint64_t events_exchanged_ = 0;
-    uint64_t bytes_exchanged_  = 0;
+    uint64_t              syncmanager_count = 0;
+    uint64_t              threadsync_count_ = 0;
+    // The threads of a rank may fill their sync queues at the same time
+    std::atomic<uint64_t> events_exchanged_ { 0 };
+    std::atomic<uint64_t> bytes_exchanged_ { 0 };
 };
 
 /**
@@ -128,13 +130,13 @@ public:
     void outputData(SST::Util::DataRecord* record, RankInfo rank) override;
 
 private:
-    uint64_t syncmanager_time  = 0;
-    uint64_t syncmanager_count = 0;
-    uint64_t threadsync_count  = 0;
-    uint64_t threadsync_time   = 0;
-    uint64_t events_exchanged_ = 0;
-    uint64_t bytes_exchanged_  = 0;
-    bool     rank_sync_        = false;
+    uint64_t              syncmanager_time  = 0;
+    uint64_t              syncmanager_count = 0;
+    uint64_t              threadsync_count  = 0;
+    uint64_t              threadsync_time   = 0;
+    std::atomic<uint64_t> events_exchanged_ { 0 };
+    std::atomic<uint64_t> bytes_exchanged_ { 0 };
+    bool                  rank_sync_ = false;
 
     typename T::time_point start_time_;
 };
-- 
2.43.0


From d1d7af26edcf9560a7198fec157edba66544bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 71/96] fix: only rank 0 opens the profiling output file

---
 src/sst/core/util/perfReporter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/util/perfReporter.cc b/src/sst/core/util/perfReporter.cc
index 52e395e..d92c3b0 100644
--- a/src/sst/core/util/perfReporter.cc
+++ b/src/sst/core/util/perfReporter.cc
@@ -228,19 +228,19 @@ PerfReporter::output(int rank, int num_ranks)
 
     if ( record_count == 0 ) return; // Nothing to print
 
-    // Set up files
+    // Set up files, only rank 0 writes
     std::ofstream filestream;
     if ( !filename_.empty() ) {
         const auto        pos = filename_.find_last_of('.');
         const std::string ext = (pos == std::string::npos) ? "" : filename_.substr(pos + 1);
         output_txt            = (ext == "txt");
         output_json           = (ext == "json");
-        filestream            = Simulation::filesystem.ofstream(filename_);
+        if ( rank == 0 ) filestream = Simulation::filesystem.ofstream(filename_);
     }
 
     std::cout << std::flush;
 
-    if ( output_json ) {
+    if ( output_json && rank == 0 ) {
         filestream << "{\n";
     }
 
-- 
2.43.0


From 46dfea9bbbb4e7471b4c5af38fb95ba66a13e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 72/96] fix: the profiling output is valid JSON when rank 0 has
 nothing to report

---
 src/sst/core/util/perfReporter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/util/perfReporter.cc b/src/sst/core/util/perfReporter.cc
index d92c3b0..dc0e8ae 100644
--- a/src/sst/core/util/perfReporter.cc
+++ b/src/sst/core/util/perfReporter.cc
@@ -287,6 +287,7 @@ PerfReporter::output(int rank, int num_ranks)
                 filestream << '"' << record.second->root_->name_ << "\": {\n";
                 outputRecordToJSON(record.second->root_, &json_o);
                 size_t item_count = 0;
+                bool   any_item   = json_o.size() != 0;
                 for ( auto& [key, val] : json_o.items() ) {
                     item_count++;
                     filestream << "\"" << key << "\": " << val.dump(2);
@@ -299,7 +300,9 @@ PerfReporter::output(int rank, int num_ranks)
                     // Receive from each other rank
                     const std::string remote_str = recvStringFromRank(i);
                     if ( remote_str.empty() ) continue;
-                    filestream << ",\n" << remote_str;
+                    if ( any_item ) filestream << ",\n";
+                    filestream << remote_str;
+                    any_item = true;
                 }
 
                 if ( idx != records_.size() ) {
-- 
2.43.0


From 5959fc7c3e5e4395b25cf256b4083af25da66f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:49 +0000
Subject: [PATCH 73/96] fix: a configuration output file that cannot be opened
 is a fatal error instead of an uncaught exception

---
 src/sst/core/configGraphOutput.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sst/core/configGraphOutput.cc b/src/sst/core/configGraphOutput.cc
index 3bf200a..bbf556c 100644
--- a/src/sst/core/configGraphOutput.cc
+++ b/src/sst/core/configGraphOutput.cc
@@ -14,15 +14,23 @@
 
 #include "sst/core/configGraphOutput.h"
 
+#include "sst/core/output.h"
 #include "sst/core/simulation.h"
 #include "sst/core/util/filesystem.h"
 
+#include <cerrno>
+#include <cstring>
+
 namespace SST::Core {
 
 ConfigGraphOutput::ConfigGraphOutput(const char* path)
 {
     SST::Util::Filesystem filesystem = Simulation::filesystem;
     outputFile                       = filesystem.fopen(path, "wt");
+    if ( nullptr == outputFile ) {
+        Output::getDefaultObject().fatal(
+            CALL_INFO, 1, "ERROR: could not open file %s to write the configuration: %s\n", path, strerror(errno));
+    }
 }
 
 } // namespace SST::Core
-- 
2.43.0


From f7480a2760b2b1055366ebce1e91393ef84d4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:49 +0000
Subject: [PATCH 74/96] fix: a clock handler that is registered again is
 profiled once

---
 src/sst/core/baseComponent.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/baseComponent.cc b/src/sst/core/baseComponent.cc
index 632f7a3..0024330 100644
--- a/src/sst/core/baseComponent.cc
+++ b/src/sst/core/baseComponent.cc
@@ -501,6 +501,8 @@ void
 BaseComponent::registerClock_impl(TimeConverter tc, Clock::HandlerBase* handler, bool reg_all, bool group)
 {
 
+    bool found = false;
+
     if ( group ) {
         Clock::Group* group = getClockGroup(tc);
         group->registerHandler(handler);
@@ -509,7 +511,6 @@ BaseComponent::registerClock_impl(TimeConverter tc, Clock::HandlerBase* handler,
         sim_->registerClock(tc, handler, CLOCKPRIORITY);
 
         // Need to see if I already know about this clock handler
-        bool found = false;
         for ( auto* x : clock_handlers_ ) {
             if ( handler == x ) {
                 found = true;
@@ -523,6 +524,8 @@ BaseComponent::registerClock_impl(TimeConverter tc, Clock::HandlerBase* handler,
     auto tools = sim_->getProfileTool<Profile::ClockHandlerProfileTool>("clock");
 
     for ( auto* tool : tools ) {
+        // A handler that is registered again still has its tools
+        if ( found ) break;
         ClockHandlerMetaData mdata(my_info_->getID(), getName(), getType());
         // Add the receive profiler to the handler
         handler->attachTool(tool, mdata);
-- 
2.43.0


From e16f56c8f2b40c7f0b3d59e463bc844c9aee15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:50 +0000
Subject: [PATCH 75/96] fix: a rank with nothing to report no longer loses the
 next record of the profiling output

---
 src/sst/core/util/perfReporter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/util/perfReporter.cc b/src/sst/core/util/perfReporter.cc
index dc0e8ae..5b7dc43 100644
--- a/src/sst/core/util/perfReporter.cc
+++ b/src/sst/core/util/perfReporter.cc
@@ -357,7 +357,7 @@ PerfReporter::output(int rank, int num_ranks)
                     std::string send_str = str.str();
                     int         length   = send_str.size();
                     SST_MPI_Send(&length, 1, MPI_INT, 0, 0, MPI_COMM_WORLD);
-                    SST_MPI_Send(send_str.data(), length, MPI_CHAR, 0, 0, MPI_COMM_WORLD);
+                    if ( length > 0 ) SST_MPI_Send(send_str.data(), length, MPI_CHAR, 0, 0, MPI_COMM_WORLD);
                 }
             }
 
@@ -383,7 +383,7 @@ PerfReporter::output(int rank, int num_ranks)
 
                     int length = send_str.size();
                     SST_MPI_Send(&length, 1, MPI_INT, 0, 0, MPI_COMM_WORLD);
-                    SST_MPI_Send(send_str.data(), length, MPI_CHAR, 0, 0, MPI_COMM_WORLD);
+                    if ( length > 0 ) SST_MPI_Send(send_str.data(), length, MPI_CHAR, 0, 0, MPI_COMM_WORLD);
                 }
             }
         }
-- 
2.43.0


From 210ad1b7abdfe3dd0f808500ec847d8afa929e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:50 +0000
Subject: [PATCH 76/96] fix: ranks that create the same directory at the same
 time no longer fail

---
 src/sst/core/util/filesystem.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/util/filesystem.cc b/src/sst/core/util/filesystem.cc
index 261b169..4300d95 100644
--- a/src/sst/core/util/filesystem.cc
+++ b/src/sst/core/util/filesystem.cc
@@ -162,7 +162,10 @@ Filesystem::ensureDirectoryExists(std::filesystem::path p, bool strip_filename)
         return isDirectoryWritable(absolute_path);
     }
 
-    return fs::create_directories(path);
+    // Another process may create the directory at the same time
+    std::error_code ec;
+    fs::create_directories(path, ec);
+    return fs::is_directory(path) && isDirectoryWritable(absolute_path);
 }
 
 std::string
-- 
2.43.0


From 39a45084609fd50729a845383b299627258c1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:11 +0000
Subject: [PATCH 77/96] fix: polling links can be used with direct interthread
 links

---
 src/sst/core/pollingLinkQueue.cc | 7 +++++++
 src/sst/core/pollingLinkQueue.h  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/sst/core/pollingLinkQueue.cc b/src/sst/core/pollingLinkQueue.cc
index 54cf0d2..5ad59fd 100644
--- a/src/sst/core/pollingLinkQueue.cc
+++ b/src/sst/core/pollingLinkQueue.cc
@@ -13,6 +13,8 @@
 
 #include "sst/core/pollingLinkQueue.h"
 
+#include <mutex>
+
 namespace SST {
 
 PollingLinkQueue::~PollingLinkQueue()
@@ -27,24 +29,28 @@ PollingLinkQueue::~PollingLinkQueue()
 bool
 PollingLinkQueue::empty()
 {
+    std::scoped_lock lock(slock);
     return data.empty();
 }
 
 int
 PollingLinkQueue::size()
 {
+    std::scoped_lock lock(slock);
     return data.size();
 }
 
 void
 PollingLinkQueue::insert(Activity* activity)
 {
+    std::scoped_lock lock(slock);
     data.insert(activity);
 }
 
 Activity*
 PollingLinkQueue::pop()
 {
+    std::scoped_lock lock(slock);
     if ( data.size() == 0 ) return nullptr;
     auto      it      = data.begin();
     Activity* ret_val = (*it);
@@ -55,6 +61,7 @@ PollingLinkQueue::pop()
 Activity*
 PollingLinkQueue::front()
 {
+    std::scoped_lock lock(slock);
     if ( data.size() == 0 ) return nullptr;
     return *data.begin();
 }
diff --git a/src/sst/core/pollingLinkQueue.h b/src/sst/core/pollingLinkQueue.h
index 7456058..a0b05e3 100644
--- a/src/sst/core/pollingLinkQueue.h
+++ b/src/sst/core/pollingLinkQueue.h
@@ -13,6 +13,7 @@
 #define SST_CORE_POLLINGLINKQUEUE_H
 
 #include "sst/core/activityQueue.h"
+#include "sst/core/threadsafe.h"
 
 #include <set>
 
@@ -37,6 +38,9 @@ public:
 
 private:
     std::multiset<Activity*, Activity::less<true, false, false>> data;
+
+    // With direct interthread links, events are inserted by the sending thread
+    Core::ThreadSafe::Spinlock slock;
 };
 
 } // namespace SST
-- 
2.43.0


From c0ac4d9605d0d586f29fd570c85175744208d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:22 +0000
Subject: [PATCH 78/96] fix: parallel runs end, as serial ones, when there is
 nothing left to do

With primary components that never agreed to end, runs with threads executed the sync at the end of time forever, and the next sync of runs with
several ranks overflowed to an earlier time (time fault).
---
 src/sst/core/sync/rankSyncParallelSkip.cc |  3 ++-
 src/sst/core/sync/rankSyncSerialSkip.cc   |  3 ++-
 src/sst/core/sync/syncManager.cc          | 13 +++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sync/rankSyncParallelSkip.cc b/src/sst/core/sync/rankSyncParallelSkip.cc
index e2f4eb9..ebcea7f 100644
--- a/src/sst/core/sync/rankSyncParallelSkip.cc
+++ b/src/sst/core/sync/rankSyncParallelSkip.cc
@@ -445,7 +445,8 @@ RankSyncParallelSkip::exchange_master(int UNUSED(thread))
     SimTime_t min_time;
     MPI_Allreduce(&input, &min_time, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 
-    myNextSyncTime = min_time + max_period;
+    // If there is nothing left to do on any rank, the next sync is at the end of time
+    myNextSyncTime = min_time > MAX_SIMTIME_T - max_period ? MAX_SIMTIME_T : min_time + max_period;
 
     /* Exchange signals */
     int32_t local_signals[3]  = { sig_end_, sig_usr_, sig_alrm_ };
diff --git a/src/sst/core/sync/rankSyncSerialSkip.cc b/src/sst/core/sync/rankSyncSerialSkip.cc
index c59f4de..db17f23 100644
--- a/src/sst/core/sync/rankSyncSerialSkip.cc
+++ b/src/sst/core/sync/rankSyncSerialSkip.cc
@@ -325,7 +325,8 @@ RankSyncSerialSkip::exchange()
     SimTime_t min_time;
     MPI_Allreduce(&input, &min_time, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 
-    myNextSyncTime = min_time + max_period;
+    // If there is nothing left to do on any rank, the next sync is at the end of time
+    myNextSyncTime = min_time > MAX_SIMTIME_T - max_period ? MAX_SIMTIME_T : min_time + max_period;
 
     int32_t local_signals[3]  = { sig_end_, sig_usr_, sig_alrm_ };
     int32_t global_signals[3] = { 0, 0, 0 };
diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 14685d9..5bb3449 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -560,6 +560,19 @@ SyncManager::execute()
     Simulation::ShutdownMode_t shutdown_mode       = Simulation::ShutdownMode_t::SHUTDOWN_CLEAN;
     bool                       generate_ckpt       = false;
 
+    // A sync is only scheduled at the end of time if there is no activity left on any thread of any rank it
+    // synchronizes. As in serial runs, that ends the simulation.
+    if ( getDeliveryTime() == MAX_SIMTIME_T ) {
+        RankExecBarrier_[0].wait();
+        if ( rank_.rank == 0 && rank_.thread == 0 ) {
+            Output::getDefaultObject().output("*** Event queue empty, exiting simulation... ***\n");
+        }
+        sim_->insertActivity(MAX_SIMTIME_T, this);
+        if ( profile_tools_ ) profile_tools_->syncManagerEnd();
+        endSimulation();
+        return;
+    }
+
     if ( sim_->interactive_ ) {
         interactive_enabled = true;
     }
-- 
2.43.0


From 6d7afed82cac6ae897d58ec3b2b5bf2a4c99dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:27 +0000
Subject: [PATCH 79/96] fix: Output files are shared by copies, stay usable
 after being closed, and are opened once by several threads

---
 src/sst/core/output.cc | 145 ++++++++++++++++++++++++-----------------
 src/sst/core/output.h  |  46 +++++++------
 2 files changed, 111 insertions(+), 80 deletions(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 3f889fd..7b6598f 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -26,6 +26,8 @@
 #include <cstddef>
 #include <cstdlib>
 #include <cstring>
+#include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -40,9 +42,10 @@ namespace SST {
 
 // Initialize The Static Member Variables
 Output      Output::m_defaultObject;
-std::string Output::m_sstGlobalSimFileName        = "";
-std::FILE*  Output::m_sstGlobalSimFileHandle      = nullptr;
-uint32_t    Output::m_sstGlobalSimFileAccessCount = 0;
+Output::TargetFile Output::m_sstGlobalSimFile;
+
+// Guards the target files, as the global one is shared by all threads
+static std::mutex target_file_mutex;
 
 std::unordered_map<std::thread::id, uint32_t> Output::m_threadMap;
 int                                           Output::m_worldSize_ranks;
@@ -77,15 +80,12 @@ Output::init(const std::string& prefix, uint32_t verbose_level, uint32_t verbose
     if ( false == m_objInitialized ) {
 
         // Set Member Variables
-        m_outputPrefix             = prefix;
-        m_verboseLevel             = verbose_level;
-        m_verboseMask              = verbose_mask;
-        m_sstLocalFileName         = localoutputfilename;
-        m_sstLocalFileHandle       = nullptr;
-        m_sstLocalFileAccessCount  = 0;
-        m_targetFileHandleRef      = nullptr;
-        m_targetFileNameRef        = nullptr;
-        m_targetFileAccessCountRef = nullptr;
+        m_outputPrefix     = prefix;
+        m_verboseLevel     = verbose_level;
+        m_verboseMask      = verbose_mask;
+        m_sstLocalFileName = localoutputfilename;
+        m_sstLocalFile.reset();
+        m_targetFile = nullptr;
 
         setTargetOutput(location);
 
@@ -93,6 +93,35 @@ Output::init(const std::string& prefix, uint32_t verbose_level, uint32_t verbose
     }
 }
 
+Output::Output(const Output& other) :
+    m_objInitialized(other.m_objInitialized),
+    m_outputPrefix(other.m_outputPrefix),
+    m_verboseLevel(other.m_verboseLevel),
+    m_verboseMask(other.m_verboseMask),
+    m_sstLocalFileName(other.m_sstLocalFileName),
+    m_sstLocalFile(other.m_sstLocalFile)
+{
+    setTargetOutput(other.m_targetLoc);
+}
+
+Output&
+Output::operator=(const Output& other)
+{
+    if ( this != &other ) {
+        // Check to see if we need to close the file
+        closeSSTTargetFile();
+
+        m_objInitialized   = other.m_objInitialized;
+        m_outputPrefix     = other.m_outputPrefix;
+        m_verboseLevel     = other.m_verboseLevel;
+        m_verboseMask      = other.m_verboseMask;
+        m_sstLocalFileName = other.m_sstLocalFileName;
+        m_sstLocalFile     = other.m_sstLocalFile;
+        setTargetOutput(other.m_targetLoc);
+    }
+    return *this;
+}
+
 Output::~Output()
 {
     // Check to see if we need to close the file
@@ -230,12 +259,12 @@ Output::setFileName(const std::string& filename) /* STATIC METHOD */
     }
 
     // Set the Filename, only if it has not yet been set.
-    if ( 0 == m_sstGlobalSimFileName.length() ) {
-        m_sstGlobalSimFileName = filename;
+    if ( 0 == m_sstGlobalSimFile.name.length() ) {
+        m_sstGlobalSimFile.name = filename;
     }
     else {
         fprintf(stderr, "ERROR: Output::setFileName() - Filename is already set to %s, and cannot be changed.\n",
-            m_sstGlobalSimFileName.c_str());
+            m_sstGlobalSimFile.name.c_str());
         exit(-1);
     }
 }
@@ -253,21 +282,22 @@ Output::setTargetOutput(output_location_t location)
     case FILE:
         // Decide if we are sending output to the System Output file or the local debug file
         if ( 0 == m_sstLocalFileName.length() ) {
-            // Set the references to the Global Simulation target file info
-            m_targetOutputRef          = &m_sstGlobalSimFileHandle;
-            m_targetFileHandleRef      = &m_sstGlobalSimFileHandle;
-            m_targetFileNameRef        = &m_sstGlobalSimFileName;
-            m_targetFileAccessCountRef = &m_sstGlobalSimFileAccessCount;
+            m_targetFile = &m_sstGlobalSimFile;
         }
         else {
-            // Set the references to the Local output target file info
-            m_targetOutputRef          = &m_sstLocalFileHandle;
-            m_targetFileHandleRef      = &m_sstLocalFileHandle;
-            m_targetFileNameRef        = &m_sstLocalFileName;
-            m_targetFileAccessCountRef = &m_sstLocalFileAccessCount;
+            if ( !m_sstLocalFile ) {
+                m_sstLocalFile       = std::make_shared<TargetFile>();
+                m_sstLocalFile->name = m_sstLocalFileName;
+            }
+            m_targetFile = m_sstLocalFile.get();
         }
+        m_targetOutputRef = &m_targetFile->handle;
+
         // Increment the Access count for the target output file
-        (*m_targetFileAccessCountRef)++;
+        {
+            std::lock_guard<std::mutex> lock(target_file_mutex);
+            m_targetFile->access_count++;
+        }
         break;
     case STDERR:
         m_targetOutputRef = &stderr;
@@ -283,35 +313,30 @@ Output::setTargetOutput(output_location_t location)
 void
 Output::openSSTTargetFile() const
 {
-    std::FILE*  handle;
-    std::string tempFileName;
-    char        tempBuf[256];
+    if ( true == m_objInitialized && FILE == m_targetLoc ) {
+        std::unique_lock<std::mutex> lock(target_file_mutex);
 
-    if ( true == m_objInitialized ) {
         // If the target output is a file, See if the output file is created and opened
-        if ( (FILE == m_targetLoc) && (nullptr == *m_targetFileHandleRef) ) {
-
-            // Check to see if the File has not been opened.
-            if ( (*m_targetFileAccessCountRef > 0) && (nullptr == *m_targetFileHandleRef) ) {
-                tempFileName = *m_targetFileNameRef;
+        if ( nullptr == m_targetFile->handle ) {
+            std::string tempFileName = m_targetFile->name;
 
-                // Append the rank to file name if MPI_COMM_WORLD is GT 1
-                if ( getMPIWorldSize() > 1 ) {
-                    snprintf(tempBuf, 256, "%d", getMPIWorldRank());
-                    tempFileName += tempBuf;
-                }
+            // Append the rank to file name if MPI_COMM_WORLD is GT 1
+            if ( getMPIWorldSize() > 1 ) {
+                tempFileName += std::to_string(getMPIWorldRank());
+            }
 
-                // Now try to open the file
-                handle = fopen(tempFileName.c_str(), "w");
-                if ( nullptr != handle ) {
-                    *m_targetFileHandleRef = handle;
-                }
-                else {
-                    // We got an error of some sort
-                    fprintf(stderr, "ERROR: Output::openSSTTargetFile() - Problem opening File %s - %s\n",
-                        tempFileName.c_str(), strerror(errno));
-                    exit(-1);
-                }
+            // Now try to open the file. If it was closed in between, continue it.
+            std::FILE* handle = fopen(tempFileName.c_str(), m_targetFile->opened ? "a" : "w");
+            if ( nullptr != handle ) {
+                m_targetFile->handle = handle;
+                m_targetFile->opened = true;
+            }
+            else {
+                // We got an error of some sort
+                lock.unlock();
+                fprintf(stderr, "ERROR: Output::openSSTTargetFile() - Problem opening File %s - %s\n",
+                    tempFileName.c_str(), strerror(errno));
+                exit(-1);
             }
         }
     }
@@ -321,14 +346,17 @@ void
 Output::closeSSTTargetFile()
 {
     if ( (true == m_objInitialized) && (FILE == m_targetLoc) ) {
+        std::lock_guard<std::mutex> lock(target_file_mutex);
+
         // Decrement the Access count for the file
-        if ( *m_targetFileAccessCountRef > 0 ) {
-            (*m_targetFileAccessCountRef)--;
+        if ( m_targetFile->access_count > 0 ) {
+            m_targetFile->access_count--;
         }
 
         // If the access count is zero, and the file has been opened, then close it
-        if ( (0 == *m_targetFileAccessCountRef) && (nullptr != *m_targetFileHandleRef) && (FILE == m_targetLoc) ) {
-            fclose(*m_targetFileHandleRef);
+        if ( (0 == m_targetFile->access_count) && (nullptr != m_targetFile->handle) ) {
+            fclose(m_targetFile->handle);
+            m_targetFile->handle = nullptr;
         }
     }
 }
@@ -501,11 +529,8 @@ Output::serialize_order(SST::Core::Serialization::serializer& ser)
 
     if ( ser.mode() == SST::Core::Serialization::serializer::UNPACK && m_objInitialized ) {
         // Set Member Variables
-        m_sstLocalFileHandle       = nullptr;
-        m_sstLocalFileAccessCount  = 0;
-        m_targetFileHandleRef      = nullptr;
-        m_targetFileNameRef        = nullptr;
-        m_targetFileAccessCountRef = nullptr;
+        m_sstLocalFile.reset();
+        m_targetFile = nullptr;
 
         setTargetOutput(m_targetLoc);
     }
diff --git a/src/sst/core/output.h b/src/sst/core/output.h
index 959421d..c43047b 100644
--- a/src/sst/core/output.h
+++ b/src/sst/core/output.h
@@ -17,6 +17,7 @@
 
 #include <cstdarg>
 #include <cstdint>
+#include <memory>
 #include <string>
 #include <utility>
 #include <vector>
@@ -125,8 +126,9 @@ public:
 
     ~Output();
 
-    Output(const Output&)            = default;
-    Output& operator=(const Output&) = default;
+    /** Copies write to the same file as the original (if the location is FILE) */
+    Output(const Output& other);
+    Output& operator=(const Output& other);
 
     /** Initialize the object after construction
         @param prefix Prefix to be prepended to all strings emitted by calls to
@@ -534,24 +536,28 @@ private:
     // depending upon constructor for the object.  However m_sstFileHandle is a
     // static variable that is set by the startup of SST, and the location
     // cannot be changed in the constructor or a call to setFileName().
-    std::FILE** m_targetOutputRef;
-
-    // m_targetFileHandleRef, m_targetFileNameRef, and m_targetFileAccessCount
-    // are pointers to their associated types.  These point to either the local
-    // output file information or to the global simulation output file information.
-    std::FILE**  m_targetFileHandleRef;
-    std::string* m_targetFileNameRef;
-    uint32_t*    m_targetFileAccessCountRef;
-
-    // Static Member Variables regarding the Global simulation file info
-    static std::string m_sstGlobalSimFileName;
-    static std::FILE*  m_sstGlobalSimFileHandle;
-    static uint32_t    m_sstGlobalSimFileAccessCount;
-
-    // File Member Variables regarding the local simulation file info
-    std::string m_sstLocalFileName;
-    std::FILE*  m_sstLocalFileHandle;
-    uint32_t    m_sstLocalFileAccessCount;
+    std::FILE** m_targetOutputRef = &stdout;
+
+    // A file that is written to, shared by the objects (and, for the global
+    // simulation file, threads) that write to it
+    struct TargetFile
+    {
+        std::string name;
+        std::FILE*  handle       = nullptr;
+        uint32_t    access_count = 0;
+        bool        opened       = false; // The file was opened before
+    };
+
+    // Points to either the local output file information or to the global
+    // simulation output file information.
+    TargetFile* m_targetFile = nullptr;
+
+    // Information regarding the Global simulation file
+    static TargetFile m_sstGlobalSimFile;
+
+    // Information regarding the local simulation file (also held by copies of this object)
+    std::string                 m_sstLocalFileName;
+    std::shared_ptr<TargetFile> m_sstLocalFile;
 
     static std::unordered_map<std::thread::id, uint32_t> m_threadMap;
     static int                                           m_worldSize_ranks;
-- 
2.43.0


From 3f22f79e79cca8abdbaab03cd4254aafc00d3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:27 +0000
Subject: [PATCH 80/96] fix: a percent sign in the prefix of an Output object
 stands for itself

---
 src/sst/core/output.cc | 17 +++++++++++++++--
 src/sst/core/output.h  |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 7b6598f..6b95f45 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -188,7 +188,7 @@ Output::fatal(uint32_t line, const char* file, const char* func, int exit_code,
     va_list     arg2;
     std::string newFmt;
 
-    newFmt = std::string("FATAL: ") + buildPrefixString(line, file, func) + format;
+    newFmt = std::string("FATAL: ") + buildFormatString(line, file, func, format);
 
     // Get the argument list
     va_start(arg1, format);
@@ -463,6 +463,19 @@ Output::buildPrefixString(uint32_t line, const std::string& file, const std::str
     return rtnstring;
 }
 
+std::string
+Output::buildFormatString(
+    uint32_t line, const std::string& file, const std::string& func, const char* format) const
+{
+    // The expanded prefix is not part of the format, so its % stand for themselves
+    std::string rtnstring;
+    for ( char ch : buildPrefixString(line, file, func) ) {
+        rtnstring += ch;
+        if ( '%' == ch ) rtnstring += ch;
+    }
+    return rtnstring + format;
+}
+
 void
 Output::outputprintf(
     uint32_t line, const std::string& file, const std::string& func, const char* format, va_list arg) const
@@ -474,7 +487,7 @@ Output::outputprintf(
 
     // Check to make sure output location is not NONE
     if ( NONE != m_targetLoc ) {
-        newFmt = buildPrefixString(line, file, func) + format;
+        newFmt = buildFormatString(line, file, func, format);
         std::vfprintf(*m_targetOutputRef, newFmt.c_str(), arg);
         if ( FILE == m_targetLoc ) fflush(*m_targetOutputRef);
     }
diff --git a/src/sst/core/output.h b/src/sst/core/output.h
index c43047b..f58bb61 100644
--- a/src/sst/core/output.h
+++ b/src/sst/core/output.h
@@ -479,6 +479,8 @@ private:
     uint32_t    getNumThreads() const;
     uint32_t    getThreadRank() const;
     std::string buildPrefixString(uint32_t line, const std::string& file, const std::string& func) const;
+    std::string buildFormatString(
+        uint32_t line, const std::string& file, const std::string& func, const char* format) const;
 
     void outputprintf(uint32_t line, const std::string& file, const std::string& func, const char* format,
         va_list arg) const __attribute__((format(printf, 5, 0)));
-- 
2.43.0


From 10c388fb6cebaa933ec6e1165c2f1a6d2c0aff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:48 +0000
Subject: [PATCH 81/96] fix: a fatal error does not lose the messages written
 to stdout before it

---
 src/sst/core/output.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 6b95f45..67802ad 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -215,9 +215,8 @@ Output::fatal(uint32_t line, const char* file, const char* func, int exit_code,
         va_end(arg2);
     }
 
-    // Flush the outputs
-    std::fflush(stderr);
-    flush();
+    // Flush the outputs, including what other objects have written (ending with MPI_Abort() does not)
+    std::fflush(nullptr);
 
 #ifdef HAVE_BACKTRACE
     // Back trace so we know where this happened.
-- 
2.43.0


From 0b87b874d0d8eae247fbdcd91317ae5a7e4a5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:01 +0000
Subject: [PATCH 82/96] fix: debug console prints large unsigned values as they
 are

---
 src/sst/core/serialization/ObjTreeLeaves.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/serialization/ObjTreeLeaves.h b/src/sst/core/serialization/ObjTreeLeaves.h
index bdd26b2..e986303 100644
--- a/src/sst/core/serialization/ObjTreeLeaves.h
+++ b/src/sst/core/serialization/ObjTreeLeaves.h
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <utility>
 #include <variant>
 #include <vector>
@@ -507,9 +508,15 @@ public:
         return std::visit(std::forward<Visitor>(visitor), val_);
     }
 
+    // The widest type with the signedness of T, used to print values as numbers
+    template <typename T>
+    using Wide = std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>;
+
     void apply() override
     {
-        visit([](auto val) { std::cout << "Processing integer: " << static_cast<int64_t>(val) << std::endl; });
+        visit([](auto val) {
+            std::cout << "Processing integer: " << static_cast<Wide<decltype(val)>>(val) << std::endl;
+        });
     }
 
     void Dump(
@@ -526,7 +533,7 @@ public:
                 if ( base != std::ios_base::dec ) {
                     os.setf(std::ios_base::showbase);
                 }
-                os << getObjName() << ro << " = " << static_cast<int64_t>(val) << std::endl;
+                os << getObjName() << ro << " = " << static_cast<Wide<decltype(val)>>(val) << std::endl;
                 os.flags(old_flags);
             });
         }
@@ -537,7 +544,8 @@ public:
                 if ( base != std::ios_base::dec ) {
                     os.setf(std::ios_base::showbase);
                 }
-                os << getObjName() << ro << " = " << static_cast<int64_t>(val) << " (" << getType() << ")" << std::endl;
+                os << getObjName() << ro << " = " << static_cast<Wide<decltype(val)>>(val) << " (" << getType() << ")"
+                   << std::endl;
                 os.flags(old_flags);
             });
         }
-- 
2.43.0


From e4c05a2473f2c22564c9badbad2798c2d2483897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:01 +0000
Subject: [PATCH 83/96] fix: debug console set refuses values that the variable
 cannot hold

---
 src/sst/core/serialization/ObjTreeLeaves.h | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/serialization/ObjTreeLeaves.h b/src/sst/core/serialization/ObjTreeLeaves.h
index e986303..d06abe5 100644
--- a/src/sst/core/serialization/ObjTreeLeaves.h
+++ b/src/sst/core/serialization/ObjTreeLeaves.h
@@ -557,11 +557,22 @@ public:
             return false;
         }
         try {
-            visit([&](auto& current) {
-                using T = std::decay_t<decltype(current)>;
-                setSimVal(static_cast<T>(std::stoll(value)));
+            // The value has to be a number that the type can hold
+            return visit([&](auto& current) {
+                using T    = std::decay_t<decltype(current)>;
+                size_t pos = 0;
+                Wide<T> v  = 0;
+                if constexpr ( std::is_signed_v<T> ) {
+                    v = std::stoll(value, &pos);
+                }
+                else {
+                    if ( value.find('-') != std::string::npos ) return false;
+                    v = std::stoull(value, &pos);
+                }
+                if ( pos != value.size() || static_cast<Wide<T>>(static_cast<T>(v)) != v ) return false;
+                setSimVal(static_cast<T>(v));
+                return true;
             });
-            return true;
         }
         catch ( ... ) {
             return false;
@@ -733,11 +744,14 @@ public:
             return false;
         }
         try {
-            visit([&](auto& current) {
-                using T = std::decay_t<decltype(current)>;
-                setSimVal(static_cast<T>(std::stold(value)));
+            return visit([&](auto& current) {
+                using T       = std::decay_t<decltype(current)>;
+                size_t      p = 0;
+                long double v = std::stold(value, &p);
+                if ( p != value.size() ) return false;
+                setSimVal(static_cast<T>(v));
+                return true;
             });
-            return true;
         }
         catch ( ... ) {
             return false;
@@ -1016,6 +1030,7 @@ public:
             std::cout << "WARNING Cannot set ReadOnly Obj " << name_ << std::endl;
             return false;
         }
+        if ( value != "true" && value != "1" && value != "false" && value != "0" ) return false;
         setSimVal(value == "true" || value == "1");
         return true;
     }
-- 
2.43.0


From afa6de5a18ceb98b46b03289b54fb83c3f8b907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:01 +0000
Subject: [PATCH 84/96] fix: debug console print without a format after -f

---
 src/sst/core/impl/interactive/debugConsole.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index 8b55bd1..9f3c2ca 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -1934,6 +1934,11 @@ DebugConsole::cmd_print_remote(std::vector<std::string>& tokens)
     std::ios_base::fmtflags base = std::ios_base::dec;
     if ( std::string::npos != pos ) {
         // found format specifier
+        if ( tokens.size() < (pos + 2) ) {
+            std::cout << "Invalid format for print command (print [-r N] [-v N] [-f <base>] [<obj>][[idx][idx]])"
+                      << std::endl;
+            return false;
+        }
         fmt = tokens[pos + 1];
 
         if ( "hex" == fmt ) {
-- 
2.43.0


From 9ac74edca361e6c1f1ed6cd6a7d958e3108899fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:17 +0000
Subject: [PATCH 85/96] fix: watchpoints compare signed with unsigned variables
 by their values

---
 src/sst/core/impl/interactive/NumericHandle.h | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/impl/interactive/NumericHandle.h b/src/sst/core/impl/interactive/NumericHandle.h
index ce05698..0e0b484 100644
--- a/src/sst/core/impl/interactive/NumericHandle.h
+++ b/src/sst/core/impl/interactive/NumericHandle.h
@@ -111,6 +111,25 @@ public:
     }
 
 private:
+    // Compare integers by their value, also when only one of the types is signed
+    template <typename Lhs, typename Rhs, typename Cmp>
+    static bool cmpIntegers(Lhs lhs, Rhs rhs, Cmp cmp)
+    {
+        if constexpr ( std::is_signed_v<Lhs> == std::is_signed_v<Rhs> ) {
+            using Common = std::common_type_t<Lhs, Rhs>;
+            return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+        }
+        else {
+            if constexpr ( std::is_signed_v<Lhs> ) {
+                if ( lhs < 0 ) return cmp(-1, 0);
+            }
+            else {
+                if ( rhs < 0 ) return cmp(0, -1);
+            }
+            return cmp(static_cast<uint64_t>(lhs), static_cast<uint64_t>(rhs));
+        }
+    }
+
     // Visit both sides' variants and compare directly.
     template <typename Cmp>
     bool cmpHandle(const NumericHandle& rhs, Cmp cmp) const
@@ -121,8 +140,7 @@ private:
         auto visitRhs = [&](auto lhsVal) -> bool {
             auto inner = [&](auto rhsVal) -> bool {
                 if constexpr ( std::is_integral_v<decltype(lhsVal)> && std::is_integral_v<decltype(rhsVal)> ) {
-                    using Common = std::common_type_t<decltype(lhsVal), decltype(rhsVal)>;
-                    return cmp(static_cast<Common>(lhsVal), static_cast<Common>(rhsVal));
+                    return cmpIntegers(lhsVal, rhsVal, cmp);
                 }
                 else {
                     return cmp(static_cast<long double>(lhsVal), static_cast<long double>(rhsVal));
@@ -152,8 +170,7 @@ private:
             return asInteger()->visit([&](auto lhs) {
                 if constexpr ( std::is_integral_v<decltype(lhs)> && std::is_integral_v<ConstT> ) {
                     // Both sides integral — compare without floating-point loss
-                    using Common = std::common_type_t<decltype(lhs), ConstT>;
-                    return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                    return cmpIntegers(lhs, rhs, cmp);
                 }
                 else {
                     return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
@@ -167,8 +184,7 @@ private:
         if ( kind_ == Kind::Bool ) {
             auto lhs = static_cast<int64_t>(asBool()->getVal());
             if constexpr ( std::is_integral_v<ConstT> ) {
-                using Common = std::common_type_t<int64_t, ConstT>;
-                return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                return cmpIntegers(lhs, rhs, cmp);
             }
             else {
                 return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
@@ -177,8 +193,7 @@ private:
         if ( kind_ == Kind::Cont ) {
             auto lhs = asCont()->getSize();
             if constexpr ( std::is_integral_v<ConstT> ) {
-                using Common = std::common_type_t<int64_t, ConstT>;
-                return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                return cmpIntegers(lhs, rhs, cmp);
             }
             else {
                 return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
-- 
2.43.0


From 63fef9089113d8b33375e3a65703bd357d18cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:27 +0000
Subject: [PATCH 86/96] fix: trace buffers report the record of the trigger
 after they wrapped

---
 src/sst/core/impl/interactive/ObjTreeHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/interactive/ObjTreeHelpers.h b/src/sst/core/impl/interactive/ObjTreeHelpers.h
index 42beee4..b55f691 100644
--- a/src/sst/core/impl/interactive/ObjTreeHelpers.h
+++ b/src/sst/core/impl/interactive/ObjTreeHelpers.h
@@ -240,7 +240,8 @@ public:
                 for ( size_t obj = 0; obj < objBuffers_.size(); obj++ ) {
                     auto& [bufVec, storedTriggerIdx] = objBuffers_[obj];
                     bufVec.erase(bufVec.begin());
-                    if ( storedTriggerIdx == bufVec.size() ) {
+                    // All remaining records moved down by one
+                    if ( storedTriggerIdx > 0 ) {
                         storedTriggerIdx--;
                     }
                 }
-- 
2.43.0


From 26c5a44ac37a21b751cc77cb9c6691e023bac1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:27 +0000
Subject: [PATCH 87/96] fix: debug console refuses numbers that do not parse
 instead of ending the run

print -v/-r/v[...], unwatch, verbose, history, ! and others use
std::stoi() and friends, whose std::invalid_argument and
std::out_of_range are not std::runtime_errors: a typo ended the
simulation.
---
 src/sst/core/impl/interactive/debugConsole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index 9f3c2ca..67a1c17 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -564,7 +564,8 @@ DebugConsole::consoleExecute(const std::string& msg)
             // This prevents logging the 'logging' command
             if ( loggingFile.is_open() ) enLogging = true;
         }
-        catch ( const std::runtime_error& e ) {
+        catch ( const std::exception& e ) {
+            // Includes the std::logic_errors thrown by std::stoi() and friends for malformed and out of range numbers
             std::cout << "Parsing error. Ignoring " << line << std::endl;
         }
     }
-- 
2.43.0


From 032887e854cb7c94f320cd7fb30751eadc15de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:27 +0000
Subject: [PATCH 88/96] fix: debug console refuses empty trace buffers and
 negative delays

A trace with buffer size 0 crashed at the first handler; a negative
delay became a huge one.
---
 src/sst/core/impl/interactive/debugConsole.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index 67a1c17..e4140f4 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -3852,7 +3852,9 @@ parseTraceBuffer(std::vector<std::string>& tokens, size_t& index)
     // values for buffer size and post delay
 
     try {
-        bufsize = std::stoi(tokens[index++]);
+        int size = std::stoi(tokens[index++]);
+        if ( size < 1 ) throw std::out_of_range("buffer size");
+        bufsize = size;
     }
     catch ( const std::invalid_argument& e ) {
         std::cout << "Invalid argument for buffer size: " << tokens[index - 1] << std::endl;
@@ -3865,7 +3867,9 @@ parseTraceBuffer(std::vector<std::string>& tokens, size_t& index)
 
     // Get post delay
     try {
-        pdelay = std::stoi(tokens[index++]);
+        int delay = std::stoi(tokens[index++]);
+        if ( delay < 0 ) throw std::out_of_range("post trigger delay");
+        pdelay = delay;
     }
     catch ( const std::invalid_argument& e ) {
         std::cout << "Invalid argument for post trigger delay: " << tokens[index - 1] << std::endl;
-- 
2.43.0


From c084975ce8cabc6a67442ce46b29147ee3eb2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:27 +0000
Subject: [PATCH 89/96] fix: debug console ignores empty documentation of a
 user command

"document foo" followed by "end" read the first line of an empty
vector.
---
 src/sst/core/impl/interactive/debugConsole.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index e4140f4..d888611 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -4562,6 +4562,12 @@ CommandRegistry::appendDocCommand(std::string line)
 void
 CommandRegistry::commitDocCommand()
 {
+    if ( user_doc_wip.empty() ) {
+        std::cout << "Ignore empty documentation\n";
+        user_command_wip = "";
+        return;
+    }
+
     bool found = false;
     for ( ConsoleCommand& consoleCommand : user_registry ) {
         if ( consoleCommand.match(user_command_wip) ) {
-- 
2.43.0


From 0f1af2f9bd7cf39a1cece280171754dab23e5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:27 +0000
Subject: [PATCH 90/96] fix: the last instruction of a user command is not
 entered into the history

History was enabled again before the last instruction was executed, so
that one, unlike the others, was recorded.
---
 src/sst/core/impl/interactive/debugConsole.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index d888611..c8541d0 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -507,6 +507,9 @@ DebugConsole::consoleExecute(const std::string& msg)
     std::string line;
     while ( !exit_console ) {
         try {
+            // Back in normal command entry, also after the last instruction of a user command
+            if ( eStack.size() == 0 ) cmdHistoryBuf.enable(true);
+
             // User input prompt (except during user command)
             if ( eStack.size() == 0 ) std::cout << "> " << std::flush;
 
@@ -529,8 +532,6 @@ DebugConsole::consoleExecute(const std::string& msg)
                 if ( eState.ret() ) {
                     eState = eStack.top();
                     eStack.pop();
-                    // back to normal command entry
-                    if ( eStack.size() == 0 ) cmdHistoryBuf.enable(true);
                 }
             }
             else if ( replayFile.is_open() ) {
-- 
2.43.0


From 816a922d484f4bb781d7b4687755255ea9c74c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:40 +0000
Subject: [PATCH 91/96] fix: a signal that arrives before the simulation is
 created does not crash

The signal handlers are installed before any Simulation exists, and
notifySignal() dereferenced the missing instance: with several ranks, a
fatal error while one was created let mpirun's SIGTERM crash the others.
The signal is now kept for the instance that polls it.
---
 src/sst/core/simulation.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 2a686d7..a69c784 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -242,6 +242,9 @@ Simulation::~Simulation()
     // }
 }
 
+// True if a signal has arrived before there was an instance to notify
+static volatile sig_atomic_t early_signal_arrived = 0;
+
 Simulation*
 Simulation::createSimulation(
     RankInfo my_rank, RankInfo num_ranks, bool restart, SimTime_t currentSimCycle, int currentPriority)
@@ -259,6 +262,7 @@ Simulation::createSimulation(
         instanceMap[tid] = instance;
         instanceVec_.resize(num_ranks.thread);
         instanceVec_[my_rank.thread] = instance;
+        if ( 0 == my_rank.thread && 0 != early_signal_arrived ) instance->signal_arrived_ = 1;
     }
     // Not under the lock, a fatal error in here takes it to shut down all the instances
     instance->initializeProfileTools(config.enabled_profiling());
@@ -1338,6 +1342,11 @@ Simulation::updateSyncInterval()
 void
 Simulation::notifySignal()
 {
+    // The handlers are installed before the instances are created
+    if ( instanceVec_.empty() || nullptr == instanceVec_[0] ) {
+        early_signal_arrived = 1;
+        return;
+    }
     instanceVec_[0]->signal_arrived_ = 1;
 }
 
-- 
2.43.0


From a95eec26057374d4878df34944b0364e0b9ba47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 92/96] fix: configuration files may have lines of any length

A line of 4096 characters or more, such as a long list of library
directories, overflowed the buffer of the reader. The files are also
closed again.
---
 src/sst/core/env/envquery.cc | 63 +++++++++---------------------------
 src/sst/core/env/envquery.h  |  7 ++--
 2 files changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/sst/core/env/envquery.cc b/src/sst/core/env/envquery.cc
index 34ba368..f83f328 100644
--- a/src/sst/core/env/envquery.cc
+++ b/src/sst/core/env/envquery.cc
@@ -26,32 +26,14 @@
 #include <sys/file.h>
 
 void
-SST::Core::Environment::configReadLine(FILE* theFile, char* lineBuffer)
+SST::Core::Environment::configReadLine(FILE* theFile, std::string& line)
 {
-    lineBuffer[0] = '\0';
+    line.clear();
 
-    // Start at index 0, move out each time we get a new character
-    int bufferIndex = 0;
-
-    while ( std::feof(theFile) == 0 ) {
-        const int  next     = std::fgetc(theFile);
-        const char nextChar = static_cast<char>(next);
-
-        if ( EOF == next ) {
-            lineBuffer[bufferIndex] = '\0';
-            break;
-        }
-        else {
-            if ( '\n' == nextChar || '\r' == nextChar ) {
-                lineBuffer[bufferIndex] = '\0';
-                break;
-            }
-            else {
-                lineBuffer[bufferIndex] = nextChar;
-            }
-        }
-
-        bufferIndex++;
+    while ( true ) {
+        const int next = std::fgetc(theFile);
+        if ( EOF == next || '\n' == next || '\r' == next ) break;
+        line.push_back(static_cast<char>(next));
     }
 }
 
@@ -65,48 +47,35 @@ SST::Core::Environment::populateEnvironmentConfig(
     int configFileFD = fileno(configFile);
     flock(configFileFD, LOCK_SH);
 
-    constexpr size_t maxBufferLength = 4096;
-    char*            lineBuffer      = (char*)malloc(sizeof(char) * maxBufferLength);
-    for ( size_t i = 0; i < maxBufferLength; i++ ) {
-        lineBuffer[i] = '\0';
-    }
-    int currentLine = 0;
+    std::string lineStr;
+    int         currentLine = 0;
 
     EnvironmentConfigGroup* currentGroup = cfg->getGroupByName("default");
 
     while ( feof(configFile) == 0 ) {
-        SST::Core::Environment::configReadLine(configFile, lineBuffer);
+        SST::Core::Environment::configReadLine(configFile, lineStr);
         currentLine++;
 
-        if ( 0 == strlen(lineBuffer) ) {
+        if ( lineStr.empty() ) {
             // Empty line, needs no additional processing
         }
-        else if ( '#' == lineBuffer[0] ) {
+        else if ( '#' == lineStr[0] ) {
             // Comment line, throw this away, we don't need it
         }
-        else if ( '[' == lineBuffer[0] ) {
-            if ( lineBuffer[strlen(lineBuffer) - 1] != ']' ) {
+        else if ( '[' == lineStr[0] ) {
+            if ( lineStr.back() != ']' ) {
                 std::cerr << "SST: Error reading configuration file at line number: " << currentLine
                           << ", no matching ]" << std::endl;
                 exit(-1);
             }
 
             // This is a configuration group
-            std::string lineStr(lineBuffer);
-
             // Grab the group by this name
             currentGroup = cfg->getGroupByName(lineStr.substr(1, lineStr.size() - 2));
         }
         else {
-            std::string lineStr(lineBuffer);
-            int         equalsIndex = 0;
-
-            for ( size_t i = 0; i < strlen(lineBuffer); i++ ) {
-                if ( '=' == lineBuffer[i] ) {
-                    equalsIndex = i;
-                    break;
-                }
-            }
+            size_t equalsIndex = lineStr.find('=');
+            if ( std::string::npos == equalsIndex ) equalsIndex = 0;
 
             std::string key   = lineStr.substr(0, equalsIndex);
             std::string value = lineStr.substr(equalsIndex + 1);
@@ -117,7 +86,6 @@ SST::Core::Environment::populateEnvironmentConfig(
 
     // Unlock since we are done processing it
     flock(configFileFD, LOCK_UN);
-    free(lineBuffer);
 }
 
 void
@@ -138,6 +106,7 @@ SST::Core::Environment::populateEnvironmentConfig(
     }
 
     populateEnvironmentConfig(configFile, cfg, errorOnNotOpen);
+    fclose(configFile);
 }
 
 SST::Core::Environment::EnvironmentConfiguration*
diff --git a/src/sst/core/env/envquery.h b/src/sst/core/env/envquery.h
index 43a0a4c..c4c5317 100644
--- a/src/sst/core/env/envquery.h
+++ b/src/sst/core/env/envquery.h
@@ -26,11 +26,10 @@
 namespace SST::Core::Environment {
 
 /**
-Reads the next new-line delimited entry in a file and put
-into the buffer provided. The user is responsible for ensuring
-that the buffer is of an appropriate length.
+Reads the next new-line delimited entry in a file, of any
+length, and puts it into the string provided.
 */
-void configReadLine(FILE* theFile, char* lineBuffer);
+void configReadLine(FILE* theFile, std::string& line);
 
 /**
 Opens a configuration file specified and populates an
-- 
2.43.0


From 3354b9c6205d1ce3faff55b9e1ba3debb5b58d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 93/96] fix: sst-register registers all given settings and
 refuses missing ones

Only the first of several <VAR>=<VALUE> pairs was registered; a missing
argument or a missing '=' ended in a crash.
---
 src/sst/core/sstregistertool.cc | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/sst/core/sstregistertool.cc b/src/sst/core/sstregistertool.cc
index d13823d..472f36b 100644
--- a/src/sst/core/sstregistertool.cc
+++ b/src/sst/core/sstregistertool.cc
@@ -79,6 +79,10 @@ main(int argc, char* argv[])
     fclose(cfgFile);
 
     if ( !strcmp(argv[1], "-u") ) { // Unregister
+        if ( argc < 3 ) {
+            print_usage();
+            exit(-1);
+        }
         std::string element = argv[2];
         sstUnregister(element);
     }
@@ -99,8 +103,13 @@ main(int argc, char* argv[])
     }
     else if ( !strcmp(argv[1], "-h") || !strcmp(argv[1], "--help") )
         print_usage();
-    else
+    else {
+        if ( argc < 3 ) {
+            print_usage();
+            exit(-1);
+        }
         sstRegister(argv);
+    }
 
     free(cfgPath);
     return 0;
@@ -113,26 +122,27 @@ void
 sstRegister(char* argv[])
 {
     std::string groupName(argv[1]);
-    std::string keyValPair(argv[2]);
-
-    size_t equalsIndex = 0;
 
-    for ( equalsIndex = 0; equalsIndex < keyValPair.size(); equalsIndex++ ) {
-        if ( '=' == argv[2][equalsIndex] ) {
-            break;
+    // All pairs are checked before anything is changed
+    for ( int i = 2; nullptr != argv[i]; i++ ) {
+        if ( nullptr == strchr(argv[i], '=') ) {
+            fprintf(stderr, "Error: %s is not of the form <VAR>=<VALUE>\n", argv[i]);
+            exit(-1);
         }
     }
 
-    std::string key   = keyValPair.substr(0, equalsIndex);
-    std::string value = keyValPair.substr(equalsIndex + 1);
-
     SST::Core::Environment::EnvironmentConfiguration* database = new SST::Core::Environment::EnvironmentConfiguration();
 
     FILE* cfgFile = fopen(cfgPath, "r+");
     if ( cfgFile ) {
         populateEnvironmentConfig(cfgFile, database, true);
 
-        database->getGroupByName(groupName)->setValue(key, value);
+        for ( int i = 2; nullptr != argv[i]; i++ ) {
+            const std::string keyValPair(argv[i]);
+            const size_t      equalsIndex = keyValPair.find('=');
+            database->getGroupByName(groupName)->setValue(
+                keyValPair.substr(0, equalsIndex), keyValPair.substr(equalsIndex + 1));
+        }
         fclose(cfgFile);
     }
 
-- 
2.43.0


From 96d12e6a0e57f403656433b1c8d4f7c422560eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 94/96] fix: sst-register -u removes all settings of a model

Only the first setting was removed: the others became settings of the
group listed before it.
---
 src/sst/core/sstregistertool.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/sstregistertool.cc b/src/sst/core/sstregistertool.cc
index 472f36b..62dcfa3 100644
--- a/src/sst/core/sstregistertool.cc
+++ b/src/sst/core/sstregistertool.cc
@@ -183,12 +183,13 @@ sstUnregister(const std::string& element)
 
     // grab each line and compare to element name stored in str1
     // if not the same, then print the line to the temp file.
+    // All settings of the element are removed with it.
+    bool removing = false;
     while ( getline(infile, s) ) {
-        if ( str1 == s ) {
+        // a new group ends the one that is removed
+        if ( !s.empty() && '[' == s[0] ) removing = (str1 == s);
+        if ( removing )
             found = 1;
-            // Grab the _LIBDIR= line to remove it from config
-            getline(infile, s);
-        }
         else
             outfile << s << "\n";
     }
-- 
2.43.0


From ed8e7e79c9fc738c1b032d03a0b7bf54cbcc85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 95/96] fix: sst-register -m refuses the number 0

It read the element before the first.
---
 src/sst/core/sstregistertool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/sstregistertool.cc b/src/sst/core/sstregistertool.cc
index 62dcfa3..ee2d534 100644
--- a/src/sst/core/sstregistertool.cc
+++ b/src/sst/core/sstregistertool.cc
@@ -290,7 +290,7 @@ sstUnregisterMultiple(std::vector<std::string> elementsArray)
         // push the options chosen to a vector
         while ( ss >> temp ) {
             // Check for valid inputs
-            if ( temp > elementsArray.size() ) {
+            if ( temp < 1 || temp > elementsArray.size() ) {
                 std::cerr << "\nError: A number you entered is not in the list.\n";
                 exit(-1);
             }
-- 
2.43.0


From da6657119194f2eeb7a54dfb4150c72cdedea08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:37 +0000
Subject: [PATCH 96/96] fix: sst-register lists groups, not settings that
 contain a bracket

A setting such as FLAGS=-DX[2] was listed as a model named 2 and made
the next line, even a group, disappear from the list.
---
 src/sst/core/sstregistertool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sstregistertool.cc b/src/sst/core/sstregistertool.cc
index ee2d534..4c82212 100644
--- a/src/sst/core/sstregistertool.cc
+++ b/src/sst/core/sstregistertool.cc
@@ -238,8 +238,9 @@ listModels(int option)
     while ( getline(infile, s) ) {
         std::size_t first = s.find(START_DELIMITER);
 
-        if ( first != std::string::npos ) {
-            std::size_t last = s.find(STOP_DELIMITER);
+        // brackets in the value of a setting do not make it a model
+        if ( first == 0 ) {
+            std::size_t last = s.rfind(STOP_DELIMITER);
             strNew           = s.substr(first + 1, last - (first + 1)); // The +1 removes the brackets from substring
             // disregard SSTCore and default
             if ( strNew != "SSTCore" && strNew != "default" ) {
-- 
2.43.0

