From 075ce3123da9f90d289a2b1b6697292f30a5d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 01/27] fix: make the event listener chain compile and forward
 mutator_cause_gc

The chain's per-mutator handlers named fields that do not exist, the
GC-cause handler forwarded to restarting_mutators, and the data macro
named a type that does not exist.
---
 api/gc-event-listener-chain.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/api/gc-event-listener-chain.h b/api/gc-event-listener-chain.h
index 27b56d5..5559757 100644
--- a/api/gc-event-listener-chain.h
+++ b/api/gc-event-listener-chain.h
@@ -3,6 +3,8 @@
 
 #include "gc-event-listener.h"
 
+#include <stdlib.h>
+
 struct gc_event_listener_chain {
   struct gc_event_listener head; void *head_data;
   struct gc_event_listener tail; void *tail_data;
@@ -80,28 +82,28 @@ static inline void* gc_event_listener_chain_mutator_added(void *data) {
 
 static inline void gc_event_listener_chain_mutator_cause_gc(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.restarting_mutators(mutator->head_data);
-  mutator->chain->tail.restarting_mutators(mutator->tail_data);
+  mutator->chain->head.mutator_cause_gc(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_cause_gc(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopping(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopping(mutator->head_data);
-  mutator->chain->tail.mutator_stopping(mutator->tail_data);
+  mutator->chain->head.mutator_stopping(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopping(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopped(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopped(mutator->head_data);
-  mutator->chain->tail.mutator_stopped(mutator->tail_data);
+  mutator->chain->head.mutator_stopped(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopped(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_restarted(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_restarted(mutator->head_data);
-  mutator->chain->tail.mutator_restarted(mutator->tail_data);
+  mutator->chain->head.mutator_restarted(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_restarted(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_removed(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_removed(mutator->head_data);
-  mutator->chain->tail.mutator_removed(mutator->tail_data);
+  mutator->chain->head.mutator_removed(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_removed(mutator->tail_mutator_data);
   free(mutator);
 }
 
@@ -140,6 +142,6 @@ static inline void gc_event_listener_chain_live_data_size(void *data, size_t siz
   })
 
 #define GC_EVENT_LISTENER_CHAIN_DATA(head, head_data, tail, tail_data)  \
-  ((struct gc_event_listener_chain_data){head, head_data, tail, tail_data})
+  ((struct gc_event_listener_chain){head, head_data, tail, tail_data})
 
 #endif // GC_EVENT_LISTENER_CHAIN_H
-- 
2.43.0


From 843af1a9877cf3647c93d95fb69d1a7da7ef538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 02/27] fix: return a value from the null listener's
 mutator_added

---
 api/gc-null-event-listener.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/gc-null-event-listener.h b/api/gc-null-event-listener.h
index 9c032ff..435ba31 100644
--- a/api/gc-null-event-listener.h
+++ b/api/gc-null-event-listener.h
@@ -15,7 +15,9 @@ static inline void gc_null_event_listener_ephemerons_traced(void *data) {}
 static inline void gc_null_event_listener_finalizers_traced(void *data) {}
 static inline void gc_null_event_listener_restarting_mutators(void *data) {}
 
-static inline void* gc_null_event_listener_mutator_added(void *data) {}
+static inline void* gc_null_event_listener_mutator_added(void *data) {
+  return NULL;
+}
 static inline void gc_null_event_listener_mutator_cause_gc(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopping(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopped(void *mutator_data) {}
-- 
2.43.0


From 8ae8c92d450c9aa0a5ede2212ade5cb608be8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 03/27] fix: do not take the large object space lock again
 during a minor collection

The collector holds the large object space lock from start_gc to
finish_gc.  When a minor collection of generational-pcc found an edge
from a large object to a nursery object that stays in the nursery, it
remembered the edge via large_object_space_remember_edge, which takes the
same lock: deadlock.
---
 src/large-object-space.h | 40 +++++++++++++++++++++++++++++++---------
 src/pcc.c                |  5 +++--
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index cdd7983..441bdc5 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -244,24 +244,25 @@ large_object_space_is_marked(struct large_object_space *space,
                               memory_order_acquire) == space->marked;
 }
 
+static int
+large_object_space_is_survivor_with_lock(struct large_object_space *space,
+                                         struct gc_ref ref) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, ref));
+  return large_object_space_is_marked(space, ref);
+}
+
 static int
 large_object_space_is_survivor(struct large_object_space *space,
                                struct gc_ref ref) {
-  GC_ASSERT(large_object_space_contains(space, ref));
   pthread_mutex_lock(&space->lock);
-  int old = large_object_space_is_marked(space, ref);
+  int old = large_object_space_is_survivor_with_lock(space, ref);
   pthread_mutex_unlock(&space->lock);
   return old;
 }
 
 static int
-large_object_space_remember_edge(struct large_object_space *space,
-                                 struct gc_ref obj,
-                                 struct gc_edge edge) {
-  GC_ASSERT(large_object_space_contains(space, obj));
-  if (!large_object_space_is_survivor(space, obj))
-    return 0;
-
+large_object_space_add_remembered_edge(struct large_object_space *space,
+                                       struct gc_edge edge) {
   uintptr_t edge_addr = gc_edge_address(edge);
   int remembered = 0;
   pthread_mutex_lock(&space->remembered_edges_lock);
@@ -273,6 +274,27 @@ large_object_space_remember_edge(struct large_object_space *space,
   return remembered;
 }
 
+static int
+large_object_space_remember_edge(struct large_object_space *space,
+                                 struct gc_ref obj,
+                                 struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains(space, obj));
+  if (!large_object_space_is_survivor(space, obj))
+    return 0;
+  return large_object_space_add_remembered_edge(space, edge);
+}
+
+// For use during collection, when the collector holds the space lock.
+static inline int
+large_object_space_remember_edge_with_lock(struct large_object_space *space,
+                                           struct gc_ref obj,
+                                           struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, obj));
+  if (!large_object_space_is_survivor_with_lock(space, obj))
+    return 0;
+  return large_object_space_add_remembered_edge(space, edge);
+}
+
 static void
 large_object_space_forget_edge(struct large_object_space *space,
                                struct gc_edge edge) {
diff --git a/src/pcc.c b/src/pcc.c
index 0b137f5..9e578ab 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -282,8 +282,9 @@ static int remember_edge_to_survivor_object(struct gc_heap *heap,
     large_object_space_object_containing_edge(heap_large_object_space(heap),
                                               edge);
   if (!gc_ref_is_null(large_object))
-    return large_object_space_remember_edge(heap_large_object_space(heap),
-                                            large_object, edge);
+    // The collector already holds the large object space lock.
+    return large_object_space_remember_edge_with_lock(heap_large_object_space(heap),
+                                                      large_object, edge);
   return 0;
 }
 
-- 
2.43.0


From c2d1828849e8e1adcbb6732b983d9f2a521bab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 04/27] fix: release the lock when the background thread fails
 to get the time

---
 src/background-thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/background-thread.h b/src/background-thread.h
index 7a141ce..3697c12 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -47,6 +47,7 @@ gc_background_thread(void *data) {
   struct timespec ts;
   if (clock_gettime(CLOCK_REALTIME, &ts)) {
     perror("background thread: failed to get time!");
+    pthread_mutex_unlock(&thread->lock);
     return NULL;
   }
   while (thread->state == GC_BACKGROUND_THREAD_RUNNING) {
-- 
2.43.0


From 68a97d2fceccd8b124de3082af05f34d28c29e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 05/27] fix: initialize the adaptive heap sizer's own mutex

It initialized the background thread's mutex a second time instead.
---
 src/adaptive-heap-sizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptive-heap-sizer.h b/src/adaptive-heap-sizer.h
index 225b44b..dc036ea 100644
--- a/src/adaptive-heap-sizer.h
+++ b/src/adaptive-heap-sizer.h
@@ -157,7 +157,7 @@ gc_make_adaptive_heap_sizer(struct gc_heap *heap, double expansiveness,
   sizer->last_bytes_allocated = get_allocation_counter(heap);
   sizer->last_heartbeat = gc_platform_monotonic_nanoseconds();
 #if GC_PARALLEL
-  pthread_mutex_init(&thread->lock, NULL);
+  pthread_mutex_init(&sizer->lock, NULL);
   sizer->background_task_id =
     gc_background_thread_add_task(thread, GC_BACKGROUND_TASK_MIDDLE,
                                   gc_adaptive_heap_sizer_background_task,
-- 
2.43.0


From 773219f599688a2914bc07425a81870398ed8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 06/27] fix: expect conservatively traced tagged objects in
 heap-conservative debug builds

gc_init asserted that tagged objects are traced precisely also when
GC_CONSERVATIVE_TRACE is set, so that every optdebug program using a
heap-conservative collector aborted.
---
 src/mmc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index d2bc4df..c3732e1 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1160,7 +1160,10 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                offsetof(struct nofl_allocator, sweep));
   GC_ASSERT_EQ(gc_allocator_alloc_table_alignment(), NOFL_SLAB_SIZE);
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
-               NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
+               NOFL_METADATA_BYTE_YOUNG |
+               (GC_CONSERVATIVE_TRACE
+                ? NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY
+                : NOFL_METADATA_BYTE_TRACE_PRECISELY));
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED_POINTERLESS),
                NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   if (GC_CONSERVATIVE_TRACE) {
-- 
2.43.0


From faac8ae37a3a2b8d54702ecc84e5fa07c591af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 07/27] fix: let any mutator of several call gc_call_without_gc
 in debug builds

deactivate_mutator asserted that the mutator is the last one of the list
of mutators, which only holds for the oldest thread.
---
 src/mmc.c | 1 -
 src/pcc.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index c3732e1..60befc2 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1237,7 +1237,6 @@ gc_finish_for_thread(struct gc_mutator *mut) {
 
 static void
 deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(&mut->logger);
diff --git a/src/pcc.c b/src/pcc.c
index 9e578ab..ab7c57f 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1310,7 +1310,6 @@ void gc_finish_for_thread(struct gc_mutator *mut) {
 }
 
 static void deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(mutator_field_logger(mut));
-- 
2.43.0


From 31f5992691bd3e888e5563cf2d4bd78a4fca3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 08/27] fix: map acquired memory inside the reserved, aligned
 address range

---
 src/gc-platform-gnu-linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gc-platform-gnu-linux.c b/src/gc-platform-gnu-linux.c
index 3ace189..db57b71 100644
--- a/src/gc-platform-gnu-linux.c
+++ b/src/gc-platform-gnu-linux.c
@@ -163,7 +163,8 @@ gc_platform_acquire_memory_from_reservation(struct gc_reservation reservation,
   GC_ASSERT(offset <= reservation.size - size);
 
   void *mem = mmap((void*)(reservation.base + offset), size,
-                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+                   PROT_READ|PROT_WRITE,
+                   MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0);
   if (mem == MAP_FAILED) {
     perror("mmap failed");
     return NULL;
-- 
2.43.0


From b4a87a4a80b7fab0e1e1545dd9c369ce09ec1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 09/27] fix: report the kind of the collection a mutator paused
 for, not of the one before

---
 src/mmc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 60befc2..0ab823a 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -451,13 +451,14 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   MUTATOR_EVENT(mut, mutator_stopping);
   MUTATOR_EVENT(mut, mutator_stopped);
   heap->paused_mutator_count++;
-  enum gc_collection_kind collection_kind = heap->gc_kind;
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
   do
     pthread_cond_wait(&heap->mutator_cond, &heap->lock);
   while (mutators_are_stopping(heap));
+  // The kind of collection is determined only after all mutators stop.
+  enum gc_collection_kind collection_kind = heap->gc_kind;
   heap->paused_mutator_count--;
 
   MUTATOR_EVENT(mut, mutator_restarted);
-- 
2.43.0


From 9e28b4870ebd0b839bfef45c042156e7f392725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 10/27] fix: perform a major collection if a minor one is
 requested of a non-generational heap

---
 src/mmc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 0ab823a..7525aed 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -552,6 +552,9 @@ determine_collection_kind(struct gc_heap *heap,
   if (heap->count == 0) {
     DEBUG("first collection is always major\n");
     gc_kind = GC_COLLECTION_MAJOR;
+  } else if (!GC_GENERATIONAL && requested == GC_COLLECTION_MINOR) {
+    DEBUG("no write barrier, so minor collection requires a major one\n");
+    gc_kind = GC_COLLECTION_MAJOR;
   } else if (requested != GC_COLLECTION_ANY) {
     DEBUG("user specifically requested collection kind %d\n", (int)requested);
     gc_kind = requested;
-- 
2.43.0


From 1bec714bf622f6768d2ad11bd143e57a928fd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 11/27] fix: stop shrinking from the evacuation reserve once it
 is down to its minimum

---
 src/nofl-space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 2668232..a26aed0 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1820,6 +1820,7 @@ nofl_space_shrink(struct nofl_space *space, size_t bytes) {
       struct nofl_block_ref block =
         nofl_block_list_pop(&space->evacuation_targets);
       GC_ASSERT(!nofl_block_is_null(block));
+      avail--;
       nofl_push_unavailable_block(space, block, &lock);
       pending = atomic_fetch_sub(&space->pending_unavailable_bytes,
                                  NOFL_BLOCK_SIZE);
-- 
2.43.0


From 7bbb05dfdfc6318e630ad567543773544f54769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 12/27] fix: add large objects on fresh pages to the nursery

---
 src/large-object-space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index 441bdc5..d731a56 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -504,6 +504,9 @@ large_object_space_alloc(struct large_object_space *space, size_t npages,
         large_object_tree_insert(&space->object_tree, k, v);
       uintptr_t node_bits = (uintptr_t)node;
       address_map_add(&space->object_map, addr, node_bits);
+      // Add the object to the nursery.
+      if (GC_GENERATIONAL)
+        address_map_add(&space->nursery, addr, node_bits);
       space->total_pages += npages;
       pthread_mutex_unlock(&space->object_tree_lock);
     }
-- 
2.43.0


From d5d7b0d569689070f8750db7fb993f5acea9ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 13/27] fix: remember links between finalizers made by a minor
 collection

---
 src/gc-finalizer-internal.h |  8 ++++++++
 src/gc-finalizer.c          | 21 +++++++++++++++++++++
 src/pcc.c                   | 11 +++++++++++
 3 files changed, 40 insertions(+)

diff --git a/src/gc-finalizer-internal.h b/src/gc-finalizer-internal.h
index 529a087..96606f8 100644
--- a/src/gc-finalizer-internal.h
+++ b/src/gc-finalizer-internal.h
@@ -58,6 +58,14 @@ size_t gc_resolve_finalizers(struct gc_finalizer_state *state,
                              struct gc_heap *heap,
                              void *visit_data);
 
+GC_INTERNAL
+void gc_visit_finalizer_links(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge edge,
+                                            struct gc_heap *heap,
+                                            void *visit_data),
+                              struct gc_heap *heap,
+                              void *visit_data);
+
 GC_INTERNAL
 void gc_notify_finalizers(struct gc_finalizer_state *state,
                           struct gc_heap *heap);
diff --git a/src/gc-finalizer.c b/src/gc-finalizer.c
index d3a4fa9..dcde1ab 100644
--- a/src/gc-finalizer.c
+++ b/src/gc-finalizer.c
@@ -291,6 +291,27 @@ size_t gc_resolve_finalizers(struct gc_finalizer_state *state,
   return finalizers_fired;
 }
 
+// Resolving finalizers relinks them in arbitrary order, so that an older
+// finalizer may come to refer to a younger one.  A generational collector needs
+// to know about those edges.
+
+// internal
+void gc_visit_finalizer_links(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge edge,
+                                            struct gc_heap *heap,
+                                            void *visit_data),
+                              struct gc_heap *heap,
+                              void *visit_data) {
+  for (size_t tidx = 0; tidx < state->table_count; tidx++) {
+    struct gc_finalizer_table *table = &state->tables[tidx];
+    for (size_t bidx = 0; bidx < BUCKET_COUNT; bidx++)
+      for (struct gc_finalizer *f = table->buckets[bidx]; f; f = f->next)
+        visit(gc_edge(&f->next), heap, visit_data);
+  }
+  for (struct gc_finalizer *f = state->fired; f; f = f->next)
+    visit(gc_edge(&f->next), heap, visit_data);
+}
+
 // internal
 void gc_notify_finalizers(struct gc_finalizer_state *state,
                           struct gc_heap *heap) {
diff --git a/src/pcc.c b/src/pcc.c
index ab7c57f..c9d99d3 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -803,6 +803,14 @@ static void resolve_finalizers(struct gc_heap *heap) {
   gc_notify_finalizers(heap->finalizer_state, heap);
 }
 
+static void remember_finalizer_link(struct gc_edge edge, struct gc_heap *heap,
+                                    void *logger) {
+  if (new_space_contains(heap, gc_edge_ref(edge))
+      && !edge_is_from_survivor(heap, edge)
+      && remember_edge_to_survivor_object(heap, edge))
+    gc_field_set_writer_add_edge(logger, edge);
+}
+
 static void sweep_ephemerons(struct gc_heap *heap) {
   return gc_sweep_pending_ephemerons(gc_heap_pending_ephemerons(heap), 0, 1);
 }
@@ -905,6 +913,9 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
   HEAP_EVENT(heap, ephemerons_traced);
   resolve_finalizers(heap);
   HEAP_EVENT(heap, finalizers_traced);
+  if (GC_GENERATIONAL && is_minor_gc)
+    gc_visit_finalizer_links(heap->finalizer_state, remember_finalizer_link,
+                             heap, mutator_field_logger(mut));
   sweep_ephemerons(heap);
   gc_tracer_release(&heap->tracer);
   copy_spaces_finish_gc(heap, is_minor_gc);
-- 
2.43.0


From 55ecd7fe2dfd409cf5cb84496ab7db51c3b6aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 14/27] fix: define gc_stack_addr_is_colder, which the API
 declares

---
 src/gc-stack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gc-stack.c b/src/gc-stack.c
index e4e1705..ef30a6d 100644
--- a/src/gc-stack.c
+++ b/src/gc-stack.c
@@ -26,6 +26,10 @@ static uintptr_t current_thread_hot_stack_addr(void) {
 // FIXME: check platform stack growth direction.
 #define HOTTER_THAN <=
 
+int gc_stack_addr_is_colder(struct gc_stack_addr a, struct gc_stack_addr b) {
+  return !(a.addr HOTTER_THAN b.addr);
+}
+
 static struct gc_stack_addr capture_current_thread_hot_stack_addr(void) {
   return gc_stack_addr(current_thread_hot_stack_addr());
 }
-- 
2.43.0


From 7e0e2de55f69d16c0600c93dff44d842642fb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 15/27] fix: do not take the pinned bit for a kind of tracing
 in precise configurations

---
 src/nofl-space.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index a26aed0..5e19a72 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -251,7 +251,12 @@ enum nofl_metadata_byte {
   NOFL_METADATA_BYTE_TRACE_NONE = 8,
   NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY = 16,
   NOFL_METADATA_BYTE_TRACE_EPHEMERON = 24,
+#if GC_CONSERVATIVE_TRACE
   NOFL_METADATA_BYTE_TRACE_KIND_MASK = 0|8|16|24,
+#else
+  // Without conservative tracing, 16 indicates that the object is pinned.
+  NOFL_METADATA_BYTE_TRACE_KIND_MASK = 0|8,
+#endif
   NOFL_METADATA_BYTE_PINNED = 16,
   NOFL_METADATA_BYTE_END = 32,
   NOFL_METADATA_BYTE_LOGGED_0 = 64,
-- 
2.43.0


From 666b798b855bc9f54cfa1128d3ef36b913d34fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 16/27] fix: reject option values that do not fit the option's
 type

---
 src/gc-options.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 31de027..6e94e0f 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -90,25 +90,27 @@ static int parse_size(const char *arg, size_t *val) {
   long i = strtol(arg, &end, 0);
   if (i < 0 || i == LONG_MAX) return 0;
   if (end == arg) return 0;
+  long unit = 1;
   char delim = *end;
   if (delim == 'k' || delim == 'K')
-    ++end, i *= 1024L;
+    ++end, unit = 1024L;
   else if (delim == 'm' || delim == 'M')
-    ++end, i *= 1024L * 1024L;
+    ++end, unit = 1024L * 1024L;
   else if (delim == 'g' || delim == 'G')
-    ++end, i *= 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L;
   else if (delim == 't' || delim == 'T')
-    ++end, i *= 1024L * 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L * 1024L;
 
   if (*end != '\0') return 0;
-  *val = i;
+  if (i > LONG_MAX / unit) return 0;
+  *val = i * unit;
   return 1;
 }
 
 static int parse_int(const char *arg, int *val) {
   char *end;
   long i = strtol(arg, &end, 0);
-  if (i == LONG_MIN || i == LONG_MAX || end == arg || *end)
+  if (i < INT_MIN || i > INT_MAX || end == arg || *end)
     return 0;
   *val = i;
   return 1;
-- 
2.43.0


From 58a5165d040ca947f6ef06ac45646df52ad2508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 17/27] fix: use default options if gc_init is given none

---
 src/mmc.c | 2 ++
 src/pcc.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 7525aed..e2c3238 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1189,6 +1189,8 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                  NOFL_METADATA_BYTE_LOGGED_0);
   }
 
+  if (!options) options = gc_allocate_options();
+
   *heap = calloc(1, sizeof(struct gc_heap));
   if (!*heap) GC_CRASH();
 
diff --git a/src/pcc.c b/src/pcc.c
index c9d99d3..05c3692 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1248,6 +1248,8 @@ int gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                  offsetof(struct copy_space_slab, blocks));
   }
 
+  if (!options) options = gc_allocate_options();
+
   *heap = calloc(1, sizeof(struct gc_heap));
   if (!*heap) GC_CRASH();
 
-- 
2.43.0


From 8545febe6e299afd62762971e38861c75a9b4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 18/27] fix: share objects reached from roots before the trace
 proper

A helper that reaches objects from roots in a roots-only trace left them in
its local worklist.  If it was not woken for the trace proper, nobody
traced them, and live objects were reclaimed.
---
 src/parallel-tracer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index db8afae..26d5c00 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -331,7 +331,15 @@ trace_with_data(struct gc_tracer *tracer,
     // roots-only trace consumes work monotonically; any object enqueued as a
     // result of marking roots isn't ours to deal with.  However we do need to
     // synchronize with remote workers to ensure they have completed their
-    // work items.
+    // work items, and to put those objects where the trace proper will find
+    // them: a helper that is not woken for it would never look at its local
+    // worklist.
+    while (!local_worklist_empty(&worker->local)) {
+      struct gc_ref *objv;
+      size_t count = local_worklist_pop_many(&worker->local, &objv,
+                                             LOCAL_WORKLIST_SIZE);
+      shared_worklist_push_many(&worker->shared, objv, count);
+    }
     if (worker->id == 0) {
       for (size_t i = 1; i < tracer->worker_count; i++)
         pthread_mutex_lock(&tracer->workers[i].lock);
-- 
2.43.0


From f23e39d5b453c1b092aa8f4e814050aef4f08cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 19/27] fix: age all blocks of the nofl page-out queue

Only one block per age was moved, and only as long as each older age
happened to have a block, so that most blocks never reached the end of
the queue and were not returned to the OS.
---
 src/nofl-space.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 5e19a72..7af2014 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1876,11 +1876,13 @@ nofl_space_advance_page_out_queue(void *data) {
   struct nofl_space *space = data;
   struct gc_lock lock = nofl_space_lock(space);
   for (int age = NOFL_PAGE_OUT_QUEUE_SIZE - 3; age >= 0; age--) {
-    struct nofl_block_ref block =
-      nofl_block_stack_pop(&space->paged_out[age], &lock);
-    if (nofl_block_is_null(block))
-      break;
-    nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    while (1) {
+      struct nofl_block_ref block =
+        nofl_block_stack_pop(&space->paged_out[age], &lock);
+      if (nofl_block_is_null(block))
+        break;
+      nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    }
   }
   gc_lock_release(&lock);
 }
-- 
2.43.0


From 1fca955d81d433f08f31892df3a366345ca4dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 20/27] fix: forget a removed background task

The count of tasks was not decremented: the last task ran twice, or the
removed one still ran.
---
 src/background-thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/background-thread.h b/src/background-thread.h
index 3697c12..ac5e133 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -138,6 +138,7 @@ gc_background_thread_remove_task(struct gc_background_thread *thread,
   size_t bytes_to_move =
     (thread->count - (remove + 1)) * sizeof(struct gc_background_task);
   memmove(&thread->tasks[remove], &thread->tasks[remove + 1], bytes_to_move);
+  thread->count--;
   pthread_mutex_unlock(&thread->lock);
 }
 
-- 
2.43.0


From cf2109aba4be1707818788219daf1743d3f9331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 21/27] fix: count the fragmentation of evacuation targets in
 granules

The size of the hole was converted to granules twice.
---
 src/nofl-space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 7af2014..1646636 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -645,7 +645,7 @@ nofl_allocator_release_full_evacuation_target(struct nofl_allocator *alloc,
   if (hole_size) {
     hole_size >>= NOFL_GRANULE_SIZE_LOG_2;
     block.summary->holes_with_fragmentation = 1;
-    block.summary->fragmentation_granules = hole_size / NOFL_GRANULE_SIZE;
+    block.summary->fragmentation_granules = hole_size;
   } else {
     GC_ASSERT_EQ(block.summary->fragmentation_granules, 0);
     GC_ASSERT_EQ(block.summary->holes_with_fragmentation, 0);
-- 
2.43.0


From 8778a285aae5c49daf94ab2be2509a64293d141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 22/27] fix: check that growing the heap got memory

When the system gave no memory for new slabs, their block table was
written at addresses around zero.
---
 src/copy-space.h | 2 ++
 src/nofl-space.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/copy-space.h b/src/copy-space.h
index 7f262c2..6123fb6 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -869,6 +869,8 @@ copy_space_expand(struct copy_space *space, size_t bytes) {
   size_t nslabs = reserved / COPY_SPACE_SLAB_SIZE;
   struct copy_space_slab *slabs =
     copy_space_allocate_slabs(nslabs, space->flags);
+  if (!slabs)
+    GC_CRASH();
   copy_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = copy_space_lock(space);
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 1646636..e8a67bf 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1849,6 +1849,8 @@ nofl_space_expand(struct nofl_space *space, size_t bytes) {
   size_t reserved = align_up(to_acquire, NOFL_SLAB_SIZE);
   size_t nslabs = reserved / NOFL_SLAB_SIZE;
   struct nofl_slab *slabs = nofl_allocate_slabs(nslabs);
+  if (!slabs)
+    GC_CRASH();
   nofl_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = nofl_space_lock(space);
-- 
2.43.0


From ffdb2abd4464eb234396025cc9482a1c4fb901bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 23/27] fix: notice when an options string cannot be copied

---
 src/gc-options.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gc-options.c b/src/gc-options.c
index 6e94e0f..e5cc6ce 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -176,6 +176,7 @@ int gc_options_parse_and_set_many(struct gc_options *options,
                                   const char *str) {
   if (!*str) return 1;
   char *copy = strdup(str);
+  if (!copy) return 0;
   char *cur = copy;
   int ret = 0;
   while (1) {
-- 
2.43.0


From f6deba97bccf5cb584ef2e34fbc0950b8b8d5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 24/27] fix: notice when options cannot be allocated

---
 src/mmc.c  | 2 ++
 src/pcc.c  | 2 ++
 src/semi.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index e2c3238..d92c3a1 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1057,6 +1057,8 @@ gc_option_from_string(const char *str) {
 struct gc_options*
 gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret)
+    GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
diff --git a/src/pcc.c b/src/pcc.c
index 05c3692..8b1cc0d 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1142,6 +1142,8 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret)
+    GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
diff --git a/src/semi.c b/src/semi.c
index a4ee85f..9d358ab 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -651,6 +651,8 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret)
+    GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
-- 
2.43.0


From 99c32e70b8e2289950cb546526eaa5c9ef7e4bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 25/27] fix: notice when libgc cannot provide memory

---
 src/bdw.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/bdw.c b/src/bdw.c
index 83a157d..c8638a2 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -108,6 +108,16 @@ enum gc_inline_kind {
   GC_INLINE_KIND_NORMAL
 };
 
+static inline void *
+check_out_of_memory(void *ptr) {
+  if (GC_UNLIKELY (!ptr)) {
+    fprintf(stderr, "ran out of space, heap size %zu\n",
+            GC_get_heap_size());
+    GC_CRASH();
+  }
+  return ptr;
+}
+
 static inline void *
 allocate_small(void **freelist, size_t idx, enum gc_inline_kind kind) {
   void *head = *freelist;
@@ -153,10 +163,10 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
     switch (kind) {
       case GC_ALLOCATION_TAGGED:
       case GC_ALLOCATION_UNTAGGED_CONSERVATIVE:
-        return GC_malloc(size);
+        return check_out_of_memory(GC_malloc(size));
       case GC_ALLOCATION_TAGGED_POINTERLESS:
       case GC_ALLOCATION_UNTAGGED_POINTERLESS: {
-        void *ret = GC_malloc_atomic(size);
+        void *ret = check_out_of_memory(GC_malloc_atomic(size));
         memset(ret, 0, size);
         return ret;
       }
@@ -232,7 +242,8 @@ static int finalizer_gc_kind;
 // tables.
 
 struct gc_ephemeron* gc_allocate_ephemeron(struct gc_mutator *mut) {
-  return GC_generic_malloc(gc_ephemeron_size(), ephemeron_gc_kind);
+  return check_out_of_memory(GC_generic_malloc(gc_ephemeron_size(),
+                                               ephemeron_gc_kind));
 }
 
 unsigned gc_heap_ephemeron_trace_epoch(struct gc_heap *heap) {
@@ -255,7 +266,8 @@ int gc_visit_ephemeron_key(struct gc_edge edge, struct gc_heap *heap) {
 }
 
 struct gc_finalizer* gc_allocate_finalizer(struct gc_mutator *mut) {
-  return GC_generic_malloc(gc_finalizer_size(), finalizer_gc_kind);
+  return check_out_of_memory(GC_generic_malloc(gc_finalizer_size(),
+                                               finalizer_gc_kind));
 }
 
 static void finalize_object(void *obj, void *data) {
@@ -420,7 +432,8 @@ mark_mutator(GC_word *addr, struct GC_ms_entry *mark_stack_ptr,
 
 static inline struct gc_mutator *add_mutator(struct gc_heap *heap) {
   struct gc_mutator *ret =
-    GC_generic_malloc(sizeof(struct gc_mutator), mutator_gc_kind);
+    check_out_of_memory(GC_generic_malloc(sizeof(struct gc_mutator),
+                                          mutator_gc_kind));
   ret->heap = heap;
   ret->event_listener_data =
     heap->event_listener.mutator_added(heap->event_listener_data);
@@ -444,6 +457,8 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret)
+    GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
@@ -596,12 +611,15 @@ int gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                                     add_size_to_descriptor, clear_memory);
   }
 
-  *heap = GC_generic_malloc(sizeof(struct gc_heap), heap_gc_kind);
+  *heap = check_out_of_memory(GC_generic_malloc(sizeof(struct gc_heap),
+                                                heap_gc_kind));
   pthread_mutex_init(&(*heap)->lock, NULL);
 
   (*heap)->event_listener = event_listener;
   (*heap)->event_listener_data = event_listener_data;
   (*heap)->finalizer_state = gc_make_finalizer_state();
+  if (!(*heap)->finalizer_state)
+    GC_CRASH();
 
   __the_bdw_gc_heap = *heap;
   HEAP_EVENT(init, GC_get_heap_size());
-- 
2.43.0


From 193d35f167a13e9a28b17a0aae41ac5a0a2b125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 26/27] fix: let the link of an ephemeron disappear with its
 key

In the Boehm adapter, GC_register_disappearing_link registers a link to be
cleared when the object that contains it is collected: this was the ephemeron
itself, so the keys of live ephemerons were never cleared.
---
 src/bdw.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bdw.c b/src/bdw.c
index c8638a2..0eec38c 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -255,7 +255,9 @@ void gc_ephemeron_init(struct gc_mutator *mut, struct gc_ephemeron *ephemeron,
   gc_ephemeron_init_internal(mut->heap, ephemeron, key, value);
   if (GC_base((void*)gc_ref_value(key))) {
     struct gc_ref *loc = gc_edge_loc(gc_ephemeron_key_edge(ephemeron));
-    GC_register_disappearing_link((void**)loc);
+    // The link disappears with the key, not with the ephemeron that holds it.
+    GC_general_register_disappearing_link((void**)loc,
+                                          GC_base((void*)gc_ref_value(key)));
   }
 }
 
-- 
2.43.0


From e66aed791f2997b81d134fde8408b8ad11b0c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 27/27] fix: forget the roots of a mutator whose thread has
 finished

In the Boehm adapter, a mutator may be found conservatively after
gc_finish_for_thread; its roots were then traced although the embedder may
have freed them.
---
 src/bdw.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdw.c b/src/bdw.c
index 0eec38c..de85bb8 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -649,6 +649,8 @@ void gc_finish_for_thread(struct gc_mutator *mut) {
   *mut->prev = mut->next;
   if (mut->next)
     mut->next->prev = mut->prev;
+  // The collector may still find the mutator, but its roots are gone.
+  mut->roots = NULL;
   pthread_mutex_unlock(&mut->heap->lock);
 
   GC_unregister_my_thread();
-- 
2.43.0

