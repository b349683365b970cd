// A user of the API: instantiates every inline fast path of gc-api.h as an
// external function, so the rules see the code the embedder's program runs.
#include <sys/types.h>
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"

void* v_api_allocate(struct gc_mutator *mut, size_t size, enum gc_allocation_kind kind) {
  return gc_allocate(mut, size, kind);
}
void* v_api_allocate_fast(struct gc_mutator *mut, size_t size, enum gc_allocation_kind kind) {
  return gc_allocate_fast(mut, size, kind);
}
#define V_KIND(name, kind) \
  void* v_api_allocate_##name(struct gc_mutator *mut, size_t size) { return gc_allocate(mut, size, kind); }
V_KIND(tagged, GC_ALLOCATION_TAGGED)
V_KIND(tagged_pointerless, GC_ALLOCATION_TAGGED_POINTERLESS)
V_KIND(untagged_conservative, GC_ALLOCATION_UNTAGGED_CONSERVATIVE)
V_KIND(untagged_pointerless, GC_ALLOCATION_UNTAGGED_POINTERLESS)
int v_api_object_is_old_generation(struct gc_mutator *mut, struct gc_ref obj, size_t sz) {
  return gc_object_is_old_generation(mut, obj, sz);
}
void v_api_write_barrier(struct gc_mutator *mut, struct gc_ref obj, size_t sz, struct gc_edge edge, struct gc_ref v) {
  gc_write_barrier(mut, obj, sz, edge, v);
}
int v_api_write_barrier_fast(struct gc_mutator *mut, struct gc_ref obj, size_t sz, struct gc_edge edge, struct gc_ref v) {
  return gc_write_barrier_fast(mut, obj, sz, edge, v);
}
void v_api_safepoint(struct gc_mutator *mut) { gc_safepoint(mut); }
int v_api_should_stop_for_safepoint(struct gc_mutator *mut) { return gc_should_stop_for_safepoint(mut); }
