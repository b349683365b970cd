// Embedder model for the static rules: every embedder hook is an opaque
// external call (v_*), so it stays visible as an event in the analysed program,
// and the visitor handed to a tracing hook is called on an arbitrary edge.
#ifndef V_EMBEDDER_H
#define V_EMBEDDER_H

#include <stdatomic.h>
#include "gc-config.h"
#include "gc-embedder-api.h"

struct v_header { uintptr_t word; };
#define GC_EMBEDDER_EPHEMERON_HEADER struct v_header header;
#define GC_EMBEDDER_FINALIZER_HEADER struct v_header header;

extern size_t v_finalizer_priority_count(void);
extern int v_is_valid_conservative_ref_displacement(uintptr_t displacement);
extern int v_extern_space_visit(struct gc_extern_space *space, uintptr_t edge, uintptr_t ref);
extern void v_extern_space_start_gc(struct gc_extern_space *space, int is_minor_gc);
extern void v_extern_space_finish_gc(struct gc_extern_space *space, int is_minor_gc);
extern void* v_object_edge(uintptr_t ref);
extern size_t v_object_size(uintptr_t ref);
extern void* v_mutator_root_edge(struct gc_mutator_roots *roots);
extern void* v_heap_root_edge(struct gc_heap_roots *roots);
extern uintptr_t v_object_forwarded_nonatomic(uintptr_t ref);
extern void v_object_forward_nonatomic(uintptr_t ref, uintptr_t new_ref);
extern void v_fwd_begin(struct gc_atomic_forward *fwd, uintptr_t ref);
extern void v_fwd_acquire(struct gc_atomic_forward *fwd);
extern int v_fwd_retry_busy(struct gc_atomic_forward *fwd);
extern void v_fwd_abort(struct gc_atomic_forward *fwd);
extern size_t v_fwd_object_size(struct gc_atomic_forward *fwd);
extern void v_fwd_commit(struct gc_atomic_forward *fwd, uintptr_t new_ref);
extern uintptr_t v_fwd_address(struct gc_atomic_forward *fwd);

static inline size_t gc_finalizer_priority_count(void) {
  return v_finalizer_priority_count();
}
static inline int
gc_is_valid_conservative_ref_displacement(uintptr_t displacement) {
  return v_is_valid_conservative_ref_displacement(displacement);
}
static inline int gc_extern_space_visit(struct gc_extern_space *space,
                                        struct gc_edge edge, struct gc_ref ref) {
  return v_extern_space_visit(space, gc_edge_address(edge), gc_ref_value(ref));
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *space, int is_minor_gc) {
  v_extern_space_start_gc(space, is_minor_gc);
}
static inline void gc_extern_space_finish_gc(struct gc_extern_space *space, int is_minor_gc) {
  v_extern_space_finish_gc(space, is_minor_gc);
}
static inline void gc_trace_object(struct gc_ref ref,
                                   void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                   struct gc_heap *heap, void *trace_data, size_t *size) {
  if (visit) {
    void *e;
    while ((e = v_object_edge(gc_ref_value(ref))))
      visit(gc_edge(e), heap, trace_data);
  }
  if (size)
    *size = v_object_size(gc_ref_value(ref));
}
static inline void gc_trace_mutator_roots(struct gc_mutator_roots *roots,
                                          void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                          struct gc_heap *heap, void *trace_data) {
  void *e;
  while ((e = v_mutator_root_edge(roots)))
    visit(gc_edge(e), heap, trace_data);
}
static inline void gc_trace_heap_roots(struct gc_heap_roots *roots,
                                       void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                       struct gc_heap *heap, void *trace_data) {
  void *e;
  while ((e = v_heap_root_edge(roots)))
    visit(gc_edge(e), heap, trace_data);
}
static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  return v_object_forwarded_nonatomic(gc_ref_value(ref));
}
static inline void gc_object_forward_nonatomic(struct gc_ref ref, struct gc_ref new_ref) {
  v_object_forward_nonatomic(gc_ref_value(ref), gc_ref_value(new_ref));
}
static inline struct gc_atomic_forward gc_atomic_forward_begin(struct gc_ref ref) {
  struct gc_atomic_forward fwd;
  v_fwd_begin(&fwd, gc_ref_value(ref));
  return fwd;
}
static inline void gc_atomic_forward_acquire(struct gc_atomic_forward *fwd) { v_fwd_acquire(fwd); }
static inline int gc_atomic_forward_retry_busy(struct gc_atomic_forward *fwd) { return v_fwd_retry_busy(fwd); }
static inline void gc_atomic_forward_abort(struct gc_atomic_forward *fwd) { v_fwd_abort(fwd); }
static inline size_t gc_atomic_forward_object_size(struct gc_atomic_forward *fwd) { return v_fwd_object_size(fwd); }
static inline void gc_atomic_forward_commit(struct gc_atomic_forward *fwd, struct gc_ref new_ref) { v_fwd_commit(fwd, gc_ref_value(new_ref)); }
static inline uintptr_t gc_atomic_forward_address(struct gc_atomic_forward *fwd) { return v_fwd_address(fwd); }

#endif
