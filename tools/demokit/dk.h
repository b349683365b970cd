// Small embedder for the demonstrations.
#ifndef DK_H
#define DK_H
#include <stdatomic.h>
#include <stdint.h>
#include <stddef.h>
#include "gc-config.h"
#include "gc-embedder-api.h"
struct gc_ephemeron; struct gc_finalizer;
struct gc_header { uintptr_t tag; };
// tag: bit 0 set = not forwarded; bits 1-3 kind; bits 8.. payload words
enum { DK_NODE, DK_EPHEMERON, DK_FINALIZER, DK_RAW };
#define DK_TAG(kind, n) (((uintptr_t)(n) << 8) | ((uintptr_t)(kind) << 1) | 1)
struct node { struct gc_header h; void *slot[]; };
#define GC_EMBEDDER_EPHEMERON_HEADER struct gc_header header;
#define GC_EMBEDDER_FINALIZER_HEADER struct gc_header header;
struct gc_mutator_roots { void **slot; size_t n; };
struct gc_heap_roots { void **slot; size_t n; };
extern void (*dk_root_hook)(struct gc_heap *heap);
extern void (*dk_heap_root_hook)(struct gc_heap *heap);
extern void (*dk_object_hook)(struct gc_ref ref);
extern int (*dk_extern_visit)(struct gc_edge edge, struct gc_ref ref);
extern void (*dk_extern_start)(int is_minor);
extern void (*dk_extern_finish)(int is_minor);
#ifndef DK_PRIORITIES
#define DK_PRIORITIES 3
#endif
static inline size_t gc_finalizer_priority_count(void) { return DK_PRIORITIES; }
static inline int gc_is_valid_conservative_ref_displacement(uintptr_t d) { return d == 0; }
static inline int gc_extern_space_visit(struct gc_extern_space *s, struct gc_edge e, struct gc_ref r) {
  if (!dk_extern_visit) __builtin_trap();
  return dk_extern_visit(e, r);
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *s, int m) { if (dk_extern_start) dk_extern_start(m); }
static inline void gc_extern_space_finish_gc(struct gc_extern_space *s, int m) { if (dk_extern_finish) dk_extern_finish(m); }
extern size_t gc_ephemeron_size(void); extern size_t gc_finalizer_size(void);
extern void gc_trace_ephemeron(struct gc_ephemeron *, void (*)(struct gc_edge, struct gc_heap *, void *), struct gc_heap *, void *);
extern void gc_trace_finalizer(struct gc_finalizer *, void (*)(struct gc_edge, struct gc_heap *, void *), struct gc_heap *, void *);
static inline size_t dk_size_of_tag(uintptr_t tag) {
  switch ((tag >> 1) & 7) {
  case DK_NODE: case DK_RAW: return sizeof(struct gc_header) + 8 * (tag >> 8);
  case DK_EPHEMERON: return gc_ephemeron_size();
  case DK_FINALIZER: return gc_finalizer_size();
  default: __builtin_trap();
  }
}
static inline void gc_trace_object(struct gc_ref ref, void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                   struct gc_heap *heap, void *data, size_t *size) {
  struct node *o = gc_ref_heap_object(ref);
  if (dk_object_hook && visit) dk_object_hook(ref);
  uintptr_t tag = o->h.tag;
  if (!(tag & 1)) __builtin_trap();
  if (size) *size = dk_size_of_tag(tag);
  if (!visit) return;
  switch ((tag >> 1) & 7) {
  case DK_NODE: for (size_t i = 0; i < tag >> 8; i++) if (!((uintptr_t)o->slot[i] & 1)) visit(gc_edge(&o->slot[i]), heap, data); break;
  case DK_EPHEMERON: gc_trace_ephemeron((struct gc_ephemeron *)o, visit, heap, data); break;
  case DK_FINALIZER: gc_trace_finalizer((struct gc_finalizer *)o, visit, heap, data); break;
  case DK_RAW: break;
  default: __builtin_trap();
  }
}
static inline void gc_trace_mutator_roots(struct gc_mutator_roots *r, void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                          struct gc_heap *heap, void *data) {
  if (dk_root_hook) dk_root_hook(heap);
  if (r) for (size_t i = 0; i < r->n; i++) visit(gc_edge(&r->slot[i]), heap, data);
}
static inline void gc_trace_heap_roots(struct gc_heap_roots *r, void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                       struct gc_heap *heap, void *data) {
  if (dk_heap_root_hook) dk_heap_root_hook(heap);
  if (r) for (size_t i = 0; i < r->n; i++) visit(gc_edge(&r->slot[i]), heap, data);
}
static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  uintptr_t t = ((struct gc_header *)gc_ref_heap_object(ref))->tag; return (t & 1) ? 0 : t;
}
static inline void gc_object_forward_nonatomic(struct gc_ref ref, struct gc_ref n) {
  ((struct gc_header *)gc_ref_heap_object(ref))->tag = gc_ref_value(n);
}
#define DK_TW(ref) (&((struct gc_header *)gc_ref_heap_object(ref))->tag)
static inline enum gc_forwarding_state dk_state(uintptr_t tag) {
  return tag == 0 ? GC_FORWARDING_STATE_BUSY : (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED : GC_FORWARDING_STATE_FORWARDED;
}
static inline struct gc_atomic_forward gc_atomic_forward_begin(struct gc_ref ref) {
  uintptr_t tag = atomic_load_explicit(DK_TW(ref), memory_order_acquire);
  return (struct gc_atomic_forward){ ref, tag, dk_state(tag) };
}
static inline int gc_atomic_forward_retry_busy(struct gc_atomic_forward *f) {
  uintptr_t tag = atomic_load_explicit(DK_TW(f->ref), memory_order_acquire);
  if (tag == 0) return 0;
  f->state = dk_state(tag); f->data = tag; return 1;
}
extern void (*dk_acquired_hook)(struct gc_ref ref);
static inline void gc_atomic_forward_acquire(struct gc_atomic_forward *f) {
  if (atomic_compare_exchange_strong(DK_TW(f->ref), &f->data, 0)) {
    f->state = GC_FORWARDING_STATE_ACQUIRED;
    if (dk_acquired_hook) dk_acquired_hook(f->ref);
  }
  else f->state = dk_state(f->data);
}
static inline void gc_atomic_forward_abort(struct gc_atomic_forward *f) {
  atomic_store_explicit(DK_TW(f->ref), f->data, memory_order_release);
  f->state = GC_FORWARDING_STATE_NOT_FORWARDED;
}
static inline size_t gc_atomic_forward_object_size(struct gc_atomic_forward *f) { return dk_size_of_tag(f->data); }
extern void (*dk_commit_hook)(struct gc_ref old, struct gc_ref new_ref);
static inline void gc_atomic_forward_commit(struct gc_atomic_forward *f, struct gc_ref n) {
  *DK_TW(n) = f->data;
  if (dk_commit_hook) dk_commit_hook(f->ref, n);
  atomic_store_explicit(DK_TW(f->ref), gc_ref_value(n), memory_order_release);
  f->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline uintptr_t gc_atomic_forward_address(struct gc_atomic_forward *f) { return f->data; }
#endif
