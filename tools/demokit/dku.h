// Helpers for the demonstration programs.
#ifndef DKU_H
#define DKU_H
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "gc-null-event-listener.h"
#include "dk.h"
void (*dk_root_hook)(struct gc_heap *heap);
void (*dk_heap_root_hook)(struct gc_heap *heap);
void (*dk_object_hook)(struct gc_ref ref);
int (*dk_extern_visit)(struct gc_edge edge, struct gc_ref ref);
void (*dk_extern_start)(int); void (*dk_extern_finish)(int);
void (*dk_acquired_hook)(struct gc_ref ref);
void (*dk_commit_hook)(struct gc_ref old, struct gc_ref new_ref);
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED: " __VA_ARGS__); fputc('\n', stderr); _exit(1); } } while (0)
static inline size_t node_size(size_t n) { return sizeof(struct gc_header) + 8 * n; }
static inline struct node *dk_node(struct gc_mutator *m, size_t n) {
  struct node *o = gc_allocate(m, node_size(n), GC_ALLOCATION_TAGGED); o->h.tag = DK_TAG(DK_NODE, n); return o;
}
static inline struct node *dk_raw(struct gc_mutator *m, size_t n) {
  struct node *o = gc_allocate(m, node_size(n), GC_ALLOCATION_TAGGED_POINTERLESS); o->h.tag = DK_TAG(DK_RAW, n); return o;
}
static inline struct gc_ephemeron *dk_ephemeron(struct gc_mutator *m) {
  struct gc_ephemeron *e = gc_allocate_ephemeron(m); ((struct gc_header *)e)->tag = DK_TAG(DK_EPHEMERON, 0); return e;
}
static inline struct gc_finalizer *dk_finalizer(struct gc_mutator *m) {
  struct gc_finalizer *e = gc_allocate_finalizer(m); ((struct gc_header *)e)->tag = DK_TAG(DK_FINALIZER, 0); return e;
}
static inline void dk_set(struct gc_mutator *m, struct node *o, size_t i, void *v) {
  if (v && !((uintptr_t)v & 1))
    gc_write_barrier(m, gc_ref_from_heap_object(o), node_size(o->h.tag >> 8), gc_edge(&o->slot[i]), gc_ref_from_heap_object(v));
  o->slot[i] = v;
}
struct dk { struct gc_heap *heap; struct gc_mutator *mut; void *root[64]; struct gc_mutator_roots roots; };
static struct gc_event_listener dk_listener;
static int dk_have_listener; static void *dk_listener_data;
struct dk_start { const char *opts; int (*f)(struct dk *); };
static void *dk_start1(struct gc_stack_addr base, void *p) {
  struct dk_start *s = p; static struct dk d;
  struct gc_options *o = gc_allocate_options();
  if (s->opts && *s->opts) CHECK(gc_options_parse_and_set_many(o, s->opts), "options");
  CHECK(gc_init(o, base, &d.heap, &d.mut, dk_have_listener ? dk_listener : GC_NULL_EVENT_LISTENER, dk_listener_data), "gc_init");
  d.roots.slot = d.root; d.roots.n = 64;
  gc_mutator_set_roots(d.mut, &d.roots);
  _exit(s->f(&d));
}
static inline int dk_run(const char *opts, int (*f)(struct dk *)) { struct dk_start s = { opts, f }; gc_call_with_stack_addr(dk_start1, &s); return 1; }
struct dk_thread { pthread_t t; struct gc_heap *heap; struct gc_mutator *mut; void *root[16]; struct gc_mutator_roots roots; void (*f)(struct dk_thread *); void *data; };
static void *dk_thread1(struct gc_stack_addr base, void *p) {
  struct dk_thread *t = p; t->mut = gc_init_for_thread(base, t->heap);
  t->roots.slot = t->root; t->roots.n = 16; gc_mutator_set_roots(t->mut, &t->roots);
  t->f(t);
  gc_finish_for_thread(t->mut); return NULL;
}
static void *dk_thread0(void *p) { return gc_call_with_stack_addr(dk_thread1, p); }
static inline void dk_spawn(struct dk_thread *t, struct gc_heap *heap, void (*f)(struct dk_thread *), void *data) {
  t->heap = heap; t->f = f; t->data = data; CHECK(!pthread_create(&t->t, NULL, dk_thread0, t), "thread");
}
static inline void msleep(int ms) { struct timespec ts = { ms / 1000, (ms % 1000) * 1000000L }; nanosleep(&ts, NULL); }
// safepoint-polling wait
static inline void dk_wait(struct gc_mutator *m, _Atomic int *flag) { while (!atomic_load(flag)) { gc_safepoint(m); usleep(200); } }
#endif
