// The listeners that come with the API, as objects whose tables can be read.
#include <sys/types.h>
#include <stddef.h>
#include <stdlib.h>
#include "gc-api.h"
#include "gc-null-event-listener.h"
#include "gc-basic-stats.h"
#include "gc-event-listener-chain.h"

const struct gc_event_listener v_null = GC_NULL_EVENT_LISTENER;
const struct gc_event_listener v_stats = GC_BASIC_STATS;
const struct gc_event_listener v_chain = GC_EVENT_LISTENER_CHAIN;
void v_chain_data(struct gc_event_listener_chain *out, struct gc_event_listener a, void *ad,
                  struct gc_event_listener b, void *bd) {
  *out = GC_EVENT_LISTENER_CHAIN_DATA(a, ad, b, bd);
}
void v_stats_finish(struct gc_basic_stats *s) { gc_basic_stats_finish(s); }
void v_stats_print(struct gc_basic_stats *s, FILE *f) { gc_basic_stats_print(s, f); }
struct gc_latency v_make_latency(void) { return make_gc_latency(); }
uint64_t v_latency_count(struct gc_latency *h) { return gc_latency_count(h); }
uint64_t v_latency_min(struct gc_latency *h) { return gc_latency_min(h); }
uint64_t v_latency_max(struct gc_latency *h) { return gc_latency_max(h); }
uint64_t v_latency_percentile(struct gc_latency *h, double p) { return gc_latency_percentile(h, p); }
void v_latency_record(struct gc_latency *h, uint64_t v) { gc_latency_record(h, v); }
uint64_t v_latency_ref(struct gc_latency *h, size_t i) { return gc_latency_ref(h, i); }
