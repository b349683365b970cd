"""Shared state and the locks that guard it: C18."""
from core import rule, mt, is_par, AnalysisError
import q
from q import LockAutomaton, lock_event, const_of
from rules.world import stop_sense

H = 'gc_heap.'; HL = H + 'lock'
LL = 'large_object_space.lock'; TL = 'large_object_space.object_tree_lock'; RL = 'large_object_space.remembered_edges_lock'
NL = 'nofl_space.lock'; CL = 'copy_space.lock'; FL = 'gc_field_set.lock'; BL = 'gc_background_thread.lock'
AL = 'gc_adaptive_heap_sizer.lock'; GL = 'gc_growable_heap_sizer.lock'
# field -> (lock, 'rw': every access, 'w': writes)
GUARD = {}
def g(lock, mode, prefix, names):
    for n in names.split(): GUARD[prefix + n] = (lock, mode)
g(HL, 'rw', H, 'mutators mutator_count paused_mutator_count inactive_mutator_count max_active_mutator_count')
g(HL, 'w', H, 'collecting gc_kind size count total_allocated_bytes_at_last_gc size_at_last_gc is_minor_collection')
g(HL, 'rw', 'gc_mutator.', 'next prev')
g(HL, 'w', 'nofl_space.', 'slabs nslabs')
g(HL, 'w', 'copy_space.', 'slabs nslabs')
g(HL, 'w', 'extents.', 'size capacity ranges')
g(LL, 'rw', 'large_object_space.', 'nursery quarantine object_map')
g(LL, 'w', 'large_object_space.', 'free_pages total_pages')
g(TL, 'rw', 'large_object_space.', 'object_tree')
g(RL, 'rw', 'large_object_space.', 'remembered_edges')
g(NL, 'rw', 'nofl_space.', 'empty partly_full paged_out')
g(CL, 'rw', 'copy_space.', 'empty partly_full paged_out')
g(FL, 'rw', 'gc_field_set.', 'partly_full')
g(BL, 'rw', 'gc_background_thread.', 'count capacity tasks next_id state')
g(AL, 'rw', 'gc_adaptive_heap_sizer.', 'live_bytes smoothed_live_bytes smoothed_pause_time smoothed_allocation_rate last_bytes_allocated last_heartbeat expansiveness')
g(GL, 'rw', 'gc_growable_heap_sizer.', 'multiplier')
# written by many threads at once without a lock: each write must be one atomic step
ATOMIC = set('''nofl_space.to_sweep nofl_space.full nofl_space.promoted nofl_space.old nofl_space.evacuation_targets
 nofl_space.pending_unavailable_bytes nofl_space.old_generation_granules nofl_space.survivor_granules_at_last_collection
 nofl_space.allocated_granules_since_last_collection nofl_space.fragmentation_granules_since_last_collection
 copy_space.full copy_space.allocated_bytes copy_space.fragmentation copy_space.bytes_to_page_out
 gc_field_set.full gc_field_set.empty gc_heap.large_object_pages large_object_space.live_pages_at_last_collection
 gc_finalizer_state.fired gc_finalizer_table.buckets gc_finalizer_table.finalizer_count gc_tracer.active_tracers gc_tracer.epoch
 gc_pending_ephemerons.buckets gc_pending_ephemerons.resolved'''.split())

class Guarded(LockAutomaton):
    """user: 'init' | 'run' | 'stopping' | 'stopped' | 'worker'"""
    def __init__(self, mod, par):
        super().__init__(mod); self.hits = {}
        self.guard = GUARD if par else {f: x for f, x in GUARD.items() if x[0] != AL}   # serial: the sizer runs only inside collections and init
    def relevance_key(self): return len(self.guard)
    def relevant(self, I):
        if lock_event(I): return True
        return bool(self.guarded(I)) or I.is_mem() and I.field() == H + 'collecting'
    def guarded(self, I):
        c = self.mod.__dict__.setdefault('_guardcache%d' % len(self.guard), {})
        k = (I.fn.name, I.id)
        if k in c: return c[k]
        fs = ()
        if I.is_mem(): fs = I.fields()
        elif I.is_call() and not (I.callee_name() or '').startswith(('pthread_', 'llvm.')):
            fs = set()
            for o in I.ops:
                if o[0] == 'v': fs |= set(I.fn.fields_of(o) or ())
        r = [f for f in fs if f in self.guard or f in ATOMIC]
        c[k] = r
        return r
    def ustep(self, u, locks, I, ev):
        if not ev and u != 'init':
            for f in self.guarded(I):
                write = I.is_write()
                if f in self.guard:
                    lock, mode = self.guard[f]
                    if mode == 'w' and not write: continue
                    if I.is_call() and mode == 'w': continue
                    self.hits.setdefault(f, set()).add((I.fn.name, I.id))
                    if lock in locks: continue
                    if u == 'stopped' and lock in (RL, NL, CL, FL): continue      # nobody else runs: not even the tracing workers
                    if u == 'tracing' and not write: continue
                    if u == 'worker' and lock == LL and not write and f.endswith('object_map'): continue   # held on the workers' behalf
                    self.error('unguarded', I, '%s %s without holding %s' % (f, 'is changed' if I.is_write() else 'is passed on' if I.is_call() else 'is read', lock))
                elif I.op == 'store':
                    self.hits.setdefault(f, set()).add((I.fn.name, I.id))
                    if u in ('stopped',): continue
                    self.error('not-atomic', I, '%s, which other threads update at the same time, is written by a plain store' % f)
                elif I.is_write(): self.hits.setdefault(f, set()).add((I.fn.name, I.id))
        if I.op == 'store' and I.field() == H + 'collecting':
            return ['stopping' if const_of(I.ops[0]) == 1 else 'run'] if u in ('run', 'stopping', 'stopped') else None
        return None
    def uassume(self, u, locks, I, pred, L, R):
        if u == 'stopping' and pred != 'in':
            s = stop_sense(I.fn, pred, L, R)
            if s and HL in locks: return ['stopped']
        return None

@rule('guarded-by', 'C18', configs=lambda c: mt(c))
def guarded_by(ctx, m, cfg):
    A = Guarded(m, is_par(cfg))
    st = set(q.thread_starts(m))
    for e in q.public_entries(m):
        dt = m.fn(e).ditypes or []
        cb = 'fn*' in dt and 'gc_mutator*' not in dt      # called back while tracing
        u = 'init' if e == 'gc_init' else 'worker' if e == 'trace_worker_thread' or cb else 'run'
        A.run(e, (frozenset(), u))
    q.report(ctx, A)
    for f, s in A.hits.items(): ctx.ok('accesses to %s' % f, n=len(s))
    ctx.need('guarded fields with accesses', len(A.hits), 20)
