"""Stopping the world: C01, C02, C30."""
from core import rule, is_mmc, is_pcc, mt, AnalysisError
import q
from q import LockAutomaton, lock_event, const_of, lindiff, delta_of_store, event_slot

H = 'gc_heap.'
LOCK = H + 'lock'
COUNTS = {H + 'mutator_count': 2, H + 'paused_mutator_count': 0, H + 'inactive_mutator_count': 1}
WORK_EVENTS = {'mutators_stopped', 'prepare_gc', 'roots_traced', 'heap_traced', 'ephemerons_traced', 'finalizers_traced',
               'restarting_mutators', 'live_data_size'}
WORK_CALLS = {'v_mutator_root_edge', 'v_heap_root_edge', 'v_extern_space_start_gc', 'v_extern_space_finish_gc'}
WORK_STORES = {H + 'count', H + 'gc_kind', 'gc_tracer.epoch', 'nofl_space.current_mark', 'nofl_space.survivor_mark', 'nofl_space.evacuating',
               'copy_space.active_region', 'large_object_space.marked', 'gc_heap.is_minor_collection', 'gc_heap.check_pending_ephemerons'}

def stop_sense(fn, pred, L, R):
    """True: all mutators stopped, False: not, None: unrelated"""
    if pred == 'in': return None
    d, c = lindiff(fn, L, R)
    want = {H + 'mutator_count': 1, H + 'paused_mutator_count': -1, H + 'inactive_mutator_count': -1}
    if c != 0: return None
    neg = {k: -x for k, x in want.items()}
    if d == want: p = pred
    elif d == neg: p = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
    else: return None
    if p in ('eq', 'ule', 'sle'): return True
    if p in ('ne', 'ugt', 'sgt'): return False
    return None

def count_leaves(fn, v, depth=8):
    """values of the mutator counts that v was computed from: [(field, value key)]"""
    v = q.strip(fn, v)
    if v[0] != 'v' or depth == 0: return []
    sf = q.stored_field(fn, v)
    if sf in COUNTS: return [(sf, (fn.name, v[1]))]
    I = fn.insts[v[1]]
    if I.op in ('load', 'atomicrmw'): return [(I.field(), (fn.name, v[1]))] if I.field() in COUNTS else []
    if I.op in ('add', 'sub'): return count_leaves(fn, I.ops[0], depth - 1) + count_leaves(fn, I.ops[1], depth - 1)
    return []

def count_values(fn):
    """every value of a count that some test of whether the mutators are stopped uses"""
    r = getattr(fn, '_countvals', None)
    if r is None:
        r = set()
        for I in fn.all():
            if I.op == 'icmp' and stop_sense(fn, I.raw['pred'], I.ops[0], I.ops[1]) is not None:
                for o in I.ops[:2]: r.update(count_leaves(fn, o))
        fn._countvals = r
    return r

NOSTALE = frozenset()

class World(LockAutomaton):
    """user state: (col, stop, bc, need, dp, di, dc, seen0, stale)
       col: '?' | 0 | 1 | 'own' (this thread stopped the world)"""
    def __init__(self, mod, ctx, mode):
        super().__init__(mod); self.ctx = ctx; self.mode = mode
        self.hits = {}
    def relevant(self, I):
        ev = lock_event(I)
        if ev: return ev[1] == LOCK or len(ev) > 2 or ev[0] in ('signal', 'broadcast')
        if I.is_mem(): return I.field() in WORK_STORES or I.field() in COUNTS or I.field() == H + 'collecting'
        if I.is_call():
            c = I.callee()
            return c[0] == 'a' or event_slot(self.mod, I) in WORK_EVENTS or any(t in WORK_CALLS for t in self.mod.targets(I))
        return False
    def hit(self, k, I): self.hits.setdefault(k, set()).add((I.fn.name, I.id))
    def on_acquire(self, st, I, f, try_=False): pass
    def ustep(self, u, locks, I, ev):
        col, stop, bc, need, dp, di, dc, seen0, stale = u
        fn = I.fn
        if ev and ev[1] == LOCK or ev and ev[0] in ('signal', 'broadcast'):
            k = ev[0]
            if k == 'acq': return [('?', False, False, False, dp, di, dc, False, frozenset(k for _, k in count_values(fn)))]
            if k in ('rel', 'wait'):
                if need:
                    self.error('missing-signal', I, 'the heap lock is given up after a change that may complete the stop, and no path condition shows that the collector need not be signalled')
                if k == 'rel':
                    if col == 'own': self.error('lock-dropped-in-collection', I, 'the heap lock is released while this thread has mutators stopped')
                    if col == 'cleared' and not bc: self.error('missing-broadcast', I, 'mutators are allowed to continue but mutator_cond is not broadcast before the heap lock is released')
                    return [('?', False, False, False, dp, di, dc, col in (0, 'cleared'), frozenset(k for _, k in count_values(fn)))]
                self.hit('wait', I)
                cond = ev[2]
                if cond == H + 'collector_cond':
                    if col != 'own': self.error('collector-wait', I, 'waits for mutators to stop without having requested a stop')
                    return [(col, False, bc, False, dp, di, dc, seen0, stale)]
                if cond == H + 'mutator_cond':
                    if col == 'own': self.error('self-wait', I, 'the collector waits on the condition only it can signal')
                    if di == 0 and dp < 1 and dc == 0 and self.mode not in ('init', 'join'):
                        self.error('wait-uncounted', I, 'a mutator waits for the end of a collection without being counted as paused or inactive')
                    return [('?', False, False, False, dp, di, dc, False, frozenset(k for _, k in count_values(fn)))]
                return [('?' if col != 'own' else col, False, False, False, dp, di, dc, False, frozenset(k for _, k in count_values(fn)))]
            if k in ('signal', 'broadcast'):
                f = ev[1]
                if f == H + 'collector_cond': self.hit('signal', I); return [(col, stop, bc, False, dp, di, dc, seen0, stale)]
                if f == H + 'mutator_cond':
                    if k == 'signal' : self.error('signal-not-broadcast', I, 'only one of the stopped mutators is woken'); return None
                    return [(col, stop, True, need, dp, di, dc, seen0, stale)]
            return None
        if I.is_write():
            f = I.field()
            if f == H + 'collecting':
                v = const_of(I.value()) if I.op == 'store' else None
                self.hit('collecting', I)
                if self.mode == 'init' and v == 0: return None
                if LOCK not in locks: self.error('collecting-unlocked', I, 'the stop flag is written without the heap lock')
                if v == 0:
                    if col != 'own' or not stop: self.error('restart-unstopped', I, 'the stop flag is cleared outside of a completed stop')
                    return [('cleared', stop, bc, need, dp, di, dc, seen0, stale)]
                if v is not None and v != 0:
                    if col not in (0, 'cleared'): self.error('double-stop', I, 'a stop is requested without having seen, under the heap lock, that none is in progress')
                    return [('own', False, False, need, dp, di, dc, seen0, stale)]
                self.error('collecting-value', I, 'the stop flag is given an unexpected value')
                return None
            if f in COUNTS:
                if f == H + 'mutator_count' and I.op == 'store' and const_of(I.ops[0]) == 0: return None
                d = delta_of_store(I)
                self.hit('count', I)
                if d not in (1, -1):
                    self.error('count-change', I, '%s is changed by something other than one' % f); return None
                if LOCK not in locks: self.error('count-unlocked', I, '%s is changed without the heap lock' % f)
                i = COUNTS[f]
                ds = [dp, di, dc]; ds[i] += d
                if abs(ds[i]) > 2:
                    self.error('count-runaway', I, '%s is changed repeatedly' % f); return []
                n = need
                st2 = stop
                if (i in (0, 1) and d == 1) or (i == 2 and d == -1):
                    if col != 'own': n = True
                else:
                    # the mutator becomes able to run
                    if col == 'own' and stop: pass
                    elif col in (0, 'cleared'): pass
                    elif self.mode == 'init': pass
                    else: self.error('resume-during-stop', I, '%s changes so that a mutator may run, without having seen under the heap lock that no stop is in progress' % f)
                if col == 'own' and i == 0 and d == -1: st2 = stop
                vals = count_values(fn); k = q.strip(fn, I.ops[0]); me = (fn.name, k[1]) if I.op == 'store' and k[0] == 'v' else (fn.name, I.id)
                stale = (stale | {x for g, x in vals if g == f}) - {me}
                return [(col, st2, bc, n) + tuple(ds) + (seen0, stale)]
            if f in WORK_STORES: return self.work(u, I, f)
        if I.op == 'load' and (fn.name, I.id) in stale: return [(col, stop, bc, need, dp, di, dc, seen0, stale - {(fn.name, I.id)})]
        if I.is_call():
            e = event_slot(self.mod, I)
            if e in WORK_EVENTS: return self.work(u, I, 'event ' + e)
            for t in self.mod.targets(I):
                if t in WORK_CALLS: return self.work(u, I, t)
            c = I.raw['callee']
            if c[0] == 'a' and self.cur_entry == fn.name and 'gc_mutator*' in (fn.ditypes or []):
                # user code run outside of the collector's control
                self.hit('without-gc', I)
                if LOCK in locks: self.error('callback-locked', I, 'user code is called with the heap lock held')
                if di < 1 or dp: self.error('callback-active', I, 'user code runs without a safepoint while the thread is counted as active')
        return None
    def work(self, u, I, what):
        col, stop = u[0], u[1]
        if self.mode != 'mutator': return None
        self.hit('work', I)
        if col != 'own' or not stop:
            self.error('unstopped-work', I, 'collector work (%s) on a path where not every mutator is known to be stopped' % what)
        return None
    def uassume(self, u, locks, I, pred, L, R):
        col, stop, bc, need, dp, di, dc, seen0, stale = u
        fn = I.fn
        if pred == 'in': return None
        s = stop_sense(fn, pred, L, R)
        if s is not None:
            self.hit('stop-test', I)
            if LOCK not in locks: return None
            if any(k in stale for o in (L, R) for _, k in count_leaves(fn, o)):
                self.hit('stale-test', I); return None
            if s: return [(col, True if col == 'own' else stop, bc, need, dp, di, dc, seen0, stale)]
            return [(col, stop, bc, False, dp, di, dc, seen0, stale)]
        Ls = q.strip(fn, L)
        if Ls[0] == 'v' and LOCK in locks:
            J = fn.insts[Ls[1]]
            if J.op == 'load' and J.field() == H + 'collecting' and const_of(R) == 0 and pred in ('eq', 'ne'):
                self.hit('collecting-test', I)
                if pred == 'eq':
                    if col == 'own' or col == 1: return []
                    return [(0 if col == '?' else col, stop, bc, False, dp, di, dc, seen0, stale)]
                if col in (0, 'cleared'): return []
                return [(1 if col == '?' else col, stop, bc, need, dp, di, dc, seen0, stale)]
        return None

def run_world(ctx, m):
    tot = {}
    errs = {}
    starts = set(q.thread_starts(m)); As = {}
    for e in q.public_entries(m):
        mode = 'init' if e == 'gc_init' else 'join' if e == 'gc_init_for_thread' else 'aux' if e in starts or e in ('allocation_counter_from_thread', 'set_heap_size_from_thread') else 'mutator'
        dt = m.fn(e).ditypes or []
        if mode == 'mutator' and 'fn*' in dt and 'gc_mutator*' not in dt: mode = 'aux'    # called back during tracing
        A = As.setdefault(mode, World(m, ctx, mode))
        outs = A.run(e, (frozenset(), ('?', False, False, False, 0, 0, 0, False, NOSTALE)))
        fn = m.fn(e)
        last = [I for I in fn.all() if I.op == 'ret']
        at = last[0] if last else next(fn.all())
        for (locks, u) in outs or ():
            col, stop, bc, need, dp, di, dc, seen0, stale = u
            if dp or di: A.cur = None; A.error('unbalanced', at, '%s can return with the paused count changed by %+d and the inactive count by %+d' % (e, dp, di))
            want = {'gc_init': (0, 1), 'gc_init_for_thread': (1,), 'gc_finish_for_thread': (-1,)}.get(e, (0,))
            if dc not in want: A.cur = None; A.error('unregistered', at, '%s can return with the mutator count changed by %+d' % (e, dc))
            if e == 'gc_safepoint_slow' and not seen0:
                A.cur = None; A.error('safepoint-runs-on', at, 'the safepoint slow path can return without having seen, under the heap lock, that no stop is in progress')
    for A in As.values():
        q.report(ctx, A)
        for k, s in A.hits.items(): tot.setdefault(k, set()).update(s)
    return tot

@rule('world-stop', 'C01', configs=mt)
def world_stop(ctx, m, cfg):
    tot = run_world(ctx, m)
    for k in ('collecting', 'count', 'work', 'stop-test', 'wait'):
        ctx.need(k, len(tot.get(k, ())), 2 if k in ('collecting', 'count') else 1)
    ctx.need('callback outside the collector', len(tot.get('without-gc', ())), 1)

# ---- C02: what a thread publishes before it stops ---------------------------
ALLOC_BLOCK = ('nofl_allocator.block', 'copy_space_allocator.block')
REMSET_BUF = 'gc_field_set_writer.buf'

class Publish(LockAutomaton):
    """user: (alloc, remset, stack, own, pend) - what is known to be handed over, and why it must be when the lock is given up"""
    def relevant(self, I):
        ev = lock_event(I)
        if ev: return ev[1] == LOCK
        if I.op == 'load': return I.field() == REMSET_BUF or any(x in ALLOC_BLOCK for x in I.fields())
        if I.op == 'store': return I.field() in (REMSET_BUF, H + 'collecting') or I.field() in COUNTS or any(x in ALLOC_BLOCK for x in I.fields())
        return I.is_call() and I.callee_name() == 'gc_stack_capture_hot'
    def __init__(self, mod, gen, cons):
        super().__init__(mod); self.gen = gen; self.cons = cons; self.points = {}
    def point(self, what, u, I):
        alloc, remset, stack, own, pend = u
        leaving = what.startswith('removed')
        self.points.setdefault(what, set()).add((I.fn.name, I.id))
        if not alloc: self.error('allocator-not-finished', I, '%s while the thread may still own an unfinished allocation block' % what)
        if self.gen and not remset: self.error('remembered-edges-not-released', I, '%s while the thread may still hold a private buffer of remembered edges' % what)
        if self.cons and not leaving and not stack: self.error('stack-not-captured', I, '%s without having captured the stack bounds and registers' % what)
    def ustep(self, u, locks, I, ev):
        alloc, remset, stack, own, pend = u
        if ev and ev[1] == LOCK and ev[0] in ('rel', 'wait'):
            if pend:
                self.point(pend, u, I)
                return [(alloc, remset, stack, own, None)]
            return None
        if I.op == 'store':
            f = I.field()
            c = const_of(I.ops[0])
            if f == REMSET_BUF: return [(alloc, c == 0, stack, own, pend)]
            if f in ALLOC_BLOCK or f == 'nofl_block_ref.summary':
                if f in ALLOC_BLOCK or any(x in ALLOC_BLOCK for x in I.fields()): return [(c == 0, remset, stack, own, pend)]
            if f in COUNTS:
                d = delta_of_store(I)
                if f == H + 'paused_mutator_count' and d == 1 and not own: return [(alloc, remset, stack, own, 'counted as paused')]
                if f == H + 'inactive_mutator_count' and d == 1: return [(alloc, remset, stack, own, 'counted as inactive')]
                if f == H + 'inactive_mutator_count' and d == -1: return [(alloc, remset, False, own, pend)]
                if f == H + 'mutator_count' and d == -1: return [(alloc, remset, stack, own, 'removed from the mutators')]
            if f == H + 'collecting':
                if c == 1: self.point('a stop is requested', u, I)
                return [(alloc, remset, stack, c == 1, pend)]
        if I.op == 'call':
            n = I.callee_name()
            if n == 'gc_stack_capture_hot': return [(alloc, remset, True, own, pend)]
        return None
    def uassume(self, u, locks, I, pred, L, R):
        alloc, remset, stack, own, pend = u
        L = q.strip(I.fn, L)
        if pred == 'eq' and const_of(R) == 0 and L[0] == 'v':
            J = I.fn.insts[L[1]]
            if J.op == 'load':
                f = J.field()
                if f == REMSET_BUF: return [(alloc, True, stack, own, pend)]
                if f in ALLOC_BLOCK or f == 'nofl_block_ref.summary' and any(x in ALLOC_BLOCK for x in J.fields()): return [(True, remset, stack, own, pend)]
        return None

@rule('publish-before-stop', 'C02', 'C08', configs=mt)
def publish(ctx, m, cfg):
    gen = 'generational' in cfg
    cons = 'conservative' in cfg
    A = Publish(m, gen, cons)
    for e in q.public_entries(m, threads=False):
        dt = m.fn(e).ditypes or []
        if e == 'gc_init' or ('fn*' in dt and 'gc_mutator*' not in dt): continue
        if not any('gc_mutator*' == t for t in dt): continue
        A.run(e, (frozenset(), (False, False, False, False, None)))
    q.report(ctx, A); pts = A.points
    for k in ('counted as paused', 'counted as inactive', 'removed from the mutators', 'a stop is requested'):
        ctx.need(k, len(pts.get(k, ())), 1)

# ---- C30: the list of mutators ----------------------------------------------
class MutList(LockAutomaton):
    """user: (next?, prev?, head?, frozenset of link updates, count delta in this hold)"""
    N, P, HD = 'gc_mutator.next', 'gc_mutator.prev', H + 'mutators'
    def __init__(self, mod): super().__init__(mod); self.ops = {}
    def relevant(self, I):
        ev = lock_event(I)
        if ev: return ev[1] == LOCK
        return I.is_mem() and I.field() in (self.N, self.P, self.HD, H + 'mutator_count')
    def vload(self, fn, v):
        v = q.strip(fn, v)
        if v[0] == 'v' and fn.insts[v[1]].op == 'load': return fn.insts[v[1]]
        return None
    def base(self, I):
        r = I.fn.root_of(I.ptr())
        J = self.vload(I.fn, r)
        return J.field() if J is not None else ('arg' if r[0] == 'a' else '?')
    def ustep(self, u, locks, I, ev):
        nx, pv, hd, ups, d = u
        if ev and ev[1] == LOCK:
            if ev[0] == 'acq': return [('?', '?', '?', frozenset(), 0)]
            if ev[0] == 'rel':
                self.finish(u, I); return [('?', '?', '?', frozenset(), 0)]
        if I.op == 'store':
            f = I.field()
            if f == H + 'mutator_count':
                x = delta_of_store(I)
                if x in (1, -1): return [(nx, pv, hd, ups, x)]
            if f in (self.N, self.P, self.HD):
                self.ops.setdefault(f, set()).add((I.fn.name, I.id))
                if LOCK not in locks and not (f != self.HD and const_of(I.ops[0]) == 0):
                    self.error('list-unlocked', I, 'the list of mutators is changed without the heap lock')
                V = self.vload(I.fn, I.ops[0]); vf = V.field() if V is not None else ('0' if const_of(I.ops[0]) == 0 else 'self')
                b = (self.base(I) or '?') if f != self.HD else ''
                # a phi of the known-null head and the list's head is the head
                return [(nx, pv, hd, ups | {(f.split('.')[1], b.split('.')[-1], (vf or '?').split('.')[-1])}, d)]
        return None
    def uassume(self, u, locks, I, pred, L, R):
        nx, pv, hd, ups, d = u
        if const_of(R) != 0 or pred not in ('eq', 'ne'): return None
        J = self.vload(I.fn, L)
        if J is None: return None
        s = 'null' if pred == 'eq' else 'set'
        f = J.field()
        if f == self.N: return [(s, pv, hd, ups, d)]
        if f == self.P: return [(nx, s, hd, ups, d)]
        if f == self.HD: return [(nx, pv, s, ups, d)]
        return None
    def finish(self, u, I):
        nx, pv, hd, ups, d = u
        if d == -1:
            if nx != 'null' and ('prev', 'next', 'prev') not in ups:
                self.error('unlink-next', I, 'a thread leaves the heap but its successor still points back to it')
            if pv != 'set' and ('mutators', '', 'next') not in ups:
                self.error('unlink-head', I, 'a thread leaves the heap but may remain the head of the list of mutators')
            if pv == 'set' and ('next', 'prev', 'next') not in ups:
                self.error('unlink-prev', I, 'a thread leaves the heap but its predecessor still points to it')
        if d == 1:
            if not any(x[0] == 'mutators' for x in ups): self.error('link-head', I, 'a thread joins the heap without entering the list of mutators')
            if hd != 'null' and not any(x[0] == 'next' and x[2] == 'mutators' for x in ups): self.error('link-next', I, 'a thread joins the heap and the rest of the list of mutators is dropped')
            if hd != 'null' and not any(x[0] == 'prev' and x[1] == 'mutators' for x in ups): self.error('link-prev', I, 'a thread joins the heap and the former head of the list does not point back to it')

@rule('mutator-list', 'C30', 'C03', configs=mt)
def mutlist(ctx, m, cfg):
    A = MutList(m)
    for e in q.public_entries(m, threads=False): A.run(e, (frozenset(), ('?', '?', '?', frozenset(), 0)))
    q.report(ctx, A); ops = A.ops
    for k in (MutList.N, MutList.P, MutList.HD): ctx.need('updates of ' + k, len(ops.get(k, ())), 2)
