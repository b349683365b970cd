"""Event listeners: C11 (order, arguments, bundled listeners) and C27 (the bundled statistics)."""
import os
from core import rule, mt, own, is_bdw, AnalysisError, VERIF
import q, ir
from q import Automaton, LockAutomaton, lock_event, const_of, key_of, lin, delta_of_store, event_slot

PHASES = ['requesting_stop', 'waiting_for_stop', 'mutators_stopped', 'prepare_gc', 'roots_traced', 'heap_traced',
          'ephemerons_traced', 'finalizers_traced', 'restarting_mutators']
# finalizers_traced is not in the manual's list; the Boehm adapter cannot tell it apart
OPTIONAL_BDW = {'finalizers_traced'}
HEAP_EVENTS = set(PHASES) | {'init', 'heap_resized', 'live_data_size', 'mutator_added'}
MUT_EVENTS = {'mutator_cause_gc', 'mutator_stopping', 'mutator_stopped', 'mutator_restarted', 'mutator_removed'}
H = 'gc_heap.'

class Order(Automaton):
    """(phase, mutator state, live seen, pending size, added, removed, init)"""
    def __init__(self, mod, cfg):
        super().__init__(mod); self.cfg = cfg; self.bdw = is_bdw(cfg); self.hits = {}; self.final = set()
        self.optional = OPTIONAL_BDW if self.bdw else set()
    def relevant(self, I):
        if I.is_call(): return event_slot(self.mod, I) is not None or I.callee_name() in ('pthread_cond_wait', 'pthread_cond_timedwait')
        if I.is_write(): return I.field() in (H + 'size', H + 'mutator_count', H + 'paused_mutator_count', H + 'collecting')
        if I.op == 'load': return I.field() == H + 'size'
        return False
    def step(self, st, I):
        ph, ms, live, size, added, removed, init, own_ = st
        f = I.fn
        if I.op == 'store' and I.field() == H + 'collecting':
            c = const_of(I.ops[0])
            return [(ph, ms, live, size, added, removed, init, c == 1)]
        if I.is_write() and I.field() == H + 'size':
            return [(ph, ms, live, (f.name,) + (key_of(I.value()) or (repr(I.value()),)), added, removed, init, own_)]
        if I.is_write() and I.field() == H + 'mutator_count' and mt(self.cfg):
            d = delta_of_store(I)
            if d == 1 and not added: self.error('added-late', I, 'a thread is counted before the listener is told of it')
            if d == -1 and not removed: self.error('removed-late', I, 'a thread is forgotten before the listener is told of it')
            return None
        if I.is_write() and I.field() == H + 'paused_mutator_count' and not own_:
            d = delta_of_store(I)
            if d == 1 and ms != 'stopped': self.error('pause-unannounced', I, 'a mutator pauses without having announced that it is stopping and stopped')
            if d == -1: return [(ph, 'resumed' if ms == 'stopped' else ms, live, size, added, removed, init, own_)]
            return None
        e = event_slot(self.mod, I)
        if e is None: return None
        self.hits.setdefault(e, set()).add((f.name, I.id))
        if e in PHASES:
            k = PHASES.index(e)
            nxt = ph + 1
            while nxt < len(PHASES) and PHASES[nxt] in self.optional and k > nxt: nxt += 1
            if k != nxt:
                self.error('order:' + e, I, '%s is announced %s' % (e, 'before a collection was requested' if ph < 0 else 'after %s' % PHASES[ph]))
            if e == 'restarting_mutators' and not live: self.error('live-size-missing', I, 'a collection ends without having reported the size of live data')
            if e == 'requesting_stop' and mt(self.cfg) and ms != 'cause': self.error('cause-missing', I, 'a collection starts without the thread having announced that it causes one')
            if e == 'restarting_mutators': return [(-1, 'run', False, size, added, removed, init, own_)]
            return [(k, ms, live, size, added, removed, init, own_)]
        if e == 'live_data_size':
            if ph < 0: self.error('live-outside', I, 'live data size is announced outside of a collection')
            if live: self.error('live-twice', I, 'live data size is announced twice in one collection')
            return [(ph, ms, True, size, added, removed, init, own_)]
        if e == 'heap_resized':
            v = I.ops[1]; k = key_of(v)
            ok = False
            if size is not None and k and size[0] == f.name and tuple(size[1:]) == k: ok = True
            if k and k[0] == 'v' and f.insts[k[1]].op == 'load' and f.insts[k[1]].field() == H + 'size': ok = size is not None
            if self.bdw: return None
            if not ok: self.error('resized-wrong', I, 'the heap is announced as resized to a size other than the one just recorded')
            return [(ph, ms, live, None, added, removed, init, own_)]
        if e == 'init':
            if init: self.error('init-twice', I, 'the listener is initialised twice')
            if added: self.error('init-late', I, 'a thread is announced before the listener is initialised')
            return [(ph, ms, live, size, added, removed, True, own_)]
        if e == 'mutator_added':
            if added: self.error('added-twice', I, 'one thread is announced twice')
            if self.cur_entry == 'gc_init' and not init: self.error('added-before-init', I, 'a thread is announced before the listener is initialised')
            return [(ph, ms, live, size, True, removed, init, own_)]
        if e == 'mutator_removed':
            if removed: self.error('removed-twice', I, 'one thread is announced as gone twice')
            return [(ph, ms, live, size, added, True, init, own_)]
        nxt = {'mutator_cause_gc': ('run', 'cause'), 'mutator_stopping': ('run', 'stopping'), 'mutator_stopped': ('stopping', 'stopped'), 'mutator_restarted': ('resumed', 'run')}.get(e)
        if nxt:
            if ms != nxt[0]: self.error('mutator-order', I, '%s is announced in the wrong place (thread state: %s)' % (e, ms))
            return [(ph, nxt[1], live, size, added, removed, init, own_)]
        return None
    def assume(self, st, I, pred, L, R):
        # new size == old size: nothing to announce
        ph, ms, live, size, added, removed, init, own_ = st
        if size is None or pred != 'eq': return None
        def is_old(v):
            v = q.strip(I.fn, v)
            return v[0] == 'v' and I.fn.insts[v[1]].op == 'load' and I.fn.insts[v[1]].field() == H + 'size'
        for a, b in ((L, R), (R, L)):
            if is_old(b) and (is_old(a) or (key_of(a) and tuple(size[1:]) == key_of(a))): return [(ph, ms, live, None, added, removed, init, own_)]
        return None

def callbacks(m):
    """internal functions handed to code outside of the analysed program"""
    out = set()
    for f in m.defined():
        for I in f.all():
            if I.is_call() and I.callee_name() and m.fn(I.callee_name()) is None:
                for o in I.ops:
                    if o[0] == 'f' and m.fn(o[1]): out.add(o[1])
    return sorted(out)

INIT = (-1, 'run', False, None, False, False, False, False)

@rule('event-order', 'C11')
def event_order(ctx, m, cfg):
    A = Order(m, cfg)
    ents = q.public_entries(m)
    for cb in callbacks(m):
        if cb not in ents: ents.append(cb)
    for e in ents:
        fn = m.fn(e)
        if is_bdw(cfg) and any('GC_EventType' in (t or '') for t in fn.ditypes or []): continue
        if e in ('allocation_counter_from_thread', 'set_heap_size_from_thread'): pass
        outs = A.run(e, INIT)
        last = [I for I in fn.all() if I.op == 'ret']
        at = last[0] if last else next(fn.all())
        for st in outs or ():
            ph, ms, live, size, added, removed, init, own_ = st
            A.cur = None
            if ph != -1: A.error('unfinished', at, '%s can return in the middle of a collection as announced (after %s)' % (e, PHASES[ph]))
            if ms != 'run' and not (ms == 'cause'): A.error('mutator-unfinished', at, '%s can return while its thread is announced as %s' % (e, ms))
            if size is not None and e != 'gc_init': A.error('resize-unannounced', at, '%s can return with the heap resized and heap_resized not announced' % e)
            if e == 'gc_init' and not init and added: A.error('init-missing', at, 'start-up can finish without initialising the listener')
            if e == 'gc_init_for_thread' and not added: A.error('added-missing', at, 'a thread joins unannounced')
            if e == 'gc_finish_for_thread' and not removed and cfg != 'semi': A.error('removed-missing', at, 'a thread leaves unannounced')
    if is_bdw(cfg):
        ev = [f for f in (m.fn(c) for c in callbacks(m)) if f and any('GC_EventType' in (t or '') for t in f.ditypes or [])]
        if len(ev) != 1: raise AnalysisError('no single collection-event callback in the Boehm adapter')
        order = ['GC_EVENT_START', 'GC_EVENT_MARK_START', 'GC_EVENT_MARK_END', 'GC_EVENT_RECLAIM_START', 'GC_EVENT_RECLAIM_END', 'GC_EVENT_END']
        sts = {INIT[:1] + ('cause',) + INIT[2:]}
        A.cur_entry = ev[0].name
        for k in order:
            v = m.enum_value(k)
            if v is None: raise AnalysisError('enumerator %s not found' % k)
            nxt = set()
            for s in sts:
                r = run_with(A, ev[0].name, s, {0: v})
                nxt |= r
            sts = nxt
        for s in sts:
            if s[0] != -1: A.cur = None; A.error('unfinished', next(ev[0].all()), 'a Boehm collection ends without restarting_mutators being announced')
    q.report(ctx, A)
    for p in PHASES:
        if p in A.optional: continue
        if not A.hits.get(p): ctx.bad('missing:' + p, cfg, '%s is never announced' % p)
        else: ctx.ok('announcements of ' + p, n=len(A.hits[p]))
    # arguments
    n = 0
    for f in m.defined():
        for I in f.all():
            e = event_slot(m, I)
            if e is None: continue
            n += 1
            want = 'gc_heap.event_listener_data' if e in HEAP_EVENTS else 'gc_mutator.event_listener_data'
            a = I.ops[0]; a = q.strip(f, a)
            ok = a[0] == 'v' and f.insts[a[1]].op == 'load' and f.insts[a[1]].field() == want
            if a[0] == 'a' and e == 'mutator_added': ok = True     # the listener data given to gc_init
            if a[0] == 'a' and f.name != 'gc_init': ok = False
            if not ok: ctx.bad('argument:' + e, I, '%s is not given %s' % (e, want))
            if e == 'mutator_added':
                us = [U for U in f.users(('v', I.id)) if U.op == 'store' and U.field() == 'gc_mutator.event_listener_data']
                if not us: ctx.bad('mutator-data', I, 'the per-thread data returned by the listener is not kept')
    ctx.need('event calls', n, 10)

def run_with(A, fname, st, args):
    ca = frozenset(args.items())
    k = A._request(fname, st, ca, None, None)
    while A.wq:
        kk = A.wq.popleft(); A.inwork.discard(kk); A._analyse(kk)
    return set(s for s, _ in A.summ[k])

# ---- the bundled listeners --------------------------------------------------
L = dict(load=dict(units=[os.path.join(VERIF, 'engine', 'model', 'v-listeners.c')], user=False), compile_is_property=True)
one = lambda c: c == 'mmc'

def table(m, g):
    init = m.globals.get(g, {}).get('init')
    if not init or init[0] != 'agg': raise AnalysisError('listener table %s not found' % g)
    ms = m.types['gc_event_listener']['members']
    if len(ms) != len(init[1]): raise AnalysisError('listener table %s is incomplete' % g)
    return [(ms[i]['name'], init[1][i]) for i in range(len(ms))]

class Fwd(Automaton):
    """which (part, slot) were called, in a set; an error when one is called twice"""
    def __init__(self, mod): super().__init__(mod); self.calls = []
    def step(self, st, I):
        e = event_slot(self.mod, I)
        if e is None: return None
        c = I.callee(); J = I.fn.insts[c[1]] if c[0] == 'v' else None
        part = '?'
        if J is not None and J.op == 'load':
            base, sname, off, var = I.fn.resolve_ptr(J.ptr())
            ms = [x['name'] for x in self.mod.types['gc_event_listener_chain']['members'] if x['off'] <= off * 8 < x['off'] + x['size']]
            if ms and not var: part = ms[0]
        k = (part, e)
        self.calls.append((I, k))
        if k in st: self.error('twice', I, '%s of %s is called twice' % (e, k[0]))
        return [st | {k}]

@rule('listener-chain', 'C11', configs=one, **L)
def listener_chain(ctx, m, cfg):
    for slot, v in table(m, 'v_chain'):
        if v[0] != 'f' or m.fn(v[1]) is None:
            ctx.bad('chain:' + slot, 'v_chain', 'the chain has no handler for %s' % slot); continue
        fn = m.fn(v[1])
        A = Fwd(m)
        outs = A.run(v[1], frozenset())
        want = frozenset([('head', slot), ('tail', slot)])
        first = next(fn.all())
        for o in outs or ():
            if o != want: A.cur = None; A.error('forward', first, 'the chain handles %s by calling %s' % (slot, ', '.join('%s of %s' % (b, a) for a, b in sorted(o)) or 'nothing'))
        for I, (part, e) in A.calls:
            mutdata = slot in MUT_EVENTS
            want_f = ('gc_event_listener_chain_mutator.%s_mutator_data' if mutdata else 'gc_event_listener_chain.%s_data') % part
            a = q.strip(fn, I.ops[0])
            if not (a[0] == 'v' and I.fn.insts[a[1]].op == 'load' and I.fn.insts[a[1]].field() == want_f):
                ctx.bad('chain-data:%s:%s' % (slot, part), I, '%s of %s is not given its own data' % (e, part))
            for i, o in enumerate(I.ops[1:], 1):
                if o[0] != 'a' or o[1] != i: ctx.bad('chain-arg:%s:%s' % (slot, part), I, 'argument %d of %s is not passed on' % (i, e))
            if slot == 'mutator_added':
                us = [U for U in I.fn.users(('v', I.id)) if U.op == 'store' and U.field() == 'gc_event_listener_chain_mutator.%s_mutator_data' % part]
                if not us: ctx.bad('chain-added:' + part, I, 'the per-thread data of %s is lost' % part)
            ctx.ok('forwarded events', I)
        q.report(ctx, A)
        if slot == 'mutator_added':
            for I in fn.all():
                if I.op == 'store' and I.field() == 'gc_event_listener_chain_mutator.chain' and I.ops[0][0] == 'a': break
            else: ctx.bad('chain-link', first, 'the per-thread data does not lead back to the chain')
    # the initialiser
    fn = m.fn('v_chain_data')
    if fn is None: raise AnalysisError('no chain data initialiser')

class NoEffect(Automaton):
    def step(self, st, I):
        if I.is_call() or I.is_write():
            if I.is_call() and (I.callee_name() or '').startswith('llvm.'): return None
            self.error('effect', I, 'the null listener has an effect')
        return None

@rule('listener-null', 'C11', configs=one, **L)
def listener_null(ctx, m, cfg):
    for slot, v in table(m, 'v_null'):
        fn = m.fn(v[1]) if v[0] == 'f' else None
        if fn is None: ctx.bad('null:' + slot, 'v_null', 'the null listener has no handler for %s' % slot); continue
        A = NoEffect(m); A.run(v[1], 0); q.report(ctx, A); ctx.ok('empty handlers')
        for I in fn.all():
            if I.op == 'unreachable' or I.op == 'ret' and I.ops and I.ops[0][0] in ('undef', 'poison'):
                ctx.bad('null-return:' + slot, I, '%s of the null listener returns nothing' % slot)

# ---- statistics -------------------------------------------------------------
S = 'gc_basic_stats.'
class Effects(Automaton):
    """set of (field, value description) stored on the path so far"""
    def step(self, st, I):
        if I.op == 'store' or I.op == 'atomicrmw':
            f = I.field()
            if not f or f.startswith('?'): return None
            if f.split('.')[0] not in ('gc_basic_stats', 'gc_latency', 'timeval', 'timespec'): return None
            return [st | {(f, desc(I))}]
        if I.is_call() and (I.callee_name() or '').startswith(('memset', 'llvm.memset')):
            return [st | {('*', 'memset%s%s' % (const_of(I.ops[1]), const_of(I.ops[2])))}]
        return None

def desc(I):
    """the stored value as a linear form over fields loaded, arguments and clocks"""
    fn = I.fn
    if I.op == 'atomicrmw':
        d = delta_of_store(I)
        return ((I.field(), 1), d) if d else 'rmw'
    a, c = q.lin(fn, I.ops[0], current=False)
    out = []
    for k, x in a.items():
        if isinstance(k, tuple): k = 'arg%d' % k[1] if k[0] == 'a' else name_of(fn, k[1])
        out.append((k, x))
    return tuple(sorted(out, key=repr)) + ((c,) if c else ())

def name_of(fn, vid):
    J = fn.insts[vid]
    if J.is_call(): return 'call:%s' % J.callee_name()
    if J.op in ('sdiv', 'udiv') and const_of(J.ops[1]) is not None:
        a, c = q.lin(fn, J.ops[0], current=False)
        return 'div:%s:%d' % (sorted(map(str, a)), const_of(J.ops[1]))
    return 'value'

@rule('listener-stats', 'C27', 'C11', configs=one, **L)
def listener_stats(ctx, m, cfg):
    tab = dict(table(m, 'v_stats'))
    for s, v in tab.items():
        if v[0] != 'f' or m.fn(v[1]) is None: ctx.bad('stats:' + s, 'v_stats', 'no handler for %s' % s)
    at = lambda s: next(m.fn(tab[s][1]).all())
    def eff(s, args=None):
        A = Effects(m); A.cur_entry = s
        return run_with(A, tab[s][1], frozenset(), args or {})
    def check(s, cond, msg):
        if cond: ctx.ok('statistics handlers')
        else: ctx.bad('stats:' + s, at(s), msg)
    MIN = m.enum_value('GC_COLLECTION_MINOR')
    for k in ('GC_COLLECTION_ANY', 'GC_COLLECTION_MINOR', 'GC_COLLECTION_MAJOR', 'GC_COLLECTION_COMPACTING'):
        v = m.enum_value(k)
        if v is None: continue
        f = S + ('minor' if v == MIN else 'major') + '_collection_count'
        for o in eff('prepare_gc', {1: v}):
            check('prepare_gc', o == frozenset([(f, ((f, 1), 1))]), 'a collection of kind %s is not counted once, as %s' % (k, f))
    def times(s, a, b):
        for o in eff(s):
            d = {}
            for f, x in o: d.setdefault(f, set()).add(x)
            for tot, last in ((S + a, S + 'last_time_usec'), (S + b, S + 'last_cpu_time_usec')):
                now = d.get(last, set())
                check(s, len(now) == 1 and any('tv_' in str(t) for t in next(iter(now))), '%s does not restart the clock %s' % (s, last))
                if len(now) != 1: continue
                want = dict(t for t in next(iter(now)) if isinstance(t, tuple)); want[tot] = 1; want[last] = want.get(last, 0) - 1
                x = d.get(tot, set())
                good = len(x) == 1 and dict(t for t in next(iter(x)) if isinstance(t, tuple)) == want
                check(s, good, '%s does not add the time since the last change to %s' % (s, tot))
            for tot in d:
                if tot.startswith(S) and tot not in (S + a, S + b, S + 'last_time_usec', S + 'last_cpu_time_usec') and not tot.startswith(S + 'pause_times'):
                    check(s, False, '%s changes %s' % (s, tot))
    times('requesting_stop', 'elapsed_mutator_usec', 'cpu_mutator_usec')
    times('restarting_mutators', 'elapsed_collector_usec', 'cpu_collector_usec')
    rec = [I for I in m.fn(tab['restarting_mutators'][1]).all() if I.is_mem() and any('pause_times' in x or 'gc_latency.' in x for x in I.fields())]
    recc = [I for I in m.fn(tab['restarting_mutators'][1]).all() if I.is_call() and 'latency' in ' '.join(m.targets(I))]
    check('restarting_mutators', bool(rec or recc), 'pauses are not recorded in the histogram')
    for s, cur in (('heap_resized', 'heap_size'), ('live_data_size', 'live_data_size')):
        mx = S + 'max_' + cur
        A = MaxRule(m, S + cur, mx)
        outs = run_with(A, tab[s][1], (False, '?'), {})
        for o in outs:
            check(s, o[0], '%s does not record the new size' % s)
            check(s, o[1] == 'ok', '%s leaves the maximum below the new size' % s)
        q.report(ctx, A)
    for o in eff('init'):
        d = dict(o)
        fs = set(f for f, x in o)
        check('init', ('*', 'memset0%d' % (m.types['gc_basic_stats']['size'] // 8)) in o, 'statistics do not start from zero')
        check('init', {S + 'heap_size', S + 'max_heap_size', S + 'last_time_usec', S + 'last_cpu_time_usec'} <= fs, 'statistics start without heap size or clock')
    for s in tab:
        if s in ('init', 'requesting_stop', 'prepare_gc', 'restarting_mutators', 'heap_resized', 'live_data_size'): continue
        for o in eff(s): check(s, not o, '%s changes the statistics' % s)

class MaxRule(Automaton):
    """(current recorded, max: '?' | 'ok')"""
    def __init__(self, mod, cur, mx): super().__init__(mod); self.c = cur; self.mx = mx
    def step(self, st, I):
        if I.op != 'store': return None
        f = I.field()
        if f == self.c: return [(I.ops[0][0] == 'a', st[1])]
        if f == self.mx:
            v = I.ops[0]
            if v[0] == 'a': 
                if st[1] == 'ok' and st[1] != 'gt': self.error('max-lowered', I, 'the maximum may be lowered')
                elif st[1] != 'gt': self.error('max-unguarded', I, 'the maximum is replaced without having been compared')
                return [(st[0], 'ok')]
            if v[0] == 'v': return [(st[0], 'ok' if 'max' in repr(I.fn.expr(v, 3)) or 'select' in repr(I.fn.expr(v, 3)) else '?')]
        return None
    def assume(self, st, I, pred, L, R):
        fn = I.fn
        def kind(v):
            v = q.strip(fn, v)
            if v[0] == 'a' and v[1] == 1: return 'new'
            if v[0] == 'v' and fn.insts[v[1]].op == 'load':
                f = fn.insts[v[1]].field()
                return 'max' if f == self.mx else 'new' if f == self.c else None
        a, b = kind(L), kind(R)
        if a == 'max' and b == 'new': pred = q.SWAP[pred]; a, b = b, a
        if a == 'new' and b == 'max':
            if pred in ('ugt', 'uge'): return [(st[0], 'gt')]
            if pred in ('ule', 'ult', 'eq'): return [(st[0], 'ok')]
        return None
