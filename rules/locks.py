"""Locks: C17 (discipline, order, waits)."""
from core import rule, is_mmc, is_pcc, is_bdw, mt, own, AnalysisError
import q
from q import LockAutomaton, lock_event, const_of

# a worker's lock is held by the collecting thread between collections and by the worker while it traces:
# ownership passes between threads, so it is only checked for order and for waits
HANDOFF = {'gc_trace_worker.lock'}

class Locks(LockAutomaton):
    """user: (tested, waited) - the shared fields tested since the lock was taken, and those that a wait was based on and that are not yet re-tested"""
    def __init__(self, mod, worker=False):
        super().__init__(mod); self.worker = worker; self.acq = {}; self.rel = {}; self.waits = {}; self.order = {}; self.tryorder = {}; self.waitheld = {}; self.signals = {}
    def relevant(self, I):
        return lock_event(I) is not None or I.op == 'ret' and False
    def on_acquire(self, st, I, f, try_=False):
        locks = st[0]
        self.acq.setdefault(f, set()).add((I.fn.name, I.id))
        if f in locks and f not in HANDOFF: self.error('double-acquire', I, 'takes %s while already holding it' % f)
        for h in locks:
            if h in HANDOFF and not self.worker: continue     # held for an idle worker, which holds nothing else
            if h != f: (self.tryorder if try_ else self.order).setdefault((h, f), (I, self.cur_entry, self.path()))
    def on_release(self, st, I, f):
        self.rel.setdefault(f, set()).add((I.fn.name, I.id))
        if f not in st[0] and f not in HANDOFF: self.error('release-unheld', I, 'gives up %s without holding it' % f)
    def on_wait(self, st, I, f, cond):
        self.waits.setdefault(cond, set()).add((I.fn.name, I.id))
        if f not in st[0]: self.error('wait-unlocked', I, 'waits on %s without holding %s' % (cond, f))
        for h in st[0]:
            if h != f: self.waitheld.setdefault((h, cond), (I, self.cur_entry, self.path()))
    def ustep(self, u, locks, I, ev):
        tested, waited = u
        if not ev: return None
        k = ev[0]
        if k in ('signal', 'broadcast'): self.signals.setdefault(ev[1], set()).add((I.fn.name, I.id)); return None
        if k == 'acq': return None if ev[1] in HANDOFF else [(frozenset(x for x in tested if x[0] != ev[1]), waited)]
        if k == 'wait':
            t = frozenset(x[1] for x in tested if x[0] == ev[1])
            if not t: self.error('blind-wait', I, 'waits on %s without having tested, under %s, the state it waits for' % (ev[2], ev[1]))
            return [(frozenset(x for x in tested if x[0] != ev[1]), frozenset({(ev[1], t)}) | frozenset(w for w in waited if w[0] != ev[1]))]
        if k == 'rel' and ev[1] not in HANDOFF:
            for w in waited:
                if w[0] == ev[1]: self.error('unchecked-wakeup', I, 'goes on after a wait without re-testing the state it waited for (%s): condition waits may wake up for no reason' % ', '.join(sorted(w[1])))
            return [(frozenset(x for x in tested if x[0] != ev[1]), frozenset(w for w in waited if w[0] != ev[1]))]
        return None
    def uassume(self, u, locks, I, pred, L, R):
        if not locks: return None
        tested, waited = u
        sh = self.shared()
        fs = {J.field() for v in ((L, R) if pred != 'in' else (L,)) for J in q.value_loads(I.fn, v) if J.field() in sh}
        if not fs: return None
        w2 = frozenset(w for w in waited if not (w[1] & fs))
        return [(tested | frozenset((l, f) for l in locks for f in fs), w2)]
    def shared(self):
        """fields that decide whether some wait is entered (or, for an unconditional wait, tested in the loop around it)"""
        r = self.mod.__dict__.get('_waitfields')
        if r is None:
            r = set()
            for f in self.mod.defined():
                for W in f.all():
                    ev = lock_event(W)
                    if not ev or ev[0] != 'wait': continue
                    ts = [T for T, _ in f.control_deps(W.block)]
                    got = {J.field() for T in ts if T.ops for J in q.value_loads(f, T.ops[0]) if J.field()}
                    if not got:
                        for h, body in f.loops().items():
                            if W.block in body:
                                for x in body:
                                    T = f.blocks[x][-1]
                                    if T.op in ('br', 'switch') and T.ops and len(f.succ[x]) > 1:
                                        got |= {J.field() for J in q.value_loads(f, T.ops[0]) if J.field()}
                    r |= got
            # a lock's holder need not re-test what it alone changes
            self.mod._waitfields = r
        return r

def cycle(edges):
    """one cycle in the graph, as a list of edges, or None"""
    g = {}
    for a, b in edges: g.setdefault(a, set()).add(b)
    col = {}
    def dfs(x, st):
        col[x] = 1; st.append(x)
        for y in sorted(g.get(x, ())):
            if col.get(y) == 1:
                c = st[st.index(y):] + [y]; return list(zip(c, c[1:]))
            if y not in col:
                r = dfs(y, st)
                if r: return r
        st.pop(); col[x] = 2
        return None
    for x in sorted(g):
        if x not in col:
            r = dfs(x, [])
            if r: return r
    return None

@rule('lock-discipline', 'C17')
def lock_discipline(ctx, m, cfg):
    A = Locks(m); T = Locks(m, True)
    starts = set(q.thread_starts(m))
    for e in q.public_entries(m):
        X = T if e in starts else A
        outs = X.run(e, (frozenset(), (frozenset(), frozenset())))
        fn = m.fn(e)
        last = [I for I in fn.all() if I.op == 'ret']
        for (locks, u) in outs or ():
            for l in sorted(locks - HANDOFF):
                X.cur = None; X.cur_entry = e
                X.error('lock-leak', last[0] if last else next(fn.all()), '%s can return with %s still held' % (e, l))
    for k, v in T.errors.items(): A.errors.setdefault(k, v)
    for k, v in T.order.items(): A.order.setdefault(k, v)
    for d in ('acq', 'rel', 'waits', 'signals'):
        for k, v in getattr(T, d).items(): getattr(A, d).setdefault(k, set()).update(v)
    A.waitheld.update(T.waitheld)
    q.report(ctx, A)
    c = cycle(set(A.order))
    if c:
        for ed in c:
            I, en, path = A.order[ed]
            ctx.bad('lock-order', I, 'takes %s while holding %s, but elsewhere the order is the opposite (cycle %s)' % (ed[1], ed[0], ' -> '.join([x[0] for x in c] + [c[-1][1]])), path, en,
                    key='lock-discipline:lock-order:%s->%s' % ed)
    # waiting for another thread with a lock held: that other thread must not need the lock to get there
    for (h, cond), (I, en, path) in A.waitheld.items():
        for s in starts:
            B = Locks(m, True); B.run(s, (frozenset(), (frozenset(), frozenset())))
            if cond in B.signals and h in B.acq:
                ctx.bad('wait-holding', I, 'waits on %s while holding %s, which the thread that is to wake it (%s) takes' % (cond, h, s), path, en)
    ctx.need('lock acquisitions', sum(len(v) for v in A.acq.values()), 1)
    ctx.need('lock releases', sum(len(v) for v in A.rel.values()), 1)
    ctx.ok('nested acquisitions (ordered pairs)', n=len(A.order)); ctx.ok('waits', n=sum(len(v) for v in A.waits.values()))
    if mt(cfg): ctx.need('waits', sum(len(v) for v in A.waits.values()), 2)

@rule('lock-init', 'C17')
def lock_init(ctx, m, cfg):
    """every mutex and condition variable that is used is initialised, and none is initialised outside of its owner's construction"""
    used = {}; init = {}
    for f in m.defined():
        for I in f.all():
            n = I.callee_name() if I.is_call() else None
            if not n or not n.startswith('pthread_'): continue
            if n in ('pthread_mutex_init', 'pthread_cond_init'):
                init.setdefault(f.field_of(I.ops[0]) or repr(f.expr(I.ops[0], 3)), []).append(I)
            ev = lock_event(I)
            if ev:
                used.setdefault(ev[1], []).append(I)
                if len(ev) > 2: used.setdefault(ev[2], []).append(I)
    for x, l in sorted(used.items()):
        if x in init: ctx.ok('used lock or condition is initialised', l[0])
        else: ctx.bad('uninitialised', l[0], '%s is used but nothing initialises it' % x, key='lock-init:uninitialised:' + x)
    for x, l in sorted(init.items()):
        ctx.ok("initialisation", l[0], n=len(l))
    ctx.need('initialised locks and conditions', len(init), 1 if own(cfg) else 1)
