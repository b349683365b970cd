"""Collection kinds: C22 (requests are honoured) and C31 (marks, ages and roles turn over as the kind requires)."""
from core import rule, mt, own, is_gen, is_semi, is_mmc, is_pcc, is_bdw, AnalysisError
import q
from q import Automaton, const_of, event_slot

H = 'gc_heap.'
KIND = H + 'gc_kind'; MIN = H + 'is_minor_collection'
NAME = {0: 'ANY', 1: 'MINOR', 2: 'MAJOR', 3: 'COMPACTING'}
PHASES = ['prepare_gc', 'roots_traced', 'heap_traced', 'ephemerons_traced', 'finalizers_traced', 'restarting_mutators']

def part(I):
    """member of gc_heap that the written object belongs to, if known"""
    r = I.fn.resolve_ptr(I.ptr())
    if not r or r[1] not in ('gc_heap',): return None
    return next((n for n in I.mod.member_chain('gc_heap', r[2]) or () if n.startswith('gc_heap.')), None)

class Kinds(Automaton):
    """state: (waited: False | True | 'read' since, covered, done, first, K, started, evs) ; evs: frozenset of (event, 1|2)"""
    def __init__(self, mod, cfg, R):
        super().__init__(mod); self.cfg = cfg; self.R = R; self.hits = {}; self.gen = is_gen(cfg)
        self.E = {n: mod.enum_value('GC_COLLECTION_' + n) for n in ('ANY', 'MINOR', 'MAJOR', 'COMPACTING')}
        if None in self.E.values(): raise AnalysisError('collection kinds not found')
    def relevance_key(self): return self.cfg
    def watch_key(self): return 'kinds'
    def relevant(self, I):
        if I.is_call():
            return event_slot(self.mod, I) in PHASES or I.callee_name() in ('pthread_cond_wait', 'v_extern_space_start_gc', 'v_extern_space_finish_gc') or (I.callee_name() or '').startswith('GC_')
        if I.op == 'load': return I.field() in (KIND, MIN, H + 'count', 'nofl_space.evacuating')
        return I.op in ('store', 'atomicrmw') and (I.field() in (KIND, MIN) or self.event(I) is not None)
    def watch(self, I):
        if I.op == 'icmp' and (I.ops[0][0] == 'a' or I.ops[1][0] == 'a'): return I.ops
        if I.is_call():
            if event_slot(self.mod, I) == 'prepare_gc': return I.ops[1:2]
            if I.callee_name() in ('v_extern_space_start_gc', 'v_extern_space_finish_gc'): return I.ops[1:2]
        elif I.op == 'store' and I.field() in (KIND, MIN, 'nofl_space.last_collection_was_minor'): return I.ops[:1]
        return ()
    def event(self, I):
        """turnover event this store is"""
        c = self.mod.__dict__.setdefault('_kev', {}); k = (I.fn.name, I.id)
        if k in c: return c[k]
        r = None
        if I.op in ('store', 'atomicrmw'):
            f = I.field(); v = const_of(I.ops[0]) if I.op == 'store' else None
            if f == 'nofl_space.current_mark': r = 'mark'
            elif f == 'large_object_space.marked': r = 'lomark'
            elif f == 'large_object_space.live_pages_at_last_collection' and v == 0: r = 'lopages'
            elif f == 'nofl_space.old_generation_granules' and v == 0: r = 'old0'
            elif f == 'nofl_space.evacuating' and v == 1: r = 'evac1'
            elif f == 'nofl_space.evacuating' and v == 0: r = 'evac0'
            elif f == 'nofl_space.survivor_mark' and v is None: r = 'survivor'
            elif f == 'nofl_space.last_collection_was_minor': r = 'wasminor'
            elif f == 'copy_space.active_region' and v is None: r = 'flip'
            elif f == 'copy_space.in_gc' and v == 1: r = 'ingc1'
            elif f == 'copy_space.in_gc' and v == 0: r = 'ingc0'
            elif f == 'gc_field_set.partly_full' and v == 0: r = 'clear-partly'
            elif f == 'gc_field_set.full' and v == 0: r = 'clear-full'
            elif f in ('hash_set.n_items', 'hash_map.n_items') and v == 0 and I.fn.root_of(I.ptr())[0] != 'alloca' and not (I.fn.expr(I.ptr(), 3)[2:3] and I.fn.expr(I.ptr(), 3)[2][0] == 'alloca'):
                p = self.mapname(I)
                r = p
        c[k] = r
        return r
    def mapname(self, I):
        r = I.fn.resolve_ptr(I.ptr())
        if not r: return None
        ch = str(self.mod.member_chain(r[1], r[2]) or '') if r[1] else ''
        if 'remembered_edges' in ch: return 'clear-lo'
        if 'nursery' in ch: return 'nursery'
        return None
    @staticmethod
    def inc(evs, e):
        n = dict(evs).get(e, 0)
        return frozenset(x for x in evs if x[0] != e) | {(e, min(n + 1, 3))}
    def minor(self, K):
        """1, 0 or None"""
        if K is None: return None
        s = {k == self.E['MINOR'] for k in K}
        return int(s.pop()) if len(s) == 1 else None
    def step(self, st, I):
        waited, covered, done, first, K, ph, evs, stored = st
        E = self.E
        if I.is_call():
            n = I.callee_name()
            if n == 'pthread_cond_wait' and I.fn.field_of(I.ops[0]) == H + 'mutator_cond':
                cov = self.R in (E['ANY'], E['MINOR']) or is_pcc(self.cfg) and not self.gen
                return [(True, covered or cov, done, first, K, ph, evs, stored)]
            if n and n.startswith('GC_') and is_bdw(self.cfg):
                lvl = {'GC_collect_a_little': E['MINOR'], 'GC_gcollect': E['MAJOR'], 'GC_gcollect_and_unmap': E['COMPACTING'], 'GC_try_to_collect': E['MAJOR']}.get(n)
                if lvl is not None and (self.R is None or lvl >= self.R): return [(waited, covered, True, first, K, ph, evs, stored)]
                return None
            e = event_slot(self.mod, I)
            if e == 'prepare_gc':
                K = self.value(I.ops[1])
                K = frozenset(K) if K is not None else None
                self.kindcheck(I, K, st)
                if stored is not None and K is not None and len(stored) == 1:
                    s = next(iter(stored))
                    ok = s[1] == (K == {E['MINOR']}) if s[0] == 'minor' else K == {s[1]}
                    if len(K) == 1 and not ok: self.error('kind-mismatch', I, 'the kind of collection that is announced is %s, but another one is recorded for the collection' % NAME.get(min(K)))
                return [(waited, covered, True, first, K, 'prepare_gc', frozenset(), stored)]
            if e in PHASES:
                if e == 'restarting_mutators' and ph is not None: self.finish(I, K, evs)
                return [(waited, covered, done, first, None if e == 'restarting_mutators' else K, None if e == 'restarting_mutators' else e if ph else ph, evs, None if e == 'restarting_mutators' else stored)]
            if n in ('v_extern_space_start_gc', 'v_extern_space_finish_gc') and ph is not None:
                v = self.value(I.ops[1]); mi = self.minor(K)
                if mi is not None and v is not None and len(v) == 1 and bool(min(v)) != bool(mi):
                    self.error('extern-kind', I, 'the external space is told that this is%s a minor collection although it is%s' % ('' if min(v) else ' not', '' if mi else ' not'))
                return [(waited, covered, done, first, K, ph, self.inc(evs, n), stored)]
            return None
        f = I.field()
        if I.op == 'load':
            return [('read',) + st[1:]] if waited and f in (KIND, MIN) else None
        if f == KIND:
            v = self.value(I.ops[0])
            return [(waited, covered, done, first, K, ph, evs, frozenset(('kind', x) for x in v) if v is not None else None)]
        if f == MIN:
            v = self.value(I.ops[0])
            return [(waited, covered, done, first, K, ph, evs, frozenset(('minor', bool(x)) for x in v) if v is not None else None)]
        e = self.event(I)
        if e and ph is not None:
            mi = self.minor(K)
            if e in ('mark', 'lomark', 'flip', 'evac1', 'old0') and ph not in ('prepare_gc', 'roots_traced'):
                self.error('late-turnover', I, 'marks or space roles change after tracing has begun')
            if e in ('survivor', 'evac0', 'ingc0', 'nursery') and ph not in ('finalizers_traced',):
                self.error('early-turnover', I, 'the state used while tracing is reset before tracing is over')
            if e == 'wasminor':
                v = self.value(I.ops[0])
                if mi is not None and v is not None and len(v) == 1 and bool(min(v)) != bool(mi): self.error('kind-mismatch', I, 'whether the last collection was minor is recorded wrongly')
            if e == 'survivor' and {J.field() for J in q.value_loads(I.fn, I.ops[0])} != {'nofl_space.current_mark'}:
                self.error('survivor-mark', I, 'the mark of survivors is not set to the mark used by this collection')
            if e == 'flip' and mi == 1:
                p = part(I)
                if p is not None and 'new' not in p: self.error('wrong-flip', I, 'a minor collection flips a space other than the nursery')
            if e == 'mark' and mi == 1: self.error('minor-turnover', I, 'the mark changes in a minor collection, so that old objects count as dead')
            if e == 'lomark' and mi == 1: self.error('minor-turnover', I, 'the mark of large objects changes in a minor collection, so that old objects count as dead')
            if e == 'evac1' and K is not None and E['COMPACTING'] not in K: self.error('evacuating', I, 'objects are evacuated in a collection that is not a compacting one')
            return [(waited, covered, done, first, K, ph, self.inc(evs, e), stored)]
        return None
    def kindcheck(self, I, K, st):
        E = self.E; waited, covered, done, first, *_ = st
        self.hits.setdefault('prepare', set()).add((I.fn.name, I.id))
        if K is None: self.hits.setdefault('unknown', set()).add((I.fn.name, I.id)); return
        if E['ANY'] in K: self.error('no-kind', I, 'a collection is started without having determined its kind')
        if not self.gen and E['MINOR'] in K and not is_semi(self.cfg):
            self.error('minor-without-barrier', I, 'a minor collection takes place although there is no write barrier')
        if self.R is None: return
        if self.R in (E['MAJOR'], E['COMPACTING']) and E['MINOR'] in K:
            self.error('weaker', I, 'a %s collection was requested but a minor one takes place' % NAME[self.R])
        if self.R == E['COMPACTING'] and K != {E['COMPACTING']} and not first and 'heap-conservative' not in self.cfg and E['MINOR'] not in K:
            self.error('weaker', I, 'a compacting collection was requested and is possible but does not take place')
    def finish(self, I, K, evs):
        d = dict(evs); mi = self.minor(K)
        if mi is None: return
        self.hits.setdefault('ends', set()).add((I.fn.name, I.id, mi))
        def want(e, n, msg, at_most=False, at_least=False):
            x = d.get(e, 0)
            if not (x <= n if at_most else x >= n if at_least else x == n):
                self.error('turnover:' + e, I, msg + (' (%s times in a %s collection)' % ('0 1 2 more'.split()[x], 'minor' if mi else 'major')))
        want('v_extern_space_start_gc', 1, 'the external space is told exactly once that a collection starts')
        want('v_extern_space_finish_gc', 1, 'the external space is told exactly once that a collection ends')
        if is_mmc(self.cfg):
            want('mark', 0 if mi else 1, 'the mark changes exactly once in a major collection and never in a minor one')
            want('old0', 1, 'the size of the old generation is recounted in a major collection', at_least=True) if not mi else want('old0', 0, 'the old generation keeps its size in a minor collection')
            want('survivor', 1, 'the mark of survivors is updated exactly once')
            if self.gen: want('wasminor', 1, 'the kind of the collection is recorded for the following sweep', at_least=True)
            if d.get('evac1', 0) != d.get('evac0', 0): self.error('turnover:evac', I, 'evacuation is not switched off at the end of the collection that switched it on')
        if is_pcc(self.cfg):
            want('flip', 1 if mi or not self.gen else 2, 'the nursery is flipped in each, the old space only in a major collection')
            if d.get('ingc1', 0) != d.get('ingc0', 0): self.error('turnover:in_gc', I, 'a space that takes part in a collection is not told of its end')
        if not is_semi(self.cfg):
            want('lomark', 0 if mi else 1, 'the mark of large objects changes exactly once in a major collection and never in a minor one')
            want('lopages', 0 if mi else 1, 'the count of live large object pages restarts in a major collection only')
        if self.gen:
            want('nursery', 1, 'the set of young large objects is emptied', at_least=True)
            n = 0 if is_pcc(self.cfg) and mi else 1
            for e in ('clear-partly', 'clear-full'):
                if n: want(e, 1, 'the remembered set is emptied', at_least=True)
                else: want(e, 0, 'a minor collection keeps the edges to objects that are still young')
            if n: want('clear-lo', 1, 'the remembered edges of large objects are forgotten', at_least=True)
            elif d.get('clear-lo'): self.error('turnover:clear-lo', I, 'a minor collection forgets the edges of large objects to objects that are still young')
    def assume(self, st, I, pred, L, R):
        waited, covered, done, first, K, ph, evs, stored = st
        c = const_of(R)
        if c is None: return None
        fs = {J.field() for J in q.value_loads(I.fn, L)} if L[0] == 'v' else set()
        J = I.fn.insts[L[1]] if L[0] == 'v' else None
        if 'nofl_space.evacuating' in fs and c == 0 and ph == 'finalizers_traced':
            d = dict(evs); on = d.get('evac1', 0) > d.get('evac0', 0)
            if pred == 'eq' and on or pred == 'ne' and not on: return []
        if H + 'count' in fs and pred == 'eq' and c == 0: return [(waited, covered, done, True, K, ph, evs, stored)]
        if J is not None and J.op == 'load' and waited == 'read' and not done:
            if J.field() == KIND and self.R is not None:
                if pred in ('sge', 'uge') and c >= self.R or pred in ('sgt', 'ugt') and c >= self.R - 1 or pred == 'eq' and c >= self.R: covered = True
            if J.field() == MIN and (pred == 'eq' and c == 0 or pred == 'ne' and c == 1): covered = True
            if covered != st[1]: return [(waited, covered, done, first, K, ph, evs, stored)]
        return None

INIT = (False, False, False, False, None, None, frozenset(), None)

@rule('requests', 'C22', configs=lambda c: True, limits=())
def requests(ctx, m, cfg):
    mine = ('no-kind', 'minor-without-barrier', 'weaker', 'kind-mismatch')
    E = {n: m.enum_value('GC_COLLECTION_' + n) for n in ('ANY', 'MINOR', 'MAJOR', 'COMPACTING')}
    gc = m.fn('gc_collect')
    if gc is None: raise AnalysisError('gc_collect not found')
    for n, R in sorted(E.items()):
        A = Kinds(m, cfg, R)
        out = A.run('gc_collect', INIT, {1: R})
        A.errors = {k: e for k, e in A.errors.items() if k[0] in mine}
        q.report(ctx, A)
        I = gc.blocks[0][0]
        for st in out:
            if not (st[2] or st[1]): ctx.bad('skipped', I, 'gc_collect(%s) may return although no collection of that kind has taken place since the call' % n); break
        else: ctx.ok('gc_collect returns only after a collection at least as thorough as requested', I)
        if not out: ctx.bad('never-returns', I, 'gc_collect(%s) never returns' % n)
        if not is_bdw(cfg):
            ctx.need('points where the kind of the collection is announced', len(A.hits.get('prepare', ())), 1)
            for u in A.hits.get('unknown', ()): raise AnalysisError('kind of collection not constant on some path')

@rule('turnover', 'C31', 'C08', configs=own)
def turnover(ctx, m, cfg):
    E = {n: m.enum_value('GC_COLLECTION_' + n) for n in ('ANY', 'MINOR', 'MAJOR', 'COMPACTING')}
    ends = 0
    for n, R in sorted(E.items()):
        A = Kinds(m, cfg, R); A.run('gc_collect', INIT, {1: R})
        for k in list(A.errors):
            if k[0] in ('weaker', 'minor-without-barrier', 'no-kind'): del A.errors[k]
        q.report(ctx, A); ends += len(A.hits.get('ends', ()))
    ctx.need('ends of collections of known kind', ends, 2)
