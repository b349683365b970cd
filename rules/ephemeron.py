"""Ephemerons: C09."""
from core import rule, own, is_mmc, is_pcc, is_semi, is_par, AnalysisError
import q
from q import Automaton, const_of

API = ('gc_visit_ephemeron_key', 'gc_heap_pending_ephemerons', 'gc_heap_ephemeron_trace_epoch', 'gc_trace_ephemeron', 'gc_resolve_pending_ephemerons', 'gc_scan_pending_ephemerons', 'gc_trace_resolved_ephemerons', 'gc_sweep_pending_ephemerons', 'gc_pop_resolved_ephemerons', 'gc_ephemeron_init_internal')
LOAD = dict(keep=API)
E = 'gc_ephemeron.'
REL = ('release', 'acq_rel', 'seq_cst')

def fieldaddr(fn, v):
    """field whose address v is"""
    return fn.field_of(v)

class Eph(Automaton):
    """(phase, flags) of the ephemeron at hand.  phase: None, 'claimed', 'pending' (marked so, not yet in a bucket),
       'published', 'won' (resolved by this thread, not yet on the list)"""
    descend = False
    def __init__(self, mod, fn):
        super().__init__(mod); self.f = fn; self.hits = {}
        self.S = {n: mod.enum_value('EPHEMERON_STATE_' + n) for n in ('TRACED', 'CLAIMED', 'PENDING', 'RESOLVED')}
        if None in self.S.values(): raise AnalysisError('ephemeron states not found')
        self.N = {v: k for k, v in self.S.items()}
    def relevance_key(self): return ('eph', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def watch_key(self): return 'eph'
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def won(self, fn, L, R, p):
        """cmpxchg whose outcome is tested: (instruction, succeeded)"""
        if L[0] != 'v': return None
        J = fn.insts[L[1]]
        if J.op == 'extractvalue' and J.ty == 'i1' and const_of(R) in (0, 1) and p in ('eq', 'ne'):
            C = fn.insts[J.ops[0][1]]
            if C.op == 'cmpxchg': return C, (const_of(R) == 1) == (p == 'eq')
        return None
    def onbucket(self, C):
        """an ephemeron is put on a list of pending ones: the cell is none of an ephemeron's own fields"""
        return (C.field() or '').split('.')[0] not in ('gc_ephemeron',) and C.field() != 'gc_pending_ephemerons.resolved'
    def assume(self, st, I, p, L, R):
        fn = I.fn; ph, fl = st
        w = self.won(fn, L, R, p)
        if w:
            C, ok = w
            if C.field() == E + 'state':
                old, new = self.N.get(const_of(C.ops[1])), self.N.get(const_of(C.ops[2]))
                if not ok: return [(ph, (fl - {'must', 'match', 'keyvisited'}) | {'tried'})] if new == 'RESOLVED' else [(ph, fl | {'lostclaim'})]
                if (old, new) == ('TRACED', 'CLAIMED'): return [('claimed', frozenset())]
                if (old, new) == ('PENDING', 'RESOLVED'): return [('won', (fl - {'must', 'match', 'keyvisited'}) | {'tried'})]
            if C.field() == 'gc_pending_ephemerons.resolved' and ok and ph == 'won': return [(None if 'pub' not in fl else 'published', fl)]
            if self.onbucket(C) and ok and ph == 'pending': return [('published', (fl - {'keylive', 'keyunknown', 'linked'}) | {'pub'})]
            return None
        J = fn.insts[L[1]] if L[0] == 'v' else None
        c = const_of(R)
        if J is not None and p == 'eq' and (R[0] == 'null' or c == 0 and J.ty == 'i64') and 'midwalk' in fl and J.field() != E + 'key': return [(ph, fl - {'midwalk'})]
        if J is not None and J.is_call() and J.callee_name() == 'gc_visit_ephemeron_key' and c == 0 and p in ('eq', 'ne'):
            live = p == 'ne'
            fl = fl - {'keylive', 'keyunknown'} | {'keylive' if live else 'keyunknown'}
            if ph == 'published' and live or ph is None and live and 'match' not in fl: fl = fl | {'must'}
            return [(ph, fl)]
        if J is not None and J.op == 'load' and J.field() == E + 'key' and c == 0 and p in ('eq', 'ne') and ph == 'claimed': return [(ph, fl - {'dead'} | ({'dead'} if p == 'eq' else {'alive'}))]
        for a, b in ((L, R), (R, L)):
            if a[0] == 'v' and fn.insts[a[1]].op == 'load' and fn.insts[a[1]].field() == E + 'epoch' and b[0] == 'v' and fn.insts[b[1]].is_call() and fn.insts[b[1]].callee_name() == 'gc_heap_ephemeron_trace_epoch' and p in ('eq', 'ne'):
                return [(ph, fl | {'same' if p == 'eq' else 'fresh'})]
            if a[0] == 'v' and fn.insts[a[1]].op == 'load' and fn.insts[a[1]].field() == E + 'key' and b[0] == 'a' and p == 'eq' and ph is None:
                return [(ph, fl | {'match'})]
        return None
    def step(self, st, I):
        ph, fl = st; fn = I.fn
        if I.is_call() and I.callee_name() == 'gc_visit_ephemeron_key':
            if fieldaddr(fn, I.ops[0]) != E + 'key': self.error('edge', I, 'something other than the key of an ephemeron is visited as its key')
            return [(ph, (fl | {'keyvisited', 'rechecked'}) if ph == 'published' else fl | {'keyvisited'} | ({'midwalk'} if ph is None else set()))]
        if I.is_call() and I.raw.get('callee') is None or I.is_call() and I.callee_name() is None:
            F = {fieldaddr(fn, o) for o in I.ops if isinstance(o, list) and o[0] == 'v'}
            if E + 'value' in F:
                self.hit('values visited', I)
                if ph == 'claimed' and 'keylive' not in fl: self.error('value-early', I, "an ephemeron's value is traced although its key is not known to be live")
                if ph is None and 'val' in fl: self.error('left-resolved', I, 'an ephemeron is left resolved, so that no later collection will trace it')
                if ph in ('pending', 'published', 'won'): self.error('value-early', I, "an ephemeron's value is traced although its key is not known to be live")
                return [(ph, fl | {'val'})]
            if E + 'chain' in F:
                self.hit('chains visited', I)
                return [(ph, fl | {'chain'})]
            if E + 'key' in F: self.error('key-strong', I, "an ephemeron's key is traced as if it were a strong reference")
            return None
        if I.op == 'cmpxchg' and I.field() == E + 'state':
            old, new = self.N.get(const_of(I.ops[1])), self.N.get(const_of(I.ops[2]))
            self.hit('changes of state', I)
            if (old, new) not in (('TRACED', 'CLAIMED'), ('PENDING', 'RESOLVED')): self.error('transition', I, 'an ephemeron is taken from state %s to %s' % (old, new))
            elif (old, new) == ('PENDING', 'RESOLVED'):
                if ph == 'won': self.error('lost-resolved', I, 'an ephemeron this thread has resolved is dropped')
                elif ph is None and not fl & {'must', 'match'}: self.error('resolved-early', I, 'a pending ephemeron is resolved without its key being known to be live')
                elif ph == 'published' and 'must' not in fl: self.error('resolved-early', I, 'a pending ephemeron is resolved without its key being known to be live')
                elif 'match' in fl and 'keyvisited' not in fl: self.error('key-stale', I, "an ephemeron is resolved without its key having been updated to the key's new address")
            return None
        if I.op == 'store' and I.field() == E + 'state':
            n = self.N.get(const_of(I.ops[0])); self.hit('changes of state', I)
            if self.init(): return None
            if I.raw.get('ord') not in REL: self.error('order', I, 'an ephemeron is released to other threads without ordering')
            if n == 'TRACED':
                if ph == 'claimed':
                    if 'same' in fl: pass
                    elif 'chain' not in fl: self.error('chain', I, 'an ephemeron is finished without the next one in its chain having been visited')
                    elif not fl & {'val', 'dead'}: self.error('value-lost', I, "an ephemeron is finished without its value having been visited, though its key was not found dead")
                    elif 'stamp' not in fl: self.error('stamp', I, 'an ephemeron is finished without being marked as visited in this collection')
                elif ph in ('pending', 'published', 'won'): self.error('lost-pending', I, 'an ephemeron waiting for its key is declared finished')
                elif not fl & {'val', 'broken'}: self.error('value-lost', I, "an ephemeron is finished without its value having been visited or its key cleared")
                return [(None, frozenset())]
            if n == 'PENDING':
                if ph != 'claimed': self.error('transition', I, 'an ephemeron is declared pending that this thread has not claimed')
                elif 'chain' not in fl: self.error('chain', I, 'an ephemeron is set aside without the next one in its chain having been visited')
                elif 'keyunknown' not in fl: self.error('pending-live', I, 'an ephemeron is set aside without its key having been found untraced')
                elif not {'stamp', 'nopending', 'noresolved'} <= fl: self.error('stamp', I, 'an ephemeron is set aside without its links and epoch having been reset for this collection')
                return [('pending', fl - {'linked'})]
            self.error('transition', I, 'an ephemeron is put into state %s by a plain store' % n)
            return None
        if I.op == 'store' and I.field() == E + 'epoch' and not self.init():
            v = q.strip(fn, I.ops[0]); J = fn.insts[v[1]] if v[0] == 'v' else None
            if J is not None and J.is_call() and J.callee_name() == 'gc_heap_ephemeron_trace_epoch': return [(ph, fl | {'stamp'})]
            self.error('stamp', I, 'an ephemeron is marked as visited in some other collection')
        if I.op == 'store' and I.field() == E + 'pending' and not self.init():
            return [(ph, fl | {'nopending' if const_of(I.ops[0]) == 0 or I.ops[0][0] == 'null' else 'linked'})]
        if I.op == 'store' and I.field() == E + 'resolved' and not self.init():
            return [(ph, fl | {'noresolved' if I.ops[0][0] == 'null' else 'rlinked'})]
        if I.op in ('store', 'cmpxchg', 'atomicrmw') and I.field() == E + 'key' and not self.init():
            if I.op == 'store' and const_of(I.ops[0]) == 0:
                if ph is not None: self.error('key-cleared', I, 'the key of an ephemeron is cleared while it is being traced')
                return [(ph, fl | {'broken'})]
            self.error('key-written', I, 'the key of an ephemeron is replaced')
        if I.op in ('store', 'cmpxchg', 'atomicrmw') and I.field() == E + 'value' and not self.init(): self.error('value-written', I, 'the value of an ephemeron is replaced')
        if I.op == 'cmpxchg' and I.field() == 'gc_pending_ephemerons.resolved' and not self.nullish(fn, I.ops[2]):
            self.hit('ephemerons queued as resolved', I)
            if ph != 'won': self.error('resolved-twice', I, 'an ephemeron is put on the resolved list by a thread that did not resolve it')
            elif 'rlinked' not in fl: self.error('list', I, 'the rest of the resolved list is dropped when an ephemeron is added')
        elif I.op == 'store' and I.field() == 'gc_pending_ephemerons.resolved' and not self.nullish(fn, I.ops[0]): self.error('list', I, 'the resolved list is overwritten')
        if I.op == 'cmpxchg' and self.onbucket(I) and (I.field() or '') != E + 'chain' and ph in ('claimed', 'pending'):
            self.hit('ephemerons published as pending', I)
            if ph == 'claimed': self.error('published-early', I, 'an ephemeron is published in the table before its state says that it is pending, so another thread may drop it')
            elif 'linked' not in fl: self.error('list', I, 'the other ephemerons in a bucket are dropped when one is added')
        if I.op == 'load' and I.field() == E + 'pending' and ph in (None, 'won') and fl & {'must', 'match', 'broken'}:
            if 'must' in fl: self.error('unresolved', I, 'an ephemeron whose key is live is passed over')
            elif 'match' in fl: self.error('unresolved', I, 'an ephemeron whose key has just been traced is passed over')
            elif 'broken' in fl: self.error('stuck', I, 'an ephemeron whose key has died is left in the pending state')
        if I.op == 'load' and I.field() == E + 'pending' and ph is None: return [(ph, frozenset())]
        return None
    def nullish(self, fn, v):
        return v[0] == 'null' or const_of(v) == 0
    def init(self): return self.f.name == 'gc_ephemeron_init_internal' or self.f.name == 'gc_ephemeron_init'
    def ret(self, st, I):
        ph, fl = st
        if self.init(): return None
        self.hit('ends of tracing steps', I)
        if ph == 'claimed': self.error('left-claimed', I, 'an ephemeron is left claimed, so nobody will ever trace it again')
        elif ph == 'pending': self.error('lost-pending', I, 'an ephemeron is marked pending but never put into the table')
        elif ph == 'won': self.error('lost-resolved', I, 'an ephemeron this thread has resolved is dropped')
        elif ph == 'published' and 'rechecked' not in fl: self.error('recheck', I, 'after publishing a pending ephemeron its key is not checked again, so that a key traced meanwhile is missed')
        elif fl & {'must', 'match'}: self.error('unresolved', I, 'an ephemeron whose key is live is not resolved')
        elif ph is None and 'midwalk' in fl: self.error('walk', I, 'a walk over the ephemerons in a bucket stops before its end')
        elif ph is None and 'val' in fl: self.error('left-resolved', I, 'an ephemeron is left resolved, so that no later collection will trace it')
        return None

@rule('ephemeron-states', 'C09', configs=own, load=LOAD, limits=(200,))
def ephemeron_states(ctx, m, cfg):
    n = 0; seen = set()
    for f in m.defined():
        acc = [I for I in f.all() if I.op in ('store', 'cmpxchg', 'atomicrmw') and I.field() in (E + 'state', E + 'key', E + 'value')]
        acc += [I for I in f.all() if I.is_call() and I.callee_name() is None and any(isinstance(o, list) and o[0] == 'v' and f.field_of(o) == E + 'value' for o in I.ops)]
        if not acc: continue
        if f.name == 'gc_ephemeron_mark_dead':      # the embedder's way to break one
            for I in acc:
                if I.field() != E + 'key' or const_of(I.ops[0]) != 0: ctx.bad('mark-dead', I, 'marking an ephemeron dead does something else')
            continue
        n += 1
        A = Eph(m, f); A.run(f.name, (None, frozenset()))
        q.report(ctx, A)
        for k, d in A.hits.items():
            seen.add(k)
            for I in d.values(): ctx.ok(k, I)
    ctx.need('functions that change the state of ephemerons', n)
    for k in ('values visited', 'ephemerons published as pending', 'ephemerons queued as resolved', 'chains visited'):
        if k not in seen:
            f = m.fn('gc_trace_ephemeron')
            if f is None: raise AnalysisError('gc_trace_ephemeron not found')
            ctx.bad('missing', f.terminator(0), 'none of: ' + k)

@rule('ephemeron-lists', 'C09', configs=own, load=LOAD)
def ephemeron_lists(ctx, m, cfg):
    """which links are skipped, and that every bucket is looked at"""
    from rules.large import branch_atoms, alternatives
    P = m.enum_value('EPHEMERON_STATE_PENDING'); n = 0
    for f in m.defined():
        for I in f.all():
            if I.op == 'load' and I.field() in (E + 'pending', E + 'chain') and f.in_loop(I):
                # a link is skipped when its successor is read on the way to reading another successor without use: the inner loop of a walk
                at = expand(f, branch_atoms(f, I.block)); what = I.field()[len(E):]
                own_ = [(p, f.insts[q.strip(f, L)[1]], const_of(R)) for p, L, R in at if q.strip(f, L)[0] == 'v' and f.insts[q.strip(f, L)[1]].op == 'load' and f.insts[q.strip(f, L)[1]].field() in (E + 'state', E + 'key') and same_object(f, f.insts[q.strip(f, L)[1]], I)]
                skip = self_advance(f, I)
                if not skip: continue
                n += 1
                if what == 'pending':
                    if any(J.field() == E + 'state' and (p == 'ne' and c == P) for p, J, c in own_): ctx.ok('links skipped', I)
                    else: ctx.bad('skip', I, 'an ephemeron is removed from the table although it may still be pending')
                else:
                    if any(J.field() == E + 'key' and (p == 'eq' and c == 0) for p, J, c in own_): ctx.ok('links skipped', I)
                    else: ctx.bad('skip', I, 'an ephemeron is removed from its chain although it may be alive')
        if f.name in ('gc_scan_pending_ephemerons', 'gc_sweep_pending_ephemerons'): buckets(ctx, m, f)
        walk_ends(ctx, f)
        for I in f.all():
            if I.op == 'store' and I.field() == 'gc_pending_ephemerons.nbuckets': table(ctx, f, I)
        if f.name == 'gc_ephemeron_value':
            for R in f.all():
                if R.op != 'ret': continue
                for x, at in alternatives(f, R.ops[0]):
                    at = at + branch_atoms(f, R.block)
                    if {y.field() for y in q.value_loads(f, x, 3)} & {E + 'value'}:
                        if any(p == 'ne' and const_of(c) == 0 and E + 'key' in {y.field() for y in q.value_loads(f, L, 3)} for p, L, c in at): ctx.ok('reads of values', R)
                        else: ctx.bad('dead-value', R, 'the value of an ephemeron can be read after its key has died')
                    elif const_of(x) == 0:
                        if any(p == 'eq' and const_of(c) == 0 and E + 'key' in {y.field() for y in q.value_loads(f, L, 3)} for p, L, c in at): ctx.ok('reads of values', R)
                        else: ctx.bad('live-value', R, 'the value of an ephemeron can read as null while its key is alive')
    ctx.need('walks over ephemerons', n)

def walk_ends(ctx, f):
    """a walk over ephemerons goes on until there is none left"""
    links = [I for I in f.all() if I.op == 'load' and I.field() in (E + 'pending', E + 'resolved')]
    acts = [I for I in f.all() if I.is_call() and (I.callee_name() == 'gc_visit_ephemeron_key' or I.callee_name() is None) or I.op == 'store' and I.field() in (E + 'state', E + 'key')]
    cand = [(h, b) for h, b in f.loops().items() if any(I.block in b for I in links) and any(I.block in b for I in acts)]
    cand = [(h, b) for h, b in cand if not any(c < b for _, c in cand)]
    for h, body in cand:
        base = set()
        for I in links:
            if I.block in body:
                g = f.insts[I.ptr()[1]]
                if g.op == 'getelementptr': base.add(tuple(g.ops[0][:2]))
        flow = set(base); grew = True
        while grew:
            grew = False
            for I in f.all():
                if ('v', I.id) in flow and I.op in ('phi', 'select', 'inttoptr', 'ptrtoint', 'bitcast', 'freeze', 'extractvalue'):
                    for o in I.ops:
                        o = o[0] if I.op == 'phi' else o
                        if isinstance(o, (list, tuple)) and o[0] == 'v' and tuple(o[:2]) not in flow: flow.add(tuple(o[:2])); grew = True
                elif I.op in ('inttoptr', 'ptrtoint', 'bitcast') and I.ops[0][0] == 'v' and tuple(I.ops[0][:2]) in flow and ('v', I.id) not in flow: flow.add(('v', I.id)); grew = True
        for b in body:
            for s in set(f.succ[b]) - body:
                if f.is_noreturn_block(s): continue
                T = f.terminator(b)
                at = q.edge_atoms(f, T, s)
                if any(p == 'eq' and (R[0] == 'null' or const_of(R) == 0) and tuple(L[:2]) in flow for p, L, R in at): ctx.ok('ends of walks', T)
                else: ctx.bad('walk', T, 'a walk over a list of ephemerons stops before its end')

def table(ctx, f, S):
    """all buckets of a new table start out empty"""
    from rules.moving import same
    n = q.strip(f, S.ops[0]); t = f.root_of(S.ptr())
    def times8(v, k=0):
        x = shape(f, v, lambda i: ('arg', i)); y = shape(f, n, lambda i: ('arg', i))
        return x == ('shl', y, ('c', 3)) or norm(x) == norm(('mul', y, ('c', 8)))
    for I in f.all():
        nm = str(I.callee_name()) if I.is_call() else ''
        if 'memset' in nm and f.root_of(I.ops[0]) == t:
            off = f.resolve_ptr(I.ops[0])
            if off[2] == 24 and not off[3] and const_of(I.ops[1]) == 0 and times8(I.ops[2]): ctx.ok('empty tables', I); return
        if nm == 'calloc' and ('v', I.id) == tuple(t[:2]): ctx.ok('empty tables', I); return
        if I.op == 'store' and I.field() == 'gc_pending_ephemerons.buckets[]' and f.root_of(I.ptr()) == t and f.in_loop(I) and (I.ops[0][0] == 'null' or const_of(I.ops[0]) == 0):
            g = f.insts[I.ptr()[1]]; i = q.strip(f, g.ops[-1])
            P = f.insts[i[1]] if i[0] == 'v' else None
            if P is None or P.op != 'phi' or not any(const_of(o[0]) == 0 for o in P.ops): continue
            own_ = {('v', P.id)} | {tuple(o[0][:2]) for o in P.ops if o[0][0] == 'v'}
            if any(C.op == 'icmp' and tuple(C.ops[0][:2]) in own_ and tuple(q.strip(f, C.ops[1])[:2]) == tuple(n[:2]) for C in f.all()): ctx.ok('empty tables', I); return
    ctx.bad('table', S, 'some bucket of a new table of pending ephemerons is not made empty')

def expand(f, at, depth=4):
    """add what follows from short-circuit conditions"""
    from rules.large import branch_atoms
    from ts import atoms
    out = list(at)
    if depth == 0: return out
    for p, L, R in at:
        if L[0] != 'v' or const_of(R) is None or p not in ('eq', 'ne'): continue
        I = f.insts[L[1]]
        if I.op != 'phi' or I.ty != 'i1': continue
        want = (const_of(R) & 1) ^ (p == 'ne')
        left = [(o, b) for o, b in I.ops if const_of(o) is None or const_of(o) & 1 == want]
        if len(left) != 1 or const_of(left[0][0]) is not None: continue
        out += expand(f, atoms(f, left[0][0], bool(want)) + branch_atoms(f, left[0][1]), depth - 1)
    return out

def same_object(f, A, B):
    a, b = f.insts[A.ptr()[1]] if A.ptr()[0] == 'v' else None, f.insts[B.ptr()[1]] if B.ptr()[0] == 'v' else None
    if a is None or b is None or a.op != 'getelementptr' or b.op != 'getelementptr': return True
    return tuple(a.ops[0][:2]) == tuple(b.ops[0][:2])

def self_advance(f, I):
    """the loaded link becomes the next node of the loop whose node I belongs to"""
    g = f.insts[I.ptr()[1]] if I.ptr()[0] == 'v' else None
    if g is None or g.op != 'getelementptr': return False
    b = q.strip(f, g.ops[0])
    if b[0] != 'v' or f.insts[b[1]].op != 'phi': return False
    return any(tuple(q.strip(f, o[0])[:2]) == ('v', I.id) for o in f.insts[b[1]].ops)

def shape(f, v, sub, depth=10):
    """expression with argument i replaced through sub"""
    c = const_of(v)
    if c is not None: return ('c', c)
    if v[0] == 'a': return sub(v[1])
    if v[0] != 'v' or depth == 0: return tuple(map(str, v))
    I = f.insts[v[1]]
    if I.op in ('zext', 'sext', 'trunc', 'freeze', 'uitofp', 'sitofp', 'fptoui', 'fptosi'): return shape(f, I.ops[0], sub, depth - 1)
    if I.op == 'load': return ('load', I.field())
    xs = [shape(f, o, sub, depth - 1) for o in I.ops if isinstance(o, (list, tuple))]
    if I.op in ('fmul', 'mul', 'add', 'fadd', 'or'): xs = [x for x in xs if not (I.op in ('fmul', 'mul') and x in (('c', 1), ('c', 1.0)) or 'double 1.0' in str(x) or str(x) in ("('cf', '1.0')",))]
    if len(xs) == 1: return xs[0]
    return (I.op,) + tuple(sorted(xs, key=repr) if I.op in ('fmul', 'mul', 'add', 'fadd') else xs)

def buckets(ctx, m, f):
    """for (i = nbuckets*shard/nshards; i < nbuckets*(shard+1)/nshards; i++)"""
    args = [p for p in range(len(f.raw['params']))] if 'params' in f.raw else None
    loops = []
    for I in f.all():
        if I.op == 'icmp' and I.raw.get('pred') in ('ult', 'slt', 'ne', 'uge', 'eq', 'sge'):
            a = q.strip(f, I.ops[0])
            if a[0] == 'v' and f.insts[a[1]].op == 'phi' and f.insts[a[1]].ty.startswith('i') and f.insts[a[1]].ty != 'i1': loops.append((I, f.insts[a[1]]))
    ok = False; why = 'the table of pending ephemerons is not walked'
    for I, phi in loops:
        ins = [o[0] for o in phi.ops]
        step = [o for o in ins if q.strip(f, o)[0] == 'v' and f.insts[q.strip(f, o)[1]].op == 'add' and const_of(f.insts[q.strip(f, o)[1]].ops[1]) == 1 and tuple(f.insts[q.strip(f, o)[1]].ops[0][:2]) == ('v', phi.id)]
        init = [o for o in ins if o not in step]
        if len(step) != 1 or len(init) != 1: why = 'not every bucket of the table is walked'; continue
        lo = shape(f, init[0], lambda i: ('arg', i)); hi = shape(f, I.ops[1], lambda i: ('arg', i))
        used = set(x for x in flat(lo) if isinstance(x, int))
        nb = ('load', 'gc_pending_ephemerons.nbuckets')
        if const_of(init[0]) == 0 and hi == nb: ok = True
        for sh in used:
            nx = shape(f, init[0], lambda i: ('arg', i) if i != sh else ('add', ('arg', i), ('c', 1)))
            if norm(nx) == norm(hi) and nb in tree(lo) : ok = True
        if not ok: why = 'the buckets walked for one share of the table do not end where those of the next begin'
    if ok: ctx.ok('walks over the table', f.terminator(0))
    else: ctx.bad('buckets', f.terminator(0), why)

def flat(t):
    for x in t:
        if isinstance(x, tuple): yield from (y for y in flat(x)) if x[0] != 'arg' else iter([x[1]])
def tree(t):
    yield t
    for x in t:
        if isinstance(x, tuple): yield from tree(x)
def norm(t):
    if not isinstance(t, tuple): return t
    t = tuple(norm(x) for x in t)
    if t and t[0] in ('add', 'fadd', 'mul', 'fmul'): t = ({'fadd': 'add', 'fmul': 'mul'}.get(t[0], t[0]),) + tuple(sorted(t[1:], key=repr))
    return t

COLLECT = API + ('gc_tracer_trace', 'gc_tracer_add_root', 'gc_resolve_finalizers', 'gc_notify_finalizers', 'gc_visit_finalizer_roots', 'gc_trace_worker_enqueue')
CHECK = 'gc_heap.check_pending_ephemerons'

class Settle(Automaton):
    """(flags): traced on scanned settled popped counted swept notified roots closed resolving"""
    def __init__(self, mod, cfg):
        super().__init__(mod); self.cfg = cfg; self.hits = {}
        self.semi = is_semi(cfg)
    def relevance_key(self): return ('settle',)
    def watch_key(self): return 'settle'
    def relevant(self, I):
        if I.is_call(): return I.callee_name() in COLLECT and I.callee_name() not in ('gc_heap_pending_ephemerons', 'gc_heap_ephemeron_trace_epoch', 'gc_trace_ephemeron', 'gc_resolve_pending_ephemerons', 'gc_ephemeron_init_internal', 'gc_visit_ephemeron_key', 'gc_trace_worker_enqueue')
        if I.is_write(): return I.field() in (CHECK, 'gc_heap.count') or self.semi and I.field() == 'semi_space.hp'
        return self.semi and I.op == 'load' and I.field() == 'semi_space.hp'
    def hit(self, k, I): self.hits.setdefault(k, {})[(I.fn.name, I.id)] = I
    def traced(self, st, I):
        fl = st
        if 'swept' in fl: self.error('trace-after-sweep', I, 'objects are traced after the dead ephemerons have been cleared')
        if 'scanned' in fl and 'on' not in fl: self.error('lazy', I, 'objects are traced without looking for ephemerons that wait for them')
        return fl | {'rtraced'} if 'roots' in fl else fl
    def step(self, st, I):
        n = I.callee_name() if I.is_call() else None; fl = st
        if n == 'gc_visit_finalizer_roots': return [fl | {'roots'}]
        if n == 'gc_tracer_trace':
            self.hit('traces', I)
            fl = self.traced(fl, I)
            return [(fl - {'settled', 'pending-trace', 'handed', 'maybe'}) | {'traced'}]
        if n == 'gc_scan_pending_ephemerons':
            self.hit('scans of pending ephemerons', I)
            if 'rtraced' not in fl: self.error('finalizer-roots', I, 'the references held by finalizers are not traced before ephemerons are resolved')
            if 'traced' not in fl: self.error('scan-early', I, 'ephemerons are resolved before the heap has been traced')
            if 'on' not in fl and not self.semi: self.error('lazy', I, 'pending ephemerons are scanned before threads are told to look for them, so that a key reached meanwhile is missed')
            return [(fl - {'settled'}) | {'scanned'}]
        if n == 'gc_pop_resolved_ephemerons':
            if 'popped' in fl: self.error('dropped', I, 'a list of resolved ephemerons is dropped')
            if 'handed' in fl: self.error('untraced', I, 'the values of resolved ephemerons are not traced before looking for more')
            return None
        if n in ('gc_trace_resolved_ephemerons', 'gc_tracer_add_root') and 'popped' in fl:
            self.hit('resolved ephemerons handed to the tracer', I)
            return [(fl - {'popped', 'settled'}) | {'handed'} | ({'open'} if self.semi else set())]
        if n == 'gc_resolve_finalizers':
            self.hit('finalizer resolutions', I)
            self.ready(fl, I, 'finalizers are resolved', fin=True)
            if 'notified' in fl: self.error('late-finalizer', I, 'finalizers are resolved after the embedder has been told which are ready')
            return [fl | {'maybe'}]
        if n == 'gc_notify_finalizers':
            self.hit('finalizer notifications', I)
            if 'scanned' in fl: self.ready(fl, I, 'the embedder is told of finalizers')
            return [fl | {'notified'}]
        if n == 'gc_sweep_pending_ephemerons':
            self.hit('sweeps of pending ephemerons', I)
            self.ready(fl, I, 'dead ephemerons are cleared')
            if 'notified' not in fl: self.error('sweep-early', I, 'dead ephemerons are cleared before finalizers have been resolved')
            return [fl | {'swept'}]
        if I.is_write() and I.field() == CHECK:
            c = const_of(I.ops[0])
            return [fl | {'on'} if c else fl - {'on'}]
        if I.is_write() and I.field() == 'gc_heap.count':
            if 'traced' in fl and 'swept' not in fl: self.error('epoch', I, "the number of the collection changes while ephemerons are being traced")
            return [fl | {'counted'}]
        return None
    def ready(self, fl, I, what, fin=False):
        if 'scanned' not in fl: self.error('unscanned', I, what + ' before pending ephemerons have been looked at')
        elif 'popped' in fl: self.error('dropped', I, 'a list of resolved ephemerons is dropped')
        elif fl & {'pending-trace', 'handed', 'open', 'maybe'}: self.error('untraced', I, what + ' before what has just been found live has been traced')
        elif 'settled' not in fl: self.error('unsettled', I, what + ' although ephemerons may have been resolved since')
    def assume(self, st, I, p, L, R):
        fn = I.fn; fl = st
        for a, b, pp in ((L, R, p), (R, L, q.SWAP.get(p, p))):
            J = fn.insts[a[1]] if a[0] == 'v' else None
            if J is None: continue
            c = const_of(b) if b[0] != 'null' else 0
            if c == 1 and pp in ('ult', 'uge'): c, pp = 0, 'eq' if pp == 'ult' else 'ne'
            if c == 0 and pp in ('ule', 'ugt'): pp = 'eq' if pp == 'ule' else 'ne'
            if J.is_call() and c == 0 and pp in ('eq', 'ne'):
                if J.callee_name() == 'gc_pop_resolved_ephemerons': return [(fl - {'popped'}) | {'settled'}] if pp == 'eq' else [(fl - {'settled'}) | {'popped'}]
                if J.callee_name() == 'gc_resolve_finalizers': return [fl - {'settled', 'maybe'} | {'pending-trace'} | ({'open'} if self.semi else set())] if pp == 'ne' else [fl - {'maybe'}]
            if self.semi and J.op == 'load' and J.field() == 'semi_space.hp' and pp in ('ule', 'eq'):
                # scanned up to the allocation pointer
                if 'roots' not in fl: return None
                if 'open' in fl or 'traced' not in fl:
                    fl = self.traced(fl, I)
                return [(fl - {'open', 'pending-trace', 'handed', 'maybe'}) | {'traced'}]
        return None
    def ret(self, st, I):
        fl = st
        if 'traced' not in fl or self.depth_() : return None
        if 'swept' not in fl: self.error('unswept', I, 'a collection ends without the ephemerons whose keys died having been cleared')
        if 'counted' not in fl: self.error('epoch', I, "a collection ends without its number having changed, so the next one takes ephemerons for visited")
        if 'notified' not in fl: self.error('unnotified', I, 'a collection ends without the embedder having been told of finalizers')
        return None
    def depth_(self): return False

@rule('ephemeron-phases', 'C09', 'C10', configs=own, load=dict(keep=COLLECT))
def ephemeron_phases(ctx, m, cfg):
    g = m.fn('gc_heap_ephemeron_trace_epoch')
    for R in g.all() if g is not None else []:
        if R.op == 'ret':
            v = q.strip(g, R.ops[0]); L = g.insts[v[1]] if v[0] == 'v' else None
            while L is not None and L.op == 'trunc': v = q.strip(g, L.ops[0]); L = g.insts[v[1]] if v[0] == 'v' else None
            if L is not None and L.op == 'load' and L.field() == 'gc_heap.count': ctx.ok('epochs', R)
            else: ctx.bad('epoch', R, 'the epoch of ephemeron tracing is not the number of the collection, so one collection may be taken for another')
    roots = [f for f in m.defined() if any(I.is_call() and I.callee_name() == 'gc_scan_pending_ephemerons' for I in f.all())]
    n = 0
    for f in roots:
        n += 1
        A = Settle(m, cfg)
        A.ret_fn = f
        base = A.ret
        A.ret = lambda st, I, f=f, base=base: base(st, I) if I.fn is f else None
        A.run(f.name, frozenset())
        q.report(ctx, A)
        for k, d in A.hits.items():
            for I in d.values(): ctx.ok(k, I)
        for k in ('finalizer resolutions', 'finalizer notifications', 'sweeps of pending ephemerons', 'resolved ephemerons handed to the tracer'):
            if k not in A.hits: ctx.bad('missing', f.terminator(0), 'a collection makes no ' + k)
    if not n:
        f = [g for g in m.defined() if any(I.is_call() and I.callee_name() == 'gc_sweep_pending_ephemerons' for I in g.all())]
        for g in f: ctx.bad('missing', g.terminator(0), 'a collection never looks at pending ephemerons')
        if not f: raise AnalysisError('no collection found that handles ephemerons')

def queued(I): return I.is_write() and I.field() in ('local_worklist.write', 'simple_worklist.write') and q.delta_of_store(I) == 1

class Reached(Automaton):
    """objects newly reached are looked up among the pending ephemerons; state: (looked, flag set)"""
    def __init__(self, mod, cfg, fn):
        super().__init__(mod); self.f = fn; self.hits = {}; self.semi = is_semi(cfg)
    def relevance_key(self): return ('reached', self.semi)
    def watch_key(self): return 'reached'
    def watch(self, I):
        if I.op == 'icmp' and const_of(I.ops[1]) == 0 and I.ops[0][0] == 'v' and I.fn.insts[I.ops[0][1]].op in ('phi', 'select', 'zext', 'sext'): return I.ops[:1]
        return ()
    def relevant(self, I): return queued(I) or I.is_call() and (I.callee_name() == 'gc_resolve_pending_ephemerons' or self.semi and I.callee_name() in ('v_object_forward_nonatomic', 'large_object_space_mark', 'v_extern_space_visit', 'v_trace_object', 'gc_trace_object')) or I.op == 'load' and I.field() == CHECK
    def step(self, st, I):
        n = I.callee_name() if I.is_call() else None
        if n == 'gc_resolve_pending_ephemerons': self.hits.setdefault('lookups of newly reached objects', {})[I.id] = I; return [(True, False, False)]
        if n == 'v_object_forward_nonatomic' and self.semi: return [(False, False, True)]
        if queued(I) or self.semi and n in ('v_trace_object', 'gc_trace_object'):
            if not st[0] and (not self.semi or st[2]): self.error('unresolved', I, 'a newly reached object is queued without looking for ephemerons that wait for it')
            return [(False, False, False)]
        if n in ('large_object_space_mark', 'v_extern_space_visit') and self.semi: return [(False, False, False)]
        return None
    def assume(self, st, I, p, L, R):
        L = q.strip(I.fn, L)
        if L[0] != 'v': return None
        J = I.fn.insts[L[1]]; c = const_of(R)
        if J.op == 'load' and J.field() == CHECK and c == 0 and p in ('eq', 'ne'): return [(p == 'eq', p == 'ne', st[2] and p != 'eq')]
        if self.semi and J.is_call() and J.callee_name() in ('large_object_space_mark', 'v_extern_space_visit') and c == 0: return [(False, False, p == 'ne')]
        return None
    def ret(self, st, I):
        if self.semi and st[2] and I.fn is self.f: self.error('unresolved', I, 'a newly reached object is left without looking for ephemerons that wait for it')
        return None

@rule('ephemeron-keys', 'C09', configs=own, load=dict(keep=COLLECT + ('large_object_space_mark', 'nofl_space_forward_or_mark_if_traced', 'copy_space_forward_if_traced', 'large_object_space_is_marked')), limits=(200,))
def ephemeron_keys(ctx, m, cfg):
    from rules.large import alternatives
    n = 0
    for f in m.defined():
        if f.name in API: continue
        for I in f.all():
            if I.is_call() and I.callee_name() == 'gc_resolve_pending_ephemerons':
                new = {tuple(q.strip(f, S.ops[0])[:2]) for S in f.all() if S.op == 'store' and S.ops[0][0] == 'v' and not S.field()}
                for v, _ in alternatives(f, q.strip(f, I.ops[0])):
                    v = q.strip(f, v); L = f.insts[v[1]] if v[0] == 'v' else None
                    bad = tuple(v[:2]) in new
                    if L is not None and L.op == 'load':
                        D = {f.insts[L.ptr()[1]].block} if L.ptr()[0] == 'v' else set()
                        bad |= any(S.op == 'store' and tuple(S.ptr()[:2]) == tuple(L.ptr()[:2]) and (L.block in f.reachable(f.succ[S.block], D) or S.block == L.block and S.idx < L.idx) for S in f.all())
                    if bad: ctx.bad('moved', I, 'ephemerons are looked up by the new address of an object that has moved, under which they are not filed'); break
        q_ = [I for I in f.all() if I.is_call() and is_semi(cfg) and I.callee_name() in ('v_object_forward_nonatomic', 'large_object_space_mark', 'v_extern_space_visit') or queued(I)]
        if not q_: continue
        n += 1
        A = Reached(m, cfg, f); A.run(f.name, (False, False, False)); q.report(ctx, A)
        for I in q_: ctx.ok('objects newly reached', I)
        for d in A.hits.values():
            for I in d.values(): ctx.ok('lookups', I)
    ctx.need('functions that reach objects', n)

def outcomes(f, v, at, depth=6):
    """[(0 | 1 | call instruction | None, atoms)] for a truth value"""
    from rules.large import alternatives
    from ts import atoms
    out = []
    for x, a in alternatives(f, q.strip(f, v)):
        a = at + a; y = q.strip(f, x); c = const_of(y)
        if c is not None: out.append((1 if c else 0, a)); continue
        I = f.insts[y[1]] if y[0] == 'v' else None
        if I is not None and I.op in ('phi', 'select') and depth and tuple(y[:2]) != tuple(v[:2]): out += outcomes(f, y, a, depth - 1)
        elif I is not None and I.op in ('icmp', 'and', 'or', 'xor') and depth:
            if I.op == 'icmp': out += [(1, a + atoms(f, y, True)), (0, a + atoms(f, y, False))]
            else: out.append((None, a))
        elif I is not None and I.is_call(): out.append((I.callee_name(), a))
        else: out.append((None, a))
    return out

def reached_atom(f, p, L, R):
    """'yes'/'no' if the comparison says that an object has / has not been reached; None if it says nothing"""
    a = {x.field() for x in q.value_loads(f, L, 6)} if L[0] == 'v' else set()
    b = {x.field() for x in q.value_loads(f, R, 6)} if R[0] == 'v' else set()
    for M in ('nofl_space.current_mark', 'large_object_space.marked'):
        if (M in a or M in b) and p in ('eq', 'ne'): return 'yes' if p == 'eq' else 'no'
    J = f.insts[q.strip(f, L)[1]] if q.strip(f, L)[0] == 'v' else None
    c = 0 if R[0] == 'null' else const_of(R)
    if J is None or c != 0 or p not in ('eq', 'ne'): return None
    def asked(v, d=4):
        K = f.insts[q.strip(f, v)[1]] if q.strip(f, v)[0] == 'v' else None
        if K is None: return False
        if K.op == 'phi' and d: return all(asked(x[0], d - 1) for x in K.ops)
        if K.op == 'select' and d: return all(asked(x, d - 1) for x in K.ops[1:])
        return K.is_call() and K.callee_name() in ('v_object_forwarded_nonatomic', 'nofl_space_forward_if_evacuated', 'copy_space_forward_if_traced_atomic', 'copy_space_forward_if_traced_nonatomic')
    if asked(L): return 'yes' if p == 'ne' else 'no'
    return None

@rule('ephemeron-liveness', 'C09', 'C10', configs=own, load=dict(keep=('gc_visit_ephemeron_key', 'nofl_space_forward_if_evacuated', 'copy_space_forward_if_traced_atomic', 'copy_space_forward_if_traced_nonatomic')), limits=(200,))
def ephemeron_liveness(ctx, m, cfg):
    """whether a key is live is read off the object's own mark, in every space"""
    from rules.large import branch_atoms
    from rules.roots import minor_flag
    f = m.fn('gc_visit_ephemeron_key')
    if f is None: raise AnalysisError('gc_visit_ephemeron_key not found')
    CALLS = ('nofl_space_forward_if_evacuated', 'copy_space_forward_if_traced_atomic', 'copy_space_forward_if_traced_nonatomic')
    kinds = set()
    for I in f.all():
        if is_pcc(cfg) and I.is_call() and I.callee_name() in CALLS and f.field_of(I.ops[0]) == 'gc_heap.old_space':
            at = expand(f, branch_atoms(f, I.block))
            if any('gc_heap.is_minor_collection' in {y.field() for y in q.value_loads(f, L, 3)} and p == 'eq' and const_of(X) == 0 for p, L, X in at): ctx.ok('answers about old keys', I)
            else: ctx.bad('old', I, 'a minor collection takes a key in the old generation for unreached')
    for R in f.all():
        if R.op == 'store' and R.access_size() == 1: ctx.bad('marks', R, 'asking whether a key is live marks it')
        if R.op != 'ret': continue
        for r, at in outcomes(f, R.ops[0], []):
            at = expand(f, at)
            js = {reached_atom(f, p, L, X) for p, L, X in at} - {None}
            imm = any(p == 'ne' and const_of(X) == 0 and q.strip(f, L)[0] == 'v' and f.insts[q.strip(f, L)[1]].op == 'and' and const_of(f.insts[q.strip(f, L)[1]].ops[1]) in (1, 3, 7) for p, L, X in at)
            if r in CALLS: ctx.ok('answers about keys', R); kinds.add('moved'); continue
            if r == 1:
                minor = any(p == 'ne' and const_of(X) == 0 and {y.field() for y in q.value_loads(f, L, 3)} & {'gc_heap.is_minor_collection', 'gc_heap.gc_kind'} or p == 'eq' and const_of(X) == m.enum_value('GC_COLLECTION_MINOR') and {y.field() for y in q.value_loads(f, L, 3)} & {'gc_heap.gc_kind'} for p, L, X in at)
                if 'yes' in js: ctx.ok('answers about keys', R); kinds.add('marked')
                elif imm: ctx.ok('answers about keys', R); kinds.add('immediate')
                elif minor and is_pcc(cfg): ctx.ok('answers about keys', R); kinds.add('old')
                else: ctx.bad('live', R, 'a key is said to be live without its having been reached in this collection')
            elif r == 0:
                null = any(p == 'eq' and (X[0] == 'null' or const_of(X) == 0) and q.strip(f, L)[0] == 'v' and f.insts[q.strip(f, L)[1]].op == 'phi' for p, L, X in at)
                if 'no' in js or null: ctx.ok('answers about keys', R)
                else: ctx.bad('dead', R, 'a key is said to be dead without its mark having been looked at')
            else: ctx.bad('unknown', R, 'whether a key is live is not decided by its mark')
    need = {'marked', 'immediate'} if not is_pcc(cfg) else {'marked', 'immediate', 'moved'}
    for k in need - kinds: ctx.bad('space', f.terminator(0), 'no key is ever found live because it is ' + k)
