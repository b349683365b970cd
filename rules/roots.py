"""Roots: C03 (every category visited in every collection; every queued root handled)."""
from core import rule, mt, own, is_gen, is_semi, AnalysisError
import q, ir
from q import Automaton, const_of, event_slot

H = 'gc_heap.'
ALL = frozenset(['*'])
def fieldnames(e):
    """fields loaded or addressed in a symbolic expression"""
    return {x[1] for x in ir.walk(e) if isinstance(x, tuple) and x and x[0] in ('load', 'addr') and len(x) > 1 and isinstance(x[1], str)}

def mentions(I, depth=6):
    r = set()
    for o in I.ops:
        if isinstance(o, (list, tuple)) and o and o[0] in ('v', 'ce'): r |= fieldnames(I.fn.expr(o, depth))
    return r

KINDF = (H + 'gc_kind', H + 'is_minor_collection')
def current(fn, J):
    """a load of the kind of collection that yields the kind of this collection, not of the one before"""
    S = [U for U in fn.all() if U.op == 'store' and U.field() in KINDF]
    return not S or any(fn.dominates(U, J) for U in S)

def minor_flag(fn, v, depth=4):
    """the condition v ends up in the field that says whether this is a minor collection"""
    return depth > 0 and any(U.op == 'store' and U.field() == H + 'is_minor_collection' or U.op in ('zext', 'sext', 'trunc', 'select', 'and', 'phi') and minor_flag(fn, ['v', U.id], depth - 1) for U in fn.users(v))

def minor_value(fn, v):
    """v is (or is computed from) the kind of the current collection"""
    L = [J for J in q.value_loads(fn, v) if J.field() in KINDF]
    if L: return all(current(fn, J) for J in L)
    v = q.strip(fn, v)
    if v[0] == 'a':
        dt = fn.ditypes or []
        nm = fn.args[v[1]][0] or ''
        return 'minor' in nm or v[1] < len(dt) and 'gc_collection_kind' in str(dt[v[1]]) and 'request' not in nm
    if v[0] == 'v':
        if any(U.op == 'store' and U.field() in KINDF for U in fn.users(v)): return True
        I = fn.insts[v[1]]
        if I.is_call(): return 'collection_kind' in str(I.callee_name())
    return False

def not_minor_edge(mod, T, s):
    """taking the branch T -> s means that this is not a minor collection"""
    fn = T.fn; MINOR = mod.enum_value('GC_COLLECTION_MINOR')
    v = T.ops[0] if T.op == 'br' and T.ops else None
    if v and v[0] == 'v' and minor_flag(fn, v): return T.raw['succ'][0] != s
    for p, L, R in q.edge_atoms(fn, T, s):
        c = const_of(R)
        if c is None or p not in ('eq', 'ne') or L[0] not in ('v', 'a'): continue
        if not minor_value(fn, L):
            if c == MINOR and L[0] == 'v' and p == 'ne' and any(C.op == 'icmp' and C.raw['pred'] == 'eq' and const_of(C.ops[1]) == MINOR and minor_flag(fn, ['v', C.id]) for C in fn.users(L)): return True
            continue
        x = q.strip(fn, L); J = fn.insts[x[1]] if x[0] == 'v' else None
        flag = (J is not None and (J.ty in ('i1', 'i8') or J.op == 'icmp' or J.op == 'load' and J.field() == H + 'is_minor_collection')) or x[0] == 'a' and 'minor' in (fn.args[x[1]][0] or '')
        if flag:
            if c == 0 and p == 'eq' or c == 1 and p == 'ne': return True
        elif c == MINOR and p == 'ne' or c not in (0, MINOR) and p == 'eq': return True
    return False

class Roots(Automaton):
    """state: None outside of a collection, else (done, iter, loopdone, owes)"""
    def __init__(self, mod, cfg, need):
        super().__init__(mod); self.need = need; self.hits = {}; self.cfg = cfg
        self.K = {k: mod.enum_value('GC_ROOT_KIND_' + k) for k in ('HEAP', 'MUTATOR', 'EDGE', 'EDGE_BUFFER')} if mt(cfg) else {}
        if mt(cfg) and None in self.K.values(): raise AnalysisError('root kinds not found')
    def relevance_key(self): return self.cfg
    def relevant(self, I):
        if I.is_call():
            return event_slot(self.mod, I) in ('mutators_stopped', 'heap_traced') or I.callee_name() in ('v_heap_root_edge', 'v_mutator_root_edge', 'gc_platform_visit_global_conservative_roots') or self.stackish(I) or self.finish(I)
        if I.op == 'load': return I.field() in ('gc_finalizer_state.fired', H + 'mutators', 'gc_mutator.next', 'gc_field_set.partly_full', 'gc_field_set.full')
        if I.op == 'store': return I.field() == 'gc_root.kind' or bool(self.stackish(I)) or self.finish(I)
        return I.op == 'cmpxchg' and I.field() == 'gc_field_set.full'
    def stackish(self, I):
        return frozenset(['registers', 'stack']) if I.callee_name() == 'gc_stack_visit' else frozenset()
    def finish(self, I):
        """hands out the address of the list of fired finalizers"""
        c = self.mod.__dict__.setdefault('_finish', {}); k = (I.fn.name, I.id)
        if k not in c:
            r = I.op == 'load' and I.field() == 'gc_finalizer_state.fired'
            for i, o in enumerate(I.ops):
                if I.op == 'store' and i == 1: continue
                if isinstance(o, (list, tuple)) and o and o[0] in ('v', 'ce'):
                    e = I.fn.expr(o, 5)
                    if e[0] == 'addr' and e[1] == 'gc_finalizer_state.fired': r = True
            c[k] = r
        return c[k]
    def emptying(self, I):
        """I branches in a loop that queues buffers of remembered edges"""
        L = [body for body in I.fn.loops().values() if I.block in body]
        L = min(L, key=len) if L else None
        if not L: return False
        return any(S.op == 'store' and S.field() == 'gc_root.kind' and const_of(S.ops[0]) == self.K.get('EDGE_BUFFER') for b in L for S in I.fn.blocks[b]) or \
            any(S.is_call() and 'edge_buffer' in (S.callee_name() or '') for b in L for S in I.fn.blocks[b])
    def step(self, st, I):
        if I.is_call():
            e = event_slot(self.mod, I)
            if e == 'mutators_stopped': return [(frozenset(), None, ALL, False)]
            if e == 'heap_traced':
                if st is not None:
                    done = st[0]
                    for k, msg in self.need.items():
                        if k == 'remembered' and 'not-minor' in done: continue
                        if k not in done: self.error('unvisited:' + k, I, 'the heap counts as traced although ' + msg)
                    if st[3]: self.error('buffer-dropped', I, 'a buffer of remembered edges was taken from the remembered set but not queued as a root')
                    self.hits.setdefault('trace', set()).add((I.fn.name, I.id))
                return [None]
        if st is None: return None
        done, it, ld, owes = st
        if I.is_call():
            n = I.callee_name()
            if n == 'v_heap_root_edge': return [(done | {'heap roots'}, it, ld, owes)]
            if n == 'v_mutator_root_edge':
                if it is not None: return [(done, it | {'mutator roots'}, ld, owes)]
                return [(done | {'mutator roots'}, it, ld, owes)] if is_semi(self.cfg) else None
            if n == 'gc_platform_visit_global_conservative_roots': return [(done | {'globals'}, it, ld, owes)]
        if I.is_call() or I.op in ('store', 'load'):
            s = self.stackish(I)
            if s and it is not None: return [(done, it | s, ld, owes)]
            if self.finish(I): done = done | {'finalizers'}; return [(done, it, ld, owes)]
        if I.op == 'load':
            f = I.field()
            if f == H + 'mutators': return [(done, None, ALL, owes)]
            if f == 'gc_mutator.next':
                if it is None: return None
                return [(done, None, it if ld == ALL else ld & it, owes)]
        if I.op in ('load', 'cmpxchg') and (I.field() or '').startswith('gc_field_set.'):
            if owes and I.op == 'load': self.error('buffer-dropped', I, 'a buffer of remembered edges was taken from the remembered set but not queued as a root'); return [(done, it, ld, False)]
            return None
        if I.op == 'store' and I.field() == 'gc_root.kind':
            c = const_of(I.ops[0])
            if c is None: return None
            if c == self.K.get('MUTATOR') and it is not None: return [(done, it | {'mutator roots'}, ld, owes)]
            if c == self.K.get('HEAP'): return [(done | {'heap roots'}, it, ld, owes)]
            if c == self.K.get('EDGE_BUFFER'): return [(done, it, ld, False)]
        return None
    def assume(self, st, I, pred, L, R):
        if st is None or pred not in ('eq', 'ne'): return None
        done, it, ld, owes = st
        fn = I.fn
        c = const_of(R)
        if c == 0:
            fs = {J.field() for J in q.value_loads(fn, L)}
            if fs and fs <= {H + 'mutators', 'gc_mutator.next'}:
                if pred == 'ne': return [(done, frozenset(), ld, owes)]
                return [(done | (frozenset(['mutator roots', 'registers', 'stack']) if ld == ALL else ld), None, ALL, owes)]
            if pred == 'eq':
                if fs == {'gc_mutator.roots'}:
                    if it is not None: return [(done, it | {'mutator roots'}, ld, owes)]
                    if is_semi(self.cfg): return [(done | {'mutator roots'}, it, ld, owes)]
                if fs == {H + 'roots'}: return [(done | {'heap roots'}, it, ld, owes)]
            if fs and all((f or '').startswith('gc_field_set.') or f == 'gc_edge_buffer.next' for f in fs):
                which = {f for f in fs if f.startswith('gc_field_set.')}
                if pred == 'ne': return [(done, it, ld, True)] if self.emptying(I) else None
                d = done
                if 'gc_field_set.partly_full' in which: d = d | {'rs-partly'}
                if 'gc_field_set.full' in which: d = d | {'rs-full'}
                if {'rs-partly', 'rs-full'} <= d: d = d | {'remembered'}
                return [(d, it, ld, owes)]
        return None
    def edge(self, st, T, s):
        if st is None: return None
        c = self.mod.__dict__.setdefault('_nme', {}); k = (T.fn.name, T.id, s)
        if k not in c: c[k] = not_minor_edge(self.mod, T, s)
        return [(st[0] | {'not-minor'},) + st[1:]] if c[k] else None

@rule('roots', 'C03', 'C08', configs=own)
def roots(ctx, m, cfg):
    need = {'mutator roots': 'the explicit roots of some thread were not visited', 'heap roots': 'the roots of the heap were not visited',
            'finalizers': 'finalizers that have fired but were not popped yet were not visited'}
    if 'conservative' in cfg:
        need.update({'registers': 'the saved registers of some thread were not scanned', 'stack': 'the stack of some thread was not scanned', 'globals': 'global variables were not scanned'})
    if is_gen(cfg): need['remembered'] = 'the remembered set was not emptied into the queue of roots in a minor collection'
    A = Roots(m, cfg, need)
    for e in q.public_entries(m, threads=False): A.run(e, None)
    q.report(ctx, A)
    ctx.need('points where the heap counts as traced', len(A.hits.get('trace', ())), 1)

def consts_of(fn, v, depth=6):
    """constants v may be, or None when it may be something else"""
    c = const_of(v)
    if c is not None: return {c}
    if v[0] != 'v' or depth == 0: return None
    I = fn.insts[v[1]]; out = set()
    if I.op in ('phi', 'select'):
        for o in ([x[0] for x in I.ops] if I.op == 'phi' else I.ops[1:]):
            s = consts_of(fn, o, depth - 1)
            if s is None: return None
            out |= s
        return out
    if I.op in ('zext', 'sext', 'trunc', 'freeze'): return consts_of(fn, I.ops[0], depth - 1)
    return None

def from_root(fn, v, depth=14, seen=None):
    """v is computed from the payload of a queued root"""
    seen = set() if seen is None else seen
    if v[0] in ('ce',): return False
    if v[0] != 'v' or depth == 0 or v[1] in seen: return False
    seen.add(v[1]); I = fn.insts[v[1]]
    if I.is_call() or I.op == 'alloca': return False
    if I.op == 'load':
        f = I.field() or ''
        if f in ('gc_root.heap', 'extent_range.hi_addr', 'extent_range.lo_addr'): return f.startswith('gc_root') or 'gc_root' in str(fn.expr(I.ptr(), 4)) or 'root_worklist' in str(fn.expr(I.ptr(), 4))
        return False
    return any(from_root(fn, o[0] if I.op == 'phi' else o, depth - 1, seen) for o in I.ops if isinstance(o, (list, tuple)) and o and (I.op == 'phi' or o[0] == 'v'))

@rule('root-dispatch', 'C03', 'C04', configs=mt)
def root_dispatch(ctx, m, cfg):
    NAMES = {m.enum_value('GC_ROOT_KIND_' + k): k for k in ('HEAP', 'MUTATOR', 'CONSERVATIVE_EDGES', 'CONSERVATIVE_POSSIBLY_INTERIOR_EDGES', 'RESOLVED_EPHEMERONS', 'EDGE', 'EDGE_BUFFER')}
    created = {}
    for f in m.defined():
        for S in f.all():
            if S.op == 'store' and S.field() == 'gc_root.kind':
                cs = consts_of(f, S.ops[0])
                for c in cs or ():
                    if c: created.setdefault(c, S)
                if cs and len(cs) == 1 and NAMES.get(min(cs)) == 'MUTATOR':
                    base = f.root_of(S.ptr()); pay = [P for P in f.blocks[S.block] if P.op == 'store' and P.field() == 'gc_root.heap' and same_base(f, P.ptr(), S.ptr())]
                    for P in pay:
                        fs = {J.field() for J in q.value_loads(f, P.ops[0])}
                        if fs and fs <= {H + 'mutators', 'gc_mutator.next'} and 'gc_mutator.next' in fs: ctx.ok('the queued thread is the one reached by the walk over all threads', P)
                        elif fs or P.ops[0][0] in ('c', 'null'): ctx.bad('wrong-mutator', P, 'a root for the explicit roots of a thread is queued, but not for the thread that the walk over all threads has reached')
    ctx.need('kinds of roots created', len(created), 4)
    nsw = 0; handled = {}
    for f in m.defined():
        for T in f.all():
            if T.op != 'switch' or not any(J.field() == 'gc_root.kind' for J in q.value_loads(f, T.ops[0])): continue
            cases = {c: b for c, b in T.raw['cases']}
            if not any(c in NAMES for c in cases): continue
            nsw += 1
            for c, name in NAMES.items():
                if c not in created: continue
                if c not in cases: continue
                b = cases[c]
                region = f.reachable([b], avoid={T.block})
                exits = {x for x in region if f.blocks[x][-1].op == 'ret'}
                if not exits and not any(T.block in f.succ[x] or T.block in f.reachable(f.succ[x]) for x in region): continue      # crashes
                # blocks only this case leads to
                own_ = {x for x in region if f.block_dominates(b, x)}
                use = {x for x in own_ if any(uses(f, I) for I in f.blocks[x])}
                content = [I for x in own_ for I in f.blocks[x] if does(f, I, name)]
                handled.setdefault(c, []).append(T)
                if not content:
                    ctx.bad('not-followed:' + name.lower(), T, 'roots of kind %s are taken from the queue but not %s' % (name, WHAT[name])); continue
                # does some way around exist?
                left = f.reachable([b], avoid=use | {T.block} | nulls(f, own_))
                if b in use: left = set()
                if any(x not in own_ for x in left) or left & exits:
                    ctx.bad('skipped:' + name.lower(), T, 'on some path a root of kind %s is taken from the queue and dropped without being looked at' % name)
                else: ctx.ok('roots of kind %s: %s on every path' % (name, WHAT[name]), T)
    ctx.need('dispatches on the kind of a root', nsw, 1)
    for c, S in created.items():
        if c not in handled: ctx.bad('unhandled:' + NAMES.get(c, str(c)).lower(), S, 'roots of kind %s are queued here, but whoever takes them from the queue has no case for them that does not crash' % NAMES.get(c, c))

WHAT = dict(HEAP='the roots of the heap visited', MUTATOR='the roots of the thread visited', CONSERVATIVE_EDGES='the range scanned', CONSERVATIVE_POSSIBLY_INTERIOR_EDGES='the range scanned',
            RESOLVED_EPHEMERONS='the values of the ephemerons visited', EDGE='the edge followed', EDGE_BUFFER='the edges in the buffer visited')

def same_base(f, a, b):
    def base(p):
        while p[0] == 'v' and f.insts[p[1]].op == 'getelementptr': 
            I = f.insts[p[1]]
            if len(I.ops) > 1 and (const_of(I.ops[1]) is None): break
            p = I.ops[0]
        return tuple(p[:2])
    return base(a) == base(b)

def uses(f, I):
    if I.op in ('load', 'store', 'icmp') or I.is_call():
        return any(isinstance(o, (list, tuple)) and o and o[0] == 'v' and from_root(f, o) for o in I.ops)
    return False

def does(f, I, name):
    if name == 'HEAP': return I.is_call() and I.callee_name() == 'v_heap_root_edge'
    if name == 'MUTATOR': return I.is_call() and I.callee_name() == 'v_mutator_root_edge'
    if name == 'RESOLVED_EPHEMERONS': return I.is_call() and (I.callee_name() == 'gc_trace_resolved_ephemerons' and uses(f, I) or any('gc_ephemeron.value' in str(f.expr(o, 3)) for o in I.ops if isinstance(o, (list, tuple)) and o and o[0] in ('v', 'ce'))) or I.op == 'load' and I.field() == 'gc_ephemeron.value'
    if name == 'EDGE_BUFFER': return I.op == 'load' and (I.field() or '').startswith('gc_edge_buffer.edges') or I.is_call() and uses(f, I)
    if name == 'EDGE' or name.startswith('CONS'): return I.op == 'load' and uses(f, I) or I.is_call() and uses(f, I) and not (I.callee_name() or '').startswith('llvm.')
    return False

def nulls(f, own_):
    """blocks entered because the embedder registered no roots"""
    out = set()
    for x in own_:
        T = f.blocks[x][-1]
        if T.op != 'br' or not T.ops: continue
        for s in T.raw['succ']:
            for p, L, R in q.edge_atoms(f, T, s):
                if p == 'eq' and const_of(R) == 0 and {J.field() for J in q.value_loads(f, L)} & {H + 'roots', 'gc_mutator.roots'}: out.add(s)
    return out
