"""C04: every object reached is marked in its own space, and queued exactly when newly marked."""
from core import rule, is_mmc, is_pcc, is_semi, is_gen, own, AnalysisError
from ts import Automaton, key_of, edge_atoms
import os
import q
from q import const_of, strip
from rules.tracer import element, induction, loop_bounds

CONTAINS = ('nofl_space_contains', 'nofl_space_contains_conservative_ref', 'large_object_space_contains_with_lock', 'large_object_space_contains', 'copy_space_contains',
            'copy_space_contains_address', 'copy_space_contains_address_aligned', 'copy_space_contains_aligned')
MARK = {'nofl_space_evacuate_or_mark_object': ('nofl', 2), 'nofl_space_mark_conservative_ref': ('nofl', 1), 'copy_space_forward': ('copy', 3),
        'large_object_space_mark': ('large', 1), 'large_object_space_mark_conservative_ref': ('large', 1), 'v_extern_space_visit': ('extern', 2)}
CONSERVATIVE = ('nofl_space_mark_conservative_ref', 'large_object_space_mark_conservative_ref')
KEEP = tuple(k for k in MARK if k != 'v_extern_space_visit') + CONTAINS + ('trigger_collection', 'gc_trace_object', 'gc_resolve_pending_ephemerons', 'collect')
NAMES = {'nofl': 'the main space', 'large': 'the large object space', 'extern': 'the external space'}

def name(I): return I.callee_name() if I.is_call() else None
def queued(I): return I.is_write() and I.field() in ('local_worklist.write', 'simple_worklist.write') and q.delta_of_store(I) == 1

def space_of(fn, I):
    """the space that a containment test or a marking function works on"""
    n = name(I)
    if n.startswith('nofl'): return 'nofl'
    if n.startswith('large'): return 'large'
    if n == 'v_extern_space_visit': return 'extern'
    for F in reversed(list(fn.fields_of(I.ops[0]) or ())):
        if F.startswith('gc_heap.'): return F[8:]
    return None

def norm(fn, v):
    """key of a reference: loads of the same edge are the same reference as long as nothing moved"""
    k = key_of(strip(fn, v))
    if k and k[0] == 'v':
        J = fn.insts[k[1]]
        if J.op == 'load':
            p = key_of(strip(fn, J.ptr()))
            return ('ld', p) if p else k
    return k

class Visit(Automaton):
    """state: (phase, tests, nonnull, nonimmediate, edge, moving ref key, loads of the edge since marking)
       phase: None | 'old' | 'new' | 'failed' | 'queued' | 'skip'"""
    ret_multi = False
    def __init__(self, mod, semi, heads, forward):
        super().__init__(mod); self.semi = semi; self.heads = heads; self.fwd = forward; self.marked = {}
    INIT = (None, frozenset(), False, False, None, None, frozenset())
    def relevance_key(self): return ('visit', self.semi)
    def watch_key(self): return 'visit'
    def watch(self, I):
        n = name(I)
        if n in MARK or n in CONTAINS: return (['v', I.id],)
        if n in ('do_trace',) or I.op == 'ret': return I.ops[:1] if I.op == 'ret' else (['v', I.id],)
        if I.is_call() and n and self.mod.fn(n) is not None and n not in ('gc_trace_object',): return (['v', I.id],)
        return ()
    def relevant(self, I): return name(I) in MARK or queued(I) or name(I) in CONTAINS
    def results(self, st, I):
        n = name(I)
        if n in CONTAINS:
            sp = space_of(I.fn, I); k = norm(I.fn, I.ops[1])
            t = frozenset(x for x in st[1] if x[:2] != (sp, k))
            return [((st[0], t | {(sp, k, b)}) + st[2:], 1 if b else 0) for b in (True, False)]
        if n in MARK:
            kind, ri = MARK[n]
            if n == 'copy_space_forward':
                R = [('old', self.fwd['UPDATED']), ('new', self.fwd['EVACUATED']), ('failed', self.fwd['FAILED'])]
            else: R = [('old', 0), ('new', 1)]
            edge = key_of(strip(I.fn, I.ops[{'nofl_space_evacuate_or_mark_object': 1, 'copy_space_forward': 2, 'v_extern_space_visit': 1}[n]])) if ri > 1 else None
            if n == 'v_extern_space_visit':
                J = I.fn.insts.get(edge[1]) if edge and edge[0] == 'v' else None
                if J is not None and J.op == 'ptrtoint': edge = key_of(strip(I.fn, J.ops[0]))
            mv = norm(I.fn, I.ops[ri]) if kind in ('nofl', 'copy', 'extern') and n not in CONSERVATIVE else None
            if n in CONSERVATIVE: mv = ('cons', I.id)
            return [((p, st[1] if p == 'failed' else frozenset(), st[2], st[3], edge, mv, frozenset()), c) for p, c in R]
        return None
    def step(self, st, I):
        n = name(I)
        if n in MARK:
            self.check_marker(st, I); return None
        if I.op == 'load' and st[0] in ('old', 'new', 'queued') and st[4] is not None and key_of(strip(I.fn, I.ptr())) == st[4]:
            return [st[:6] + (st[6] | {I.id},)]
        if self.semi:
            if n == 'gc_trace_object' and st[0] in ('new', 'old') and st[4] is not None or n == 'gc_trace_object' and st[0] in ('new', 'old'):
                if st[0] == 'old': self.error('again', I, 'an object that was already marked is traced again')
                return [('queued',) + st[1:]]
        if I.op == 'store' and st[0] in ('new', 'queued') and element(I.fn, I) & {'local_worklist', 'simple_worklist'}:
            v = key_of(strip(I.fn, I.ops[0])); mv = st[5]
            if mv is not None and mv[0] == 'cons':
                if v is not None and v != ('v', mv[1]) and not self.chosen(I.fn, v, mv[1]): self.error('stale', I, 'what is queued is not the object that a conservative reference was found to refer to')
            elif mv is not None and norm(I.fn, I.ops[0]) == mv and (v is None or v[0] != 'v' or v[1] not in st[6]):
                self.error('stale', I, 'the reference queued is the one from before the object was (perhaps) moved')
            return None
        if queued(I):
            if st[0] == 'old': self.error('again', I, 'an object that was already marked is queued again')
            if st[0] == 'failed': self.error('unmarked', I, 'an object that could not be copied is queued')
            if st[0] in ('new',): return [('queued',) + st[1:]]
        return None
    def chosen(self, fn, v, mid, d=0):
        J = fn.insts.get(v[1]) if v[0] == 'v' else None
        return J is not None and d < 5 and J.op in ('phi', 'select') and any((o[0] if J.op == 'phi' else o)[:2] == ['v', mid] or self.chosen(fn, tuple((o[0] if J.op == 'phi' else o)[:2]), mid, d + 1) for o in J.ops)
    def check_marker(self, st, I):
        n = name(I); kind, ri = MARK[n]; sp = space_of(I.fn, I); k = norm(I.fn, I.ops[ri])
        if st[0] == 'new': self.error('lost', I, 'a newly reached object is not queued for tracing before the next one is looked at')
        if n not in CONSERVATIVE and not self.passed_in(I.fn, I.ops[ri]):
            if not st[2]: self.error('null', I, 'a null reference may be taken for one to an object')
            elif not st[3]: self.error('immediate', I, 'an immediate value may be taken for a reference to an object')
        known = {x[0]: x[2] for x in st[1] if x[1] == k}
        self.marked.setdefault(I.fn.name, {}).setdefault(sp, I)
        wrong = [s for s, b in known.items() if b and s != sp]
        if wrong: self.error('space', I, 'an object of %s is marked as if it were in %s' % (NAMES.get(wrong[0], wrong[0]), NAMES.get(sp, sp))); return
        if known.get(sp) is False and not (sp == 'large' and self.heads.get('minor')): self.error('space', I, 'an object is marked in %s though it is not there' % NAMES.get(sp, sp)); return
        if n in CONSERVATIVE:
            if sp == 'nofl' and known.get('nofl') is not True: self.error('outside', I, 'a word is looked up in the main space though it may point outside of it')
            return
        if sp == 'extern':
            if not known: self.error('space', I, 'an object is taken for an external one without looking whether it is in one of the spaces')
            elif 'large' not in known: self.error('space', I, 'a large object may be taken for an external one')
            elif len(known) < 2: self.error('space', I, 'an object of the main space may be taken for an external one')
        elif sp == 'large':
            if not any(s != 'large' for s in known): self.error('space', I, 'an object of the main space may be looked for among the large ones')
        elif known and sp not in known: self.error('space', I, 'an object is marked in %s without looking whether it is there' % NAMES.get(sp, sp))
    def passed_in(self, fn, v):
        """the reference is a parameter: whoever passes it has tested it (callers are followed)"""
        return False
    def assume(self, st, I, p, L, R):
        c = const_of(R)
        if R[0] == 'null': c = 0
        if c is None or p not in ('eq', 'ne'): return None
        fn = I.fn; s = strip(fn, L)
        if s[0] == 'v':
            J = fn.insts[s[1]]
            if J.op in ('sext', 'zext', 'trunc'): s = strip(fn, J.ops[0]); J = fn.insts[s[1]] if s[0] == 'v' else J
            if name(J) in CONTAINS:
                if c == 0:
                    key = (space_of(fn, J), norm(fn, J.ops[1]))
                    if any(x[:2] == key and x[2] != (p == 'ne') for x in st[1]): return []
                return None
            if J.op == 'load' and J.ty in ('i64', 'ptr') and not J.field():
                if c == 0: return [('skip' if p == 'eq' and st[0] in (None, 'queued', 'old') else st[0],) + st[1:2] + (p == 'ne',) + st[3:]]
            if J.op == 'and' and const_of(J.ops[1]) is not None and c == 0:
                K = strip(fn, J.ops[0])
                if K[0] == 'a' or K[0] == 'v' and fn.insts[K[1]].op == 'load':
                    return [('skip' if p == 'ne' and st[0] in (None, 'queued', 'old') else st[0],) + st[1:3] + (p == 'eq',) + st[4:]]
        elif s[0] == 'a' and c == 0 and fn.args[s[1]][1] == 'i64':
            return [('skip' if p == 'eq' and st[0] in (None, 'queued', 'old') else st[0],) + st[1:2] + (p == 'ne',) + st[3:]]
        return None
    def map_in(self, st, I, t):
        # tests are about the caller's values: rename those of arguments
        fn = I.fn; ts = set()
        for (sp, k, b) in st[1]:
            for i, o in enumerate(I.ops):
                if norm(fn, o) == k: ts.add((sp, ('a', i), b))
        return (st[0] if st[0] not in ('old', 'queued') else None, frozenset(ts), st[2], st[3], None, None, frozenset())
    def map_out(self, sb, so, I, t):
        fn = I.fn; e = so[4]; mv = so[5]
        def up(k):
            if k and k[0] == 'a' and k[1] < len(I.ops): return key_of(strip(fn, I.ops[k[1]]))
            return None
        if mv is not None and mv[0] == 'a' and mv[1] < len(I.ops): mv = norm(fn, I.ops[mv[1]])
        elif mv is not None and mv[0] == 'ld': mv = ('ld', up(mv[1]))
        elif mv is not None: mv = None
        if so[0] is None: return (sb[0], sb[1]) + sb[2:]
        return (so[0], frozenset(), so[2], so[3], up(e), mv, frozenset())
    def ret(self, st, I):
        n = I.fn.name
        if st[0] == 'failed': self.error('unmarked', I, 'an object that could not be copied is left where it is, unmarked')
        if n in self.heads['visit']:
            if st[0] == 'new': self.error('lost', I, 'a newly reached object is not queued for tracing')
            elif st[0] is None: self.error('skipped', I, 'a reference to an object is passed over')
        return None

def visitors(m, fns, fields=True):
    """functions that look at one edge: they mark and queue (possibly through others), and are handed on as visitors"""
    cg = {}
    for f in m.defined():
        mk = any(name(I) in MARK and name(I) not in CONSERVATIVE for I in f.all())
        qd = any(queued(I) for I in f.all())
        cg[f.name] = (mk, qd, {t for I in f.all() if I.is_call() for t in m.targets(I)} if len(f.args) <= 5 else set())
    out = set()
    for f in m.defined():
        if len(f.args) != 3 or not (f.args[0][1] == 'ptr' and f.args[1][1] == 'ptr' and f.args[2][1] == 'ptr'): continue
        mk, qd, cs = cg[f.name]
        if (mk or any(cg.get(c, (0,))[0] for c in cs)) and qd: out.add(f.name)
    return out

@rule('visit-edges', 'C04', 'C05', 'C26', configs=lambda c: is_mmc(c) or is_pcc(c), load=dict(keep=KEEP), limits=(200,))
def visit_edges(ctx, m, cfg):
    fns = [f for f in m.defined() if any(name(I) in MARK or queued(I) for I in f.all())]
    vis = visitors(m, fns)
    fwd = {k: m.enum_value('COPY_SPACE_FORWARD_' + k) for k in ('UPDATED', 'EVACUATED', 'FAILED')} if is_pcc(cfg) else {}
    if None in fwd.values(): raise AnalysisError('results of copy_space_forward not found')
    if not vis: raise AnalysisError('no visitor of edges found')
    minor = is_pcc(cfg) and is_gen(cfg)
    A = Visit(m, False, dict(visit=vis, minor=minor), fwd)
    for f in fns:
        if f.name in MARK or f.name.endswith(('grow',)): continue
        if len(f.args) and f.args[0][1] != 'ptr': continue
        called = any(name(I) == f.name for g in m.defined() for I in g.all())
        # a helper that is given a reference is analysed in the context of its callers
        if called and f.name not in vis and any(t == 'i64' for _, t in f.args): continue
        A.run(f.name, Visit.INIT)
    q.report(ctx, A)
    for v in sorted(vis):
        ctx.ok('visitors of edges', m.fn(v).terminator(0))
    seen = {}
    for fn, d in A.marked.items():
        for s, I in d.items(): seen.setdefault(s, I)
    for s, I in seen.items(): ctx.ok('spaces', I)
    want = {'nofl', 'large', 'extern'} if is_mmc(cfg) else {'large', 'extern'} | ({'new_space', 'old_space'} if minor else {'mono_space'})
    v = m.fn(sorted(vis)[0])
    for s in want - set(seen): ctx.bad('missing', v.terminator(0), 'no reference is ever looked for in %s' % NAMES.get(s, s))
    ctx.need('marks of objects', len(seen))

# -- semi -----------------------------------------------------------------------------------
class SemiVisit(Visit):
    """an edge of the copying collector: copied (its fields are scanned later), or marked and traced at once"""
    def relevance_key(self): return 'semivisit'
    def watch(self, I):
        if name(I) == 'v_object_forwarded_nonatomic': return (['v', I.id],)
        return super().watch(I)
    def relevant(self, I): return super().relevant(I) or name(I) in ('v_object_forwarded_nonatomic', 'v_object_forward_nonatomic', 'v_object_edge')
    def call(self, st, I, t): return [st]
    def results(self, st, I):
        if name(I) == 'v_object_forwarded_nonatomic':
            return [(('new', st[1], st[2], st[3], None, ('copy',), frozenset()), 0), (('old', st[1], st[2], st[3], None, ('copy',), frozenset()), 1)]
        if name(I) == 'large_object_space_mark':
            return [((p, frozenset(), st[2], st[3], None, ('large', norm(I.fn, I.ops[1])), frozenset()), c) for p, c in (('old', 0), ('new', 1))]
        return super().results(st, I)
    def step(self, st, I):
        n = name(I)
        if n in MARK: self.check_marker(st, I); return None
        if n == 'v_object_forwarded_nonatomic':
            k = norm(I.fn, I.ops[0]); known = {x[0]: x[2] for x in st[1] if x[1] == k}
            self.marked.setdefault(I.fn.name, {}).setdefault('semi', I)
            if not st[2]: self.error('null', I, 'a null reference may be taken for one to an object')
            elif not st[3]: self.error('immediate', I, 'an immediate value may be taken for a reference to an object')
            if known.get('semi') is not True: self.error('space', I, 'an object that may not be in the space is treated as one to be copied')
            return None
        if n == 'v_object_forward_nonatomic':
            if st[0] == 'old': self.error('again', I, 'an object that was already copied is copied again')
            return [('queued',) + st[1:]]
        if I.op == 'load' and st[4] is not None and key_of(strip(I.fn, I.ptr())) == st[4]: return [st[:6] + (st[6] | {I.id},)]
        if n == 'v_object_edge':
            v = key_of(strip(I.fn, I.ops[0])); mv = st[5]
            if mv == ('copy',) or mv is None: return None
            if st[0] == 'old': self.error('again', I, 'an object that was already marked is traced again'); return None
            if mv[0] == 'large':
                if norm(I.fn, I.ops[0]) != mv[1]: self.error('stale', I, 'what is traced is not the object that was marked'); return None
            elif norm(I.fn, I.ops[0]) == mv and (v is None or v[0] != 'v' or v[1] not in st[6]):
                self.error('stale', I, 'the reference traced is the one from before the object was (perhaps) moved')
            return [('queued',) + st[1:]]
        return None
    def assume(self, st, I, p, L, R):
        fn = I.fn
        if p in ('ult', 'uge', 'ugt', 'ule') and const_of(R) is None:
            for (l, r, pp) in ((L, R, p), (R, L, q.SWAP[p])):
                J = fn.insts.get(strip(fn, r)[1]) if strip(fn, r)[0] == 'v' else None
                if J is None or J.op != 'load' or J.field() != 'region.active_size' or pp not in ('ult', 'uge'): continue
                sub = strip(fn, l); S = fn.insts.get(sub[1]) if sub[0] == 'v' else None
                if S is None or S.op != 'sub': continue
                sp = 'semi' if 'semi_space.from_space' in (fn.fields_of(J.ptr()) or ()) else None
                return [(st[0], st[1] | {(sp, norm(fn, S.ops[0]), pp == 'ult')}) + st[2:]]
        return super().assume(st, I, p, L, R)

@rule('visit-edges-semi', 'C04', configs=is_semi, load=dict(keep=KEEP), limits=(200,))
def visit_edges_semi(ctx, m, cfg):
    NAMES['semi'] = 'the copying space'
    vis = set()
    for f in m.defined():
        ns = {name(I) for I in f.all() if I.is_call()}
        if f.args and f.args[0][1] == 'ptr' and len(f.args) in (2, 3) and {'large_object_space_mark', 'v_object_forwarded_nonatomic'} <= ns and any(
                norm(f, I.ops[0]) == ('ld', ('a', 0)) for I in f.all() if name(I) == 'v_object_forwarded_nonatomic'): vis.add(f.name)
    if not vis: raise AnalysisError('no visitor of edges found')
    A = SemiVisit(m, True, dict(visit=vis), {})
    for v in vis: A.run(v, Visit.INIT)
    q.report(ctx, A)
    seen = {}
    for d in A.marked.values(): seen.update(d)
    for s, I in seen.items(): ctx.ok('spaces', I)
    for s in {'semi', 'large', 'extern'} - set(seen): ctx.bad('missing', m.fn(sorted(vis)[0]).terminator(0), 'no reference is ever looked for in %s' % NAMES.get(s, s))
    # objects are scanned until there is none left
    n = 0
    for f in m.defined():
        for h in f.loops():
            for P in f.blocks[h]:
                if P.op != 'phi': break
                bs = [(T, p, B) for T, p, B in loop_bounds(f, P) if hp(f, B)]
                if not bs: continue
                n += 1; body = f.loops()[h]
                bad = None
                sc = [I for b in body for I in f.blocks[b] if name(I) == 'v_object_edge' and tuple(strip(f, I.ops[0])[:2]) == ('v', P.id)]
                if not all(p in ('ult', 'ne') for _, p, _ in bs): bad = (bs[0][0], 'scanning stops before the last object copied')
                elif not sc: bad = (bs[0][0], 'the fields of a copied object are not scanned')
                elif not any(f.dominates(sc[0], f.terminator(b)) for o, b in P.ops if b in body): bad = (sc[0], 'the fields of some copied objects are not scanned')
                else:
                    for o, b in P.ops:
                        if b in body and not advanced(f, o, P): bad = (f.terminator(b), 'the next object scanned is not the one after this one')
                if bad: ctx.bad('scan', *bad)
                else: ctx.ok('scans of copied objects', bs[0][0])
    if not n: ctx.bad('scan', m.fn(sorted(vis)[0]).terminator(0), 'copied objects are not scanned')

def hp(f, v):
    k = strip(f, v)
    return k[0] == 'v' and f.insts[k[1]].op == 'load' and f.insts[k[1]].field() == 'semi_space.hp'

def advanced(f, v, P):
    """v = P + size rounded up to the alignment"""
    J = f.insts.get(strip(f, v)[1]) if strip(f, v)[0] == 'v' else None
    if J is None: return False
    if J.op == 'phi' and J.id != P.id: return all(advanced(f, o[0], P) for o in J.ops)
    if J.op != 'add': return False
    for a, b in ((0, 1), (1, 0)):
        if tuple(strip(f, J.ops[a])[:2]) == ('v', P.id):
            K = f.insts.get(strip(f, J.ops[b])[1]) if strip(f, J.ops[b])[0] == 'v' else None
            if K is not None and K.op == 'and' and const_of(K.ops[1]) == -8:
                l, c = q.lin0(f, K.ops[0])
                return c == 7 and len(l) == 1 and list(l.values()) == [1] and name(f.insts.get(list(l)[0][1], J)) == 'v_object_size'
    return False

# -- conservative ranges ----------------------------------------------------------------------
def lins(f, v):
    a, c = q.lin(f, v); return frozenset(a.items()), c

def dies(f, b, d=0):
    T = f.terminator(b)
    return T.op == 'unreachable' or d < 8 and bool(f.succ[b]) and all(dies(f, s, d + 1) for s in f.succ[b])

def kindof(f, I):
    kind = None
    for S, s in f.all_control_deps(I.block):
        for (p, L, R) in edge_atoms(f, S, s):
            if not any((x.field() or '') == 'gc_root.kind' for x in q.value_loads(f, L, 3)): continue
            if p == 'eq': kind = const_of(R)
            if p == 'in' and R and len(R) == 1: kind = next(iter(R))
    return kind

@rule('conservative-ranges', 'C04', 'C03', 'C26', configs=is_mmc, load=dict(keep=KEEP), limits=(200,))
def conservative_ranges(ctx, m, cfg):
    K = {n: m.enum_value('GC_ROOT_KIND_' + n) for n in ('CONSERVATIVE_EDGES', 'CONSERVATIVE_POSSIBLY_INTERIOR_EDGES')}
    kinds = set(); loops = {}
    marks = [(f, I) for f in m.defined() for I in f.all() if name(I) in CONSERVATIVE and f.name not in CONSERVATIVE]
    need = cfg.startswith(('stack-', 'heap-'))
    if not marks:
        if need: ctx.bad('missing', m.fn('trigger_collection').terminator(0), 'conservative references are never looked at')
        return
    for f, I in marks:
        ref = strip(f, I.ops[1]); J = f.insts.get(ref[1]) if ref[0] == 'v' else None
        if J is None or J.op != 'load':
            if ref[0] == 'a': ctx.bad('range', I, 'conservative references are not read from the range being scanned')
            else: ctx.bad('range', I, 'conservative references are not read from the range being scanned')
            continue
        a = strip(f, J.ptr()); A = f.insts.get(a[1]) if a[0] == 'v' else None
        while A is not None and A.op in ('inttoptr', 'bitcast', 'ptrtoint'): a = strip(f, A.ops[0]); A = f.insts.get(a[1]) if a[0] == 'v' else None
        ind = induction(f, a)
        if ind is None: ctx.bad('range', I, 'a range of conservative references is not walked word by word'); continue
        phi, start, step = ind
        if abs(step) != 8: ctx.bad('range', I, 'a range of conservative references is walked in steps of %d bytes' % step); continue
        bs = loop_bounds(f, phi); body = f.loops()[phi.block]
        ex = [b for b in body if any(s not in body for s in f.succ[b])]
        if step != 8 or not any(p in ('ult', 'ne') for _, p, _ in bs): ctx.bad('range', I, 'the last word of a range of conservative references is not looked at, or one beyond it is'); continue
        T, p, hi = next(x for x in bs if x[1] in ('ult', 'ne'))
        for b in ex:
            if f.terminator(b) is not T and any(s not in body and not dies(f, s) for s in f.succ[b]): ctx.bad('range', f.terminator(b), 'a scan of conservative references may stop before the end of its range')
        if not (f.dominates(J, f.terminator(phi.block)) or any(f.dominates(J, f.terminator(b)) for o, b in phi.ops if b in body)): ctx.bad('range', J, 'some words of a range of conservative references are not looked at')
        interior = const_of(I.ops[2])
        lo, hi_ = lins(f, start), lins(f, hi)
        d, c = q.lindiff(f, hi, start)
        if lo == hi_: ctx.bad('range', I, 'a range of conservative references is empty')
        if lo[1] or len(lo[0]) != 1 or next(iter(lo[0]))[1] != 1: ctx.bad('range', T, 'the first words of a range of conservative references are not looked at')
        elif kindof(f, I) in K.values():
            if hi_[1] or len(hi_[0]) != 1 or not any((x.field() or '').endswith('hi_addr') for x in q.value_loads(f, hi, 4)): ctx.bad('range', T, 'the scan of a range of conservative references does not end at its end')
        elif c or len(d) != 1 or list(d.values()) != [1]: ctx.bad('range', T, 'the scan of an object does not end at its end')
        loops.setdefault((f.name, phi.id), []).append((I, T, lo, hi_, interior))
    for (fn, pid), l in loops.items():
        f = m.fn(fn); I, T, lo, hi_, _ = l[0]
        names = {name(x[0]) for x in l}
        for n in set(CONSERVATIVE) - names:
            ctx.bad('range', I, 'a conservative reference is never looked for in %s' % NAMES['nofl' if n.startswith('nofl') else 'large'])
        ints = {x[4] for x in l}
        if len(ints) > 1: ctx.bad('interior', I, 'whether interior references count depends on the space they refer to')
        # the kind of root decides whether interior references count
        kind = kindof(f, I)
        kinds.add(kind)
        if kind in K.values():
            want = 1 if kind == K['CONSERVATIVE_POSSIBLY_INTERIOR_EDGES'] else 0
            if ints != {want}: ctx.bad('interior', I, 'roots that %s interior references are scanned as if they %s' % (('may be', 'could not be') if want else ('are not', 'might be')))
            else: ctx.ok('ranges of conservative roots', I)
        elif ints == {0}: ctx.ok('ranges of conservative references', I)
        ctx.ok('words of conservative ranges', I)
    for n, k in K.items():
        if need and k not in kinds: ctx.bad('missing', marks[0][1], 'ranges of roots of kind %s are not scanned' % n)
