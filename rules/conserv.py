"""C26: a word is believed to be a reference only after it was checked to be one, and every true reference passes the checks."""
from core import rule, is_mmc, AnalysisError
from ts import Automaton, key_of
import q
from q import const_of, strip

DISP = 'v_is_valid_conservative_ref_displacement'
BYTE = {'notmarked', 'alloc', 'young', 'surv', 'notyoung', 'notsurv'}
KEEP = ('nofl_space_mark_conservative_ref', 'large_object_space_mark_conservative_ref', 'large_object_space_mark', 'large_object_tree_lookup', 'large_object_space_lookup',
        'trigger_collection', 'nofl_space_contains_conservative_ref', 'nofl_space_contains')
def name(I): return I.callee_name() if I.is_call() else None
def inst(f, v):
    k = strip(f, v)
    return f.insts.get(k[1]) if k[0] == 'v' else None

def peel(f, v):
    I = inst(f, v)
    while I is not None and I.op in ('zext', 'sext', 'trunc', 'inttoptr', 'ptrtoint', 'freeze'):
        v = I.ops[0]; I = inst(f, v)
    return I

def masked(f, v):
    """(value, mask) of v = value & mask"""
    I = peel(f, v)
    if I is not None and I.op == 'urem' and const_of(I.ops[1]) and const_of(I.ops[1]) & (const_of(I.ops[1]) - 1) == 0: return I.ops[0], const_of(I.ops[1]) - 1
    if I is not None and I.op == 'and':
        for a, b in ((0, 1), (1, 0)):
            if const_of(I.ops[b]) is not None: return I.ops[a], const_of(I.ops[b])
    return None

def ptrform(f, v):
    """(root, byte offset) through constant GEPs over bytes"""
    off = 0; k = strip(f, v)
    while k[0] == 'v':
        I = f.insts[k[1]]
        if I.op == 'getelementptr' and len(I.ops) == 2 and const_of(I.ops[1]) is not None: off += const_of(I.ops[1]); k = strip(f, I.ops[0])
        elif I.op in ('inttoptr', 'ptrtoint', 'bitcast'): k = strip(f, I.ops[0])
        else: break
    return tuple(k[:2]), off

class Nofl(Automaton):
    """state: (facts, kind of the byte last read: None | 'direct' | 'search')"""
    descend = False
    def __init__(self, mod, C):
        super().__init__(mod); self.C = C; self.hits = {}
    def watch_key(self): return 'consnofl'
    def watch(self, I):
        if I.op == 'ret': return I.ops[:1]
        if I.op == 'br' and I.ops: return I.ops[:1]
        return ()
    def byte(self, I): return I.op == 'load' and I.ty == 'i8' and not self.mark(I) and peel_root(I)
    def mark(self, I):
        if I.op != 'load' or I.ty != 'i8': return None
        F = I.field() or ''
        if F == 'nofl_space.survivor_mark': return 'survivor'
        if F == 'nofl_space.current_mark' or key_of(strip(I.fn, I.ptr())) == ('a', 0): return 'current'
        return None
    def step(self, st, I):
        fs, kind = st
        if self.byte(I) and not self.after_mark(I):
            inloop = any(I.block in b for b in I.fn.loops().values())
            if not inloop:
                return [(fs - BYTE, 'direct')]
            if 'bound' not in fs: self.error('bound', I, 'the search for the start of an object may leave the block it started in')
            if kind == 'search':
                if 'noend' not in fs: self.error('end', I, 'the search for the start of an object goes on past the end of another one')
            if 'interior' not in fs: self.error('interior', I, 'references into the middle of objects are accepted though they need not be valid')
            return [(fs - BYTE - {'noend', 'bound'}, 'search')]
        if I.op == 'store' and self.is_mark(I):
            self.hits[I.id] = I
            if not fs & {'interior', 'disp'}: self.error('displacement', I, 'a word whose displacement is not that of a reference is taken for one')
            if 'meta' not in fs: self.error('meta', I, 'a word that points to the metadata of a slab is taken for a reference')
            if 'avail' not in fs: self.error('unavailable', I, 'a word that points to a block that is not in use is taken for a reference')
            if 'alloc' not in fs: self.error('dead', I, 'a word that does not point to an allocated object is taken for a reference')
            elif kind == 'search' and 'noend' not in fs: self.error('end', I, 'a word that points between objects is taken for a reference to the one before')
            return [(fs | {'done'}, kind)]
        return None
    def unalloc(self, g, kind):
        if {'notyoung', 'notsurv', 'notinterior'} <= g and kind == 'direct': g |= {'reject'}
        return [(g, kind)]
    def is_mark(self, I):
        v = peel(I.fn, I.ops[0]); 
        def rec(v, d=0):
            v = peel(I.fn, v)
            if v is None or d > 6: return False
            if self.mark(v) == 'current': return True
            return v.op in ('or', 'and', 'phi', 'select') and any(rec(o[0] if v.op == 'phi' else o, d + 1) for o in v.ops if o)
        return rec(I.ops[0])
    def after_mark(self, I):
        return any(I.fn.dominates(S, I) for S in I.fn.all() if S.op == 'store' and self.is_mark(S))
    def assume(self, st, I, p, L, R):
        fs, kind = st; f = I.fn; C = self.C
        add = lambda *x: [(fs | set(x), kind)]
        c = const_of(R) if R is not None and p != 'in' else None
        if R is not None and p != 'in' and R[0] == 'null': c = 0
        k = strip(f, L)
        if tuple(k[:2]) == ('a', 2) and c == 0 and p in ('eq', 'ne'):
            if p == 'ne' and 'notinterior' in fs or p == 'eq' and 'interior' in fs: return []
            return add('interior' if p == 'ne' else 'notinterior', *(['reject'] if p == 'eq' and {'notyoung', 'notsurv'} <= fs else []))
        J = peel(f, L)
        if J is not None and name(J) == DISP and c == 0 and p in ('eq', 'ne'):
            mk = masked(f, J.ops[0])
            if mk is None or mk[1] != C['granule'] - 1: self.error('displacement', J, 'the displacement of a reference is not taken within a granule'); return add('disp')
            return add('disp' if p == 'ne' else 'reject')
        mk = masked(f, L); D = peel(f, L)
        if mk is None and c is not None and D is not None and D.op in ('lshr', 'udiv') and const_of(D.ops[1]):
            n = const_of(D.ops[1]); n = 1 << n if D.op == 'lshr' else n
            if masked(f, D.ops[0]) and n & (n - 1) == 0 and p in ('ult', 'uge', 'ugt', 'ule'):
                mk = masked(f, D.ops[0]); c = c * n if p in ('ult', 'uge') else (c + 1) * n - 1
        if mk is not None and c is not None and mk[1] == C['slab'] - 1 and p in ('ult', 'uge', 'ugt', 'ule'):
            lim = c if p in ('ult', 'uge') else c + 1
            if p in ('uge', 'ugt'): return add('meta') if lim >= C['meta'] else None
            return add('reject') if lim <= C['meta'] else None
        if mk is not None and c is not None:
            X = peel(f, mk[0])
            if X is not None and X.op == 'load' and (X.field() or '').startswith('nofl_block_summary') and mk[1] & C['unavailable'] and p in ('eq', 'ne'):
                has = (p == 'eq') if c else (p == 'ne')
                return add('reject' if has else 'avail')
            if X is not None and self.byte(X) and mk[1] & 255 == C['END'] and p in ('eq', 'ne'):
                has = (p == 'ne') if c == 0 else (p == 'eq')
                return add('reject' if has else 'noend')
            if X is not None and self.byte(X) and mk[1] & 255 == C['mask'] and c == C['YOUNG'] and p in ('eq', 'ne'):
                
                if p == 'eq': return [] if fs & {'notyoung', 'surv'} else add('alloc', 'young')
                return [] if 'young' in fs else self.unalloc(fs | {'notyoung'}, kind)
        if p in ('eq', 'ne') and c is None:
            for (l, r) in ((L, R), (R, L)):
                mk = masked(f, l); Y = peel(f, r)
                if mk is None or Y is None: continue
                X = peel(f, mk[0])
                if X is None or not self.byte(X) or mk[1] & 255 != C['mask']: continue
                w = self.mark(Y)
                if w == 'current': return add('reject' if p == 'eq' else 'notmarked')
                if w == 'survivor':
                    if p == 'eq': return [] if fs & {'notsurv', 'young'} else add('alloc', 'surv')
                    return [] if 'surv' in fs else self.unalloc(fs | {'notsurv'}, kind)
            # the search against the start of the block
            L, R = unaliased(I, p, L, R)
            for (l, r) in ((L, R), (R, L)):
                a, ao = ptrform(f, l); b, bo = ptrform(f, r)
                P = f.insts.get(a[1]) if a[0] == 'v' else None
                if P is None or P.op != 'phi' or P.block not in f.loops() or b == a: continue
                lds = [x for x in f.all() if self.byte(x) and ptrform(f, x.ptr())[0] == a and x.block in f.loops()[P.block]]
                if not lds: continue
                lo = ptrform(f, lds[0].ptr())[1]
                if p == 'eq':
                    return add('reject') if ao - lo - bo >= 1 else add('reject') if ao - lo - bo == 1 else None
                if ao - lo - bo == 1: return add('bound')
                self.error('bound', I, 'the search for the start of an object does not end exactly at the start of its block'); return add('bound')
        if p in ('ugt', 'ule', 'uge', 'ult') and c is None:
            L, R = unaliased(I, p, L, R)
            for (l, r, pp) in ((L, R, p), (R, L, q.SWAP[p])):
                a, ao = ptrform(f, l); b, bo = ptrform(f, r)
                P = f.insts.get(a[1]) if a[0] == 'v' else None
                if P is None or P.op != 'phi' or P.block not in f.loops() or b == a: continue
                lds = [x for x in f.all() if self.byte(x) and ptrform(f, x.ptr())[0] == a and x.block in f.loops()[P.block]]
                if not lds: continue
                off = ao - ptrform(f, lds[0].ptr())[1] - bo
                if pp in ('ugt', 'uge'): return add('bound') if off == (1 if pp == 'ugt' else 0) else None
                return add('reject') if off == (1 if pp == 'ule' else 0) else None
        return None
    def ret(self, st, I):
        fs, kind = st
        v = const_of(I.ops[0]) if I.ops else None
        if v is None and I.ops:
            vs = self.value(I.ops[0]); v = next(iter(vs)) if vs and len(vs) == 1 else None
        if 'done' not in fs and 'reject' not in fs: self.error('ignored', I, 'a word may be ignored though it refers to an object')
        return None

def unaliased(I, p, L, R):
    """the operands of the comparison branched on as written"""
    J = peel(I.fn, I.ops[0]) if I.op == 'br' and I.ops else None
    return J.ops[:2] if J is not None and J.op == 'icmp' and J.raw['pred'] in (p, q.NEG[p]) else (L, R)

def peel_root(I):
    """the byte is found at an address computed from the word, not in a structure"""
    return not I.field() and from_word(I.fn, I.ptr())

def from_word(f, v, seen=None):
    if v[0] != 'v': return False
    J = f.insts.get(v[1]); seen = set() if seen is None else seen
    if J is None or J.id in seen: return False
    seen.add(J.id)
    if J.op == 'inttoptr': return True
    if J.op in ('getelementptr', 'bitcast', 'freeze'): return from_word(f, J.ops[0], seen)
    if J.op in ('phi', 'select'): return any(from_word(f, o[0] if J.op == 'phi' else o, seen) for o in (J.ops if J.op == 'phi' else J.ops[1:]))
    return False

def size_of(m, t):
    T = m.types.get(t) or m.types.get('struct.' + t) or {}
    return T['size'] // 8 if T.get('size') else None

def member(m, t, n):
    for x in (m.types.get(t) or m.types.get('struct.' + t) or {}).get('members', []):
        if x.get('name') == n: return x['off'] // 8
    return None

@rule('conservative-filter', 'C26', configs=lambda c: is_mmc(c) and ('stack-' in c or 'heap-' in c), load=dict(keep=KEEP), limits=())
def conservative_filter(ctx, m, cfg):
    E = {n: m.enum_value('NOFL_METADATA_BYTE_' + n) for n in ('YOUNG', 'MARK_0', 'MARK_1', 'MARK_2', 'END')}
    C = dict(slab=size_of(m, 'nofl_slab'), meta=member(m, 'nofl_slab', 'blocks'), END=E['END'], YOUNG=E['YOUNG'], unavailable=m.enum_value('NOFL_BLOCK_UNAVAILABLE'), granule=16)
    if None in C.values() or None in E.values(): raise AnalysisError('layout of slabs not found: %s' % C)
    C['mask'] = E['YOUNG'] | E['MARK_0'] | E['MARK_1'] | E['MARK_2']
    f = m.fn('nofl_space_mark_conservative_ref')
    if f is None or f.decl: raise AnalysisError('nofl_space_mark_conservative_ref not found')
    A = Nofl(m, C); A.run(f.name, (frozenset(), None))
    q.report(ctx, A)
    if not A.hits: ctx.bad('missing', f.terminator(0), 'objects found by conservative references are not marked')
    for I in A.hits.values(): ctx.ok('objects marked for a conservative reference', I)
    # where the object starts that was found by searching
    for R in f.all():
        if R.op == 'ret' and R.ops: starts(ctx, f, R, C)
    g = m.fn('large_object_space_mark_conservative_ref')
    if g is None or g.decl: raise AnalysisError('large_object_space_mark_conservative_ref not found')
    B = Large(m); B.run(g.name, frozenset()); q.report(ctx, B)
    if not B.hits: ctx.bad('missing', g.terminator(0), 'large objects found by conservative references are not marked')
    for I in B.hits.values(): ctx.ok('large objects marked for a conservative reference', I)
    for R in g.all():
        if R.op != 'ret' or not R.ops: continue
        for v, _ in alts(g, R.ops[0]):
            J = inst(g, v)
            if v[0] == 'c' or J is not None and J.op == 'load' and 'addr' in (J.field() or ''): ctx.ok('starts of objects', R)
            else: ctx.bad('start', R, 'the address returned for a conservative reference is not that of the large object that was found')
    filters(ctx, m)

def alts(f, v, b=None, d=0, seen=None):
    seen = set() if seen is None else seen
    k = strip(f, v); J = f.insts.get(k[1]) if k[0] == 'v' else None
    if J is not None and J.op in ('phi', 'select') and J.id not in seen and d < 8:
        seen.add(J.id)
        for o in (J.ops if J.op == 'phi' else J.ops[1:]): yield from alts(f, o[0] if J.op == 'phi' else o, o[1] if J.op == 'phi' else b, d + 1, seen)
    else: yield k, b

def starts(ctx, f, R, C):
    found = False
    for v, pb in alts(f, R.ops[0]):
        searched = pb is not None and any(h in f.dom()[pb] and pb not in b for h, b in f.loops().items())
        if v[0] == 'c': continue
        J = inst(f, v)
        if J is None: ctx.bad('start', R, 'the address returned for a conservative reference is not that of an object'); continue
        if aligned(f, J, C):
            if searched: ctx.bad('start', J, 'the address returned for a reference into an object is not that of its start')
            ctx.ok('starts of objects', R); continue
        if J.op == 'add':
            good = False
            for a in J.ops:
                K = inst(f, a)
                if K is not None and (K.op == 'mul' and const_of(K.ops[1]) == C['granule'] or K.op == 'shl' and 1 << (const_of(K.ops[1]) or 0) == C['granule']):
                    S = inst(f, K.ops[0]); good = S is not None and S.op == 'sub'
            if good: ctx.ok('starts of objects', R); found = True; continue
        ctx.bad('start', J, 'the address returned for a conservative reference is not where the object found starts'); found = True
    if f.loops() and not found: ctx.bad('start', R, 'the address returned for a reference into an object is not that of its start')

def aligned(f, J, C):
    if J.op == 'and' and const_of(J.ops[1]) == -C['granule']: return True
    if J.op == 'sub':
        mk = masked(f, J.ops[1]); return bool(mk and mk[1] == C['granule'] - 1)
    return False

class Large(Automaton):
    descend = False
    def __init__(self, mod): super().__init__(mod); self.hits = {}
    def watch_key(self): return 'conslarge'
    def watch(self, I): return I.ops[:1] if I.op in ('ret', 'br') and I.ops else ()
    def step(self, st, I):
        n = name(I)
        if n == 'large_object_space_mark':
            self.hits[I.id] = I
            if not st & {'interior', 'disp'}: self.error('displacement', I, 'a word whose displacement is not that of a reference is taken for one')
            if 'notinterior' in st and 'tree' in st: self.error('interior', I, 'references into the middle of large objects are accepted though they need not be valid')
            if 'interior' in st and 'tree' not in st: self.error('ignored', I, 'references into the middle of large objects are not looked for')
            if 'live' not in st: self.error('dead', I, 'a word that points to a large object that was freed is taken for a reference')
            J = inst(I.fn, I.ops[1])
            if J is None or J.op != 'load' or 'addr' not in (J.field() or ''): self.error('start', I, 'what is marked is not the large object that was found')
        if n == 'large_object_tree_lookup': return [st | {'tree'}]
        return None
    def results(self, st, I):
        if name(I) == 'large_object_space_mark': return [(st | {'done'}, 1), (st | {'reject'}, 0)]
        return None
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p not in ('eq', 'ne'): return None
        c = 0 if R[0] == 'null' else const_of(R)
        if c != 0: return None
        k = strip(f, L); J = peel(f, L)
        if tuple(k[:2]) == ('a', 2): return [] if (p == 'ne' and 'notinterior' in st or p == 'eq' and 'interior' in st) else [st | {'interior' if p == 'ne' else 'notinterior'}]
        if J is None: return None
        if name(J) == DISP:
            K = inst(f, J.ops[0])
            ok = K is not None and K.op == 'and' and any((x.field() or '') == 'large_object_space.page_size' for o in K.ops for x in q.value_loads(f, o, 3))
            if not ok: self.error('displacement', J, 'the displacement of a reference to a large object is not taken within a page')
            return [st | {'disp' if p == 'ne' else 'reject'}]
        if J.op == 'load' and (J.field() or '').endswith('is_live'): return [st | {'live' if p == 'ne' else 'reject'}]
        if p == 'eq' and f.insts.get(J.id) is J and (J.op in ('phi', 'call', 'select', 'load')) and self.nodeish(f, J): return [st | {'reject'}]
        return None
    def nodeish(self, f, J, d=0):
        if name(J) in ('large_object_tree_lookup', 'large_object_space_lookup'): return True
        if J.op in ('phi', 'select') and d < 4:
            return all((o[0] if J.op == 'phi' else o)[0] in ('null', 'c') or inst(f, o[0] if J.op == 'phi' else o) is not None and self.nodeish(f, inst(f, o[0] if J.op == 'phi' else o), d + 1) for o in (J.ops if J.op == 'phi' else J.ops[1:]))
        return False
    def ret(self, st, I):
        if 'reject' not in st and 'done' not in st: self.error('ignored', I, 'a word may be ignored though it refers to a large object')
        return None

def filters(ctx, m):
    """what may keep a word from being looked up"""
    for f in m.defined():
        for I in f.all():
            if name(I) not in KEEP[:2] or f.name in KEEP[:2]: continue
            w = inst(f, I.ops[1]); h = [b for b in f.loops().values() if I.block in b]
            if w is None or not h: continue
            body = min(h, key=len)
            bad = None; small = None; disp = None
            for T, s in f.all_control_deps(I.block):
                if T.block not in body or T.block in f.loops() and w.block != T.block: continue
                for x in leaves(f, T.ops[0]):
                    if x[0] == 'cmp': small = max(small or 0, x[1])
                    elif x[0] == 'disp': disp = x[1]
                    elif x[0] == 'bad' and x[1] is not w: bad = x[1]
            if bad is not None: ctx.bad('filtered', I, 'a word that may refer to an object is passed over because of something else than its value'); continue
            if disp is not None and const_of(I.ops[2]) == 1: ctx.bad('filtered', I, 'words that may refer to the middle of an object are passed over if they do not look like references to its start'); continue
            if small is not None and small > 65536: ctx.bad('filtered', I, 'words below %d are passed over though objects may lie there' % small); continue
            ctx.ok('words looked up', I)

def leaves(f, v, d=0):
    k = strip(f, v); J = f.insts.get(k[1]) if k[0] == 'v' else None
    if J is None: return []
    if J.op == 'icmp':
        if const_of(J.ops[1]) is not None and inst(f, J.ops[0]) is not None and inst(f, J.ops[0]).op == 'load' and not inst(f, J.ops[0]).field(): return [('cmp', const_of(J.ops[1]))]
    if J.op == 'phi' and d < 8:
        # what decides which value it takes
        own = set(T.id for T, s in f.all_control_deps(J.block))
        out = [x for o in J.ops for x in leaves(f, o[0], d + 1)]
        Ts = {}
        for o, b in J.ops:
            T = f.terminator(b)
            if T.op == 'br' and T.ops and len(set(f.succ[b])) > 1: Ts[T.id] = T
            for T, s in f.all_control_deps(b):
                if T.id not in own: Ts[T.id] = T
        for T in Ts.values():
            if T.ops and T.id not in own: out += leaves(f, T.ops[0], d + 2)
        return out
    if J.op in ('icmp', 'select', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'freeze', 'sub', 'add') and d < 8:
        return [x for o in J.ops for x in leaves(f, o, d + 1)]
    if name(J) == DISP: return [('disp', J)]
    if J.is_call(): return [] if name(J) in KEEP else [('bad', J)]
    return [('bad', J)]

@rule('conservative-roots', 'C26', 'C03', configs=lambda c: is_mmc(c) and ('stack-' in c or 'heap-' in c), load=dict(keep=('gc_stack_visit',)), limits=())
def conservative_roots(ctx, m, cfg):
    """words on stacks may refer into the middle of objects, and are looked up as such"""
    want = m.enum_value('GC_ROOT_KIND_CONSERVATIVE_POSSIBLY_INTERIOR_EDGES'); other = m.enum_value('GC_ROOT_KIND_CONSERVATIVE_EDGES')
    n = 0
    for f in m.defined():
        for I in f.all():
            if name(I) != 'gc_stack_visit': continue
            n += 1
            cbs = [o[1] for o in I.ops if o[0] == 'f' and o[1] != 'gc_stack_visit']
            g = m.fn(cbs[0]) if len(cbs) == 1 else None
            if g is None or g.decl: raise AnalysisError('what is done with stacks is not known in %s' % f.name)
            d = inst(f, I.ops[-1]) if I.ops[-1][0] == 'v' else inst(f, I.ops[3])
            flags = set()
            if d is not None and d.op == 'alloca': flags = {const_of(U.ops[0]) for U in f.users(['v', d.id]) if U.op == 'store' and inst(f, U.ptr()) is d}
            nz = bool(flags) and None not in flags and 0 not in flags
            for S in g.all():
                if S.op != 'store' or not (S.field() or '').endswith('gc_root.kind'): continue
                for k in kinds_when(g, S.ops[0], nz):
                    if k == want: ctx.ok('stacks', I)
                    elif k == other: ctx.bad('interior', I, 'words on stacks are not looked up as references that may be into the middle of objects')
    if not n: ctx.bad('missing', m.fn('trigger_collection').terminator(0), 'stacks are never scanned')

def kinds_when(g, v, nz, d=0):
    """the values v can take when the integer the data points to is not zero (nz)"""
    if const_of(v) is not None: return {const_of(v)}
    J = inst(g, v)
    if J is None or d > 6: return set()
    def flag(c):
        C = inst(g, c)
        if C is not None and C.op == 'icmp' and C.raw['pred'] in ('eq', 'ne') and const_of(C.ops[1]) == 0:
            L = inst(g, C.ops[0])
            if L is not None and L.op == 'load' and tuple(g.root_of(L.ptr())[:2]) == ('a', 3): return C.raw['pred'] == 'ne'
        return None
    if J.op == 'select':
        t = flag(J.ops[0])
        sides = J.ops[1:] if t is None or not nz else [J.ops[1 if t else 2]]
        return set().union(*[kinds_when(g, o, nz, d + 1) for o in sides])
    if J.op == 'phi':
        out = set()
        for o, b in J.ops:
            dead = False
            Ts = [(T, s) for T, s in g.all_control_deps(b)]
            if len(set(g.succ[b])) > 1: Ts.append((g.terminator(b), J.block))
            for T, s in Ts:
                t = flag(T.ops[0]) if T.op == 'br' and T.ops else None
                if nz and t is not None and (g.succ[T.block][0] == s) != t: dead = True
            if not dead: out |= kinds_when(g, o, nz, d + 1)
        return out
    if J.op in ('add', 'zext') and J.op == 'add': 
        a = [const_of(o) for o in J.ops]
        Z = next((inst(g, o) for o in J.ops if const_of(o) is None), None)
        k = next((x for x in a if x is not None), None)
        if Z is not None and k is not None and flag(['v', Z.id]) is not None: return {k + 1} if nz and flag(['v', Z.id]) else {k, k + 1}
    return set()
