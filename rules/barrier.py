"""Write barriers and the agreement of inline code with the collector: C08, C14."""
from core import rule, own, is_mmc, is_pcc, is_semi, is_bdw, is_gen, AnalysisError
import q, bits
from q import Automaton, const_of

KEEP = ('gc_field_set_writer_add_edge', 'large_object_space_add_remembered_edge', 'gc_object_is_old_generation_slow', 'gc_write_barrier_slow', 'gc_allocate_slow')
gen_own = lambda c: is_gen(c) and own(c)

def addr_form(f, I, role):
    """form of the address of byte access I if it depends on one argument only; the argument renamed to its role"""
    fm = bits.form(f, I.ptr())
    if not fm: return None
    args = {k[0] for k in fm if k != 1}
    if len(args) != 1: return None
    a = args.pop()
    if a[0] != 'arg' or a[1] not in role: return None
    return role[a[1]], bits.canon({(k if k == 1 else (role[a[1]], k[1])): v for k, v in fm.items()})

def rename(f, p, role):
    if p is None or p[0] == 'c': return p
    if p[0] == 'not':
        r = rename(f, p[1], role); return ('not', r)
    t = p[2]
    for a, n in role.items(): t = tuple((k.replace("('arg', %d)" % a, repr(n)), v) for k, v in t)
    return (p[0], p[1], t)

def byte_of(f, v, depth=10, seen=None):
    """the byte accesses that value v may have been read by"""
    seen = set() if seen is None else seen
    v = q.strip(f, v)
    if v[0] != 'v' or v[1] in seen or depth == 0: return []
    seen.add(v[1])
    I = f.insts[v[1]]
    if I.op == 'load' and I.ty == 'i8': return [I]
    if I.op == 'cmpxchg' or I.op == 'atomicrmw': return [I]
    if I.op == 'extractvalue': return byte_of(f, I.ops[0], depth - 1, seen)
    if I.op == 'phi': return [x for o in I.ops for x in byte_of(f, o[0], depth - 1, seen)]
    if I.op in ('zext', 'trunc', 'freeze', 'sext'): return byte_of(f, I.ops[0], depth - 1, seen)
    return []

def tested(f, v, role):
    """(accesses, role, address, pattern) if v is a byte found at an address computed from an argument, anded with a pattern"""
    v = q.strip(f, v)
    I = f.insts[v[1]] if v[0] == 'v' else None
    if I is None: return None
    while I.op in ('zext', 'trunc', 'freeze'):
        v = I.ops[0]
        if v[0] != 'v': return None
        I = f.insts[v[1]]
    pat = None; src = None
    if I.op == 'and':
        for x, y in ((0, 1), (1, 0)):
            b = byte_of(f, I.ops[x])
            if b: src = b; pat = bits.pattern(f, I.ops[y]); break
    else:
        src = byte_of(f, v)
    if not src: return None
    a = {addr_form(f, s, role) for s in src}
    if len(a) != 1 or None in a: return None
    r, ad = a.pop()
    return src, r, ad, rename(f, pat, role)

def ule(p, c):
    """K such that 'x p c' means x <= K (True) or x > K (False)"""
    if p == 'ule': return c, True
    if p == 'ult': return c - 1, True
    if p == 'ugt': return c, False
    if p == 'uge': return c - 1, False
    return None

class Fast(Automaton):
    """when may the inline barrier skip the slow one?"""
    descend = False
    def __init__(self, mod, fn, cfg):
        super().__init__(mod); self.f = fn; self.cfg = cfg; self.sizes = {}; self.logs = {}; self.olds = {}; self.hits = 0
        self.role = {1: 'obj', 3: 'edge'}
    def relevance_key(self): return ('fastbarrier', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def assume(self, st, I, p, L, R):
        f = I.fn
        if tuple(L[:2]) == ('a', 2) and const_of(R) is not None and ule(p, const_of(R)):
            k, small = ule(p, const_of(R)); self.sizes[k] = I
            return [st - {'small', 'large'} | {'small' if small else 'large'}]
        if p in ('eq', 'ne'):
            t = tested(f, L, self.role)
            if t and t[1] == 'edge' and const_of(R) == 0 and t[3] is not None:
                self.logs[(t[2], t[3])] = I
                return [st | {'logged' if p == 'ne' else 'clear'}]
            if t and t[1] == 'obj' and const_of(R) is not None:
                self.olds[(t[2], t[3], const_of(R))] = I
                return [st | {'young' if p == 'eq' else 'old'}]
            if L[0] == 'v' and f.insts[L[1]].is_call() and f.insts[L[1]].callee_name() == 'gc_object_is_old_generation_slow' and const_of(R) == 0:
                if tuple(q.strip(f, f.insts[L[1]].ops[1])[:2]) != ('a', 1): return None
                return [st | {'young' if p == 'eq' else 'old'}]
        r = nursery(f, p, L, R)
        if r and r[1] == 1: self.olds['range'] = I; return [st | {r[0]}]
        return None
    def step(self, st, I):
        if I.is_call() and I.callee_name() == 'gc_write_barrier_slow':
            self.hits += 1
            if [tuple(q.strip(I.fn, o)[:2]) for o in I.ops] != [('a', i) for i in range(5)]:
                self.error('arguments', I, 'the slow write barrier is given something else than the barrier was')
            return [st | {'slow'}]
        return None
    def ret(self, st, I):
        if 'slow' in st: return None
        if 'young' in st or 'logged' in st and 'large' not in st: return None
        self.error('skipped', I, 'the inline write barrier skips the slow one although the object may be old and the field not yet recorded')
        return None

def nursery(f, p, L, R):
    """('young'|'old', argument) if the comparison puts an argument inside / outside of the address range of the new space"""
    if p not in ('uge', 'ult'): return None
    def diff(v):
        v = q.strip(f, v)
        I = f.insts[v[1]] if v[0] == 'v' else None
        return I.ops if I is not None and I.op == 'sub' else None
    a, b = diff(L), diff(R)
    if not a or not b or a[0][0] != 'a': return None
    def fld(v):
        v = q.strip(f, v)
        I = f.insts[v[1]] if v[0] == 'v' else None
        return (I.field(), f.expr(I.ptr(), 12)) if I is not None and I.op == 'load' else (None, None)
    lo, hi, lo2 = fld(a[1]), fld(b[0]), fld(b[1])
    if lo != lo2 or not str(lo[0]).endswith('.lo_addr') or not str(hi[0]).endswith('.hi_addr'): return None
    return ('young' if p == 'ult' else 'old'), a[0][1]

class Slow(Automaton):
    """the slow barrier records the edge unless it need not"""
    descend = False
    def __init__(self, mod, fn, cfg):
        super().__init__(mod); self.f = fn; self.cfg = cfg; self.sizes = {}; self.logs = {}; self.sets = {}; self.adds = {}; self.large = 0
        self.role = {1: 'obj', 3: 'edge'}
    def relevance_key(self): return ('slowbarrier', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def assume(self, st, I, p, L, R):
        f = I.fn
        J = f.insts[L[1]] if L[0] == 'v' else None
        if tuple(L[:2]) == ('a', 2) and const_of(R) is not None and ule(p, const_of(R)):
            k, small = ule(p, const_of(R)); self.sizes[k] = I
            return [st - {'small', 'large'} | {'small' if small else 'large'}]
        if p in ('eq', 'ne') and J is not None and J.is_call() and (const_of(R) == 0 or R[0] == 'null'):
            n = J.callee_name()
            if n == 'gc_object_is_old_generation_slow':
                a = tuple(q.strip(f, J.ops[1])[:2])
                if p == 'ne' and a == ('a', 4): return [st | {'not-needed'}]
                if p == 'eq' and a == ('a', 1): return [st | {'not-needed'}]
            if n == 'large_object_space_add_remembered_edge': return [st | ({'added'} if p == 'ne' else {'not-needed'})]
        if p in ('eq', 'ne'):
            s = survivor(f, p, L, R, self.role)
            if s == 'no': return [st | {'not-needed'}]
            if s == 'yes': return [st | {'survivor'}]
            t = tested(f, L, self.role)
            if t and t[1] == 'edge' and const_of(R) == 0 and t[3] is not None:
                self.logs[(t[2], t[3])] = I
                return [st | ({'not-needed'} if p == 'ne' else {'unlogged'})]
            if J is not None and J.op == 'extractvalue' and J.ty == 'i1' and const_of(R) in (0, 1):
                C = f.insts[J.ops[0][1]]
                if C.op == 'cmpxchg' and self.setting(C) and ('trying', C.id) in st and (const_of(R) == 1) == (p == 'eq'): return [st | {'added'}]
            # the object is no large object at all
            if const_of(R) == 0 or R[0] == 'null':
                if p == 'eq' and any(str(x.field()).startswith('hash_map') for x in q.value_loads(f, L, 8)) and 'large' in st: return [st | {'not-needed'}]
        return None
    def setting(self, C):
        f = C.fn
        a = addr_form(f, C, self.role)
        if not a or a[0] != 'edge': return None
        n = C.ops[2] if C.op == 'cmpxchg' else C.ops[1]
        n = q.strip(f, n)
        if C.op == 'atomicrmw' and C.raw.get('rmw') == 'or': return a[1], rename(f, bits.pattern(f, n), self.role)
        I = f.insts[n[1]] if n[0] == 'v' else None
        while I is not None and I.op in ('trunc', 'zext'): I = f.insts[I.ops[0][1]] if I.ops[0][0] == 'v' else None
        if I is None or I.op != 'or': return None
        for x, y in ((0, 1), (1, 0)):
            if byte_of(f, I.ops[x]): return a[1], rename(f, bits.pattern(f, I.ops[y]), self.role)
        return None
    def step(self, st, I):
        f = I.fn
        if I.op in ('cmpxchg', 'atomicrmw'):
            s = self.setting(I)
            if s:
                self.sets[s] = I
                return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == 'trying')) | {('trying', I.id)} | ({'added'} if I.op == 'atomicrmw' else set())]
        if I.is_call() and I.callee_name() == 'large_object_space_add_remembered_edge':
            self.large += 1
            if tuple(q.strip(f, I.ops[1])[:2]) != ('a', 3): self.error('edge', I, 'another field than the one stored to is remembered')
        if I.is_call() and I.callee_name() == 'gc_field_set_writer_add_edge':
            self.adds[I.id] = I
            if tuple(q.strip(f, I.ops[1])[:2]) != ('a', 3): self.error('edge', I, 'another field than the one stored to is recorded')
            if 'added' not in st: self.error('twice', I, 'a field is recorded without its recorded flag having been set by this store, so that it may be recorded twice')
            return [st - {'added'} | {'recorded'}]
        return None
    def ret(self, st, I):
        if 'added' in st: self.error('unrecorded', I, 'the recorded flag of a field is set but the field is not recorded')
        elif 'recorded' not in st and 'not-needed' not in st: self.error('unrecorded', I, 'a store of a young object into an old one may go unrecorded')
        return None

def survivor(f, p, L, R, role):
    """'yes' / 'no' if the comparison says that the object has / has not survived a collection"""
    for x, y in ((L, R), (R, L)):
        fs = {str(J.field()) for J in q.value_loads(f, y, 4)}
        if 'nofl_space.survivor_mark' in fs:
            t = tested(f, x, role)
            if t and t[1] == 'obj': return 'yes' if p == 'eq' else 'no'
        if 'large_object_space.marked' in fs and any('large_object_live_data.mark' in str(J.field()) for J in q.value_loads(f, x, 4)):
            return 'yes' if p == 'eq' else 'no'
    return None

def report(ctx, A):
    for e in A.errors: pass

def thresholds(m):
    """constants that the size of an allocation is compared with, per function"""
    out = {}
    for n, k in (('v_api_allocate_tagged', 1), ('gc_allocate_slow', 1)):
        f = m.fn(n)
        if f is None or f.decl: raise AnalysisError(n + ' not found')
        for I in f.all():
            if I.op != 'icmp': continue
            L, R, p = I.ops[0], I.ops[1], I.raw['pred']
            if const_of(L) is not None and const_of(R) is None: L, R, p = R, L, q.SWAP[p]
            if tuple(q.strip(f, L)[:2]) == ('a', k) and const_of(R) is not None and ule(p, const_of(R)) and const_of(R) > 64:
                out.setdefault(n, {})[ule(p, const_of(R))[0]] = I
    return out

@rule('write-barrier', 'C08', 'C14', configs=gen_own, load=dict(keep=KEEP), debug=False, limits=(200,))
def write_barrier(ctx, m, cfg):
    f = m.fn('v_api_write_barrier'); g = m.fn('gc_write_barrier_slow')
    if f is None or g is None: raise AnalysisError('write barrier not found')
    A = Fast(m, f, cfg); A.run(f.name, frozenset()); q.report(ctx, A)
    B = Slow(m, g, cfg); B.run(g.name, frozenset()); q.report(ctx, B)
    if not A.hits: ctx.bad('skipped', f.terminator(0), 'the inline write barrier never calls the slow one')
    if not B.adds: ctx.bad('unrecorded', g.terminator(0), 'the write barrier records no fields')
    if not B.sets: ctx.bad('unrecorded', g.terminator(0), 'the write barrier sets no flags')
    if not B.large: ctx.bad('unrecorded', g.terminator(0), 'fields of large objects are not remembered')
    for s, I in B.sets.items():
        if s[1] is None or s[1][0] != 'shl': ctx.bad('flag', I, 'the flag set for a recorded field does not depend on which field it is')
        else: ctx.ok('flags set', I)
        for l, J in A.logs.items():
            if l == s: ctx.ok('inline checks that agree with the flags set', J)
            else: ctx.bad('disagree', J, 'the inline barrier looks at another flag than the slow one sets')
        for l, J in B.logs.items():
            if l == s: ctx.ok('checks that agree with the flags set', J)
            else: ctx.bad('disagree', J, 'the flag looked at is not the flag that is set')
    forget(ctx, m, cfg, set(B.sets))
    for k, I in list(A.sizes.items()) + list(B.sizes.items()):
        for k2, J in A.sizes.items():
            if k != k2: ctx.bad('threshold', I, 'the fast and the slow write barrier disagree about which objects are large')
            else: ctx.ok('thresholds that agree', I)
    for n, d in thresholds(m).items():
        for k, I in d.items():
            for k2, J in A.sizes.items():
                if k != k2: ctx.bad('threshold', J, 'the write barrier and the allocator disagree about which objects are large (%d and %d bytes)' % (k2, k))
                else: ctx.ok('thresholds that agree', I)
    # which objects are old
    if is_mmc(cfg):
        young = m.enum_value('NOFL_METADATA_BYTE_YOUNG'); marks = [m.enum_value('NOFL_METADATA_BYTE_MARK_%d' % i) for i in range(3)]
        pin = m.fn('gc_pin_object'); where = set()
        if pin is not None and not pin.decl:
            for I in pin.all():
                if I.op in ('cmpxchg', 'atomicrmw', 'load') and (I.op != 'load' or I.ty == 'i8'):
                    a = addr_form(pin, I, {1: 'obj'})
                    if a: where.add(a[1])
        if None in [young] + marks: raise AnalysisError('metadata byte values not found')
        for key, I in A.olds.items():
            if key == 'range': continue
            ad, pat, c = key
            if pat is None or pat[0] != 'c' or pat[1] != young | marks[0] | marks[1] | marks[2] or any(x & ~pat[1] for x in [young] + marks): ctx.bad('old', I, 'the inline test for old objects looks at the wrong bits')
            elif c != young: ctx.bad('old', I, 'the inline test for old objects does not compare with the mark of young ones')
            elif where and ad not in where: ctx.bad('old', I, 'the inline test for old objects looks at the metadata of another object')
            else: ctx.ok('tests for old objects', I)

def source_of(J):
    if J.op == 'load': return ('ld', J.id)
    if J.op == 'getelementptr' and (len(J.ops) != 2 or const_of(J.ops[1]) is not None) or J.op in ('phi', 'call', 'select', 'extractvalue'): return ('v', J.id)
    return None

def clearing(I):
    """(source, address, cleared bits | ('shl', ...)) if I clears bits of a byte at an address computed from one value"""
    f = I.fn
    if I.op not in ('cmpxchg', 'atomicrmw', 'store') or I.op == 'store' and width(I) != 8: return None
    if I.op == 'atomicrmw' and I.raw.get('rmw') != 'and': return None
    fm = bits.form(f, I.ptr(), opaque=source_of)
    if not fm: return None
    ks = {k[0] for k in fm if k != 1}
    if len(ks) != 1: return None
    s = ks.pop()
    ad = bits.canon({(k if k == 1 else ('edge', k[1])): v for k, v in fm.items()})
    if I.op == 'atomicrmw': p = pattern2(f, I.ops[1], s)
    else:
        J = q.strip(f, I.ops[2 if I.op == 'cmpxchg' else 0]); J = f.insts[J[1]] if J[0] == 'v' else None
        while J is not None and J.op in ('trunc', 'zext'): J = f.insts[J.ops[0][1]] if J.ops[0][0] == 'v' else None
        if J is None or J.op != 'and': return None
        p = None
        for x, y in ((0, 1), (1, 0)):
            if byte_of(f, J.ops[x]): p = pattern2(f, J.ops[y], s); break
    if p is None: return None
    if p[0] == 'c': p = ('c', ~p[1] & 255)
    elif p[0] == 'not': p = p[1]
    else: return None
    return s, ad, p

def pattern2(f, v, src):
    """like bits.pattern, for a source that is a load"""
    def go(v, d=6):
        while v[0] == 'v' and f.insts[v[1]].op in ('zext', 'trunc', 'freeze', 'sext'): v = f.insts[v[1]].ops[0]
        c = const_of(v)
        if c is not None: return ('c', c & 255)
        I = f.insts[v[1]] if v[0] == 'v' else None
        if I is None: return None
        if I.op == 'xor' and const_of(I.ops[1]) in (-1, 255):
            p = go(I.ops[0], d - 1); return ('not', p) if p else None
        if I.op == 'shl' and const_of(I.ops[0]) is not None:
            fm = bits.form(f, I.ops[1], opaque=source_of)
            if fm is None: return None
            return ('shl', const_of(I.ops[0]), bits.canon({(k if k == 1 else ('edge', k[1])): n for k, n in fm.items()}))
        return None
    return go(v)

def forget(ctx, m, cfg, sets):
    """recorded flags are cleared where they were set"""
    ads = {x[0]: x for x in sets}
    for f in m.defined():
        for I in f.all():
            c = clearing(I)
            if not c or c[1] not in ads: continue
            want = ads[c[1]][1]
            if want is None: continue
            union = 0
            if want[0] == 'shl':
                mx = sum(v for k, v in want[2])
                for i in range(mx + 1): union |= want[1] << i
            if c[2] == want or c[2] == ('c', union & 255): ctx.ok('flags cleared', I)
            elif c[2][0] == 'c' and not c[2][1] & union: continue
            else: ctx.bad('forget', I, 'clearing the flag of a recorded field clears other bits than setting it sets')

def width(I):
    v = I.ops[0]
    return v[2] if v[0] == 'c' and len(v) > 2 else bits.width_of(I.fn.insts[v[1]].ty) if v[0] == 'v' else 64

B = 'gc_edge_buffer.'; L = 'gc_edge_buffer_list.head'; W = 'gc_field_set_writer.'
EKEEP = ('large_object_space_forget_edge', 'gc_field_set_writer_add_edge')

class EdgeBuf(Automaton):
    """edges stay in buffers and buffers on lists"""
    descend = False
    def __init__(self, mod, fn, cap, gen, forgets=False):
        super().__init__(mod); self.f = fn; self.cap = cap; self.hits = {}; self.gen = gen; self.visits = {}; self.forgets = forgets; self.fl_loops = []
        if forgets:
            for I in fn.all():
                c = clearing(I)
                if c and c[0][0] == 'ld' and self.fl(fn.insts[c[0][1]]) == B + 'edges':
                    ls = [(h, b) for h, b in fn.loops().items() if I.block in b and any(J.op == 'load' and self.fl(J) == B + 'size' for x in b for J in fn.blocks[x])]
                    if ls: self.fl_loops.append(min(ls, key=lambda x: len(x[1])))
        for I in fn.all():
            if I.is_call() and I.ty not in (None, 'void') and I.ops and I.ops[0][0] == 'v':
                J = self.load_of(I.ops[0])
                if J is not None and self.fl(J) == B + 'edges': self.visits[I.id] = I
    def relevance_key(self): return ('edgebuf', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def load_of(self, v):
        v = q.strip(self.f, v)
        while v[0] == 'v' and self.f.insts[v[1]].op in ('ptrtoint', 'inttoptr'): v = q.strip(self.f, self.f.insts[v[1]].ops[0])
        J = self.f.insts[v[1]] if v[0] == 'v' else None
        return J if J is not None and J.op == 'load' else None
    def fl(self, x):
        for n in x.fields() or []:
            if str(n).replace('[]', '') == B + 'edges': return B + 'edges'
        return str(x.field() or '').replace('[]', '')
    def asked(self, v):
        v = q.strip(self.f, v)
        return self.f.insts[v[1]] if v[0] == 'v' and v[1] in self.visits else None
    def edge(self, st, T, s):
        for h, b in self.fl_loops:
            if T.block in b and s not in b:
                if T.block != h and not self.last(T): self.error('forgotten', T, 'not all of the fields in a buffer have their recorded flags cleared')
                return [st | {'forgotten'}]
        return None
    def last(self, T):
        return any(J.op == 'load' and self.fl(J) == B + 'size' for J in q.value_loads(self.f, T.ops[0], 4)) if T.ops else False
    def assume(self, st, I, p, L_, R):
        if p in ('eq', 'ne') and const_of(R) is not None and L_[0] == 'v':
            J = self.f.insts[L_[1]]
            ld = [x for x in q.value_loads(self.f, L_, 3)] if J.op != 'load' else [J]
            if any(self.fl(x) == B + 'size' for x in ld) and const_of(R) > 1:
                if const_of(R) != self.cap: self.error('capacity', I, 'a buffer of edges counts as full at another size than it has room for'); return None
                return [st | {'full'} if p == 'eq' else st - {'full'}]
            if J.op == 'extractvalue' and J.ty == 'i1' and const_of(R) in (0, 1):
                C = self.f.insts[J.ops[0][1]]
                if C.op == 'cmpxchg' and ('push', C.id) in st:
                    if (const_of(R) == 1) == (p == 'eq'): return [st - {('push', C.id), 'linked', 'owes', 'full', 'emptied'} | {'pushed'}]
                    return [st - {('push', C.id), 'linked'}]
            C = self.asked(L_)
            if C is not None and const_of(R) == 0:
                if p == 'eq': return [st - {'asked'} | {'drop'}]
                return [st - {'asked'} | {'keep'}]
        return None
    def step(self, st, I):
        f = self.f
        if I.is_call() and I.id in self.visits:
            if 'drop' in st: self.error('kept', I, 'a field is kept in the remembered set although its recorded flag was cleared')
            if 'shrunk' in st and 'moved' not in st: self.error('lost', I, 'dropping an edge from a buffer loses another one')
            return [st - {'drop', 'keep', 'shrunk', 'moved'} | {'asked'}]
        if I.op == 'load' and self.fl(I) == B + 'edges' and not self.moved(I):
            self.hit('edges looked at', I)
            return [st | {'owes'}]
        if I.is_call() and str(I.callee_name()).startswith('llvm.memcpy'):
            d, s_ = [[str(x).replace('[]', '') for x in f.fields_of(o)] for o in I.ops[:2]]
            if B + 'edges' in d and B + 'edges' in s_: return [st | {'moved'}] if self.lastone(I, I.ops[1]) else None
        if I.op == 'store' and self.fl(I) == B + 'edges':
            J = self.load_of(I.ops[0])
            if J is not None and self.fl(J) == B + 'edges': return [st | {'moved'}] if self.lastone(I, J.ptr()) else None
            self.hit('edges stored', I)
            ix = [o for o in self.index(I.ptr())]
            if not any(self.isload(o, B + 'size') for o in ix): self.error('slot', I, 'an edge is not put behind those in the buffer')
            return [st - {'early'}] if 'early' in st else [st | {'stored'}]
        if I.op == 'store' and self.fl(I) == B + 'size':
            d = q.delta_of_store(I)
            if d == -1:
                self.hit('edges dropped', I)
                if 'drop' not in st: self.error('flag', I, 'a field is dropped from the remembered set although it should be kept')
                return [st - {'drop'} | {'shrunk'}]
            if d == 1: return [st - {'stored'} | {'counted'}] if 'stored' in st else [st | {'counted', 'early'}]
            if const_of(I.ops[0]) == 0:
                self.hit('buffers emptied', I)
                if self.forgets and 'forgotten' not in st: self.error('forgotten', I, 'recorded fields are forgotten without their recorded flags being cleared, so that they are never recorded again')
                return [st - {'full', 'owes', 'forgotten'} | {'emptied'}]
            self.error('size', I, 'the size of a buffer of edges is changed in some other way')
        if I.op == 'store' and self.fl(I) == B + 'next' and not (I.ops[0][0] == 'null' or const_of(I.ops[0]) == 0): return [st | {'linked'}]
        head = self.fl(I) == L or any(str(x).replace('[]', '') == L for x in f.fields_of(I.ptr())) if I.op in ('cmpxchg', 'store') else False
        if head:
            n = I.ops[2] if I.op == 'cmpxchg' else I.ops[0]
            if n[0] == 'null' or const_of(n) == 0: return None
            J = self.load_of(n)
            if J is not None and self.fl(J) == B + 'next': return None
            self.hit('buffers put onto lists', I)
            if any(str(x) == 'gc_field_set.empty' for x in f.fields_of(I.ptr())) and 'emptied' not in st: self.error('emptied', I, 'a buffer that may hold recorded edges is put on the list of empty ones')
            if 'linked' not in st: self.error('list', I, 'the other buffers of recorded edges are dropped when one is added')
            return [st | {('push', I.id)}] if I.op == 'cmpxchg' else [st - {'linked', 'owes', 'full'} | {'pushed'}]
        if I.op == 'store' and self.fl(I) == W + 'set': return [st | {'pushed'}]
        if I.op == 'store' and self.fl(I) == W + 'buf':
            if I.ops[0][0] == 'null' or const_of(I.ops[0]) == 0:
                self.hit('private buffers given up', I)
                if 'pushed' not in st and not self.initial(I): self.error('buffer', I, 'a buffer of recorded edges is forgotten by its thread without being handed over')
                return [st - {'pushed'}]
        return None
    def lastone(self, I, src):
        """the edge at src is the last one before the size was decremented"""
        for ix in self.index(src):
            ix = q.strip(self.f, ix)
            for S in self.f.all():
                if S.op == 'store' and self.fl(S) == B + 'size' and q.delta_of_store(S) == -1:
                    if tuple(q.strip(self.f, S.ops[0])[:2]) == tuple(ix[:2]): return True
                    J = self.load_of(ix)
                    if J is not None and self.fl(J) == B + 'size' and self.f.dominates(S, J): return True
                    a = q.lindiff(self.f, ix, S.ops[0]) if hasattr(q, 'lindiff') else None
                    if a == 0: return True
        return False
    def initial(self, I):
        return any(J.op == 'store' and self.fl(J) == W + 'set' and J.block == I.block for J in self.f.all())
    def isload(self, v, field):
        J = self.load_of(v)
        return J is not None and self.fl(J) == field
    def index(self, v):
        out = []
        while v[0] == 'v':
            I = self.f.insts[v[1]]
            if I.op == 'getelementptr': out += [o for o in I.ops[1:] if o[0] in ('v', 'a')]
            elif I.op not in ('bitcast', 'freeze'): break
            v = I.ops[0]
        return out
    def moved(self, I):
        us = self.f.users(('v', I.id))
        while len(us) == 1 and us[0].op in ('ptrtoint', 'inttoptr', 'bitcast'): us = self.f.users(('v', us[0].id))
        return bool(us) and all(u.op == 'store' and self.fl(u) == B + 'edges' for u in us)
    def ret(self, st, I):
        if 'stored' in st or 'early' in st: self.error('slot', I, 'an edge is put into a buffer without being counted')
        if 'shrunk' in st and 'moved' not in st: self.error('lost', I, 'dropping an edge from a buffer loses another one')
        if 'drop' in st: self.error('kept', I, 'a field is kept in the remembered set although its recorded flag was cleared')
        if 'full' in st and 'counted' in st: self.error('overflow', I, 'a full buffer of edges stays in use')
        if 'owes' in st: self.error('buffer', I, 'a buffer of recorded edges is lost after having been visited')
        return None

class Visitor(Automaton):
    """what becomes of a recorded field during a collection: traced, and dropped only if its flag is cleared and it holds no young object any more"""
    descend = False
    def __init__(self, mod, fn, cfg):
        super().__init__(mod); self.f = fn; self.cfg = cfg; self.hits = {}
    def relevance_key(self): return ('edgevisit', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def step(self, st, I):
        f = I.fn
        if I.is_call() and I.callee_name() == 'large_object_space_forget_edge':
            if tuple(q.strip(f, I.ops[1])[:2]) != ('a', 0): self.error('flag', I, 'another field than the one visited is forgotten')
            self.hit('fields forgotten', I); return [st | {'cleared'}]
        if I.is_call() and any(tuple(q.strip(f, o)[:2]) == ('a', 0) for o in I.ops): return [frozenset(x for x in st if not isinstance(x, tuple) or x[0] != 'after') - {'not-young'} | {'traced'}]
        if I.op == 'load' and tuple(q.strip(f, I.ptr())[:2]) == ('a', 0): return [st | {('after', I.id), 'seen'}]
        c = clearing(I)
        if c and c[0] == ('arg', 0):
            self.hit('fields forgotten', I)
            return [st | ({('clear', I.id)} if I.op == 'cmpxchg' else {'cleared'})]
        return None
    def assume(self, st, I, p, L_, R):
        f = I.fn
        if p in ('eq', 'ne') and L_[0] == 'v' and const_of(R) is not None:
            J = f.insts[L_[1]]
            if J.op == 'extractvalue' and J.ty == 'i1':
                C = f.insts[J.ops[0][1]]
                if C.op == 'cmpxchg' and ('clear', C.id) in st and (const_of(R) == 1) == (p == 'eq'): return [st - {('clear', C.id)} | {'cleared'}]
            t = tested(f, L_, {0: 'edge'})
            if t and const_of(R) == 0 and p == 'eq': return [st | {'cleared'}]
        if p in ('uge', 'ult'):
            r = in_range(f, L_, R)
            if r == 'gc_heap.new_space' and ('after', f.insts[q.strip(f, L_)[1]].ops[0][1]) in st: return [st | ({'young'} if p == 'ult' else {'not-young'})]
        return None
    def ret(self, st, I):
        if 'traced' not in st and 'seen' not in st: self.error('untraced', I, 'a recorded field is not looked at')
        v = self.value(I.ops[0])
        drop = v is None or 0 in v; keep = v is None or bool(v - {0})
        if drop and 'cleared' not in st: self.error('flag', I, 'a field is dropped from the remembered set without its recorded flag being cleared, so that it is never recorded again')
        if keep and 'cleared' in st: self.error('flag', I, 'a field is kept in the remembered set although its recorded flag was cleared')
        if drop and is_pcc(self.cfg) and 'not-young' not in st: self.error('dropped', I, 'a field may be dropped from the remembered set although it still refers to the nursery')
        return None

def in_range(f, L, R):
    """field of the heap (a space) if L is the distance of an address from the low end of the space and R its size"""
    L = q.strip(f, L); R = q.strip(f, R)
    a = f.insts[L[1]] if L[0] == 'v' else None; b = f.insts[R[1]] if R[0] == 'v' else None
    if a is None or b is None or a.op != 'sub' or b.op != 'sub': return None
    def ld(v):
        v = q.strip(f, v)
        I = f.insts[v[1]] if v[0] == 'v' else None
        return I if I is not None and I.op == 'load' else None
    lo, hi, lo2 = ld(a.ops[1]), ld(b.ops[0]), ld(b.ops[1])
    if None in (lo, hi, lo2): return None
    def nm(I, x): return any(str(n).split('.')[-1].startswith(x) for n in I.fields() or []) or f.expr(I.ptr(), 4)[0] == 'addr' and str(f.expr(I.ptr(), 4)[1]).split('.')[-1].startswith(x)
    if not nm(hi, 'hi') or nm(lo, 'hi') or f.root_of(lo.ptr()) != f.root_of(hi.ptr()) or f.root_of(lo2.ptr()) != f.root_of(hi.ptr()): return None
    J = hi
    for _ in range(4):
        for n in J.fields() or []:
            if str(n) in ('gc_heap.new_space', 'gc_heap.old_space'): return str(n)
        r = f.root_of(J.ptr())
        if r[0] != 'v' or f.insts[r[1]].op != 'load': return None
        J = f.insts[r[1]]
    return None

@rule('edge-buffers', 'C08', configs=gen_own, load=dict(keep=EKEEP), debug=False, limits=(200,))
def edge_buffers(ctx, m, cfg):
    cap = None
    for x in (m.types.get('gc_edge_buffer') or {}).get('members', []):
        if x.get('name') == 'edges': cap = x.get('size', 0) // 64
    if not cap: raise AnalysisError('struct gc_edge_buffer not understood')
    seen = {}; done = set()
    for f in m.defined():
        if not any((I.op in ('load', 'store', 'cmpxchg')) and str(I.field() or '').startswith((B, W, 'gc_edge_buffer_list')) for I in f.all()): continue
        A = EdgeBuf(m, f, cap, True, is_mmc(cfg)); A.run(f.name, frozenset()); q.report(ctx, A)
        for I in A.visits.values():
            for t in m.targets(I):
                g = m.fn(t)
                if g is None or g.decl or t in done: continue
                done.add(t)
                V = Visitor(m, g, cfg); V.run(t, frozenset()); q.report(ctx, V)
                for k, d in V.hits.items():
                    for J in d.values(): ctx.ok(k, J)
                seen['visitors'] = 1
        for k, d in A.hits.items():
            seen.setdefault(k, 0); seen[k] += len(d)
            for I in d.values(): ctx.ok(k, I)
    for k, msg in (('edges stored', 'no edge is ever put into a buffer'), ('edges looked at', 'no recorded edge is ever visited'), ('buffers put onto lists', 'no buffer of recorded edges is ever handed over'), ('private buffers given up', 'threads never hand over their buffers')):
        if not seen.get(k): ctx.bad('missing', 'field-set', msg, key='edge-buffers:missing:' + k)
    if is_pcc(cfg) and not seen.get('edges dropped'): ctx.ok('remembered sets that never shrink')

def key_of(f, v):
    """what a field address is computed from"""
    v = q.strip(f, v)
    while v[0] == 'v' and f.insts[v[1]].op in ('ptrtoint', 'inttoptr'): v = q.strip(f, f.insts[v[1]].ops[0])
    if v[0] == 'a': return ('arg', v[1])
    if v[0] == 'v': return (('ld', v[1]) if f.insts[v[1]].op == 'load' else ('v', v[1]))
    return None

def setting(I):
    """(key, address, bits) if I sets bits, that depend on a field address, of a byte at an address computed from it"""
    f = I.fn
    if I.op not in ('cmpxchg', 'atomicrmw') or I.op == 'atomicrmw' and I.raw.get('rmw') != 'or': return None
    c = f.mod.__dict__.setdefault('_setting', {}); k = (f.name, I.id)
    if k in c: return c[k]
    c[k] = None
    fm = bits.form(f, I.ptr(), opaque=source_of)
    if not fm: return None
    ks = {x[0] for x in fm if x != 1}
    if len(ks) != 1: return None
    s = ks.pop(); p = None
    if I.op == 'atomicrmw': p = pattern2(f, I.ops[1], s)
    else:
        v = q.strip(f, I.ops[2]); J = f.insts[v[1]] if v[0] == 'v' else None
        while J is not None and J.op in ('trunc', 'zext'): J = f.insts[J.ops[0][1]] if J.ops[0][0] == 'v' else None
        if J is None or J.op != 'or': return None
        for x, y in ((0, 1), (1, 0)):
            if byte_of(f, J.ops[x]): p = pattern2(f, J.ops[y], s); break
    if p is None or p[0] != 'shl': return None
    c[k] = (s, bits.canon({(x if x == 1 else ('edge', x[1])): n for x, n in fm.items()}), p)
    return c[k]

class Recorder(Automaton):
    """whoever sets the flag of a field records the field or reports that it should be"""
    descend = False
    def __init__(self, mod, fn, reporters):
        super().__init__(mod); self.f = fn; self.rep = reporters; self.hits = {}; self.reports = False
        v = fn.ditypes[0] if getattr(fn, 'ditypes', None) else None
        self.void = all(not fn.terminator(b).ops for b in fn.live_blocks() if fn.terminator(b).op == 'ret')
    def relevance_key(self): return ('recorder', self.f.name, len(self.rep))
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def pend(self, st): return [x for x in st if isinstance(x, tuple) and x[0] == 'added']
    def step(self, st, I):
        f = I.fn
        s = setting(I)
        if s:
            self.hit('flags set', I)
            if I.op == 'atomicrmw': return None   # says nothing about whether it had been set
            return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == 'try')) | {('try', I.id, s[0])}]
        if I.is_call():
            n = I.callee_name()
            if n in self.rep:
                self.hit('flags set by callees', I)
                return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == 'asked' and x[1] == I.id)) | {('asked', I.id, key_of(f, I.ops[self.rep[n]]))}]
            if n == 'gc_field_set_writer_add_edge':
                self.hit('fields recorded', I); k = key_of(f, I.ops[1])
                if ('added', k) not in st: self.error('twice', I, 'a field is recorded without its recorded flag having been set for it, so that it may be recorded twice'); return None
                return [st - {('added', k)}]
        return None
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p not in ('eq', 'ne') or L[0] != 'v' or const_of(R) not in (0, 1): return None
        J = f.insts[L[1]]
        if J.op == 'extractvalue' and J.ty == 'i1':
            for x in st:
                if isinstance(x, tuple) and x[0] == 'try' and tuple(J.ops[0][:2]) == ('v', x[1]) and (const_of(R) == 1) == (p == 'eq'): return [st - {x} | {('added', x[2])}]
        for x in st:
            if isinstance(x, tuple) and x[0] == 'asked' and L[1] == x[1] and const_of(R) == 0:
                return [st - {x} | ({('added', x[2])} if p == 'ne' else frozenset())]
        return None
    def ret(self, st, I):
        pend = self.pend(st)
        asked = [x for x in st if isinstance(x, tuple) and x[0] == 'asked']
        if not self.void:
            v = self.value(I.ops[0])
            if pend and not (v is not None and 0 in v): self.reports = pend[0][1]; return None
            if asked and tuple(q.strip(self.f, I.ops[0])[:2]) == ('v', asked[0][1]) or asked and any(tuple(a[:2]) == ('v', asked[0][1]) for a in self.alts(I.ops[0])): self.reports = asked[0][2]; return None
        if pend or asked: self.error('unrecorded', I, 'the recorded flag of a field is set but the field is not recorded')
        return None
    def alts(self, v):
        out = []; todo = [v]; seen = set()
        while todo:
            v = q.strip(self.f, todo.pop())
            if tuple(v[:2]) in seen: continue
            seen.add(tuple(v[:2])); out.append(v)
            if v[0] == 'v' and self.f.insts[v[1]].op == 'phi': todo += [o[0] for o in self.f.insts[v[1]].ops]
        return out

class Scavenge(Automaton):
    """an object that stays in the nursery has the old field that refers to it recorded"""
    descend = False
    def __init__(self, mod, fn, rep):
        super().__init__(mod); self.f = fn; self.rep = rep; self.n = 0
    def relevance_key(self): return ('scavenge', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p in ('eq', 'ne') and const_of(R) == 0 and L[0] == 'v':
            if any(J.field() is not None and str(J.field()).startswith('copy_space_block.is_survivor') or any(str(x).startswith('copy_space_block.is_survivor') for x in J.fields() or []) for J in q.value_loads(f, L, 2)):
                if p == 'eq': self.n += 1
                return [st | {'stays'} if p == 'eq' else st]
        if p == 'ult' and in_range(f, L, R) == 'gc_heap.new_space':
            a = f.insts[q.strip(f, L)[1]].ops[0]
            if self.is_edge(a): return [st | {'recorded'}]
        return None
    def is_edge(self, v):
        k = key_of(self.f, v)
        t = None
        if k and k[0] == 'arg': t = (self.f.args[k[1]][1] if k[1] < len(self.f.args) else None)
        return t == 'ptr' or (v[0] == 'v' and self.f.insts[v[1]].op == 'ptrtoint')
    def step(self, st, I):
        f = I.fn
        if I.is_call() and I.callee_name() in self.rep: return [st | {'recorded'}]
        if I.is_call() and 'stays' in st and sum(1 for o in I.ops if self.space(o) == 'gc_heap.new_space') >= 2:
            if 'recorded' not in st: self.error('survivor', I, 'an object may stay in the nursery without the old field that refers to it being recorded')
            return [st - {'stays'}]
        return None
    def space(self, o):
        for n in self.f.fields_of(o) or []:
            if str(n) in ('gc_heap.new_space', 'gc_heap.old_space'): return str(n)
        if o[0] == 'v' and self.f.insts[o[1]].op == 'getelementptr':
            p = (self.f.insts[o[1]].raw.get('gep') or {}).get('path') or []
            if p and p[-1][0] == 's' and p[-1][1] == 'gc_heap' and p[-1][2] == 0: return 'gc_heap.new_space'
        return None
    def ret(self, st, I):
        if 'stays' in st and 'recorded' not in st: self.error('survivor', I, 'an object may stay in the nursery without the old field that refers to it being recorded')
        return None

@rule('recorded-fields', 'C08', configs=gen_own, load=dict(keep=('gc_field_set_writer_add_edge', 'large_object_space_add_remembered_edge')), debug=False, limits=())
def recorded_fields(ctx, m, cfg):
    rep = {'large_object_space_add_remembered_edge': 1}
    fs = [f for f in m.defined() if f.name not in rep]
    while True:
        new = {}; As = []
        for f in fs:
            if not any(setting(I) or I.is_call() and (I.callee_name() in rep or I.callee_name() == 'gc_field_set_writer_add_edge') for I in f.all()): continue
            A = Recorder(m, f, rep); A.run(f.name, frozenset()); As.append(A)
            if A.reports and A.reports[0] == 'arg' and f.name not in rep: new[f.name] = A.reports[1]
        if not new: break
        rep.update(new)
    n = 0
    for A in As:
        q.report(ctx, A)
        for k, d in A.hits.items():
            for I in d.values(): ctx.ok(k, I)
        if A.hits.get('fields recorded') and A.f.name != 'gc_write_barrier_slow': n += 1
    if is_pcc(cfg):
        if not n: ctx.bad('survivor', 'pcc', 'the collector records no fields that it makes refer from old objects to young ones', key='recorded-fields:survivor')
        k = 0
        for f in m.defined():
            if not any(J.is_call() and J.callee_name() in rep for J in f.all()): continue
            A = Scavenge(m, f, rep); A.run(f.name, frozenset()); q.report(ctx, A); k += A.n
        if k: ctx.ok('objects that stay in the nursery')
        else: ctx.bad('survivor', 'pcc', 'no field is ever recorded for an object that stays in the nursery', key='recorded-fields:survivor2')

SET = ('address_set_contains', 'address_set_add', 'address_set_remove')

class Remember(Automaton):
    """a field of a large object is in the set of remembered ones at most once, and whoever adds it reports so"""
    descend = False
    def __init__(self, mod, fn):
        super().__init__(mod); self.f = fn; self.n = 0
    def relevance_key(self): return ('remember', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def of(self, I): return key_of(I.fn, I.ops[1]) == ('arg', 1) and any(str(x).endswith('.remembered_edges') for x in I.fn.fields_of(I.ops[0]) or [])
    def step(self, st, I):
        if not I.is_call(): return None
        n = I.callee_name()
        if n == 'address_set_add':
            if not self.of(I): self.error('edge', I, 'another field than the one given is remembered'); return None
            self.n += 1
            return [st | {'added'}]
        return None
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p in ('eq', 'ne') and const_of(R) == 0 and L[0] == 'v' and f.insts[L[1]].is_call() and f.insts[L[1]].callee_name() == 'address_set_contains' and self.of(f.insts[L[1]]):
            return [st | {'new' if p == 'eq' else 'known'}]
        return None
    def ret(self, st, I):
        v = self.value(I.ops[0]) if I.ops else None
        yes = v is None or bool(v - {0}); no = v is None or 0 in v
        if 'new' in st and ('added' not in st or no): self.error('remember', I, 'a field of a large object that was not remembered is not remembered or not reported as new')
        if 'known' in st and yes: self.error('again', I, 'a field that was remembered before is reported as new')
        if 'new' not in st and 'known' not in st: self.error('again', I, 'it is not checked whether a field of a large object is remembered already')
        return None

class Forget(Automaton):
    descend = False
    def __init__(self, mod, fn):
        super().__init__(mod); self.f = fn
    def relevance_key(self): return ('forget', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def step(self, st, I):
        if I.is_call() and I.callee_name() == 'address_set_remove' and key_of(I.fn, I.ops[1]) == ('arg', 1) and any(str(x).endswith('.remembered_edges') for x in I.fn.fields_of(I.ops[0]) or []): return [st | {'removed'}]
        return None
    def ret(self, st, I):
        if 'removed' not in st: self.error('forget', I, 'a field of a large object is not forgotten')
        return None

class Old(Automaton):
    """gc_object_is_old_generation_slow"""
    descend = False
    def __init__(self, mod, fn, cfg):
        super().__init__(mod); self.f = fn; self.cfg = cfg; self.old = 0; self.marks = 0
    def relevance_key(self): return ('old', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p in ('uge', 'ult') and in_range(f, L, R) == 'gc_heap.new_space' and key_of(f, f.insts[q.strip(f, L)[1]].ops[0]) == ('arg', 1): return [st | {'young' if p == 'ult' else 'not-young'}]
        s = survivor(f, p, L, R, {1: 'obj'}) if p in ('eq', 'ne') else None
        if s: self.marks += 1; return [(st - {'yes', 'no'}) | {s}]
        return None
    def step(self, st, I):
        if I.op == 'load' and any(str(x) == 'gc_heap.old_space' for x in I.fields() or []): return [st | {'searched'}]
        return None
    def ret(self, st, I):
        v = self.value(I.ops[0])
        yes = v is None or bool(v - {0}); no = v is None or 0 in v
        if 'young' in st and yes: self.error('old', I, 'an object in the nursery counts as old')
        if 'yes' in st and no: self.error('old', I, 'an object that survived a collection does not count as old')
        if 'no' in st and yes: self.error('old', I, 'an object that has not survived a collection counts as old')
        if v is not None and 0 not in v and 'searched' in st: self.old += 1
        return None

@rule('remembered-edges', 'C08', 'C21', configs=gen_own, load=dict(keep=SET + ('large_object_space_add_remembered_edge', 'large_object_space_forget_edge')), debug=False, limits=(200,))
def remembered_edges(ctx, m, cfg):
    for n, cls in (('large_object_space_add_remembered_edge', Remember), ('large_object_space_forget_edge', Forget)):
        f = m.fn(n)
        if f is None or f.decl: continue
        A = cls(m, f); A.run(n, frozenset()); q.report(ctx, A)
        ctx.ok('changes to the set of remembered fields')
    f = m.fn('gc_object_is_old_generation_slow')
    if f is None or f.decl: raise AnalysisError('gc_object_is_old_generation_slow not found')
    A = Old(m, f, cfg); A.run(f.name, frozenset()); q.report(ctx, A)
    if is_pcc(cfg) and not A.old: ctx.bad('old', f.terminator(0), 'objects in the old space do not count as old')
    else: ctx.ok('tests for old objects')
    todo = [f.terminator(b).ops[0] for b in f.live_blocks() if f.terminator(b).op == 'ret']; seen = set(); n = A.marks
    while todo:
        v = q.strip(f, todo.pop())
        if v[0] != 'v' or v[1] in seen: continue
        seen.add(v[1]); I = f.insts[v[1]]
        if I.op == 'phi': todo += [o[0] for o in I.ops]
        elif I.op in ('zext', 'sext', 'trunc', 'freeze', 'and', 'or'): todo += list(I.ops)
        elif I.op == 'select': todo += list(I.ops[1:])
        elif I.op == 'icmp':
            p = I.raw['pred']
            s = survivor(f, p, I.ops[0], I.ops[1], {1: 'obj'})
            if s == 'no': ctx.bad('old', I, 'an object that has not survived a collection counts as old')
            elif s == 'yes': n += 1; ctx.ok('survivors count as old', I)
    if n < (1 if is_pcc(cfg) else 2): ctx.bad('old', f.terminator(0), 'objects that survived a collection do not count as old')
