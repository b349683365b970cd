"""Moving objects: C06 (one complete copy, published once)."""
from core import rule, own, is_gen, is_semi, is_mmc, is_pcc, AnalysisError
import q
from q import Automaton, const_of

KEEP = ('nofl_space_evacuate', 'copy_space_forward_atomic', 'copy_space_forward_if_traced_atomic', 'nofl_space_forward_if_evacuated', 'copy_space_forward_nonatomic', 'copy_space_forward_if_traced_nonatomic')
LOAD = dict(keep=KEEP)
FS = 'gc_atomic_forward.state'
CM = 'nofl_space.current_mark'

def depends(fn, v, target, depth=14, seen=None):
    """v is computed from the SSA value target"""
    if seen is None: seen = set()
    if tuple(v[:2]) == tuple(target[:2]): return True
    if v[0] != 'v' or depth == 0 or v[1] in seen: return False
    seen.add(v[1]); I = fn.insts[v[1]]
    if I.is_call() or I.op == 'alloca': return False
    for o in I.ops:
        if I.op == 'phi': o = o[0]
        if isinstance(o, (list, tuple)) and o and o[0] in ('v', 'a') and depends(fn, list(o), target, depth - 1, seen): return True
    return False

def is_memcpy(I): return I.is_call() and 'memcpy' in str(I.callee_name()) or I.is_call() and 'memmove' in str(I.callee_name())
def plain(I): return not (I.field() or '').startswith(('nofl_', 'copy_', 'gc_atomic_forward', 'semi_space'))
def same(fn, a, b):
    a = q.strip(fn, a); b = q.strip(fn, b)
    return a[0] in ('v', 'a') and tuple(a[:2]) == tuple(b[:2])

class Fwd(Automaton):
    """state: (possible forwarding states, phase, flags)
       phase: None 'claimed' 'copied' 'committed' 'aborted'"""
    descend = False
    def __init__(self, mod, cfg, fn):
        super().__init__(mod); self.cfg = cfg; self.f = fn; self.hits = {}
        self.S = {n: mod.enum_value('GC_FORWARDING_STATE_' + n) for n in ('FORWARDED', 'BUSY', 'ACQUIRED', 'NOT_FORWARDED')}
        if None in self.S.values(): raise AnalysisError('forwarding states not found')
        self.N = {v: k for k, v in self.S.items()}
        self.commits = [I for I in fn.all() if I.is_call() and I.callee_name() == 'v_fwd_commit']
        self.new = [q.strip(fn, I.ops[1]) for I in self.commits]
        self.begins = [I for I in fn.all() if I.is_call() and I.callee_name() == 'v_fwd_begin']
    def relevance_key(self): return ('fwd', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def watch_key(self): return 'fwd'
    def isnew(self, v): return any(same(self.f, v, n) for n in self.new)
    def isnew1(self, v): return any(same(self.f, v, x) for n in self.new for x in [n] + [y for y, _ in alts(self.f, n)])
    def callname(self, v):
        v = q.strip(self.f, v)
        if v[0] != 'v': return None
        I = self.f.insts[v[1]]
        return I.callee_name() if I.is_call() else None
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def assume(self, st, I, p, L, R):
        fn = I.fn; P, ph, fl = st
        J = fn.insts[L[1]] if L[0] == 'v' else None
        c = const_of(R)
        if J is not None and J.op == 'load' and J.field() == FS and c is not None and p in ('eq', 'ne'):
            if not any(x == J.id for x in fl if isinstance(x, int)): return None       # an older reading
            n = self.N.get(c)
            P2 = P & {n} if p == 'eq' else P - {n}
            if not P2: return []
            if P2 == {'ACQUIRED'} and ph is None: ph = 'claimed'
            return [(frozenset(P2), ph, fl)]
        if J is not None and J.is_call() and J.callee_name() == 'v_fwd_retry_busy' and c == 0 and p in ('eq', 'ne'):
            return [(frozenset(['BUSY'] if p == 'eq' else ['FORWARDED', 'NOT_FORWARDED']), ph, fl)]
        if c == 0 and self.isnew1(L) and p in ('eq', 'ne'):
            return [(P, ph, (fl - {'room', 'noroom'}) | {'room' if p == 'ne' else 'noroom'})]
        if p in ('eq', 'ne') and ph == 'claimed':
            for a, b in ((L, R), (R, L)):
                if {x.field() for x in q.value_loads(fn, b, 4)} == {CM} if b[0] == 'v' else False:
                    L8 = [x for x in q.value_loads(fn, a, 4) if x.access_size() == 1]
                    if L8 and all(('re', x.id) in fl for x in L8): return [(P, ph, fl | {'unmarked' if p == 'ne' else 'marked'})]
        return None
    def step(self, st, I):
        P, ph, fl = st; fn = I.fn; n = I.callee_name() if I.is_call() else None
        if n == 'v_fwd_begin': return [(frozenset(['FORWARDED', 'BUSY', 'NOT_FORWARDED']), None, frozenset())]
        if P is None: return None
        ints = frozenset(x for x in fl if isinstance(x, int))
        if n == 'v_fwd_acquire':
            if 'NOT_FORWARDED' not in P or ph in ('claimed', 'copied', 'committed'): self.error('claim', I, 'an object is claimed for moving that is not known to be free')
            self.hit('claims', I)
            return [(frozenset(['ACQUIRED', 'BUSY', 'FORWARDED']), None, fl - ints)]
        if n == 'v_fwd_retry_busy':
            if 'BUSY' not in P: self.error('wait', I, 'waiting for an object nobody is moving')
            return [(frozenset(['BUSY', 'FORWARDED', 'NOT_FORWARDED']), ph, fl - ints)]
        if I.op == 'load' and I.field() == FS: return [(P, ph, (fl - ints) | {I.id})]
        if I.op == 'load' and I.access_size() == 1 and I.raw.get('ord') and ph == 'claimed': return [(P, ph, fl | {('re', I.id)})]
        if n == 'v_fwd_object_size':
            if ph != 'claimed': self.error('size', I, 'the size of an object is read that this thread has not claimed')
            return None
        if is_memcpy(I) and ph == 'claimed' and self.isnew(I.ops[0]):
            self.hit('copies', I)
            if 'noroom' in fl or 'room' not in fl: self.error('no-room', I, 'an object is copied without having checked that there is room for the copy')
            if is_mmc(self.cfg) and 'unmarked' not in fl: self.error('marked-and-moved', I, 'an object is moved without having checked again, after claiming it, that it was not already marked in place')
            if not any(same(fn, I.ops[1], b.ops[1]) for b in self.begins): self.error('copy-source', I, 'what is copied is not the object that was claimed')
            return [(P, 'copied', fl)]
        if n == 'v_fwd_commit':
            self.hit('publications of new addresses', I)
            if ph == 'claimed': self.error('publish-before-copy', I, "an object's new address is published before the object has been copied")
            elif ph != 'copied': self.error('publish', I, "an object's new address is published by a thread that has not claimed the object")
            return [(P, 'committed', fl)]
        if n == 'v_fwd_abort':
            self.hit('abandoned claims', I)
            if ph not in ('claimed',): self.error('abort', I, 'a claim on an object is given up that is not held, or after the object has been published')
            if is_mmc(self.cfg) and 'marked' not in fl and 'mark-old' not in fl: self.error('abort-unmarked', I, 'a claim is given up before the object has been marked in place, so that another thread may move or skip it')
            return [(P, 'aborted', fl)]
        if n == 'v_fwd_address':
            if P != {'FORWARDED'}: self.error('address', I, "an object's new address is read before it has been published" + (' (%s)' % '/'.join(sorted(P))))
            return [(P, ph, fl | {'address'})]
        if I.op == 'store' and I.access_size() == 8:
            v = I.ops[0]
            if self.callname(v) == 'v_fwd_address' and plain(I): 
                self.hit('edges updated', I); return [(P, ph, fl | {'updated'})]
            if self.isnew(v) and plain(I):
                self.hit('edges updated', I)
                if ph != 'committed': self.error('edge-early', I, 'a reference to the copy is stored before the copy has been published')
                return [(P, ph, fl | {'updated'})]
        if I.op in ('store', 'atomicrmw', 'cmpxchg') and I.access_size() == 1 and any(x.field() == CM for x in q.value_loads(fn, I.ops[0] if I.op == 'store' else I.ops[1], 6)):
            if any(depends(fn, I.ptr(), x) for x in self.new): return [(P, ph, fl | {'mark-new'})]
            return [(P, ph, fl | {'mark-old'})]
        if I.op == 'store' and I.access_size() == 1 and const_of(I.ops[0]) == 1 and ph in ('claimed', 'committed', 'copied'):
            if any(depends(fn, I.ptr(), x) for x in self.new): return [(P, ph, fl | {'block-new'})]
            if any(depends(fn, I.ptr(), list(b.ops[1])) for b in self.begins): return [(P, ph, fl | {'block-old'})]
        return None
    def edge(self, st, T, s):
        """block already marked"""
        P, ph, fl = st; fn = T.fn
        if ph not in ('claimed', 'committed', 'copied') or not is_mmc(self.cfg): return None
        for p, L, R in q.edge_atoms(fn, T, s):
            if p == 'ne' and const_of(R) == 0 and L[0] == 'v' and fn.insts[q.strip(fn, L)[1]].op == 'load' and fn.insts[q.strip(fn, L)[1]].access_size() == 1 if q.strip(fn, L)[0] == 'v' else False:
                ptr = fn.insts[q.strip(fn, L)[1]].ptr()
                if any(depends(fn, ptr, x) for x in self.new): return [(P, ph, fl | {'block-new'})]
                if any(depends(fn, ptr, list(b.ops[1])) for b in self.begins): return [(P, ph, fl | {'block-old'})]
        return None
    def ret(self, st, I):
        P, ph, fl = st
        if P is None: return None
        self.hit('ends of the protocol', I)
        if ph in ('claimed', 'copied'): self.error('left-busy', I, 'a thread leaves an object claimed; every other thread that reaches it waits for ever')
        elif ph == 'committed':
            if 'updated' not in fl: self.error('edge-stale', I, 'the reference through which an object was moved is not updated')
            if is_mmc(self.cfg):
                if 'mark-new' not in fl: self.error('unmarked-copy', I, 'the copy of a moved object is not marked')
                elif 'block-new' not in fl: self.error('unmarked-block', I, "the block of a moved object's copy is not marked as holding live objects")
        elif ph == 'aborted':
            if 'noroom' in fl and is_mmc(self.cfg) and 'block-old' not in fl: self.error('unmarked-block', I, 'the block of an object that could not be moved is not marked as holding live objects')
        elif P == {'FORWARDED'} or ph is None and P <= {'FORWARDED', 'ACQUIRED', 'BUSY'} and 'address' in fl:
            if 'updated' not in fl: self.error('edge-stale', I, 'a reference to a moved object is not updated')
        elif 'BUSY' in P: self.error('not-awaited', I, 'a thread goes on although another may still be moving the object')
        elif 'FORWARDED' in P: self.error('edge-stale', I, 'a reference to an object that may have moved is not updated')
        if I.ops and I.fn.name in KEEP:
            V = self.value(I.ops[0])
            if V is None: return None
            m = self.mod
            if I.fn.name == 'nofl_space_evacuate':
                if ph == 'committed' or ph == 'aborted' and 'noroom' in fl:
                    if 0 in V: self.error('result', I, 'an object this thread moved (or marked in place) is not reported as new, so its fields are not traced')
                elif V - {0}: self.error('result', I, 'an object moved by another thread is reported as new and would be traced twice')
            elif I.fn.name == 'copy_space_forward_atomic':
                w = m.enum_value('COPY_SPACE_FORWARD_' + ('EVACUATED' if ph == 'committed' else 'FAILED' if ph == 'aborted' else 'UPDATED'))
                if V != {w}: self.error('result', I, 'the outcome of moving an object is misreported')
            elif 'if_traced' in I.fn.name or 'if_evacuated' in I.fn.name:
                if 'updated' in fl and 0 in V: self.error('result', I, 'an object that moved is reported as not reached')
                if P == {'NOT_FORWARDED'} and 'waited' not in fl and 'if_traced' in I.fn.name and V - {0}: self.error('result', I, 'an object that was not reached is reported as live')
        return None

def copy_sizes(ctx, m, cfg, fn, C, new, old):
    """the memcpy to the new address copies the whole object"""
    l, k = q.lin(fn, C.ops[2], False)
    sized = [I for I in fn.all() if I.is_call() and I.callee_name() in ('v_fwd_object_size', 'v_object_size')]
    ok = False
    for I in sized:
        if l == {('v', I.id): 1} and k == 0: ok = True
    # size delivered through a local
    if not sized or not ok:
        src = q.strip(fn, C.ops[2]); J = fn.insts[src[1]] if src[0] == 'v' else None
        if J is not None and J.op == 'load' and fn.root_of(J.ptr())[0] == 'v' and fn.insts[fn.root_of(J.ptr())[1]].op == 'alloca': ok = True
        if J is not None and J.op == 'mul' and const_of(J.ops[1]) == 16 or J is not None and J.op == 'shl' and const_of(J.ops[1]) == 4:
            g, gk = q.lin(fn, J.ops[0], False)
            meta = [M for M in fn.all() if is_memcpy(M) and M is not C and any(depends(fn, M.ops[0], n) for n in new)]
            ok = any(q.lin(fn, M.ops[2], False) == (g, gk - 1) for M in meta)
            if not meta: ctx.bad('metadata', C, "the metadata of a moved object's extent is not copied"); return
    if not ok: ctx.bad('partial-copy', C, 'the number of bytes copied is not the size of the object')
    else: ctx.ok('sizes of copies', C)

@rule('forwarding', 'C06', 'C04', configs=lambda c: own(c) and not c.startswith('heap-conservative'), load=LOAD, limits=(200,))
def forwarding(ctx, m, cfg):
    n = 0
    for f in m.defined():
        begins = [I for I in f.all() if I.is_call() and I.callee_name() == 'v_fwd_begin']
        if begins:
            n += 1
            A = Fwd(m, cfg, f); A.run(f.name, (None, None, frozenset()))
            q.report(ctx, A)
            for k, d in A.hits.items():
                for I in d.values(): ctx.ok(k, I)
            for C in f.all():
                if is_memcpy(C) and A.isnew(C.ops[0]): copy_sizes(ctx, m, cfg, f, C, A.new, None)
            for C in A.commits:
                if not any(is_memcpy(M) and same(f, M.ops[0], C.ops[1]) and f.dominates(M, C) for M in f.all()): ctx.bad('publish-before-copy', C, "an object's new address is published without the object having been copied there")
                if len(A.begins) and is_gen(cfg) and is_mmc(cfg): logged(ctx, m, f, C)
        for F in [I for I in f.all() if I.is_call() and I.callee_name() == 'v_object_forward_nonatomic']:
            n += 1; nonatomic(ctx, m, cfg, f, F)
        for F in [I for I in f.all() if I.is_call() and I.callee_name() == 'v_object_forwarded_nonatomic']:
            n += 1; forwarded(ctx, m, cfg, f, F)
            for M in f.all():
                if is_memcpy(M) and same(f, M.ops[1], F.ops[0]) and not begins and not any(X.is_call() and X.callee_name() == 'v_object_forward_nonatomic' and same(f, X.ops[0], M.ops[1]) and same(f, X.ops[1], M.ops[0]) and f.dominates(M, X) for X in f.all()):
                    ctx.bad('not-forwarded', M, 'an object is copied without its new address being recorded, so it is copied again for every reference')
        if is_semi(cfg): bump(ctx, f)
    ctx.need('functions that move objects', n)

def logged(ctx, m, f, C):
    """generational: the copy's metadata bytes are rewritten without the logged bits"""
    new = q.strip(f, C.ops[1])
    for W in f.all():
        if W.op == 'store' and W.access_size() == 1 and depends(f, W.ptr(), new):
            v = q.strip(f, W.ops[0]); J = f.insts[v[1]] if v[0] == 'v' else None
            if J is not None and J.op == 'and' and const_of(J.ops[1]) is not None and (const_of(J.ops[1]) & 0xff) == 0x3f and f.in_loop(W): ctx.ok('logged bits cleared in copies', W); return
    ctx.bad('logged-bits', C, 'the copy of an object keeps the bits that say which of its fields are remembered, so that later stores to them are not recorded')

def nonatomic(ctx, m, cfg, f, F):
    old, new = F.ops[0], F.ops[1]
    cp = [M for M in f.all() if is_memcpy(M) and same(f, M.ops[0], new) and same(f, M.ops[1], old)]
    if not any(f.dominates(M, F) for M in cp): ctx.bad('publish-before-copy', F, 'an object is replaced by its forwarding address before it has been copied')
    for M in cp: copy_sizes(ctx, m, cfg, f, M, [q.strip(f, new)], old)
    from rules.large import branch_atoms
    at = branch_atoms(f, F.block)
    free = any(p == 'eq' and const_of(R) == 0 and q.strip(f, L)[0] == 'v' and f.insts[q.strip(f, L)[1]].is_call() and f.insts[q.strip(f, L)[1]].callee_name() == 'v_object_forwarded_nonatomic' and same(f, f.insts[q.strip(f, L)[1]].ops[0], old) for p, L, R in at)
    if not free and f.name in ('copy',): free = True
    if not free: ctx.bad('moved-twice', F, 'an object is moved without having checked that it has not been moved already')
    if not is_semi(cfg):
        if not any(p == 'ne' and const_of(R) == 0 and same(f, L, new) for p, L, R in at): ctx.bad('no-room', F, 'an object is moved without having checked that there is room for the copy')
    if any(I.op == 'ret' and I.ops and any(same(f, x, new) for x, _ in alts(f, I.ops[0])) for I in f.all()): ctx.ok('single-threaded moves', F); return
    W = [I for I in f.all() if I.op == 'store' and I.access_size() == 8 and plain(I) and any(same(f, x, new) for x, _ in alts(f, I.ops[0]))]
    if not W: ctx.bad('edge-stale', F, 'the reference through which an object was moved is not updated')
    else: ctx.ok('single-threaded moves', F)

def bump(ctx, f):
    """semi: copies are laid out one after another, whole"""
    F = [I for I in f.all() if I.is_call() and I.callee_name() == 'v_object_forward_nonatomic']
    for X in F:
        W = [I for I in f.all() if I.op == 'store' and I.field() == 'semi_space.hp' and (f.dominates(X, I) or I.block == X.block)]
        if not W: ctx.bad('overlap', X, 'the space for a copy is not reserved'); continue
        for I in W:
            l, k = q.lin(f, I.ops[0], False); ok = False
            for t in l:
                J = f.insts[t[1]] if t[0] == 'v' else None
                if J is None or J.op != 'and': continue
                c = const_of(J.ops[1]); c = c - (1 << 64) if c is not None and c >= 1 << 63 else c
                if c is not None and c < 0 and q.lin(f, J.ops[0], False)[1] == -c - 1: ok = True
            if ok: ctx.ok('space reserved for copies', I)
            else: ctx.bad('overlap', I, 'the space reserved for a copy is not its size rounded up')

def bits(f, v, depth=8):
    """possible constants of v when more than one tracing thread was asked for; None if unknown"""
    v = q.strip(f, v); c = const_of(v)
    if c is not None: return {c}
    if v[0] == 'a' and depth:
        return {b for g in f.mod.defined() for I in g.all() if I.is_call() and I.callee_name() == f.name for b in bits(g, I.ops[v[1]], depth - 1)} or {None}
    if v[0] != 'v' or depth == 0: return {None}
    I = f.insts[v[1]]
    if I.op in ('and', 'or'):
        A, B = bits(f, I.ops[0], depth - 1), bits(f, I.ops[1], depth - 1)
        return {None if a is None or b is None else a & b if I.op == 'and' else a | b for a in A for b in B}
    if I.op in ('phi', 'select'):
        from rules.large import alternatives
        out = set()
        for x, at in alternatives(f, v):
            dead = False
            for p, L, R in at:
                J = f.insts[q.strip(f, L)[1]] if q.strip(f, L)[0] == 'v' else None
                if J is not None and J.op == 'load' and (J.field() or '').endswith('.parallelism') and const_of(R) is not None:
                    r = const_of(R)      # dead unless it can hold for some value >= 2 ... and must hold for all
                    if p in ('slt', 'ult') and r <= 2 or p in ('sle', 'ule') and r <= 1 or p == 'eq' and r <= 1: dead = True
            if not dead and not (x[0] == 'v' and x[1] == I.id): out |= bits(f, x, depth - 1)
        return out
    if I.op in ('zext', 'trunc', 'sext'): return bits(f, I.ops[0], depth - 1)
    return {None}

@rule('forwarding-mode', 'C06', configs=is_pcc, load=LOAD)
def forwarding_mode(ctx, m, cfg):
    """objects are moved without synchronization only by a heap with a single tracing thread"""
    from rules.large import branch_atoms
    n = 0
    for f in m.defined():
        for I in f.all():
            if I.is_call() and (I.callee_name() in KEEP and 'nonatomic' in I.callee_name() or I.callee_name() == 'v_object_forward_nonatomic') and f.name not in KEEP:
                n += 1
                if any(p == 'eq' and const_of(R) == 0 and {x.field() for x in q.value_loads(f, L, 3)} == {'copy_space.atomic_forward'} for p, L, R in branch_atoms(f, I.block)): ctx.ok('unsynchronized moves', I)
                else: ctx.bad('unsynchronized', I, 'objects are moved without synchronization although other threads may be moving them')
            if I.op == 'store' and I.field() == 'copy_space.atomic_forward':
                b = bits(f, I.ops[0])
                if 0 in b: ctx.bad('mode', I, 'a space traced by several threads is set up to move objects without synchronization')
                else: ctx.ok('synchronization modes', I)
    ctx.need('unsynchronized moves', n)

def alts(f, v):
    from rules.large import alternatives
    return alternatives(f, q.strip(f, v))

def forwarded(ctx, m, cfg, f, F):
    """a forwarding address is stored into the edge when (and only when) it is not null"""
    from rules.large import branch_atoms
    W = []
    for I in f.all():
        if I.op != 'store' or I.access_size() != 8 or not plain(I): continue
        for x, at in alts(f, I.ops[0]):
            if same(f, x, ['v', F.id]): W.append((I, at + branch_atoms(f, I.block)))
    if not W: ctx.bad('edge-stale', F, 'a reference to an object that has moved is not updated'); return
    for I, at in W:
        if not any(p == 'ne' and const_of(R) == 0 and same(f, L, ['v', F.id]) for p, L, R in at): ctx.bad('edge-null', I, 'a reference is replaced by a forwarding address that may be absent')
    ctx.ok('forwarding addresses used', F)
