"""The tracer's work queues and its termination: C05."""
from core import rule, is_par, is_bdw, is_mmc, is_pcc, own, AnalysisError
import q, ir
from q import strip, const_of, key_of, NEG, SWAP
from ts import Automaton, edge_atoms

W = {'local_worklist': '.data', 'simple_worklist': '.buf', 'root_worklist': '.buf'}
ROOTS_ONLY = 'gc_tracer.trace_roots_only'; WLOCK = 'gc_trace_worker.lock'; NW = 'gc_tracer.worker_count'

def inst(fn, v):
    v = strip(fn, v)
    return fn.insts.get(v[1]) if v[0] == 'v' else None

def ld(fn, L, R):
    """L - R as a linear form of loaded values"""
    a, ac = q.lin(fn, L, current=False); b, bc = q.lin(fn, R, current=False)
    r = dict(a)
    for k, x in b.items(): r[k] = r.get(k, 0) - x
    return {k: x for k, x in r.items() if x}, ac - bc

def same(a, b): return tuple(a[:2]) == tuple(b[:2])

# -- counted loops -------------------------------------------------------------------------
def induction(fn, v):
    """(phi, start, step) if v is a loop counter"""
    I = inst(fn, v)
    if I is None or I.op != 'phi' or I.block not in fn.loops(): return None
    body = fn.loops()[I.block]; start = step = None
    for o, b in I.ops:
        if b in body:
            a, c = q.lin0(fn, o)
            if a != {('v', I.id): 1} and not (a and list(a) == [('v', I.id)]): 
                J = inst(fn, o)
                if J is not None and J.op == 'phi' and all(s[0] == 'v' and (s[1] == I.id or q.lin0(fn, s)[0] == {('v', I.id): 1}) for s, _ in J.ops):
                    c = max(q.lin0(fn, s)[1] if s[1] != I.id else 0 for s, _ in J.ops)
                else: return None
            if step is not None and step != c: return None
            step = c
        else: start = o
    return None if start is None or step is None else (I, start, step)

def loop_bounds(fn, phi):
    """[(T, pred, bound)]: counter 'pred' bound holds wherever the loop goes on past T"""
    body = fn.loops()[phi.block]; out = []
    for b in body:
        T = fn.terminator(b)
        if T is None or T.op != 'br' or not T.ops: continue
        ins = [s for s in fn.succ[b] if s in body]
        if len(ins) != 1 or len(fn.succ[b]) != 2: continue
        for (p, L, R) in edge_atoms(fn, T, ins[0]):
            if p == 'in': continue
            if strip(fn, L)[:2] == ['v', phi.id] or tuple(strip(fn, L)[:2]) == ('v', phi.id): out.append((T, p, R))
            elif tuple(strip(fn, R)[:2]) == ('v', phi.id): out.append((T, SWAP[p], L))
    return out

def covers(fn, phi, start, lo, bound_ok):
    """the loop runs the counter over every value from lo to bound (exclusive); extra exits are the caller's business"""
    c = const_of(start)
    if lo is not None and (c is None or c > lo): return False
    return any(p in ('ult', 'slt', 'ne') and bound_ok(B) for T, p, B in loop_bounds(fn, phi))

def from_field(fn, v, field):
    I = inst(fn, v)
    return I is not None and I.op in ('load', 'atomicrmw') and I.field() == field

# -- indices ---------------------------------------------------------------------------------
def slot(fn, ptr):
    """(index value, mask value) when ptr addresses base[index & mask]; mask None when not masked"""
    k = strip(fn, ptr)
    I = fn.insts.get(k[1]) if k[0] == 'v' else None
    if I is None or I.op != 'getelementptr': return None
    x = strip(fn, I.ops[-1]); J = inst(fn, x)
    if J is not None and J.op == 'and': return J.ops[0], J.ops[1]
    if J is not None and J.op == 'urem' and const_of(J.ops[1]): return J.ops[0], ['c', const_of(J.ops[1]) - 1, 64]
    return x, None

def element(fn, I):
    """the queue structs whose elements I reads or writes"""
    if not I.is_mem(): return set()
    out = set()
    for F in fn.fields_of(I.ptr()) or ():
        if F == 'local_worklist.data': out.add('local_worklist')
    r = fn.root_of(I.ptr())
    J = fn.insts.get(r[1]) if r[0] == 'v' else None
    if J is not None and J.op == 'load':
        F = J.field()
        for s in ('simple_worklist', 'root_worklist'):
            if F == s + '.buf': out.add(s)
        if F == 'shared_worklist_buf.data': out.add('shared_worklist_buf')
    return out

def copies(fn, s, S):
    """instructions that write an element of queue s: stores and memcpy"""
    for I in fn.all():
        if I.op == 'store' and I is not S and s in element(fn, I): yield I, I.ptr()
        elif I.is_call() and (I.callee_name() or '').startswith(('llvm.memcpy', 'memcpy')) and I.ops:
            r = fn.root_of(I.ops[0]); J = fn.insts.get(r[1]) if r[0] == 'v' else None
            if J is not None and J.op == 'load' and J.field() == s + '.buf' or s + '.data' in (fn.fields_of(I.ops[0]) or ()): yield I, I.ops[0]

def near(fn, A, B):
    return fn.dominates(A, B) and fn.postdominates(B, A) or fn.dominates(B, A) and fn.postdominates(A, B)

def before(fn, S, field):
    """the value the queue's index had before the store S made it one more, as linear forms"""
    a, c = q.lin(fn, S.ops[0], current=False)
    return {k: v for k, v in a.items()}, c

def capacity(ctx, m, s):
    if s != 'local_worklist': return None
    t = m.types.get('struct.local_worklist') or m.types.get('local_worklist')
    return t

def mask_ok(fn, s, mask, idx=None):
    if s == 'root_worklist': return mask is None
    if mask is None: return False
    if s == 'local_worklist':
        c = const_of(mask); return c is not None and c > 0 and (c & (c + 1)) == 0
    a, c = q.lin(fn, mask)
    return c == -1 and len(a) == 1 and list(a.values()) == [1] and (list(a)[0] in ('simple_worklist.size', 'shared_worklist_buf.size'))

@rule('worklist-entries', 'C05', 'C04', configs=lambda c: (is_mmc(c) or is_pcc(c)), limits=())
def worklist_entries(ctx, m, cfg):
    npush = npop = 0
    for fn in m.defined():
        for S in list(fn.all()):
            if not S.is_write() or not S.field(): continue
            s, _, w = S.field().partition('.')
            if s not in W or w not in ('write', 'read'): continue
            if S.op == 'store' and const_of(S.ops[0]) == 0:
                continue
            if S.op == 'store' and const_of(S.ops[0]) is not None: ctx.bad('index-constant', S, 'a queue index is set to a constant: entries are forgotten or invented'); continue
            if S.op == 'cmpxchg': ctx.bad('index-cmpxchg', S, 'a queue index is changed in a way that is not understood'); continue
            if S.op == 'atomicrmw':
                if w != 'read' or S.raw['rmw'] != 'add' or const_of(S.ops[1]) != 1:
                    ctx.bad('index-step', S, '%s is not advanced by one' % S.field()); continue
                old = ('v', S.id)
                R = [I for I in fn.all() if I.op == 'load' and s in element(fn, I) and slot(fn, root_slot(fn, I)) and same(strip(fn, slot(fn, root_slot(fn, I))[0]), old)]
                if not R: ctx.bad('pop-drops', S, 'an entry of the queue is claimed but not read: it is lost'); continue
                for I in R:
                    if not any(p in ('ult', 'ne') and same(strip(fn, L), old) and from_field(fn, Rr, s + '.write') for p, L, Rr in guards(fn, I)):
                        ctx.bad('pop-unchecked', I, 'an entry is taken from the queue without a test that its index is below the write index'); break
                else: npop += 1; ctx.ok('entries are claimed one by one, below the write index', S)
                # every entry below the write index is read
                continue
            # linear update
            base = [J for J in q.value_loads(fn, S.ops[0]) if J.field() == S.field()]
            if not base: ctx.bad('index-step', S, '%s is not advanced from its previous value' % S.field()); continue
            a, c = q.lin0(fn, S.ops[0])
            a = dict(a); a.pop(S.field(), None)
            for J in base: a.pop(('v', J.id), None)
            if w == 'write':
                if a or c != 1: ctx.bad('index-step', S, 'the write index of the queue is advanced by something else than the one entry that is added'); continue
                ok = False; why = 'no entry is stored at the index'
                for D, p in copies(fn, s, S):
                    sl = slot(fn, p)
                    if not sl: continue
                    ai, ci = q.lin(fn, sl[0], current=False)
                    if not near(fn, D, S): continue
                    if not ((list(ai) == [S.field()] or any(('v', J.id) in ai for J in base)) and len(ai) == 1 and ci == 0): why = 'the entry is stored at another index'; continue
                    src = {J.id for J in q.value_loads(fn, sl[0]) if J.field() == S.field()}
                    # the index was read before the store advanced it
                    if any(fn.dominates(S, fn.insts[x]) for x in src): why = 'the entry is stored at the index after the one that was reserved'; continue
                    if not mask_ok(fn, s, sl[1]): why = 'the index is not reduced to the capacity of the queue'; continue
                    ok = True
                if not ok: ctx.bad('push-drops', S, 'the queue is made one entry longer, but %s: what was to be traced is lost' % why)
                else: npush += 1; ctx.ok('a queue grows by the entry stored at its write index', S)
            else:
                if not a and c == 1:
                    ok = False
                    for I in fn.all():
                        if I.op != 'load' or s not in element(fn, I): continue
                        sl = slot(fn, I.ptr())
                        if not sl or not near(fn, I, S): continue
                        src = [J for J in q.value_loads(fn, sl[0]) if J.field() == S.field()]
                        ai, ci = q.lin(fn, sl[0], current=False)
                        if len(ai) == 1 and ci == 0 and src and not any(fn.dominates(S, J) for J in src) and mask_ok(fn, s, sl[1]): ok = True
                    if not ok: ctx.bad('pop-drops', S, 'the read index of the queue is advanced past an entry that is not read: it is lost'); continue
                    if not nonempty(fn, S, s): ctx.bad('pop-unchecked', S, 'an entry is taken from the queue without a test that there is one'); continue
                    npop += 1; ctx.ok('an entry is read at the read index, if there is one, before the index is advanced', S)
                else:
                    if pop_many(ctx, m, fn, S, s, base, a, c): npop += 1
    ctx.need('pushes', npush, 3); ctx.need('pops', npop, 2)

def root_slot(fn, I):
    """for a load of a member of buf[i], the pointer to buf[i]"""
    p = I.ptr(); v = p
    while True:
        v = strip(fn, v)
        J = fn.insts.get(v[1]) if v[0] == 'v' else None
        if J is None or J.op != 'getelementptr': return p
        r = strip(fn, J.ops[0]); K = fn.insts.get(r[1]) if r[0] == 'v' else None
        if K is not None and K.op == 'load': return v
        v = J.ops[0]

def guards(fn, I):
    """comparisons that hold on the way to I"""
    out = []
    for T, s in fn.all_control_deps(I.block):
        if T.op in ('br', 'switch'):
            for a in edge_atoms(fn, T, s):
                if a[0] != 'in': out.append(a)
    d = fn.dom()
    return out

def nonempty(fn, S, s):
    for p, L, R in guards(fn, S):
        a, c = ld(fn, L, R)
        if set(a) == {s + '.write', s + '.read'} and c == 0:
            if p in ('ne', 'ugt', 'ult'): return True
    return False

def pop_many(ctx, m, fn, S, s, base, a, c):
    """read += n with the n entries from read passed on to another queue"""
    if s != 'local_worklist' or c or len(a) != 1:
        ctx.bad('index-step', S, 'the read index of the queue is advanced by something else than the entries taken'); return False
    atom = list(a)[0]
    nv = ['v', atom[1]] if atom[0] == 'v' else ['a', atom[1]]
    calls = [C for C in fn.all() if C.is_call() and any(element_ptr(fn, o, s) for o in C.ops)]
    calls = [C for C in calls if near(fn, C, S)]
    good = False
    for C in calls:
        p = next(o for o in C.ops if element_ptr(fn, o, s))
        if not any(same(strip(fn, o), nv) for o in C.ops): continue
        sl = slot(fn, p)
        if not sl or not mask_ok(fn, s, sl[1]): continue
        src = [J for J in q.value_loads(fn, sl[0]) if J.field() == S.field()]
        if not src or any(fn.dominates(S, J) for J in src): continue
        good = True
    if not good: ctx.bad('share-drops', S, 'the read index is advanced past entries, but not exactly those entries are handed to another queue: the others are lost'); return False
    leaves = min_leaves(fn, nv)
    avail = contig = False
    for v in leaves:
        b, k = q.lin(fn, v)
        if k == 0 and b == {s + '.write': 1, s + '.read': -1}: avail = True
        J = inst(fn, v)
        if J is not None and J.op == 'sub' and const_of(J.ops[0]) is not None:
            K = inst(fn, J.ops[1])
            if K is not None and K.op == 'and' and const_of(K.ops[1]) == const_of(J.ops[0]) - 1: contig = True
    if not avail: ctx.bad('share-beyond', S, 'more entries may be taken than the queue holds'); return False
    if not contig: ctx.bad('share-wraps', S, 'entries may be taken beyond the end of the queue\'s array'); return False
    ctx.ok('several entries are taken at once: no more than there are, nor than lie together', S)
    return True

def element_ptr(fn, o, s):
    if o[0] != 'v': return False
    F = fn.fields_of(o) or ()
    return s + '.data' in F

def min_leaves(fn, v, seen=None, d=0):
    """operands of a minimum computed by phis/selects guarded by comparisons of their operands (each checked to select the smaller)"""
    if seen is None: seen = set()
    I = inst(fn, v)
    if I is None or d > 8: return [v]
    if I.op == 'select':
        c = fn.insts.get(I.ops[0][1]) if I.ops[0][0] == 'v' else None
        if c is not None and c.op == 'icmp':
            p, L, R = c.raw['pred'], c.ops[0], c.ops[1]
            x, y = I.ops[1], I.ops[2]
            if p in ('ult', 'ule') and same(strip(fn, L), strip(fn, x)) and same(strip(fn, R), strip(fn, y)) or p in ('ugt', 'uge') and same(strip(fn, L), strip(fn, y)) and same(strip(fn, R), strip(fn, x)):
                return [v] + min_leaves(fn, x, seen, d + 1) + min_leaves(fn, y, seen, d + 1)
        return [v]
    if I.op == 'call' and (I.callee_name() or '').startswith('llvm.umin'):
        return [v] + min_leaves(fn, I.ops[0], seen, d + 1) + min_leaves(fn, I.ops[1], seen, d + 1)
    if I.op == 'phi' and len(I.ops) == 2 and I.block not in fn.loops():
        (x, bx), (y, by) = I.ops
        for (p1, b1), (p2, b2) in (((x, bx), (y, by)), ((y, by), (x, bx))):
            # p1 chosen: p1 < p2 must hold on the way through b1
            for b, s in ((b1, None),):
                T = None
                gs = []
                for TT, ss in fn.all_control_deps(b): gs += [a for a in edge_atoms(fn, TT, ss) if a[0] != 'in']
                ok = any(g[0] in ('ult', 'ule') and same(strip(fn, g[1]), strip(fn, p1)) and same(strip(fn, g[2]), strip(fn, p2)) or g[0] in ('ugt', 'uge') and same(strip(fn, g[2]), strip(fn, p1)) and same(strip(fn, g[1]), strip(fn, p2)) for g in gs)
                if ok: return [v] + min_leaves(fn, p1, seen, d + 1) + min_leaves(fn, p2, seen, d + 1)
        # constants have no identity of their own
        for (p1, b1), (p2, b2) in (((x, bx), (y, by)), ((y, by), (x, bx))):
            gs = []
            for TT, ss in fn.all_control_deps(b1): gs += [a for a in edge_atoms(fn, TT, ss) if a[0] != 'in']
            for g in gs:
                l, r = const_of(g[1]), const_of(g[2]); k1 = const_of(p1)
                if k1 is not None and (g[0] in ('ult', 'ule') and l == k1 and same(strip(fn, g[2]), strip(fn, p2)) or g[0] in ('ugt', 'uge') and r == k1 and same(strip(fn, g[1]), strip(fn, p2))):
                    return [v] + min_leaves(fn, p2, seen, d + 1)
    return [v]

# -- room ------------------------------------------------------------------------------------
class Room(Automaton):
    """state: 'room' once the queue was seen to have room, or was given some, since the last push"""
    def __init__(self, m, s): super().__init__(m); self.s = s; self.hits = {}
    def relevance_key(self): return self.s
    def relevant(self, I):
        f = I.field() if I.is_mem() else None
        return bool(f) and (f in (self.s + '.read', self.s + '.write', self.s + '.size', self.s + '.buf'))
    def step(self, st, I):
        if not I.is_write(): return None
        f = I.field()
        if f == self.s + '.write':
            if const_of(I.ops[0]) is not None: return ['room' if self.s != 'root_worklist' else 'room']
            if st != 'room' : self.error('push-full', I, 'an entry is added without a test that the queue has room for it (or without making some): it overwrites one that was not traced yet')
            else: self.hits.setdefault('an entry is added only when there is room', {})[(I.fn.name, I.id)] = I
            return ['unknown']
        if f == self.s + '.read' and self.s == 'local_worklist': return ['room']
        if f == self.s + '.buf' : return ['room']
        return None
    def assume(self, st, I, pred, L, R):
        if pred == 'in': return None
        fn = I.fn; s = self.s
        a, c = ld(fn, L, R)
        w, r, z = s + '.write', s + '.read', s + '.size'
        if s == 'local_worklist':
            for sgn, p in ((1, pred), (-1, SWAP[pred])):
                x = {k: sgn * v for k, v in a.items()}; k = sgn * c
                if x == {w: 1, r: -1}:
                    # size - cap  p 0
                    cap = self.cap(fn)
                    if p == 'ult' and -k <= cap or p == 'ule' and -k <= cap - 1 or p == 'eq' and -k < cap: return ['room']
                    if p == 'ne' and -k == cap: return ['room']
        elif s == 'simple_worklist':
            for sgn, p in ((1, pred), (-1, SWAP[pred])):
                x = {k: sgn * v for k, v in a.items()}; k = sgn * c
                if x == {w: 1, r: -1, z: -1} and (p in ('ne', 'ult') and k == 0 or p == 'ule' and k == 1): return ['room']
        else:
            for sgn, p in ((1, pred), (-1, SWAP[pred])):
                x = {k: sgn * v for k, v in a.items()}; k = sgn * c
                if x == {w: 1, z: -1} and (p in ('ne', 'ult') and k == 0 or p == 'ule' and k == 1): return ['room']
        return None
    def cap(self, fn):
        # element count of the array, from the masks of its accesses
        c = self.mod.__dict__.setdefault('_lwcap', None)
        if c is None:
            for f in self.mod.defined():
                for I in f.all():
                    if 'local_worklist' in element(f, I):
                        sl = slot(f, I.ptr())
                        if sl and sl[1] is not None and const_of(sl[1]) is not None:
                            k = const_of(sl[1]) + 1; c = k if c is None else min(c, k)
            self.mod._lwcap = c or 0
        return self.mod._lwcap

@rule('worklist-room', 'C05', configs=lambda c: (is_mmc(c) or is_pcc(c)), limits=())
def worklist_room(ctx, m, cfg):
    n = 0
    for s in W:
        fns = [f.name for f in m.defined() if any(I.is_write() and I.field() == s + '.write' and const_of(I.ops[0]) is None for I in f.all())]
        A = Room(m, s)
        for f in fns: A.run(f, 'unknown')
        q.tally(ctx, A); n += sum(len(d) for d in A.hits.values())
    ctx.need('pushes with room', n, 3)
    grown(ctx, m)

def grown(ctx, m):
    """growing a queue keeps its entries"""
    n = 0
    for fn in m.defined():
        for S in fn.all():
            if S.op != 'store': continue
            if S.field() == 'root_worklist.buf':
                if fn.name == 'gc_init' and const_of(S.ops[0]) == 0: continue
                J = inst(fn, S.ops[0])
                if J is None or not J.is_call() or J.callee_name() != 'realloc': ctx.bad('root-grow', S, 'the root queue gets a new array that does not hold its entries'); continue
                o = inst(fn, J.ops[0]) if J.ops[0][0] == 'v' else None
                if o is None or o.field() != 'root_worklist.buf':
                    if fn.name != 'gc_init': ctx.bad('root-grow', J, 'the root queue is not reallocated from its old array')
                a, c = q.lin(fn, J.ops[1])
                el = esize(m, 'gc_root')
                if c or list(a) != ['root_worklist.size'] or el and list(a.values())[0] < el:
                    if const_of(J.ops[1]) is None: ctx.bad('root-grow', J, 'the root queue is not given room for as many roots as its size says')
                n += 1; ctx.ok('the root queue is reallocated with its entries, for as many roots as its size says', S)
            if S.field() == 'root_worklist.size':
                if const_of(S.ops[0]) is not None: continue
                a, c = q.lin(fn, S.ops[0], current=False)
                if c or list(a) != ['root_worklist.size'] or list(a.values())[0] < 2: ctx.bad('root-grow', S, 'the size of the full root queue does not grow')
                # the array is reallocated afterwards, from the new size
                def alloc(I):
                    if not I.is_call(): return False
                    if I.callee_name() == 'realloc': return True
                    return any(any(J.is_call() and J.callee_name() == 'realloc' for J in (m.fn(t).all() if m.fn(t) and not m.fn(t).decl else ())) for t in m.targets(I))
                if not any(fn.postdominates(C, S) for C in fn.all() if alloc(C)): ctx.bad('root-grow', S, 'the root queue\'s size grows but its array does not')
                else: ctx.ok('the array of the root queue grows with its size', S)
            if S.field() == 'simple_worklist.buf' and fn.name != 'gc_init':
                simple_grow(ctx, m, fn, S); n += 1
    ctx.need('growing queues', n)

def esize(m, name):
    for k in (name, 'struct.' + name):
        t = m.types.get(k)
        if isinstance(t, dict) and t.get('size'): return t['size'] // 8
    return None

def copy_loop(fn, into, frm):
    """(instruction, address written, address read) of copies of one entry"""
    out = []
    for D in fn.all():
        if D.op == 'store':
            L = inst(fn, D.ops[0])
            if L is not None and L.op == 'load' and into(D.ptr()) and frm(L.ptr()): out.append((D, D.ptr(), L.ptr()))
        elif D.is_call() and (D.callee_name() or '').startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove')) and into(D.ops[0]) and frm(D.ops[1]): out.append((D, D.ops[0], D.ops[1]))
    return out

def simple_grow(ctx, m, fn, S):
    new = strip(fn, S.ops[0])
    def newroot(p): r = strip(fn, fn.root_of(p)); return same(r, new) or same(r, S.ops[0])
    def oldroot(p):
        r = fn.root_of(p); J = fn.insts.get(r[1]) if r[0] == 'v' else None
        return J is not None and J.op == 'load' and J.field() == 'simple_worklist.buf'
    Z = [I for I in fn.all() if I.op == 'store' and I.field() == 'simple_worklist.size']
    if not Z: ctx.bad('grow-size', S, 'the queue gets a new array but its size stays what it was'); return
    a, c = q.lin(fn, Z[0].ops[0], current=False)
    if c or a != {'simple_worklist.size': 2} and not (len(a) == 1 and list(a.values())[0] in (2, 4, 8)): ctx.bad('grow-size', Z[0], 'the size of the queue does not grow by a power of two'); return
    al = inst(fn, S.ops[0])
    srcs = [x for x in allocs(fn, S.ops[0])]
    want = q.lin(fn, Z[0].ops[0], current=False)
    for C in srcs:
        b, k = q.lin(fn, C.ops[1] if C.callee_name() == 'mmap' else C.ops[0], current=True)
        # bytes = new size * 8
        b0, _ = q.lin(fn, C.ops[1] if C.callee_name() == 'mmap' else C.ops[0], current=False)
        x = list(b0.values()) or list(b.values())
        if x and x[0] < list(a.values())[0] * 8 and not (b == {'simple_worklist.size': 8}): ctx.bad('grow-size', C, 'the new array is smaller than the size of the queue says'); return
    good = False; why = 'its entries are not copied to the new array'
    for D, dp, sp in copy_loop(fn, newroot, oldroot):
        sd, sl = slot(fn, dp), slot(fn, sp)
        if not sd or not sl: continue
        if not same(strip(fn, sd[0]), strip(fn, sl[0])): why = 'entries are copied to another index'; continue
        i = induction(fn, sd[0])
        if not i or i[2] != 1: why = 'not every entry is copied'; continue
        if not from_field(fn, i[1], 'simple_worklist.read') or not any(p in ('ult', 'ne') and from_field(fn, B, 'simple_worklist.write') for T, p, B in loop_bounds(fn, i[0])):
            why = 'not every entry from the read index to the write index is copied'; continue
        md, ml = sd[1], sl[1]
        if md is None or ml is None: why = 'an index is not reduced to the size of its array'; continue
        ad, cd = q.lin(fn, md, current=False); al_, cl = q.lin(fn, ml, current=False)
        if cd != -1 or cl != -1 or list(al_) != ['simple_worklist.size'] or list(al_.values()) != [1] or list(ad.values()) != list(a.values()) and ad != {'simple_worklist.size': 2}:
            why = 'an index is not reduced to the size of its array'; continue
        if S.block not in fn.reachable([D.block]): why = 'entries are copied only after the array was replaced'; continue
        good = True
    if good: ctx.ok('growing copies every entry to its place in the new array', S)
    else: ctx.bad('grow-drops', S, 'the array of the queue is replaced by a larger one, but %s' % why)
    # the indices used stay valid: read and write are not changed
    F = [C for C in fn.all() if C.is_call() and C.callee_name() == 'munmap']
    for C in F:
        for D, dp, sp in copy_loop(fn, newroot, oldroot):
            if D.block in fn.reachable([C.block]) and C.block not in fn.loops(): ctx.bad('grow-unmapped', C, 'the old array is unmapped before its entries are copied')

def allocs(fn, v, seen=None):
    if seen is None: seen = set()
    I = inst(fn, v)
    if I is None or I.id in seen: return []
    seen.add(I.id)
    if I.op == 'call': return [I]
    if I.op in ('phi', 'select'): return [x for o in I.ops for x in allocs(fn, o[0] if I.op == 'phi' else o, seen) if isinstance(o, (list, tuple))]
    return []

# -- the shared deque ------------------------------------------------------------------------
B_, T_, ACT = 'shared_worklist.bottom', 'shared_worklist.top', 'shared_worklist.active'

def buf_index(fn, ptr):
    """the index into bufs[] on the way to ptr (through the load of .data)"""
    v = ptr; found = None
    for _ in range(40):
        v = strip(fn, v); I = fn.insts.get(v[1]) if v[0] == 'v' else None
        if I is None: break
        if I.op == 'getelementptr':
            if 'shared_worklist.bufs' in (fn.fields_of(I.ops[0]) or ()): found = strip(fn, I.ops[-1])
            v = I.ops[0]
        elif I.op == 'load': v = I.ptr()
        else: break
    return found

@rule('deque-entries', 'C05', 'C29', configs=is_par, limits=())
def deque_entries(ctx, m, cfg):
    npush = npop = nsteal = ngrow = 0
    for fn in m.defined():
        if fn.name == 'gc_init': continue
        els = [I for I in fn.all() if I.is_mem() and 'shared_worklist_buf' in element(fn, I)]
        for S in fn.all():
            if S.op != 'store': continue
            if S.field() == B_:
                a, c = q.lin(fn, S.ops[0], current=False)
                rest = {k: v for k, v in a.items() if k != B_}
                if a.get(B_) != 1: ctx.bad('bottom-step', S, 'the bottom of the queue is not moved from its previous value'); continue
                if not rest and c == 0: continue                     # put back
                if not rest and c == -1: npop += pop_ok(ctx, fn, S, els); continue
                if rest and (c or list(rest.values()) != [1] or len(rest) != 1) or not rest and c != 1:
                    ctx.bad('bottom-step', S, 'the bottom of the queue is moved by something else than the number of entries added'); continue
                npush += push_ok(ctx, fn, S, els, rest)
            elif S.field() == ACT and const_of(S.ops[0]) is None:
                ngrow += grow_ok(ctx, m, fn, S, els)
        for C in fn.all():
            if C.op == 'cmpxchg' and C.field() == T_: nsteal += claim_ok(ctx, fn, C, els)
    ctx.need('pushes on shared queues', npush); ctx.need('owner pops', npop); ctx.need('claims', nsteal, 2); ctx.need('growth of shared queues', ngrow)

def same_buffer(fn, I, sl):
    """the mask used with an element access is the size of the buffer accessed"""
    if sl[1] is None or not mask_ok(fn, 'shared', sl[1]): return False
    L = [J for J in q.value_loads(fn, sl[1]) if J.field() == 'shared_worklist_buf.size']
    if not L: return False
    x, y = buf_index(fn, I.ptr()), buf_index(fn, L[0].ptr())
    return x is not None and y is not None and ld(fn, x, y) == ({}, 0)

def push_ok(ctx, fn, S, els, rest):
    n = ['c', 1, 64] if not rest else (['v', list(rest)[0][1]] if list(rest)[0][0] == 'v' else ['a', list(rest)[0][1]])
    b0 = [J for J in q.value_loads(fn, S.ops[0]) if J.field() == B_]
    puts = []
    for D in els:
        if D.op != 'store': continue
        sl = slot(fn, D.ptr())
        if not sl: continue
        a, c = q.lin(fn, sl[0], current=False)
        if a.get(B_) != 1: continue
        puts.append((D, sl, {k: v for k, v in a.items() if k != B_}, c))
    if not puts: ctx.bad('push-drops', S, 'the shared queue is made longer, but no entry is stored from its bottom on: what was to be traced is lost'); return 0
    for D, sl, r, c in puts:
        if not same_buffer(fn, D, sl): ctx.bad('push-slot', D, 'an entry is stored at an index that is not reduced to the size of the buffer it is stored in'); return 0
        if const_of(n) == 1:
            if r or c: ctx.bad('push-slot', D, 'the entry is not stored at the bottom of the queue'); return 0
            if not fn.dominates(D, S): ctx.bad('push-drops', S, 'the queue is made longer on a path that stores no entry'); return 0
        else:
            if c or len(r) != 1 or list(r.values()) != [1]: ctx.bad('push-slot', D, 'entries are not stored one after the other from the bottom of the queue'); return 0
            i = induction(fn, ['v', list(r)[0][1]]) if list(r)[0][0] == 'v' else None
            if not i or i[2] != 1 or not covers(fn, i[0], i[1], 0, lambda B: same(strip(fn, B), n)):
                ctx.bad('push-drops', S, 'the queue is made longer by more entries than are stored'); return 0
            src = inst(fn, D.ops[0])
            if src is not None and src.op == 'load':
                x = slot(fn, src.ptr())
                if x and not ld(fn, x[0], ['v', i[0].id]) == ({}, 0): ctx.bad('push-drops', D, 'the entries stored are not those that were handed over, each once'); return 0
        # room
        room = False
        for p, L, R in guards(fn, D) + loop_guards(fn, D):
            a, c0 = ld(fn, L, R)
            for sgn, pp in ((1, p), (-1, SWAP[p])):
                x = {k: sgn * v for k, v in a.items()}; k = sgn * c0
                if x.get(B_) != 1 or x.get(T_) != -1 or x.get('shared_worklist_buf.size') != -1: continue
                y = {kk: vv for kk, vv in x.items() if kk not in (B_, T_, 'shared_worklist_buf.size')}
                need = dict(rest)
                if y != need: continue
                if not rest: k -= 1
                if pp in ('ule', 'sle') and k >= 0 or pp in ('ult', 'slt') and k >= -1:
                    Z = [J for J in q.value_loads(fn, L) + q.value_loads(fn, R) if J.field() == 'shared_worklist_buf.size']
                    if Z and ld(fn, buf_index(fn, Z[0].ptr()) or ['c', -1, 64], buf_index(fn, D.ptr()) or ['c', -2, 64]) == ({}, 0) : room = True
                    elif Z and grown_to(fn, Z[0], D): room = True
        if not room: ctx.bad('push-full', D, 'entries are added to the shared queue without a test that the buffer they go to has room for all of them: they overwrite entries that were not taken yet'); return 0
    ctx.ok('a shared queue is made longer by the entries stored from its bottom on, in a buffer with room for them', S)
    return 1

def grown_to(fn, Z, D):
    """if (too small) cur = grow(cur): the buffer index at D is a phi of the tested one and its successor"""
    x, y = buf_index(fn, Z.ptr()), buf_index(fn, D.ptr())
    I = inst(fn, y) if y else None
    if I is None or I.op != 'phi': return False
    for o, b in I.ops:
        if ld(fn, o, x) not in (({}, 0), ({}, 1)): return False
    return True

def loop_guards(fn, D):
    """conditions under which loops before D were left"""
    out = []
    for h, body in fn.loops().items():
        if D.block in body or not fn.block_dominates(h, D.block): continue
        exits = [(b, s) for b in body for s in fn.succ[b] if s not in body and D.block in fn.reachable([s])]
        if len(exits) == 1:
            b, s = exits[0]; T = fn.terminator(b)
            if T.op == 'br' and T.ops: out += [a for a in edge_atoms(fn, T, s) if a[0] != 'in']
    # straight-line tests that D's block is reached through either way
    return out

def pop_ok(ctx, fn, S, els):
    R = [D for D in els if D.op == 'load' and fn.dominates(S, D)]
    good = False
    for D in R:
        sl = slot(fn, D.ptr())
        a, c = q.lin(fn, sl[0], current=False) if sl else ({}, 0)
        if a == {B_: 1} and c == -1 and same_buffer(fn, D, sl): good = D
    if not good: ctx.bad('pop-slot', S, 'the owner takes the bottom entry away but does not read it: it is lost'); return 0
    # if there was only one entry, or none, the bottom is put back
    rest = [X for X in fn.all() if X.op == 'store' and X.field() == B_ and q.lin(fn, X.ops[0], current=False) == ({B_: 1}, 0)]
    bad = None
    for b in fn.exits():
        pass
    class P(Automaton):
        descend = False
        def step(self, st, I):
            if I is S: return [('took', None)]
            if I in rest and st[0] == 'took': return [('back', st[1])]
            return None
        def ret(self, st, I):
                if st[0] == 'took' and st[1] != 'many': self.error('pop-restore', I, 'the owner leaves the bottom of its queue moved although it may not have taken an entry by that (there was one contended entry or none): top and bottom no longer say what the queue holds')
        def assume(self, st, I, p, L, R):
            if st[0] == 'init' or p == 'in': return None
            a, c = ld(fn, L, R)
            for sgn, pp in ((1, p), (-1, SWAP[p])):
                x = {k: sgn * v for k, v in a.items()}; k = sgn * c
                if set(x) == {B_, T_} and x[B_] == 1:
                    lo = {('sgt', 0): 1, ('sge', -1): 1, ('sgt', -1): 2, ('sge', -2): 2}.get((pp, k))
                    if lo == 1: return [(st[0], 'some' if st[1] not in ('many', 'ne1') else 'many')]
                    if lo == 2: return [(st[0], 'many')]
                    if pp == 'ne' and k == -1: return [(st[0], 'many' if st[1] == 'some' else 'ne1')]
            return None
    A = P(fn.mod); A.run(fn.name, ('init', None))
    if A.errors: q.report(ctx, A); return 0
    ctx.ok('the owner reads the entry it takes, and puts the bottom back unless more than that one was there', S)
    return 1

def claim_ok(ctx, fn, C, els):
    """an entry is passed on only where its claim succeeded"""
    t = [J for J in q.value_loads(fn, C.ops[1]) if J.field() == T_]
    D = [d for d in els if d.op == 'load' and fn.dominates(d, C)]
    if not t or not D: return 0
    for d in D:
        sl = slot(fn, d.ptr())
        if not sl or not same_buffer(fn, d, sl): ctx.bad('steal-slot', d, 'an entry is read at an index that is not reduced to the size of the buffer'); return 0
        a, c = q.lin(fn, sl[0], current=False)
        if not (a == {T_: 1} and c == 0 or a == {B_: 1} and c == -1): ctx.bad('steal-slot', d, 'the entry read is not the one that is claimed'); return 0
        if a == {T_: 1} and not any(J is t[-1] for J in q.value_loads(fn, sl[0])): ctx.bad('steal-slot', d, 'the entry read is not the one that is claimed'); return 0
    ok = [U for U in fn.users(['v', C.id]) if U.op == 'extractvalue' and U.ty == 'i1']
    br = [(U, T) for U in ok for T in (fn.terminator(b) for b in fn.live_blocks()) if T is not None and T.op == 'br' and T.ops and depends(fn, T.ops[0], U)]
    sel = [U for U in ok if any(X.op == 'select' for X in fn.users(['v', U.id]))]
    if not br and not sel: ctx.bad('claim-ignored', C, 'the entry is passed on whether or not the claim on it succeeded: it is traced by two workers, or another is lost'); return 0
    for U, T in br:
        for s in fn.succ[T.block]:
            at = edge_atoms(fn, T, s)
            won = any(p == 'ne' and tuple(strip(fn, L)[:2]) == ('v', U.id) or p == 'eq' and const_of(R) == 1 and tuple(strip(fn, L)[:2]) == ('v', U.id) for p, L, R in at if p != 'in')
            vals = passed_on(fn, T.block, s, D[-1])
            if not won and vals and C.block not in fn.reachable([s], ()) and vals == {'entry'}:
                ctx.bad('claim-ignored', C, 'the entry is passed on although the claim on it failed'); return 0
            if won and vals and 'entry' not in vals: ctx.bad('claim-dropped', C, 'the entry that was claimed is not passed on: it is lost'); return 0
    ctx.ok('an entry is read at the index claimed and passed on where the claim succeeds', C)
    return 1

def depends(fn, v, U, d=0):
    v = strip(fn, v)
    if v[0] != 'v' or d > 6: return False
    if v[1] == U.id: return True
    I = fn.insts[v[1]]
    return I.op in ('xor', 'icmp', 'and', 'or') and any(depends(fn, o, U, d + 1) for o in I.ops if o[0] == 'v')

def passed_on(fn, b, s, d):
    """what the first phi after the edge b -> s that chooses between the entry d and null chooses: 'entry' / 'null'"""
    prev, cur, hops = b, s, 0
    while hops < 6:
        hops += 1
        for I in fn.blocks[cur]:
            if I.op != 'phi': break
            for o, p in I.ops:
                if p == prev:
                    if tuple(strip(fn, o)[:2]) == ('v', d.id): return {'entry'}
                    if const_of(o) == 0 and any(tuple(strip(fn, x)[:2]) == ('v', d.id) for x, _ in I.ops): return {'null'}
        T = fn.terminator(cur)
        if T is not None and T.op == 'ret' and T.ops and tuple(strip(fn, T.ops[0])[:2]) == ('v', d.id): return {'entry'}
        if len(fn.succ[cur]) != 1: return None
        prev, cur = cur, fn.succ[cur][0]
    return None

def grow_ok(ctx, m, fn, S, els):
    cur = q.lin(fn, S.ops[0], current=False)
    good = False; why = 'its entries are not copied to the next buffer'
    for D in els:
        if D.op != 'store': continue
        L = inst(fn, D.ops[0])
        if L is None or L not in els: continue
        sd, sl = slot(fn, D.ptr()), slot(fn, L.ptr())
        if not sd or not sl: continue
        if not same(strip(fn, sd[0]), strip(fn, sl[0])): why = 'entries are copied to another index'; continue
        if not same_buffer(fn, D, sd) or not same_buffer(fn, L, sl): why = 'an index is not reduced to the size of its own buffer'; continue
        i = induction(fn, sd[0])
        if not i or i[2] != 1: why = 'not every entry is copied'; continue
        if not from_field(fn, i[1], T_) or not any(p in ('ult', 'ne') and from_field(fn, B, B_) for T, p, B in loop_bounds(fn, i[0])): why = 'not every entry from top to bottom is copied'; continue
        x, y = buf_index(fn, D.ptr()), buf_index(fn, L.ptr())
        if x is None or y is None or ld(fn, x, y) != ({}, 1): why = 'entries are not copied from one buffer to the next'; continue
        if ld(fn, S.ops[0], x) != ({}, 0): why = 'the buffer made active is not the one the entries were copied to'; continue
        if S.block not in fn.reachable([D.block]): why = 'entries are copied after the buffer was made active'; continue
        good = True
    if not good: ctx.bad('grow-drops', S, 'the shared queue moves to a larger buffer, but %s' % why); return 0
    ls = [I for I in fn.all() if I.op == 'store' and I.field() == 'shared_worklist_buf.size']
    lg = [I for I in fn.all() if I.op == 'store' and I.field() == 'shared_worklist_buf.log_size']
    da = [I for I in fn.all() if I.op == 'store' and I.field() == 'shared_worklist_buf.data']
    if not ls or not lg or not da: ctx.bad('grow-buffer', S, 'the larger buffer is made active without its size, log size or data having been set'); return 0
    J = inst(fn, ls[0].ops[0])
    if J is None or J.op != 'shl' or const_of(J.ops[0]) != 1 or ld(fn, J.ops[1], lg[0].ops[0]) != ({}, 0): ctx.bad('grow-buffer', ls[0], 'the size of the larger buffer is not the power of two its log size says'); return 0
    al = allocs(fn, da[0].ops[0])
    for C in al:
        a, c = q.lin(fn, C.ops[0]); b, d = q.lin(fn, ls[0].ops[0], current=False)
        K = inst(fn, C.ops[0])
        okb = K is not None and (K.op == 'mul' and const_of(K.ops[1]) is not None and const_of(K.ops[1]) >= 8 or K.op == 'shl' and const_of(K.ops[1]) is not None and const_of(K.ops[1]) >= 3) and value_same(fn, K.ops[0], ls[0].ops[0])
        if not okb and a != {'shared_worklist_buf.size': 8}: ctx.bad('grow-buffer', C, 'the memory obtained for the larger buffer is not its size in words'); return 0
    lo = [J for J in q.value_loads(fn, lg[0].ops[0]) if J.field() == 'shared_worklist_buf.log_size']
    a, c = q.lin0(fn, lg[0].ops[0])
    if not lo or c < 1: ctx.bad('grow-buffer', lg[0], 'the next buffer is not larger than the one that is full'); return 0
    ctx.ok('a full shared queue moves to a larger buffer with all entries from top to bottom', S)
    return 1

def value_same(fn, a, b):
    a, b = strip(fn, a), strip(fn, b)
    return same(a, b) or fn.expr(a, 5) == fn.expr(b, 5)

# -- running a trace -------------------------------------------------------------------------
def counter_exit(fn, pred, L, R, T):
    """(phi, start, step, shift): phi + shift, from a constant start, was seen to have reached worker_count"""
    for p, x, y in ((pred, L, R), (SWAP.get(pred), R, L)):
        if p in ('uge', 'eq', 'sge') and from_field(fn, y, NW):
            a, c = q.lin(fn, x, current=False)
            if len(a) != 1 or list(a.values()) != [1] or list(a)[0][0] != 'v': continue
            i = induction(fn, ['v', list(a)[0][1]])
            if i and c and T is not None:
                # the counter's next value is the counter itself where the test is not in the iteration that computed it
                J = inst(fn, x)
                if J is not None and J.id != i[0].id and any(tuple(strip(fn, o[0])[:2]) == ('v', J.id) for o in i[0].ops) and not fn.block_dominates(J.block, T.block): c = 0
            if i and i[2] == 1 and const_of(i[1]) is not None: return i[0], ['c', const_of(i[1]) + c, 64], 1, c
    return None

def lock_loop(fn, phi, shift=0):
    """the counter is advanced only where workers[counter].lock was taken"""
    body = fn.loops()[phi.block]
    locks = [I for b in body for I in fn.blocks[b] if I.is_call() and I.callee_name() in ('pthread_mutex_lock', 'pthread_mutex_trylock') and fn.field_of(I.ops[0]) == WLOCK and worker_idx(fn, I.ops[0], phi, shift)]
    if not locks: return False
    for o, b in phi.ops:
        if b not in body: continue
        vals = [(o, b)]
        J = inst(fn, o)
        if J is not None and J.op == 'phi' and J.id != phi.id: vals = [(x, y) for x, y in J.ops]
        for x, y in vals:
            if tuple(strip(fn, x)[:2]) == ('v', phi.id): continue
            ok = False
            for C in locks:
                if C.block != y and not fn.block_dominates(C.block, y): continue
                if C.callee_name() == 'pthread_mutex_lock': ok = True
                else: ok = ok or any(p == 'eq' and const_of(R) == 0 and tuple(strip(fn, L)[:2]) == ('v', C.id) for p, L, R in guards(fn, fn.terminator(y)))
            if not ok: return False
    return True

def worker_idx(fn, ptr, phi, shift=0):
    return any(q.lin(fn, o, current=False) == ({('v', phi.id): 1}, shift) for o in gep_indices(fn, ptr))

def gep_indices(fn, ptr):
    v = ptr; out = []
    for _ in range(12):
        v = strip(fn, v); I = fn.insts.get(v[1]) if v[0] == 'v' else None
        if I is None or I.op != 'getelementptr': return out
        out += I.ops[1:]; v = I.ops[0]
    return out

def steals_in(m, fn, body):
    for b in body:
        for I in fn.blocks[b]:
            if I.op == 'cmpxchg' and I.field() == T_: return I
            if I.is_call():
                for t in m.targets(I):
                    g = m.fn(t)
                    if g and not g.decl and any(J.op == 'cmpxchg' and J.field() == T_ for J in g.all()) and not any(J.op == 'store' and J.field() == B_ for J in g.all()): return I
    return None

def size_test_in(fn, body):
    """a test in the loop that leaves it when some queue is not empty"""
    out = []
    for b in body:
        T = fn.terminator(b)
        if T is None or T.op != 'br' or not T.ops: continue
        for s in fn.succ[b]:
            for p, L, R in edge_atoms(fn, T, s):
                if p == 'in': continue
                a, c = ld(fn, L, R)
                for sgn, pp in ((1, p), (-1, SWAP[p])):
                    x = {k: sgn * v for k, v in a.items()}; k = sgn * c
                    if x == {B_: 1, T_: -1} and (pp, k) in (('sgt', 0), ('sge', -1), ('ne', 0)): out.append((T, s))
    return out

def visits_all(fn, body, phi):
    """the loop looks at another worker each time round: by its own counter, or by a position advanced modulo the number of workers"""
    idx = []
    for b in body:
        for I in fn.blocks[b]:
            if I.op == 'getelementptr' and len(I.ops) == 3 and 'gc_tracer.workers' in (fn.fields_of(I.ops[0]) or ()): idx += [strip(fn, o) for o in I.ops[1:]]
    idx = [o for o in idx if o[0] != 'c']
    if any(tuple(o[:2]) == ('v', phi.id) for o in idx): return True
    if not any(from_field(fn, o, 'gc_trace_worker.steal_id') for o in idx): 
        # some function of the counter
        return any(('v', phi.id) in q.lin(fn, (inst(fn, o).ops[0] if inst(fn, o) is not None and inst(fn, o).op == 'urem' else o))[0] for o in idx)
    for b in body:
        for S in fn.blocks[b]:
            if S.op == 'store' and S.field() == 'gc_trace_worker.steal_id':
                J = inst(fn, S.ops[0])
                if J is not None and J.op == 'urem' and from_field(fn, J.ops[1], NW):
                    a, c = q.lin(fn, J.ops[0], current=False)
                    if a == {'gc_trace_worker.steal_id': 1} and c == 1: return True
                if J is not None and J.op in ('phi', 'select'):
                    # wrap-around by comparison: id + 1 == n ? 0 : id + 1
                    vs = [o[0] for o in J.ops] if J.op == 'phi' else J.ops[1:]
                    if any(const_of(v) == 0 for v in vs) and any(q.lin(fn, v, current=False) == ({'gc_trace_worker.steal_id': 1}, 1) for v in vs): return True
    return False

class Trace(Automaton):
    """state: (phase, roots, local, others, main, locked, checked, roots_only)"""
    N = dict(phase=0, roots=1, local=2, others=3, main=4, locked=5, checked=6, ro=7)
    def __init__(self, m): super().__init__(m); self.hits = {}
    def relevant(self, I):
        f = I.field() if I.is_mem() else None
        if f and f.split('.')[0] in ('local_worklist', 'gc_tracer', 'root_worklist') or f in ('gc_trace_worker.id', T_, B_): return True
        return I.is_call() and (I.callee_name() or '').startswith('pthread_mutex') and (I.fn.field_of(I.ops[0]) == WLOCK)
    def put(self, st, **kw):
        l = list(st)
        for k, v in kw.items(): l[self.N[k]] = v
        return [tuple(l)]
    def hit(self, what, I): self.hits.setdefault(what, {})[(I.fn.name, I.id)] = I
    def step(self, st, I):
        phase, roots, local, others, main, locked, checked, ro = st
        f = I.field() if I.is_mem() else None
        if I.op == 'atomicrmw' and f == 'gc_tracer.active_tracers' :
            k = const_of(I.ops[1]); k = -k if I.raw['rmw'] == 'sub' else k
            if k == 1:
                if phase == 'in': self.error('active-twice', I, 'a worker counts itself as active twice')
                return self.put(st, phase='in')
            if k == -1:
                if phase != 'in': self.error('inactive-early', I, 'a worker counts itself as idle although it did not count itself as active')
                if roots != 'drained': self.error('roots-left', I, 'a worker goes idle without having seen the root queue empty: roots may never be traced')
                if local != 'empty': self.error('local-left', I, 'a worker goes idle with entries in its private queue, where nobody else will find them')
                if ro != 1:
                    if others != 'empty': self.error('others-left', I, 'a worker goes idle without having looked at the queue of every worker')
                    if main is None: self.error('main-unchecked', I, 'tracing ends the same way for the main worker as for its helpers: it does not wait for them')
                    if main is True and locked != 'all': self.error('ends-early', I, 'the main worker ends the trace without having made sure that every helper is parked (taken every helper\'s lock)')
                    elif main is True and checked != 'yes': self.error('ends-unchecked', I, 'the main worker ends the trace without having looked, after every helper was parked, whether some queue still holds entries')
                elif main is not False and locked != 'all': self.error('roots-end-early', I, 'the main worker ends a trace of roots without having made sure that every helper has finished its roots (taken every helper\'s lock)')
                self.hit('a worker goes idle only when no work is left', I)
                return self.put(st, phase='out')
            self.error('active-step', I, 'the number of active workers changes by something else than one')
        if f == 'gc_tracer.active_tracers' and I.op == 'store' and phase == 'in': self.error('active-step', I, 'the number of active workers is overwritten')
        if phase != 'in': return None
        if I.op == 'store' and f == 'local_worklist.write': return self.put(st, local='dirty', others='?', checked='no')
        if I.op == 'store' and f == B_:
            a, c = q.lin(I.fn, I.ops[0], current=False)
            if c == -1: return self.put(st, others='?')
        if I.op == 'cmpxchg' and f == T_: return self.put(st, others='?', checked='no')
        if I.op == 'atomicrmw' and f == 'root_worklist.read': return self.put(st, roots='?')
        if I.op == 'call' and I.callee_name() == 'pthread_mutex_unlock' and I.fn.field_of(I.ops[0]) == WLOCK: return self.put(st, locked='some', checked='no')
        return None
    def assume(self, st, I, pred, L, R):
        if st[0] != 'in' or pred == 'in': return None
        fn = I.fn
        l, r = inst(fn, L), inst(fn, R)
        if const_of(R) == 0 and l is not None and l.op == 'load' and pred in ('eq', 'ne', 'ugt', 'ult', 'sgt'):
            if l.field() == 'gc_trace_worker.id':
                v = pred == 'eq'
                if st[4] is not None and st[4] != v: return []
                return self.put(st, main=v)
            if l.field() == ROOTS_ONLY:
                v = 0 if pred == 'eq' else 1
                if st[7] is not None and st[7] != v: return []
                return self.put(st, ro=v)
        if const_of(R) == 1 and l is not None and l.op == 'load' and l.field() == 'gc_trace_worker.id' and pred in ('ult', 'uge'):
            return self.put(st, main=pred == 'ult')
        a, c = ld(fn, L, R)
        if set(a) == {'local_worklist.write', 'local_worklist.read'} and c == 0:
            p = pred if a['local_worklist.write'] == 1 else SWAP[pred]
            if p in ('eq', 'ule', 'sle'): return self.put(st, local='empty')
            return None
        if set(a) == {'local_worklist.write', 'local_worklist.read'} and (pred, c, a['local_worklist.write']) in (('ult', -1, 1), ('slt', -1, 1)): return self.put(st, local='empty')
        if pred == 'eq' and const_of(R) == 0 and l is not None and l.op == 'load' and (l.field() == 'gc_root.kind' or element(fn, l)): return []       # no such root or reference is ever pushed
        # idx >= write
        for p, x, y in ((pred, l, r), (SWAP[pred], r, l)):
            if x is not None and y is not None and x.op == 'atomicrmw' and x.field() == 'root_worklist.read' and y.field() == 'root_worklist.write' and p in ('uge', 'eq'):
                return self.put(st, roots='drained')
        if l is not None and l.op == 'load' and l.field() == NW and const_of(R) is not None and pred in ('eq', 'ule', 'ult', 'sle', 'slt'):
            k = const_of(R) - (pred in ('ult', 'slt'))
            if k <= 0: return []                                      # there always is the main worker
            if k == 1 : return self.put(st, locked='all', checked='no')     # no helpers
        i = counter_exit(fn, pred, L, R, I)
        if i and fn.block_dominates(i[0].block, I.block):
            phi, start, _, shift = i
            body = fn.loops()[phi.block]
            if lock_loop(fn, phi, shift) and const_of(start) <= 1:
                self.hit('every helper is parked before the trace ends', I)
                return self.put(st, locked='all', checked='no')
            if I.block in body and const_of(start) == 0 and visits_all(fn, body, phi):
                if steals_in(self.mod, fn, body): self.hit('a worker without work looks at every queue', I); return self.put(st, others='empty')
                if size_test_in(fn, body) and st[5] == 'all': self.hit('every queue is seen empty once every helper is parked', I); return self.put(st, checked='yes')
        return None

def tracers(m):
    out = []
    for f in m.defined():
        if any(I.op == 'atomicrmw' and I.field() == 'gc_tracer.active_tracers' for I in f.all()): out.append(f.name)
    return out

@rule('trace-termination', 'C05', 'C29', configs=is_par, limits=())
def trace_termination(ctx, m, cfg):
    A = Trace(m)
    fns = tracers(m)
    if not fns: ctx.bad('no-active-count', None, 'no worker counts itself as active any more'); return
    for f in fns: A.run(f, ('out', '?', '?', '?', None, 'no', 'no', None))
    q.tally(ctx, A)
    ctx.need('places where a worker goes idle', len(A.hits.get('a worker goes idle only when no work is left', ())))
    # spinning: the main worker waits for the others before it locks them
    threads(ctx, m, fns); collection(ctx, m, fns); entries_used(ctx, m, fns)

class Helper(Automaton):
    """a helper's thread: (lock held, epoch)"""
    descend = False
    def __init__(self, m, fns): super().__init__(m); self.fns = fns; self.hits = {}
    def step(self, st, I):
        held, ep = st
        if I.op in ('load', 'atomicrmw') and I.field() == 'gc_tracer.epoch': return [(held, 'read' if held else 'unheld')]
        if I.is_call():
            n = I.callee_name()
            if n == 'pthread_mutex_lock' and I.fn.field_of(I.ops[0]) == WLOCK: return [(True, ep)]
            if n == 'pthread_mutex_unlock' and I.fn.field_of(I.ops[0]) == WLOCK: return [(False, ep)]
            if any(t in self.fns for t in self.mod.targets(I)):
                if not held: self.error('trace-unlocked', I, 'a helper traces without holding its own lock: the main worker takes it for parked')
                return [(held, 'traced')]
            if n in ('pthread_cond_wait', 'pthread_cond_timedwait'):
                if ep not in ('same', 'traced'): self.error('sleeps-through', I, 'a helper goes to sleep without having compared the trace\'s epoch with the last one it took part in, or without having traced for a new one')
                if I.fn.field_of(I.ops[0]) != 'gc_tracer.cond': self.error('wrong-cond', I, 'a helper sleeps on a condition that is not signalled for it')
                if I.fn.field_of(I.ops[1]) != WLOCK: self.error('wrong-lock', I, 'a helper sleeps without giving up its own lock: the main worker never sees it parked')
                self.hits.setdefault('a helper sleeps only when it took part in the latest trace', {})[(I.fn.name, I.id)] = I
                return [(held, 'slept')]
        return None
    def ret(self, st, I): self.error('helper-exits', I, 'a helper thread ends')
    def assume(self, st, I, pred, L, R):
        l, r = inst(I.fn, L), inst(I.fn, R)
        if st[1] == 'read' and any(x is not None and x.field() == 'gc_tracer.epoch' for x in (l, r) if x is not None and x.is_mem()):
            if pred == 'eq': return [(st[0], 'same')]
            if pred == 'ne': return [(st[0], 'new')]
        return None

def threads(ctx, m, fns):
    n = 0
    for t in q.thread_starts(m):
        f = m.fn(t)
        if not any(I.is_call() and any(x in fns for x in m.targets(I)) for I in f.all()): continue
        A = Helper(m, fns); A.run(t, (False, None)); q.tally(ctx, A); n += 1
        for I in f.all():
            if I.op != 'icmp': continue
            for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                if not from_field(f, a, 'gc_tracer.epoch'): continue
                P = inst(f, b)
                e = inst(f, a)
                if P is None or P.op != 'phi': ctx.bad('epoch-compare', I, 'the epoch is not compared with the one last taken part in'); continue
                def olds(v, seen):
                    J = inst(f, v)
                    if const_of(v) is not None: return {('c',)}
                    if J is None: return {('?',)}
                    if J.id in seen: return set()
                    seen.add(J.id)
                    if J.op == 'phi': return set().union(*[olds(o, seen) for o, _ in J.ops])
                    return {('e',)} if J is e else {('?',)}
                o = olds(['v', P.id], set())
                if ('?',) in o or ('e',) not in o: ctx.bad('epoch-compare', I, 'the epoch a helper remembers is not the one it last saw')
                else: ctx.ok('a helper remembers the epoch it traced in', I)
    ctx.need('helper threads', n)
    # whoever starts an epoch wakes the helpers
    k = 0
    for f in m.defined():
        for S in f.all():
            if S.is_write() and S.field() == 'gc_tracer.epoch' and f.name != 'gc_init':
                if S.op == 'atomicrmw' and S.raw['rmw'] == 'add' and const_of(S.ops[1]) == 1: pass
                else: ctx.bad('epoch-step', S, 'the epoch is not advanced by one in one step'); continue
                B = [C for C in f.all() if C.is_call() and C.callee_name() == 'pthread_cond_broadcast' and f.field_of(C.ops[0]) == 'gc_tracer.cond']
                if not any(f.dominates(S, C) and f.postdominates(C, S) for C in B): ctx.bad('not-woken', S, 'a new epoch starts but the helpers asleep are not all woken after it'); continue
                k += 1; ctx.ok('a new epoch is followed by waking every helper', S)
    ctx.need('wake-ups', k)
    for f in m.defined():
        for C in f.all():
            if C.is_call() and C.callee_name() == 'pthread_create' and any(t in q.thread_starts(m) and any(x in fns for I in m.fn(t).all() if I.is_call() for x in m.targets(I)) for t in m.fnptr_targets(f, C.ops[2])):
                if not any(L.is_call() and L.callee_name() == 'pthread_mutex_lock' and f.field_of(L.ops[0]) == WLOCK and f.dominates(L, C) for L in f.all()):
                    ctx.bad('spawn-unlocked', C, 'a helper is started although its lock is not held for it: it may trace before the first trace')
                else: ctx.ok('a helper is started parked', C)

class Coll(Automaton):
    """(helper locks released, root queue, roots-only flag) around the main worker's traces"""
    def __init__(self, m, fns): super().__init__(m); self.fns = fns; self.hits = {}
    def relevance_key(self): return tuple(self.fns)
    def relevant(self, I):
        if I.is_call(): return any(t in self.fns for t in self.mod.targets(I)) or I.callee_name() == 'pthread_mutex_unlock' and I.fn.field_of(I.ops[0]) == WLOCK
        return I.is_write() and I.field() in ('root_worklist.read', 'root_worklist.write', ROOTS_ONLY)
    def call(self, st, I, t):
        if t in self.fns:
            rel, rq, ro = st
            if rel != 'released': self.error('helpers-locked', I, 'the main worker traces although it still holds its helpers\' locks: they cannot take part, and it waits for them for ever')
            if rq == 'spent': self.error('roots-spent', I, 'a trace starts with the root queue as the last trace left it: roots added since are not found')
            self.hits.setdefault('a trace starts with helpers free and a fresh root queue', {})[(I.fn.name, I.id)] = I
            return [('held', 'spent', {'on': 'on-used', 'off': 'off-used'}.get(ro, ro))]
        return None
    def step(self, st, I):
        rel, rq, ro = st
        if not I.is_write(): return None
        f = I.field()
        if f == ROOTS_ONLY:
            c = const_of(I.ops[0])
            return [(rel, rq, 'off' if c == 0 else 'on')]
        if f == 'root_worklist.read' and I.op == 'store' and const_of(I.ops[0]) == 0:
            return [(rel, {'spent': 'half-r', 'half-w': 'fresh'}.get(rq, rq), ro)]
        if f == 'root_worklist.write' and I.op == 'store':
            if const_of(I.ops[0]) == 0:
                if rq == 'pushed': self.error('roots-dropped', I, 'the root queue is emptied although roots were added since the last trace')
                return [(rel, {'spent': 'half-w', 'half-r': 'fresh'}.get(rq, rq), ro)]
            if rq in ('spent', 'half-r', 'half-w'): self.error('roots-spent', I, 'a root is added to the queue as the last trace left it: it is not found')
            return [(rel, 'pushed', ro)]
        return None
    def assume(self, st, I, pred, L, R):
        if pred == 'in': return None
        fn = I.fn
        l = inst(fn, L)
        if l is not None and NW in [J.field() for J in q.value_loads(fn, L)] and const_of(R) is not None and pred in ('eq', 'ule', 'ult', 'sle', 'slt') and const_of(R) - (pred in ('ult', 'slt')) <= 1: return [('released',) + tuple(st[1:])]
        i = counter_exit(fn, pred, L, R, I)
        if i and const_of(i[1]) <= 1:
            phi = i[0]; body = fn.loops()[phi.block]
            U = [J for b in body for J in fn.blocks[b] if J.is_call() and J.callee_name() == 'pthread_mutex_unlock' and fn.field_of(J.ops[0]) == WLOCK]
            if U and any(any(('v', phi.id) in q.lin(fn, o)[0] for o in gep_indices(fn, u.ops[0])) for u in U): return [('released',) + tuple(st[1:])]
        return None

def collection(ctx, m, fns):
    A = Coll(m, fns)
    es = [e for e in q.public_entries(m, threads=False)]
    for e in es:
        if e == 'gc_init': continue
        A.run(e, ('held', 'fresh', 'off'))
    q.tally(ctx, A)
    ctx.need('traces', sum(len(d) for d in A.hits.values()))
    flag(ctx, m)

def flag(ctx, m):
    """a roots-only trace is followed by a full one"""
    on = [S for S in q.stores(m, ROOTS_ONLY) if const_of(S.ops[0]) != 0]
    for S in on:
        f = S.fn
        off = [X for X in f.all() if X.op == 'store' and X.field() == ROOTS_ONLY and const_of(X.ops[0]) == 0 and f.dominates(S, X) and f.postdominates(X, S)]
        if not off: ctx.bad('stays-roots-only', S, 'the tracer is told to trace roots only and is not told otherwise afterwards: nothing reached from the roots is traced'); continue
        if not any(any(I.is_call() for I in f.all() if f.dominates(S, I) and f.dominates(I, X)) for X in off): ctx.bad('roots-untraced', S, 'no trace happens between setting and resetting the roots-only flag'); continue
        ctx.ok('tracing roots only lasts for one trace', S)

# -- what is popped is traced ------------------------------------------------------------------
class Popped(Automaton):
    """(state): after an entry is taken, it is used before another is taken or the function ends"""
    descend = False
    def __init__(self, m, pops): super().__init__(m); self.pops = pops; self.hits = {}
    def step(self, st, I):
        k = (I.fn.name, I.id)
        if k in self.pops:
            if st == 'holds': self.error('dropped', I, 'another entry is taken although the last one was not traced')
            return ['holds' if self.pops[k] == 'always' else 'maybe']
        if st in ('holds', 'maybe'):
            if I.op in ('phi', 'icmp'): return None
            if any(self.derived(I.fn, o) for o in I.ops if isinstance(o, (list, tuple)) and o and o[0] == 'v') and (I.op in ('and', 'inttoptr', 'getelementptr', 'lshr', 'sub', 'load') or I.is_call()):
                self.hits.setdefault('an entry taken from a queue is traced', {})[k] = I
                return ['none']
            if I.is_write() and I.field() == 'gc_tracer.active_tracers' and st == 'holds': self.error('dropped', I, 'an entry was taken from a queue and is not traced')
        return None
    def ret(self, st, I):
        if st == 'holds': self.error('dropped', I, 'an entry was taken from a queue and is not traced')
    def derived(self, fn, v, d=0, seen=None):
        if seen is None: seen = set()
        v = strip(fn, v)
        if v[0] != 'v' or d > 8 or v[1] in seen: return False
        seen.add(v[1])
        if (fn.name, v[1]) in self.pops: return True
        J = fn.insts[v[1]]
        return J.op in ('phi', 'select') and any(self.derived(fn, o[0] if J.op == 'phi' else o, d + 1, seen) for o in J.ops)
    def assume(self, st, I, pred, L, R):
        if st == 'holds' and pred == 'eq' and const_of(R) == 0 and self.derived(I.fn, L): return []       # no null reference is ever pushed
        if st == 'maybe' and const_of(R) == 0 and self.derived(I.fn, L):
            return ['none' if pred == 'eq' else 'holds'] if pred in ('eq', 'ne') else None
        return None

def entries_used(ctx, m, fns):
    n = 0
    for fname in fns:
        f = m.fn(fname); pops = {}
        for I in f.all():
            if I.op == 'load' and element(f, I) & {'local_worklist', 'simple_worklist'} and slot(f, I.ptr()) and 'read' in str([J.field() for J in q.value_loads(f, slot(f, I.ptr())[0])]): pops[(fname, I.id)] = 'always'
            elif I.op == 'load' and 'shared_worklist_buf' in element(f, I) and not any(X.op == 'store' and tuple(strip(f, X.ops[0])[:2]) == ('v', I.id) for X in f.users(['v', I.id])):
                pops[(fname, I.id)] = 'maybe'
            elif I.is_call():
                for t in m.targets(I):
                    g = m.fn(t)
                    if g and not g.decl and any(J.op == 'cmpxchg' and J.field() == T_ for J in g.all()): pops[(fname, I.id)] = 'maybe'
        if not pops: continue
        A = Popped(m, pops); A.run(fname, 'none'); q.tally(ctx, A); n += len(A.hits)
    ctx.need('entries traced', n)

# -- the serial tracer ---------------------------------------------------------------------------
class Serial(Automaton):
    def __init__(self, m): super().__init__(m); self.hits = {}
    def relevant(self, I): return I.is_mem() and (I.field() or '').split('.')[0] in ('simple_worklist', 'root_worklist') or I.is_mem() and I.field() == ROOTS_ONLY
    # (roots, objects, roots-only, in a trace)
    def step(self, st, I):
        f = I.field() if I.is_mem() else None
        if I.op == 'atomicrmw' and f == 'root_worklist.read': return [('?',) + tuple(st[1:])]
        if I.op == 'store' and f == 'root_worklist.write' and const_of(I.ops[0]) == 0 and I.fn.name in self.fns and st[0] == '?':
            self.error('roots-left', I, 'the root queue is emptied before it was seen empty: roots are not traced')
        if I.op == 'store' and f == 'simple_worklist.write': return [(st[0], '?') + tuple(st[2:])]
        return None
    def assume(self, st, I, pred, L, R):
        if pred == 'in': return None
        fn = I.fn; l, r = inst(fn, L), inst(fn, R)
        if pred == 'eq' and const_of(R) == 0 and l is not None and l.op == 'load' and (l.field() == 'gc_root.kind' or element(fn, l)): return []
        for p, x, y in ((pred, l, r), (SWAP[pred], r, l)):
            if x is not None and y is not None and x.op == 'atomicrmw' and x.field() == 'root_worklist.read' and y.is_mem() and y.field() == 'root_worklist.write' and p in ('uge', 'eq'): return [('drained',) + tuple(st[1:])]
        if const_of(R) == 0 and l is not None and l.op == 'load' and l.field() == ROOTS_ONLY and pred in ('eq', 'ne'): return [(st[0], st[1], 0 if pred == 'eq' else 1)]
        a, c = ld(fn, L, R)
        if set(a) == {'simple_worklist.write', 'simple_worklist.read'} and c == 0 and pred in ('eq', 'ule', 'uge', 'sle', 'sge'):
            p = pred if a['simple_worklist.write'] == 1 else SWAP[pred]
            if p in ('eq', 'ule', 'sle'): return [(st[0], 'empty', st[2])]
        return None
    def ret(self, st, I):
        if I.fn.name in self.fns:
            if st[0] != 'drained': self.error('roots-left', I, 'a trace ends without having seen the root queue empty')
            if st[2] != 1 and st[1] != 'empty': self.error('ends-early', I, 'a trace ends without having seen the work queue empty')
            else: self.hits.setdefault('a trace ends only when root and work queues are empty', {})[(I.fn.name, I.id)] = I
        return None

@rule('trace-termination-serial', 'C05', configs=lambda c: (is_mmc(c) or is_pcc(c)) and not is_par(c), limits=())
def trace_termination_serial(ctx, m, cfg):
    fns = [f.name for f in m.defined() if any(I.op == 'atomicrmw' and I.field() == 'root_worklist.read' for I in f.all())]
    if not fns: raise AnalysisError('no function takes roots from the root queue')
    A = Serial(m); A.fns = set(fns)
    for f in fns: A.run(f, ('?', '?', None))
    q.tally(ctx, A)
    if not any(fn in ('collect',) for fn in fns): pass
    ctx.need('ends of traces', len(A.hits))
    entries_used(ctx, m, fns); flag(ctx, m)
