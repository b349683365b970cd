"""C14, C07, C04: inline allocation agrees with the collector, and every kind of object the mutator can make is one the collector knows how to trace."""
from core import rule, own, mt, is_gen, is_mmc, is_pcc, is_semi, is_bdw, AnalysisError
import q, bits
from ts import Automaton, const_of
from rules.barrier import thresholds, in_range

KINDS = ('tagged', 'tagged_pointerless', 'untagged_conservative', 'untagged_pointerless')
has_bump = lambda c: not is_bdw(c)

def leaf(m, ty, off):
    """the field of type ty at a byte offset, as owner.name"""
    t = m.types.get(ty)
    for x in (t or {}).get('members', []):
        if x['off'] <= off * 8 < x['off'] + x['size']:
            if x.get('sub') and not x.get('union'): 
                r = leaf_sub(m, x, off * 8 - x['off'])
                if r: return r
            return ty + '.' + x['name'] if x['off'] == off * 8 else None
    return None
def leaf_sub(m, x, off):
    for y in x['sub']:
        if y['off'] <= off < y['off'] + y['size']:
            if y.get('sub') and not y.get('union'):
                r = leaf_sub(m, y, off - y['off'])
                if r: return r
            return x['subname'] + '.' + y['name'] if y['off'] == off else None
    return None

def rounding(f, v, depth=6):
    """granule g such that v is argument 1 rounded up to a multiple of g"""
    v = q.strip(f, v)
    I = f.insts[v[1]] if v[0] == 'v' else None
    if I is None: return None
    if I.op in ('and', 'add', 'sub', 'mul', 'shl', 'lshr', 'udiv'):
        c = const_of(I.ops[1])
        if I.op == 'and' and c is not None and c < 0 and -c & (-c - 1) == 0:
            l, k = lin2(f, I.ops[0])
            if l.get(('a', 1)) == 1 and k == -c - 1: return -c, l
        if I.op == 'mul' and c is not None or I.op == 'shl' and c is not None:
            g = c if I.op == 'mul' else 1 << c
            J = q.strip(f, I.ops[0]); J = f.insts[J[1]] if J[0] == 'v' else None
            if J is not None and J.op in ('udiv', 'lshr') and const_of(J.ops[1]) is not None:
                h = const_of(J.ops[1]) if J.op == 'udiv' else 1 << const_of(J.ops[1])
                l, k = lin2(f, J.ops[0])
                if h == g and l.get(('a', 1)) == 1 and k == g - 1: return g, l
    return None

def lin2(f, v, atom=None, depth=10):
    """linear form over arguments, loads (by place) and other values"""
    v = q.strip(f, v)
    c = const_of(v)
    if c is not None: return {}, c
    if v[0] == 'null': return {}, 0
    if v[0] == 'a': return {('a', v[1]): 1}, 0
    if v[0] == 'v' and depth:
        I = f.insts[v[1]]
        if atom:
            k = atom(I)
            if k is not None: return {k: 1}, 0
        if I.op in ('ptrtoint', 'inttoptr', 'zext', 'freeze'): return lin2(f, I.ops[0], atom, depth - 1)
        if I.op == 'getelementptr' and len(I.ops) == 2 and (I.raw.get('gep') or {}).get('src') == 'i8':
            a, ac = lin2(f, I.ops[0], atom, depth - 1); b, bc = lin2(f, I.ops[1], atom, depth - 1)
            r = dict(a)
            for k, x in b.items(): r[k] = r.get(k, 0) + x
            return {k: x for k, x in r.items() if x}, ac + bc
        if I.op in ('add', 'sub'):
            a, ac = lin2(f, I.ops[0], atom, depth - 1); b, bc = lin2(f, I.ops[1], atom, depth - 1)
            s = 1 if I.op == 'add' else -1; r = dict(a)
            for k, x in b.items(): r[k] = r.get(k, 0) + s * x
            return {k: x for k, x in r.items() if x}, ac + s * bc
        return {('v', I.id): 1}, 0
    return {('?',) + tuple(v[:2]): 1}, 0

class Alloc(Automaton):
    """the fast path: take the rounded size off the free range when it fits, describe the object, return where it starts"""
    descend = False
    def __init__(self, mod, fn, places, table, end):
        super().__init__(mod); self.f = fn; self.places = places; self.table = table; self.end = end
        self.hits = {}; self.g = {}; self.patterns = {}; self.slow = {}; self.forms = {}; self.stop = ('gc_allocate_slow',)
    def relevance_key(self): return ('alloc', self.f.name, len(self.places))
    def watch_key(self): return ('alloc', self.f.name)
    def watch(self, I): return I.ops[:1] if I.fn is self.f and I.op == 'store' and self.table and I.ops[0][0] == 'v' and self.f.insts[I.ops[0][1]].ty == 'i8' else ()
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def place(self, I):
        """'hp' or 'limit' if I accesses one of them"""
        p = self.places.get(str(I.field()))
        if p: return p
        l, c = lin2(self.f, I.ptr())
        return self.places.get(('arg0', c)) if l == {('a', 0): 1} else None
    def atom(self, I):
        if I.op == 'load' and I.ty in ('i64', 'ptr'):
            p = self.place(I)
            if p: return p
        r = rounding(self.f, ['v', I.id])
        if r:
            self.g[r[0]] = I
            return ('size', tuple(sorted((k for k in r[1] if k != ('a', 1)), key=repr)))
        if I.op in ('udiv', 'lshr') and const_of(I.ops[1]):
            g = const_of(I.ops[1]) if I.op == 'udiv' else 1 << const_of(I.ops[1])
            r = rounding(self.f, I.ops[0])
            if r and r[0] == g: return 'granules'
        return None
    def l(self, v):
        l, c = lin2(self.f, v, self.atom)
        l = {('size' if isinstance(k, tuple) and k[:1] == ('size',) and not k[1] else k): x for k, x in l.items()}
        for k in [k for k in l if isinstance(k, tuple) and k[:1] == ('size',)]:   # start and size rounded as one
            vs = [self.atom(self.f.insts[x[1]]) for x in k[1] if x[0] == 'v']
            if vs == ['hp'] and l[k] == 1: del l[k]; l['hp'] = l.get('hp', 0) + 1; l['size'] = l.get('size', 0) + 1
        return l, c
    def assume(self, st, I, p, L, R):
        a, ac = self.l(L); b, bc = self.l(R)
        d = dict(a)
        for k, x in b.items(): d[k] = d.get(k, 0) - x
        d = {k: x for k, x in d.items() if x}; c = ac - bc
        if d == {'hp': 1, 'size': 1, 'limit': -1} or d == {'hp': -1, 'size': -1, 'limit': 1}:
            if d['hp'] < 0: p = q.SWAP[p]; c = -c
            self.hit('comparisons with the end of the free range', I)
            return [st | {'fits'}] if p == 'ule' and c >= 0 or p == 'ult' and c >= -1 else [st - {'fits'}]
        if d == {'granules': 1}:
            if p == 'eq' and c == -1: return [st - {'many'} | {'one'}]
            if p == 'ne' and c == -1: return [st - {'one'} | {'many'}]
            if p == 'ule' and c == -2 or p == 'ult' and c == -3: return [st | {'two'}]
        return None
    def meta(self, I):
        """offset (in granules) of the byte of the alloc table that I writes, relative to that of the object"""
        f = self.f; off = {}; p = I.ptr() if I.op == 'store' else I.ops[0]; c = 0
        while True:
            v = q.strip(f, p); J = f.insts[v[1]] if v[0] == 'v' else None
            if J is not None and J.op == 'getelementptr' and len(J.ops) == 2 and (J.raw.get('gep') or {}).get('src') == 'i8':
                l, k = self.l(J.ops[1])
                for x, n in l.items(): off[x] = off.get(x, 0) + n
                c += k; p = J.ops[0]; continue
            break
        fm = bits.form(f, p, opaque=lambda J: 'obj' if J.op == 'load' and J.ty in ('i64', 'ptr') and self.place(J) == 'hp' else None)
        if not fm or any(k != 1 and k[0] != 'obj' for k in fm): return None
        return bits.canon(fm), off, c
    def step(self, st, I):
        f = self.f
        if I.is_call():
            n = str(I.callee_name())
            if n in self.stop:
                self.slow[I.id] = I; self.hit('calls of the slow path', I)
                return [frozenset({'slow'})]
            if n.startswith('llvm.memset') and self.table and 'bumped' in st:
                x = self.meta(I)
                if x is None: return None
                l, c = self.l(I.ops[2])
                if x[1] or x[2] != 1 or const_of(I.ops[1]) != 0 or (l, c) != ({'granules': 1}, -2): self.error('table', I, 'other bytes of the alloc table are cleared than those inside the object'); return None
                return [st | {'cleared'}]
            return None
        if I.op != 'store': return None
        w = I.ops[0]
        if self.place(I) == 'hp':
            if self.l(w) != ({'hp': 1, 'size': 1}, 0):
                self.error('bump', I, 'the start of the free range is moved by something else than the rounded size of the object'); return None
            self.hit('bumps', I)
            if 'fits' not in st and self.strict: self.error('fits', I, 'an object is allocated without checking that it fits')
            if 'bumped' in st: self.error('twice', I, 'the free range is advanced twice for one object')
            return [st - {'marked', 'ended', 'cleared', 'one', 'many', 'two'} | {'bumped'}]
        if self.place(I) == 'limit':
            if self.strict: self.error('limit', I, 'the end of the free range is changed')
            return None
        if self.table and (w[0] == 'c' and (w[2] if len(w) > 2 else 64) == 8 or w[0] == 'v' and f.insts[w[1]].ty == 'i8'):
            x = self.meta(I)
            if x is None: return None
            c = self.value(w)
            if c is None or len(c) != 1: self.error('pattern', I, 'the description of an object is not determined by its kind'); return None
            c = next(iter(c)) & 255; self.forms[x[0]] = I
            if not x[1] and x[2] == 0:
                self.hit('descriptions written', I)
                if 'one' in st and not c & self.end or 'one' not in st and c & self.end: self.error('end', I, 'the end of an object is marked at the wrong place')
                self.patterns[c & ~self.end] = I
                return [st | {'marked'} | ({'ended'} if c & self.end else set())]
            if x[1] == {'granules': 1} and x[2] == -1 and 'many' in st:
                if c != self.end: self.error('end', I, 'the end of an object is marked in another way than the collector looks for')
                return [st | {'ended'}]
            self.error('table', I, 'another byte of the alloc table is written than those of the first and the last granule of the object')
        return None
    def ret(self, st, I):
        if 'slow' in st: return None
        if 'bumped' not in st:
            if self.strict and I.ops:
                self.error('unallocated', I, 'allocation may return without having allocated anything')
            return None
        if self.table:
            if 'marked' not in st: self.error('marked', I, 'an object may be allocated without the alloc table saying so')
            elif 'ended' not in st: self.error('ended', I, 'an object may be allocated without its end being marked')
            elif 'one' not in st and 'two' not in st and 'cleared' not in st: self.error('cleared', I, 'stale bytes of the alloc table may stay inside a new object')
        if I.ops and self.strict:
            for a in self.alts(I.ops[0]):
                if a[0] == 'null' or const_of(a) is not None: continue
                if a[0] == 'v' and self.f.insts[a[1]].is_call(): continue
                if self.l(a) != ({'hp': 1}, 0): self.error('start', I, 'allocation returns another address than the old start of the free range')
        return None
    def alts(self, v):
        out = []; todo = [v]; seen = set()
        while todo:
            v = q.strip(self.f, todo.pop())
            if tuple(v[:2]) in seen: continue
            seen.add(tuple(v[:2]))
            if v[0] == 'v' and self.f.insts[v[1]].op == 'phi': todo += [o[0] for o in self.f.insts[v[1]].ops]
            else: out.append(v)
        return out

def offsets(m, f):
    """offsets from the mutator that the inline path loads and stores"""
    ld, sto = {}, {}
    for I in f.all():
        if I.op in ('load', 'store'):
            l, c = lin2(f, I.ptr())
            if l == {('a', 0): 1}: (ld if I.op == 'load' else sto)[c] = I
    return ld, sto

def fld(I):
    """the field that I accesses; also the first one of a structure passed by address"""
    x = I.field()
    if x is not None: return str(x)
    v = q.strip(I.fn, I.ptr()) if I.ptr() else None
    t = getattr(I.fn, 'ditypes', None)
    if v and v[0] == 'a' and t and v[1] + 1 < len(t):
        n = str(t[v[1] + 1]).replace('struct ', '').strip()
        if n.endswith('*') and not n.endswith('**'): return str(leaf(I.mod, n[:-1].strip(), 0))
    return str(x)

def bumps(m, hp, lim):
    """where the collector itself takes objects off the free range [hp, lim)"""
    b, c = [], []
    for f in m.defined():
        if f.name.startswith('v_api_'): continue
        for I in f.all():
            if I.op == 'store' and fld(I) == hp:
                J = q.strip(f, I.ops[0]); J = f.insts[J[1]] if J[0] == 'v' else None
                if J is not None and J.op in ('add', 'and') and any(fld(x) == hp for x in q.value_loads(f, I.ops[0], 6)): b.append(I)
            if I.op == 'icmp':
                ls = [set(fld(x) for x in q.value_loads(f, o, 6)) for o in I.ops[:2]]
                if hp in ls[0] and lim in ls[1] or hp in ls[1] and lim in ls[0]: c.append(I)
    return b, c

def opaque(J):
    return ('v', J.id) if J.op in ('load', 'phi', 'call', 'select', 'extractvalue') or J.op == 'getelementptr' and len(J.ops) != 2 else None

def kind_tests(m):
    """instructions that read the byte whose trace kind is tested by the tracer: [(load, mask, test)]"""
    none = m.enum_value('NOFL_METADATA_BYTE_TRACE_NONE'); out = []
    if none is None: return out
    for f in m.defined():
        if not any(I.is_call() and I.callee_name() == 'v_object_edge' for I in f.all()): continue
        for I in f.all():
            if I.op not in ('switch', 'icmp'): continue
            if I.op == 'icmp' and (const_of(I.ops[1]) is None or I.raw['pred'] not in ('eq', 'ne')): continue
            x = masked(f, I.ops[0])
            if x and x[1] & none and not x[1] & 7: out.append((x[0], x[1], I))
    return out

def masked(f, v):
    """(load of a byte, mask) if v is the byte masked"""
    mask = 255; v = q.strip(f, v)
    while v[0] == 'v':
        J = f.insts[v[1]]
        if J.op in ('zext', 'sext', 'trunc', 'freeze'): v = J.ops[0]; continue
        if J.op == 'and' and const_of(J.ops[1]) is not None: mask &= const_of(J.ops[1]); v = J.ops[0]; continue
        if J.op == 'and' and const_of(J.ops[0]) is not None: mask &= const_of(J.ops[0]); v = J.ops[1]; continue
        return (J, mask) if J.op == 'load' and J.ty == 'i8' and J.field() is None else None
    return None

def where(m):
    """forms of the address of the metadata byte of an object, as pinning and tracing it use"""
    out = set()
    for L, mask, T in kind_tests(m):
        fm = bits.form(L.fn, L.ptr(), opaque=opaque)
        if fm and len({k[0] for k in fm if k != 1}) == 1: out.add(bits.canon({(k if k == 1 else ('obj', k[1])): v for k, v in fm.items()}))
    pin = m.fn('gc_pin_object')
    if pin is not None and not pin.decl:
        for I in pin.all():
            if I.op in ('cmpxchg', 'atomicrmw') or I.op == 'load' and I.ty == 'i8':
                fm = bits.form(pin, I.ptr())
                if fm and all(k == 1 or k[0] == ('arg', 1) for k in fm): out.add(bits.canon({(k if k == 1 else ('obj', k[1])): v for k, v in fm.items()}))
    return out

def patterns(ctx, m, cfg, report=True):
    """{kind: pattern} that the fast path writes"""
    out = {}; end = m.enum_value('NOFL_METADATA_BYTE_END') if is_mmc(cfg) else None
    if is_mmc(cfg) and end is None: raise AnalysisError('metadata byte values not found')
    slow = m.fn('gc_allocate_slow')
    wh = where(m) if is_mmc(cfg) else set()
    for n in KINDS:
        f = m.fn('v_api_allocate_' + n)
        if f is None: raise AnalysisError('inline allocation not found')
        k = m.enum_value('GC_ALLOCATION_' + n.upper())
        ld, sto = offsets(m, f)
        live = any(f.terminator(b).op == 'ret' for b in f.live_blocks())
        if not live: continue
        if not sto:
            if report: ctx.bad('skipped', f.terminator(0), 'inline allocation of %s objects never allocates' % n)
            continue
        if len(sto) > 1 or len(ld) > 2:
            if report: ctx.bad('offset', list(sto.values())[0], 'inline allocation uses other parts of the mutator than the free range')
            continue
        ho = list(sto)[0]; lo = [x for x in ld if x != ho]
        if not lo:
            if report: ctx.bad('offset', sto[ho], 'inline allocation does not look at the end of the free range')
            continue
        hp, lim = leaf(m, 'gc_mutator', ho), leaf(m, 'gc_mutator', lo[0])
        b, c = bumps(m, hp, lim) if hp and lim else ([], [])
        if report:
            if not b or not c: ctx.bad('offset', sto[ho], 'inline allocation takes %s and %s for the free range, which the collector does not allocate from' % (hp, lim))
            else: ctx.ok('places that agree with the collector', sto[ho], 2)
        if not b or not c: continue
        A = Alloc(m, f, {('arg0', ho): 'hp', ('arg0', lo[0]): 'limit'}, is_mmc(cfg), end); A.strict = True; A.run(f.name, frozenset())
        if report:
            q.tally(ctx, A)
            for I in A.slow.values():
                if tuple(q.strip(f, I.ops[0])[:2]) == ('a', 0) and tuple(q.strip(f, I.ops[1])[:2]) == ('a', 1) and const_of(I.ops[2]) == k: ctx.ok('slow path asked for the same object', I)
                else: ctx.bad('slow', I, 'the slow path is asked for another object than the fast path')
            if not A.slow: ctx.bad('slow', f.terminator(0), 'the slow path of allocation is never taken')
        gs = set(A.g)
        if len(A.patterns) == 1: out[k] = (next(iter(A.patterns)), next(iter(A.patterns.values())))
        elif A.patterns and report: ctx.bad('pattern', list(A.patterns.values())[0], 'objects of one kind are described in different ways')
        if is_mmc(cfg) and report:
            if not wh: raise AnalysisError('metadata byte of an object not found')
            for x, I in A.forms.items():
                if x in wh: ctx.ok('descriptions where the collector looks', I)
                else: ctx.bad('where', I, 'inline allocation writes the description of the object where the collector does not look for it')
        # the slow path, for objects of this kind
        if slow is None or slow.decl: raise AnalysisError('gc_allocate_slow not found')
        S = None
        if any(str(I.field()) == hp and I.op == 'store' for I in slow.all()):
            S = Alloc(m, slow, {hp: 'hp', lim: 'limit'}, is_mmc(cfg), end); S.strict = False
            S.run(slow.name, frozenset(), {2: k})
            if report:
                q.tally(ctx, S)
                for p, I in S.patterns.items():
                    if k in out and p != out[k][0]: ctx.bad('disagree', I, 'the fast and the slow path describe the same kind of object differently')
                    else: ctx.ok('slow path descriptions that agree', I)
                for x, I in S.forms.items():
                    if x in wh: ctx.ok('descriptions where the collector looks', I)
                    else: ctx.bad('where', I, 'allocation writes the description of the object where the collector does not look for it')
                if gs and S.g and gs != set(S.g): ctx.bad('granule', list(A.g.values())[0], 'fast and slow path round sizes differently')
        if report and S is None and gs:
            for I in b:
                g = {r for r in (round_any(I.fn, I.ops[0]),) if r}
                if g and g != gs: ctx.bad('granule', I, 'fast and slow path round sizes differently')
                else: ctx.ok('bumps by whole granules', I)
    return out

def round_any(f, v, depth=6):
    """granule of a rounded summand of v"""
    todo = [(v, depth)]
    while todo:
        v, d = todo.pop(); v = q.strip(f, v)
        if v[0] != 'v' or d == 0: continue
        I = f.insts[v[1]]
        if I.op == 'and' and (const_of(I.ops[1]) or 0) < 0: return -const_of(I.ops[1])
        if I.op in ('add', 'sub'): todo += [(o, d - 1) for o in I.ops]
    return None

@rule('inline-allocation', 'C14', 'C12', 'C13', configs=has_bump, load=dict(keep=('trigger_collection', 'copy_space_allocate')), debug=False, limits=())
def inline_allocation(ctx, m, cfg):
    patterns(ctx, m, cfg)
    th = thresholds(m)
    a, b = [set(th.get(n, {})) for n in ('v_api_allocate_tagged', 'gc_allocate_slow')]
    I = next(iter((th.get('v_api_allocate_tagged') or th.get('gc_allocate_slow') or {None: m.fn('gc_allocate_slow').terminator(0)}).values()))
    if len(a) != 1 or a != b: ctx.bad('threshold', I, 'fast and slow path disagree about which objects are large')
    else: ctx.ok('thresholds that agree', I)

# -- what the tracer does with objects of a kind

MARKREF = ('nofl_space_mark_conservative_ref', 'large_object_space_mark_conservative_ref')
LOT = 'large_object_live_data.trace'

class Traced(Automaton):
    """what happens to an object whose description has given bits"""
    descend = False
    def __init__(self, mod, fn, tests, val):
        super().__init__(mod); self.f = fn; self.tests = {T.id: mk for T, mk in tests}; self.val = val; self.out = {}; self.trap = None; self.n = 0
        self.heads = {next(I.id for I in fn.blocks[h] if I.op != 'phi') for h, b in fn.loops().items() if any(T.block in b for T, _ in tests)}
    def relevance_key(self): return ('traced', self.f.name, self.val, tuple(self.tests))
    def watch_key(self): return ('traced', self.f.name)
    def watch(self, I): return I.ops[:1] if I.fn is self.f and I.op == 'switch' and self.f.insts[I.ops[0][1]].op == 'phi' else () if I.op != 'switch' or I.ops[0][0] != 'v' else ()
    def relevant(self, I): return I.fn is self.f
    def done(self, st, I):
        if 'at' in st: self.out.setdefault(frozenset(st - {'at'}), I)
    def edge(self, st, T, s):
        if T.id in self.tests and T.op == 'switch':
            x = self.val & self.tests[T.id] if self.tests[T.id] is not None else self.val
            tgt = next((b for c, b in T.raw['cases'] if (c & 255) == x), T.raw['default'])
            if s != tgt: return []
            self.n += 1
            self.done(st, T)
            return [frozenset({'at'})]
        return None
    def assume(self, st, I, p, L, R):
        J = self.f.insts[L[1]] if L[0] == 'v' else None
        for T, mk in self.tests.items():
            X = self.f.insts[T]
            if X.op != 'icmp' or tuple(q.strip(self.f, X.ops[0])[:2]) != tuple(L[:2]) and tuple(X.ops[0][:2]) != tuple(L[:2]): continue
            c = const_of(R)
            if p not in ('eq', 'ne') or c is None: continue
            x = self.val & mk if mk is not None else self.val
            if (x == c) != (p == 'eq'): return []
            self.n += 1
            if 'at' in st and len(st) == 1: return [st]
            self.done(st, X)
            return [frozenset({'at'})]
        return None
    def step(self, st, I):
        if I.id in self.heads and 'at' in st:
            self.done(st, I); st = frozenset()
            return self.step(st, I) or [st]
        if I.is_call():
            n = I.callee_name()
            if n == 'llvm.trap' and st == {'at'}:
                self.trap = self.trap or I; return []
            k = {'v_object_edge': 'fields', 'gc_trace_ephemeron': 'ephemeron'}.get(n) or ('range' if n in MARKREF else None)
            if k and 'at' in st: return [st | {k}]
            if k is None and n == 'gc_trace_worker_enqueue': return None
        if I.op == 'load' and I.ty == 'i8' and any(self.f.insts[T].op in ('switch', 'icmp') and (masked(self.f, self.f.insts[T].ops[0]) or (None,))[0] is I for T in self.tests):
            self.done(st, I)
            return [st - {'at', 'fields', 'range', 'ephemeron'}]
        return None
    def ret(self, st, I):
        self.done(st, I); return None

WANT = {  # (allocation kind, intraheap edges are conservative): how such an object is traced
    ('tagged', False): 'fields', ('tagged', True): 'range', ('tagged_pointerless', False): None, ('tagged_pointerless', True): None,
    ('untagged_pointerless', False): None, ('untagged_pointerless', True): None, ('untagged_conservative', True): 'range'}
NAME = {'fields': 'visiting each of its fields', 'range': 'scanning it conservatively', 'ephemeron': 'tracing it as an ephemeron', None: 'not looking at its fields'}

def judge(ctx, A, T, want, what, missing=True):
    """A ran with the description of `what`: it has to be traced as `want`"""
    if A.trap is not None:
        ctx.bad('trap', A.trap, 'the tracer aborts on %s' % what); return
    for o, I in A.out.items():
        if want != 'range' and (set(o) == {want} if want else not o) or want == 'range' and not (set(o) - {'range'}): continue
        got = sorted(set(o) - {want}) 
        ctx.bad('kind', T, '%s should be traced by %s, but may be traced by %s' % (what, NAME[want], ' and '.join(NAME[x] for x in sorted(o)) or NAME[None])); return
    if want == 'range' and not any('range' in o for o in A.out): ctx.bad('kind', T, '%s is never scanned' % what); return
    if A.n and A.out: ctx.ok('descriptions traced as their kind requires', T)

@rule('trace-kinds', 'C14', 'C07', 'C04', configs=is_mmc, load=dict(keep=MARKREF + ('trigger_collection',)), debug=False, limits=())
def trace_kinds(ctx, m, cfg):
    cons = 'heap-conservative' in cfg
    E = {n: m.enum_value('NOFL_METADATA_BYTE_' + n) for n in ('YOUNG', 'MARK_0', 'MARK_1', 'MARK_2', 'PINNED', 'END', 'LOGGED_0', 'LOGGED_1', 'TRACE_EPHEMERON', 'TRACE_KIND_MASK')}
    if None in (E['YOUNG'], E['MARK_0'], E['PINNED'], E['TRACE_EPHEMERON']): raise AnalysisError('metadata byte values not found')
    pats = patterns(ctx, m, cfg, report=False)
    tests = kind_tests(m)
    if not tests: ctx.bad('kind', m.fn('gc_allocate_slow').terminator(0), 'tracing does not depend on what kind an object is of'); return
    fns = {}
    for L, mask, T in tests: fns.setdefault(T.fn.name, []).append((T, mask))
    begin = E['YOUNG']
    cases = []   # (what, byte, want)
    for n in KINDS:
        k = m.enum_value('GC_ALLOCATION_' + n.upper())
        if k not in pats or (n, cons) not in WANT: continue
        p, I = pats[k]
        if p & 7 != begin: ctx.bad('young', I, 'a new object is not described as a young one')
        else: ctx.ok('new objects described as young', I)
        if p & (E['END'] | (E['LOGGED_0'] or 0) | (E['LOGGED_1'] or 0)): ctx.bad('bits', I, 'the description of a new object has bits that stand for something else')
        for extra, w in [(0, '')] + ([] if cons else [(E['PINNED'], ', pinned')]):
            for mark in (begin, E['MARK_0'], E['MARK_2']):
                for end in (0, E['END']): cases.append((n.replace('_', ' ') + ' object' + w, p & ~7 | mark | end | extra, WANT[n, cons]))
        if n == 'untagged_pointerless' and not cons:
            if p & E['PINNED']: ctx.ok('untagged objects that do not move', I)
            else: ctx.bad('moves', I, 'an untagged object is allocated in such a way that it may be moved')
    if cons:
        f = m.fn('gc_allocate_ephemeron'); ok = None
        if f is None or f.decl: raise AnalysisError('gc_allocate_ephemeron not found')
        for I in f.all():
            if I.op == 'store' and I.ops[0][0] in 'vc':
                J = f.insts[I.ops[0][1]] if I.ops[0][0] == 'v' else None
                while J is not None and J.op in ('trunc', 'zext'): J = f.insts[J.ops[0][1]] if J.ops[0][0] == 'v' else None
                if J is not None and J.op == 'or' and any(const_of(o) is not None and const_of(o) & 255 == E['TRACE_EPHEMERON'] for o in J.ops): ok = I
            if I.op == 'atomicrmw' and I.raw.get('rmw') == 'or' and const_of(I.ops[1]) is not None and const_of(I.ops[1]) & 255 == E['TRACE_EPHEMERON']: ok = I
        rets = [b for b in f.live_blocks() if f.terminator(b).op == 'ret']
        if ok is None or not all(ok.block == b or f.dominates(ok, f.terminator(b)) for b in rets): ctx.bad('ephemeron', f.terminator(0), 'an ephemeron is not described as one')
        else: ctx.ok('ephemerons described as such', ok)
        cases.append(('ephemeron', E['TRACE_EPHEMERON'] | begin, 'ephemeron'))
    for name, ts in fns.items():
        fn = m.fn(name); ran = {}
        um = 0
        for T, mk in ts: um |= mk
        for what, byte, want in cases:
            key = byte & um
            if key not in ran:
                A = Traced(m, fn, ts, key); A.run(name, frozenset()); ran[key] = A
            judge(ctx, ran[key], ts[0][0], want, 'a ' + what if not what.startswith(('un', 'e')) else 'an ' + what)
    # large objects carry their kind of tracing
    slow = m.fn('gc_allocate_slow')
    stores = [I for I in slow.all() if I.op == 'store' and I.field() == LOT]
    if not stores: ctx.bad('large', slow.terminator(0), 'large objects are not given a kind of tracing'); return
    class Kind(Automaton):
        descend = False
        def watch_key(self): return 'lokind'
        def watch(self, I): return I.ops[:1] if I.op == 'store' and I.field() == LOT else ()
        def relevant(self, I): return I.op == 'store' and I.field() == LOT
        def step(self, st, I):
            if I.op == 'store' and I.field() == LOT: self.seen.setdefault(I.id, [I, set(), False]); v = self.value(I.ops[0]); self.seen[I.id][1].update(v or ()); self.seen[I.id][2] |= v is None
            return None
    lt = {}
    for f in m.defined():
        if not any(I.is_call() and I.callee_name() == 'v_object_edge' for I in f.all()): continue
        for I in f.all():
            if I.op == 'switch' and any(x.field() == LOT for x in q.value_loads(f, I.ops[0], 3)): lt.setdefault(f.name, []).append((I, None))
    if not lt: ctx.bad('large', stores[0], 'tracing large objects does not depend on their kind'); return
    for n in KINDS:
        if (n, cons) not in WANT: continue
        K = Kind(m); K.seen = {}; K.run(slow.name, frozenset(), {2: m.enum_value('GC_ALLOCATION_' + n.upper())})
        for I, vs, unk in K.seen.values():
            if unk or len(vs) != 1: ctx.bad('large', I, 'how a large object is traced is not determined by its kind'); continue
            for name, ts in lt.items():
                A = Traced(m, m.fn(name), ts, next(iter(vs))); A.run(name, frozenset())
                judge(ctx, A, ts[0][0], WANT[n, cons], 'a large %s object' % n.replace('_', ' '))

# -- inline checks

class Poll(Automaton):
    """the slow path of the safepoint is taken when a collection is wanted"""
    descend = False
    def __init__(self, mod, fn): super().__init__(mod); self.f = fn; self.hits = {}
    def relevance_key(self): return 'poll'
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def assume(self, st, I, p, L, R):
        if p in ('eq', 'ne') and const_of(R) == 0 and any(x.field() == 'gc_heap.collecting' for x in q.value_loads(self.f, L, 4)):
            self.hit('tests of the flag of a wanted collection', I)
            return [st | {'stop' if p == 'ne' else 'go'}]
        return None
    def step(self, st, I):
        if I.is_call() and I.callee_name() == 'gc_safepoint_slow':
            if tuple(q.strip(self.f, I.ops[0])[:2]) != ('a', 0): self.error('safepoint', I, 'the slow path of the safepoint is called for another mutator')
            return [st | {'slow'}]
        return None
    def ret(self, st, I):
        if 'slow' not in st and 'go' not in st: self.error('safepoint', I, 'the inline safepoint may pass although a collection is wanted')
        return None

@rule('inline-checks', 'C14', 'C01', 'C08', configs=lambda c: is_mmc(c) or is_pcc(c), load={}, debug=False, limits=())
def inline_checks(ctx, m, cfg):
    f = m.fn('v_api_safepoint'); g = m.fn('v_api_should_stop_for_safepoint')
    if f is None or g is None: raise AnalysisError('inline safepoint not found')
    A = Poll(m, f); A.run(f.name, frozenset()); q.tally(ctx, A)
    for b in g.live_blocks():
        T = g.terminator(b)
        if T.op != 'ret': continue
        v = q.strip(g, T.ops[0]); J = g.insts[v[1]] if v[0] == 'v' else None
        while J is not None and J.op in ('zext', 'sext', 'trunc') or J is not None and J.op == 'icmp' and J.raw['pred'] == 'ne' and const_of(J.ops[1]) == 0:
            v = q.strip(g, J.ops[0]); J = g.insts[v[1]] if v[0] == 'v' else None
        if J is not None and J.op == 'load' and J.field() == 'gc_heap.collecting': ctx.ok('flags that say when to stop', J)
        else: ctx.bad('safepoint', T, 'the inline test for a safepoint does not look at the flag that a collection sets')
    if not is_gen(cfg): return
    o = m.fn('v_api_object_is_old_generation')
    if o is None: raise AnalysisError('inline generation test not found')
    E = {n: m.enum_value('NOFL_METADATA_BYTE_' + n) for n in ('YOUNG', 'MARK_0', 'MARK_1', 'MARK_2')}
    wh = where(m) if is_mmc(cfg) else set(); ok = None
    neg = lambda I: bool(inverted(o, I))
    for I in o.all():
        if I.op != 'icmp': continue
        p = I.raw['pred']; flip = neg(I)
        if is_mmc(cfg):
            x = masked(o, I.ops[0])
            if not x or const_of(I.ops[1]) is None: continue
            fm = bits.form(o, x[0].ptr())
            ad = bits.canon({(k if k == 1 else ('obj', k[1])): v for k, v in fm.items()}) if fm and {k[0] for k in fm if k != 1} == {('arg', 1)} else None
            full = E['YOUNG'] | E['MARK_0'] | E['MARK_1'] | E['MARK_2']
            if ad not in wh: ctx.bad('old', I, 'the inline test for old objects looks at another byte than that of the object')
            elif x[1] != full or const_of(I.ops[1]) & 255 != E['YOUNG']: ctx.bad('old', I, 'the inline test for old objects does not look for the mark of young ones')
            elif (p == 'ne') == flip: ctx.bad('old', I, 'the inline test takes young objects for old ones')
            else: ok = I; ctx.ok('inline tests for old objects', I)
        else:
            s = in_range(o, I.ops[0], I.ops[1])
            if p not in ('uge', 'ult') or s is None: continue
            if s != 'gc_heap.new_space' or (p == 'uge') == flip: ctx.bad('old', I, 'the inline test takes young objects for old ones')
            else: ok = I; ctx.ok('inline tests for old objects', I)
    if ok is None: ctx.bad('old', o.terminator(0), 'the inline test for old objects does not find the young ones')
    if is_pcc(cfg):
        for n, w in (('low', 'lo_addr'), ('high', 'hi_addr')):
            h = m.fn('gc_small_object_nursery_%s_address' % n)
            if h is None: raise AnalysisError('nursery address not found')
            for b in h.live_blocks():
                T = h.terminator(b)
                if T.op != 'ret': continue
                ls = q.value_loads(h, T.ops[0], 4)
                if len(ls) == 1 and str(ls[0].field()).endswith('.' + w): ctx.ok('ends of the nursery', T)
                else: ctx.bad('nursery', T, 'the %s end of the nursery is given wrongly' % n)

def inverted(f, I):
    """how often the outcome of a comparison is negated on its way"""
    n = 0
    while True:
        us = [u for u in f.users(['v', I.id]) if u.op in ('zext', 'sext', 'xor', 'icmp')]
        if len(us) != 1: return n % 2
        u = us[0]
        if u.op == 'xor' or u.op == 'icmp' and u.raw['pred'] == 'eq' and const_of(u.ops[1]) == 0: n += 1
        I = u
