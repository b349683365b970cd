"""C12: memory from which objects are allocated reads as zero; C13: an object fits in the free range it is taken from."""
from core import rule, own, mt, is_gen, is_mmc, is_pcc, is_semi, is_bdw, AnalysisError
import q
from ts import const_of, edge_atoms, SWAP, NEG

WINDOW = {'mmc': ('nofl_allocator.alloc', 'nofl_allocator.sweep'), 'pcc': ('copy_space_allocator.hp', 'copy_space_allocator.limit'), 'semi': ('semi_space.hp', 'semi_space.limit')}
def window(cfg): return WINDOW['mmc' if is_mmc(cfg) else 'pcc' if is_pcc(cfg) else 'semi']
PARTLY = {'copy_space_block.allocated': 1, 'nofl_block_summary.fragmentation_granules': -16}
GRANULE = 16

def comb(a, b, s=1):
    r = dict(a)
    for k, x in b.items(): r[k] = r.get(k, 0) + s * x
    return {k: x for k, x in r.items() if x}
def scale(a, s): return {k: x * s for k, x in a.items()}
def fz(a): return frozenset(a.items())
def atoms_of(a):
    for k in a:
        yield k
        if isinstance(k, tuple) and k[0] == '/':
            for y, _ in k[2]: yield y
def times(a, g):
    """g * a, where a may be a quotient by g (rounded down)"""
    out = {}
    for k, x in a.items():
        if isinstance(k, tuple) and k[0] == '/' and k[1] == g: out = comb(out, scale(dict(k[2]), x))
        else: out = comb(out, {k: x * g})
    return out

def wset(m, g, ends):
    M = m.__dict__.setdefault('_windowwrites', {})
    k = (g.name, ends)
    if k in M: return M[k]
    M[k] = False
    M[k] = any(I.op == 'store' and I.field() in ends or I.is_call() and any(m.fn(t) and not m.fn(t).decl and wset(m, m.fn(t), ends) for t in m.targets(I)) for I in g.all())
    return M[k]

class State:
    __slots__ = ('A', 'B', 'zero', 'fits', 'vals', 'opened')
    def __init__(s, A, B, zero, fits, vals, opened): s.A = A; s.B = B; s.zero = zero; s.fits = fits; s.vals = vals; s.opened = opened
    def key(s): return (fz(s.A), fz(s.B), s.zero, s.fits, frozenset((k, fz(v)) for k, v in s.vals.items()), s.opened.id if s.opened else None)
    def copy(s): return State(s.A, s.B, s.zero, s.fits, dict(s.vals), s.opened)

class Range:
    """every path through a function, with what is known of the free range [A, B): whether it is zero, and what fits in it"""
    def __init__(self, m, f, ends, limit=60000):
        self.m = m; self.f = f; self.ends = ends; self.errors = {}; self.oks = {}; self.bumps = {}; self.opens = {}
        self.phis = {}
        self.live = self.relevant()
        st = State({'A0': 1}, {'B0': 1}, 'given', frozenset(), {}, None)
        wl = [(0, st)]; seen = set()
        while wl:
            b, st = wl.pop()
            k = (b, st.key())
            if k in seen: continue
            seen.add(k)
            if len(seen) > limit: raise AnalysisError('zero: too many paths in %s' % f.name)
            st = self.block(b, st.copy())
            if st is None: continue
            T = f.terminator(b)
            for s in dict.fromkeys(f.succ[b]):
                n = self.edge(T, b, s, st)
                if n is not None: wl.append((s, n))
        self.states = len(seen)
    def relevant(self):
        """values that matter: what the ends of the range, sizes and tests of them are computed from"""
        f = self.f; R = set(); wl = []
        for I in f.all():
            if I.op == 'store' and I.field() in self.ends: wl += [I.ops[0]]
            if I.is_call() and (I.callee_name() or '').startswith('llvm.memset'): wl += [I.ops[0], I.ops[2]]
            if I.op in ('br', 'switch') and I.ops:
                flag = lambda x: f.insts[x].op == 'phi' and all(const_of(o) is not None for o, _ in f.insts[x].ops)
                if any(L.field() in self.ends or L.field() is None and self.first(L) in self.ends for L in q.value_loads(f, I.ops[0])) or self.bumpahead(I.block): wl.append(I.ops[0])
                else: R |= {x for x in self.sources(I.ops[0]) if flag(x)}
        while wl:
            v = wl.pop()
            if v[0] != 'v' or v[1] in R: continue
            R.add(v[1]); I = f.insts[v[1]]
            if I.op in ('load', 'call'): continue
            for o in I.ops:
                if I.op == 'phi': o = o[0]
                if isinstance(o, (list, tuple)) and o and o[0] == 'v': wl.append(o)
        return R
    # -- values
    def form(self, st, v, d=24):
        v = q.strip(self.f, v)
        c = const_of(v)
        if c is not None: return {1: c} if c else {}
        if v[0] in ('null', 'zero'): return {}
        if v[0] == 'a': return {('a', v[1]): 1}
        if v[0] != 'v': return {('?', repr(v)): 1}
        if v[1] in st.vals: return st.vals[v[1]]
        I = self.f.insts[v[1]]; me = {('v', I.id): 1}
        if d == 0: return me
        F = lambda o: self.form(st, o, d - 1)
        if I.op in ('add', 'sub'): return comb(F(I.ops[0]), F(I.ops[1]), 1 if I.op == 'add' else -1)
        if I.op == 'or' and const_of(I.ops[1]) is not None and False: return me
        if I.op in ('mul', 'shl') and const_of(I.ops[1]) is not None: return scale(F(I.ops[0]), const_of(I.ops[1]) if I.op == 'mul' else 1 << const_of(I.ops[1]))
        if I.op in ('mul', 'shl'): return {(I.op, fz(F(I.ops[0])), fz(F(I.ops[1]))): 1}
        if I.op in ('lshr', 'udiv') and const_of(I.ops[1]) is not None:
            c = const_of(I.ops[1]) if I.op == 'udiv' else 1 << const_of(I.ops[1])
            x = F(I.ops[0])
            if c > 0 and all(y % c == 0 for y in x.values()): return {k: y // c for k, y in x.items()}
            return {('/', c, fz(x)): 1}
        if I.op == 'and' and const_of(I.ops[1]) is not None: return {('&', const_of(I.ops[1]), fz(F(I.ops[0]))): 1}
        if I.op == 'getelementptr':
            g = I.raw['gep']
            if 'off' in g: return comb(F(I.ops[0]), {1: g['off']} if g['off'] else {})
            r = F(I.ops[0])
            for p in g['path']:
                if p[0] == 's': r = comb(r, {1: p[3]} if p[3] else {})
                elif p[0] == 'i': r = comb(r, {1: p[1] * p[2]} if p[1] * p[2] else {})
                elif p[0] == 'v': r = comb(r, scale(F(I.ops[p[1]]), p[2]))
                else: return me
            return r
        if I.op == 'select':
            a, b = F(I.ops[1]), F(I.ops[2])
            if a == b: return a
        return me
    def forget(self, st, i):
        """the value of instruction i changes: forget what was known in terms of it"""
        k = ('v', i)
        def has(a): return any(x == k or isinstance(x, tuple) and k in flat(x) for x in a)
        for x in [x for x, a in st.vals.items() if x == i or has(a)]: del st.vals[x]
        if has(st.A): st.A = {('old', 'A'): 1}
        if has(st.B): st.B = {('old', 'B'): 1}
    def err(self, what, I, why): self.errors.setdefault((what, I.id), (what, I, why))
    def end(self, st, I):
        """the mutator, or whoever is next, gets the range"""
        if st.opened is not None and not st.zero:
            self.err('dirty', st.opened, 'objects are allocated from memory that was not cleared')
    def fresh(self, v, d=0):
        """v points into memory just obtained from the system"""
        f = self.f
        while d < 12:
            d += 1
            v = q.strip(f, v)
            if v[0] != 'v': return False
            I = f.insts[v[1]]
            if I.is_call(): return (I.callee_name() or '') in ('gc_platform_acquire_memory', 'gc_platform_acquire_memory_from_reservation', 'mmap')
            if I.op in ('getelementptr', 'add', 'and'): v = I.ops[0]
            elif I.op == 'phi' and len(I.ops) == 1: v = I.ops[0][0]
            elif I.op == 'load' and I.field():
                # a field stored just before
                ss = [J for J in f.all() if J.op == 'store' and J.field() == I.field() and f.resolve_ptr(J.ptr()) == f.resolve_ptr(I.ptr())]
                return any(f.dominates(J, I) for J in ss) and any(self.fresh(J.ops[0], d) for J in ss) and all(const_of(J.ops[0]) == 0 or self.fresh(J.ops[0], d) for J in ss)
            else: return False
        return False
    def close(self, st):
        """what is known after an end of the range was set"""
        d = comb(st.B, st.A, -1)
        st.fits = frozenset()
        if not d or not st.B: st.zero = 'empty'; return
    def earlier(self, st, I):
        """the range was cleared just before it was made the free range"""
        f = self.f; d = comb(st.B, st.A, -1)
        cuts = {J.block for J in f.all() if J.is_call() and (J.callee_name() or '').startswith('llvm.memset') and const_of(J.ops[1]) == 0 and (J.block != I.block or f.dominates(J, I)) and self.form(st, J.ops[0]) == st.A and self.form(st, J.ops[2]) == d}
        if I.block in cuts: return True
        flags = set()
        for T in f.all():
            if T.op not in ('br', 'switch') or not T.ops: continue
            for s in dict.fromkeys(f.succ[T.block]):
                if any(p != 'in' and self.zeroflag(p, L, R) for p, L, R in edge_atoms(f, T, s)): flags.add((T.block, s))
        if not cuts: return False
        # from where the block is taken to here, always by way of the clearing, or of a flag that says it is not needed
        defs = set()
        for J in f.all():
            if J.block in cuts and J.is_call() and (J.callee_name() or '').startswith('llvm.memset'): defs |= self.sources(J.ops[0]) | self.sources(J.ops[2])
        for x in defs:
            D = f.insts[x].block
            if D in cuts: continue
            seen = set(); wl = [D]
            while wl:
                y = wl.pop()
                if y == I.block: return False
                if y in seen or y in cuts: continue
                seen.add(y); wl += [z for z in f.succ[y] if (y, z) not in flags]
        return True
    def sources(self, v, out=None):
        out = set() if out is None else out
        if v[0] != 'v' or v[1] in out: return out
        I = self.f.insts[v[1]]
        out.add(I.id)
        if I.op in ('phi', 'load') or I.is_call(): return out
        for o in I.ops:
            if isinstance(o, (list, tuple)) and o and o[0] == 'v': self.sources(o, out)
        return out
    # -- steps
    def block(self, b, st):
        f = self.f; hp, lim = self.ends
        for I in f.blocks[b]:
            if I.op == 'phi': continue
            fld = I.field() if I.op in ('load', 'store') else None
            if I.op == 'load' and fld is None and self.ends[0] == self.first(I): fld = hp
            if I.op == 'load':
                if I.id in self.live: self.forget(st, I.id)
                if fld == hp: st.vals[I.id] = st.A
                elif fld == lim: st.vals[I.id] = st.B
            elif I.op == 'store' and (fld == hp or fld is None and self.first(I) == hp):
                v = self.form(st, I.ops[0]); d = comb(v, st.A, -1)
                part = self.partly(d) or self.partly(comb(v, st.B, -1))
                if part and not st.zero: st.zero = 'partly full'
                elif part: pass
                elif set(d) <= {1} and d.get(1, 0) >= 0 and st.opened is None: pass
                elif self.isbump(I, d):
                    if not self.copied(I): self.end(st, I)
                    self.bumps.setdefault(I.id, I)
                    if d and not self.copied(I) and not self.fit(st, d): self.err('room', I, 'an object is allocated where it may not fit')
                    st.A = v; st.fits = frozenset(); continue
                elif v == st.B: st.zero = 'empty'
                st.A = v; st.fits = frozenset()
                self.close(st)
                if st.opened is not None and not st.zero and self.earlier(st, I): st.zero = 'cleared'
            elif I.op == 'store' and fld == lim:
                v = self.form(st, I.ops[0]); d = comb(v, st.B, -1)
                shrinks = d and (all(x < 0 for k, x in d.items()) or fz(scale(d, -1)) in st.fits) and st.B != {('old', 'B'): 1}
                st.B = v; st.fits = frozenset()
                if shrinks: continue
                st.opened = I; self.opens[I.id] = I; st.zero = ''
                if self.partly(comb(st.A, v, -1)): st.zero = 'partly full'
                self.close(st)
                if not st.zero and self.fresh(I.ops[0]): st.zero = 'fresh'
                if not st.zero and self.earlier(st, I): st.zero = 'cleared'
            elif I.is_call():
                n = I.callee_name() or ''
                if n in ('llvm.trap', 'abort', 'exit'): return None
                if n.startswith('llvm.memset') and const_of(I.ops[1]) == 0 and st.opened is not None:
                    a, l = self.form(st, I.ops[0]), self.form(st, I.ops[2])
                    if a == st.A and l == comb(st.B, st.A, -1):
                        if not st.zero: st.zero = 'cleared'
                g = self.m.fn(n)
                ts = [t for t in self.m.targets(I)]
                ws = [self.m.fn(t) for t in ts if self.m.fn(t) and not self.m.fn(t).decl and wset(self.m, self.m.fn(t), self.ends)]
                if ws and not any(wset(self.m, w, (lim,)) or self.takes(w) for w in ws):
                    st.A = {('hp after', I.where()): 1}; st.fits = frozenset()          # only copies survivors
                elif ws or not n and not ts:
                    self.end(st, I)
                    if I.id is not None: self.forget(st, I.id)
                    st.A = {('hp after', I.where()): 1}; st.B = {('limit after', I.where()): 1}; st.fits = frozenset(); st.zero = 'given'; st.opened = None
                    if I.id is not None: st.vals[I.id] = {('v', I.id): 1}; st.fits = frozenset([('call', I.id)])
                elif I.id is not None and I.id in self.live: self.forget(st, I.id)
            elif I.op == 'ret':
                self.end(st, I); return None
            elif I.op == 'unreachable': return None
        return st
    def mask(self):
        M = self.m.__dict__
        if '_regionmask' not in M:
            t = self.m.types.get('copy_space_region')
            M['_regionmask'] = (t['size'] // 8 if t and t.get('size') else 65536) - 1
        return M['_regionmask']
    def first(self, I):
        """the field at offset 0 of a structure given by address"""
        if I.ptr() is None: return None
        t = getattr(self.f, 'ditypes', None); v = q.strip(self.f, I.ptr())
        if v[0] == 'a' and t and v[1] + 1 < len(t):
            n = str(t[v[1] + 1]).replace('struct ', '').strip()
            if n.endswith('*') and not n.endswith('**'):
                from rules.alloc import leaf
                return leaf(self.m, n[:-1].strip(), 0)
        return None
    def partly(self, d):
        """the start of the range goes to where the objects of a block that is partly full end"""
        if len(d) != 1: return False
        (k, x), = d.items()
        if not (isinstance(k, tuple) and k[0] == 'v'): return False
        I = self.f.insts[k[1]]
        return I.op == 'load' and PARTLY.get(I.field()) == x
    def isbump(self, I, d):
        return any(L.field() == self.ends[0] or L.field() is None and self.first(L) == self.ends[0] for L in q.value_loads(self.f, I.ops[0], 6)) and not set(d) <= {1} or bool(set(d) <= {1} and d and d.get(1, 0) > 0 and self.ends[0] in {L.field() for L in q.value_loads(self.f, I.ops[0], 6)})
    def copied(self, I):
        """an object is copied to what is allocated here: it need not be zero"""
        f = self.f
        src = [L for L in q.value_loads(f, I.ops[0], 6) if L.field() == self.ends[0] or L.field() is None]
        for J in f.all():
            if J.is_call() and (J.callee_name() or '').startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove')):
                if f.dominates(J, I) or f.dominates(I, J):
                    D = q.value_loads(f, J.ops[0], 6)
                    if {L.id for L in D} & {L.id for L in src} or any(L.field() == self.ends[0] or L.field() is None and self.first(L) == self.ends[0] for L in D): return True
        return False
    def takes(self, g, seen=None):
        """g takes new objects from the free range"""
        M = self.m.__dict__.setdefault('_takes', {})
        if (g.name, self.ends) in M: return M[(g.name, self.ends)]
        M[(g.name, self.ends)] = False
        R = Range.__new__(Range); R.m = self.m; R.f = g; R.ends = self.ends
        r = any(I.op == 'store' and I.field() == self.ends[0] and not R.copied(I) for I in g.all())
        r = r or any(I.is_call() and any(self.m.fn(t) and not self.m.fn(t).decl and self.takes(self.m.fn(t)) for t in self.m.targets(I)) for I in g.all())
        M[(g.name, self.ends)] = r
        return r
    def fit(self, st, d):
        X = fz(d)
        if X in st.fits: return True
        r = comb(st.B, st.A, -1)
        if set(r) <= {1} and r.get(1, 0) >= 8192: return True
        if set(r) <= {1} and set(d) <= {1} and r.get(1, 0) >= d.get(1, 0): return True
        # the start is rounded up: enough if the rounded end was compared
        return False
    def edge(self, T, b, s, st):
        f = self.f; st = st.copy()
        for p, L, R in edge_atoms(f, T, s):
            if p == 'in': continue
            l, r = self.form(st, L), self.form(st, R)
            if set(l) <= {1} and set(r) <= {1}:
                x, y = l.get(1, 0), r.get(1, 0)
                if p == 'eq' and x != y or p == 'ne' and x == y: return None
                if p in ('ult', 'slt') and x >= y >= 0 or p in ('ule', 'sle') and x > y >= 0 or p in ('ugt', 'sgt') and y >= x >= 0 or p in ('uge', 'sge') and y > x >= 0: return None
            if st.opened is not None and not st.zero and (p == 'eq' or p == 'ule' and not r):
                room = comb(st.B, st.A, -1)
                if comb(l, r, -1) in (room, scale(room, -1)): st.zero = 'empty'
            if self.zeroflag(p, L, R) and st.opened is not None and not st.zero: st.zero = 'zero flag'
            # a test that shows that something fits
            if not self.bumpahead(s): continue
            if p in ('ult', 'ule', 'slt', 'sle'): l, r, pp = r, l, 'uge'
            elif p in ('ugt', 'uge', 'sgt', 'sge'): pp = 'uge'
            else: continue
            room = comb(st.B, st.A, -1)
            for g in (1, GRANULE):
                D = comb(times(l, g), times(r, g), -1)           # >= 0
                x = comb(room, D, -1)                            # what fits
                if x and not any(k in st.B for k in x if k != 1 and k not in st.A): st.fits |= {fz(x)}
            for k in list(st.fits):
                if isinstance(k, tuple) and k[0] == 'call' and l == {('v', k[1]): 1}:
                    st.fits |= {fz(times(r, GRANULE))}
        new = {}
        for I in f.blocks[s]:
            if I.op != 'phi': break
            for o, pb in I.ops:
                if pb == b and I.id in self.live: new[I.id] = self.form(st, o)
        for i, a in new.items(): self.forget(st, i)
        for i, a in new.items():
            S = self.phis.setdefault(i, set())
            if a == {('v', i): 1} or any(k == ('v', i) or isinstance(k, tuple) and ('v', i) in flat(k) for k in a): continue
            if fz(a) not in S and len(S) >= 6: continue
            S.add(fz(a)); st.vals[i] = a
        if not self.interesting(st, s): return State({'A0': 1}, {'B0': 1}, 'given', frozenset(), {}, None)
        # drop what is not needed any more
        st.vals = {i: a for i, a in st.vals.items() if self.needed(i, s)}
        return st
    def interesting(self, st, b):
        """there is a range not known to be zero, or something is still to be allocated"""
        return st.opened is not None and not st.zero or self.bumpahead(b)
    def bumpahead(self, b):
        M = self.f.__dict__.setdefault('_zeroreach', {})
        R = M.get(('r', b))
        if R is None: R = M[('r', b)] = self.f.reachable([b])
        B = M.get('bumps')
        if B is None:
            hp = self.ends[0]
            B = M['bumps'] = {I.block for I in self.f.all() if I.op == 'store' and I.field() == self.ends[1] and any(L.field() == self.ends[1] for L in q.value_loads(self.f, I.ops[0], 6))}
            B |= {I.block for I in self.f.all() if I.op == 'store' and (I.field() == hp or I.field() is None and self.first(I) == hp) and any(L.field() == hp or L.field() is None and self.first(L) == hp for L in q.value_loads(self.f, I.ops[0], 6))}
        return bool(B & R)
    def needed(self, i, b):
        M = self.f.__dict__.setdefault('_zeroreach', {})
        us = M.get(i)
        if us is None:
            us = set(); wl = [i]; seen = set()
            while wl:
                x = wl.pop()
                if x in seen: continue
                seen.add(x)
                for U in self.f.users(['v', x]):
                    if U.op == 'phi': us |= {pb for o, pb in U.ops if o[0] == 'v' and o[1] == x}; continue
                    us.add(U.block)
                    if U.id is not None and U.op not in ('load', 'call'): wl.append(U.id)
            # blocks at whose start the value is still to be used
            D = self.f.insts[i].block; wl = list(us); us = set()
            while wl:
                x = wl.pop()
                if x in us: continue
                us.add(x)
                if x != D: wl += self.f.pred[x]
            M[i] = us
        return b in us
    def zeroflag(self, p, L, R):
        """the test shows that the memory of the block is zero"""
        f = self.f
        ls = q.value_loads(f, L, 5)
        if len(ls) != 1: return False
        fld = ls[0].field(); c = const_of(R)
        if fld is None:
            P = f.resolve_ptr(ls[0].ptr())
            fs = {J.field() for J in f.all() if J.op in ('load', 'store') and J.field() and J.ptr() is not None and f.resolve_ptr(J.ptr()) == P}
            fld = next((x for x in fs if x.endswith(('next_and_flags', 'all_zeroes'))), None) or shape(self.m, f, ls[0].ptr())
        fld = str(fld)
        if 'all_zeroes' in fld: return p == 'ne' and c == 0 or p == 'eq' and c == 1
        if fld.endswith('next_and_flags'):
            Z = self.m.enum_value('NOFL_BLOCK_ZERO')
            v = q.strip(f, L); I = f.insts[v[1]] if v[0] == 'v' else None
            if I is None or I.op != 'and' or Z is None: return False
            mask = const_of(I.ops[1])
            if mask is None or not mask & Z: return False
            return p == 'eq' and c is not None and c & Z == Z or p == 'ne' and c == 0 and mask == Z
        return False

def flat(k):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x: go(y)
        elif isinstance(x, frozenset):
            for y in x: go(y)
    go(k)
    return out

def sig(f, v):
    out = []
    while v[0] == 'v' and f.insts[v[1]].op == 'getelementptr':
        g = f.insts[v[1]]; v = g.ops[0]
        if str(g.raw['gep'].get('src')).startswith('%'): return g.raw['gep'].get('src'), g.raw['gep'].get('off')
    return None
def shape(m, f, v):
    """the field that accesses by an address computed like this one are to"""
    M = m.__dict__.get('_shapes')
    if M is None:
        M = m.__dict__['_shapes'] = {}
        for g in m.defined():
            for I in g.all():
                if I.op in ('load', 'store') and I.field() and I.ptr() is not None:
                    k = sig(g, I.ptr())
                    if k: M.setdefault(k, set()).add(I.field().rstrip('[]'))
    s = M.get(sig(f, v), ())
    return next(iter(s)) if len(s) == 1 else None

def ranges(m, cfg):
    M = m.__dict__.get('_ranges')
    if M is None:
        M = m.__dict__['_ranges'] = []
        ends = window(cfg)
        for f in m.defined():
            if f.name.startswith('v_api_') or f.name.startswith('v_'): continue
            if any(I.op == 'store' and (I.field() in ends) for I in f.all()): M.append(Range(m, f, ends))
    return M

@rule('free-range', 'C12', configs=own, load=dict(), debug=False, limits=())
def free_range(ctx, m, cfg):
    Rs = ranges(m, cfg)
    if not Rs: raise AnalysisError('free-range: nobody sets the free range')
    for R in Rs:
        ctx.ok('functions that set the free range, paths followed', R.f.name, R.states)
        bad = {e[1].id for e in R.errors.values() if e[0] == 'dirty'}
        for I in R.opens.values():
            if I.id not in bad: ctx.ok('free ranges that are empty, fresh or cleared', I)
        for what, I, why in R.errors.values():
            if what == 'dirty': ctx.bad(what, I, why)
        flag_tests(ctx, m, cfg, R)
    records(ctx, m, cfg)

def flag_tests(ctx, m, cfg, R):
    """where the zero flag of a block is looked at to leave out clearing it: it is the flag of the memory that is used, and it is reset"""
    f = R.f; Z = m.enum_value('NOFL_BLOCK_ZERO') if is_mmc(cfg) else None
    def index(I):
        out = []
        g = f.insts[I.ptr()[1]] if I.ptr()[0] == 'v' else None
        for x in (g.raw['gep'].get('path', []) if g is not None and g.op == 'getelementptr' else []):
            if x[0] != 'v': continue
            o = q.strip(f, g.ops[x[1]]); J = f.insts[o[1]] if o[0] == 'v' else None
            out.append(J.field() if J is not None and J.op == 'load' else tuple(o[:2]))
        return out
    def clears(I, P):
        if I.op != 'store' or I.ptr() is None: return False
        if f.resolve_ptr(I.ptr()) != P and I.ptr() != P: return False
        if I.ptr() != L.ptr() and index(I) != index(L): return False
        c = const_of(I.ops[0])
        if c is not None: return not c & (Z or 255)
        v = q.strip(f, I.ops[0]); J = f.insts[v[1]] if v[0] == 'v' else None
        k = const_of(J.ops[1]) if J is not None and J.op == 'and' else None
        return Z is not None and k is not None and not k & Z
    for T in f.all():
        if T.op not in ('br', 'switch') or not T.ops: continue
        for s in dict.fromkeys(f.succ[T.block]):
            for p, A, B in edge_atoms(f, T, s):
                if p == 'in' or not R.zeroflag(p, A, B): continue
                # left out: not followed by clearing
                L = q.value_loads(f, A, 5)[0]; P = f.resolve_ptr(L.ptr())
                opens = {I.block for I in f.all() if I.op == 'store' and I.field() == R.ends[1] and const_of(I.ops[0]) != 0}
                if not opens & f.reachable([s]) and not any(T.block in f.reachable([b]) for b in opens): continue
                if Z is None:
                    g = f.insts[L.ptr()[1]] if L.ptr()[0] == 'v' else None
                    idx = [o for x in (g.raw['gep']['path'] if g is not None and g.op == 'getelementptr' else []) if x[0] == 'v' for o in [q.strip(f, g.ops[x[1]])]]
                    ok = idx and idx[0][0] == 'v' and f.insts[idx[0][1]].op == 'load' and f.insts[idx[0][1]].field() == 'copy_space.active_region'
                    if not ok and not (idx and idx[0][0] in ('a',)):
                        if idx and idx[0][0] == 'v' and f.insts[idx[0][1]].op == 'phi': pass
                        else: ctx.bad('flag', T, 'the flag that says a half of a block is zero is not that of the half in use'); continue
                if any(clears(I, P) and f.dominates(L, I) and f.dominates(I, T) for I in f.all()):
                    ctx.ok('flags of zero blocks that are reset when the block is used', T); continue
                bad = False
                for t in dict.fromkeys(f.succ[T.block]):
                    if any(shows0(p2, A2, B2, Z) and q.value_loads(f, A2, 5)[:1] == [L] for p2, A2, B2 in edge_atoms(f, T, t) if p2 != 'in'): continue
                    seen = set(); wl = [t]
                    while wl:
                        x = wl.pop()
                        if x in seen: continue
                        seen.add(x)
                        if any(clears(I, P) for I in f.blocks[x]): continue
                        if f.terminator(x).op == 'ret': bad = True
                        if L.block in f.succ[x]: bad = True
                        wl += [y for y in f.succ[x] if y != L.block]
                if bad: ctx.bad('flag', T, 'a block that is used goes on being counted as zero')
                else: ctx.ok('flags of zero blocks that are reset when the block is used', T)

def shows0(p, A, B, Z):
    c = const_of(B)
    if Z is None: return p == 'eq' and c == 0 or p == 'ne' and c == 1
    return p == 'eq' and c == 0 or p == 'ne' and c == Z

def records(ctx, m, cfg):
    """a partly full block that is given back records how much of it is left"""
    hp, lim = window(cfg)
    for f in m.defined():
        if f.name.startswith('v_'): continue
        for I in f.all():
            if I.op != 'store' or I.field() not in PARTLY: continue
            R = Range.__new__(Range); R.m = m; R.f = f; R.ends = (hp, lim)
            vals = {}
            for L in q.value_loads(f, I.ops[0], 8):
                fld = L.field() or R.first(L)
                if fld == hp: vals[L.id] = {'A': 1}
                elif fld == lim: vals[L.id] = {'B': 1}
                elif fld in PARTLY: vals[L.id] = {'C': 1}
            v = R.form(State({'A': 1}, {'B': 1}, '', frozenset(), vals, None), I.ops[0])
            atoms = set()
            for k in v: atoms |= {k, (k, 1)} | flat(k)
            if not atoms & {'A', 'B', ('A', 1), ('B', 1), ('A', -1), ('B', -1)}: continue             # not the free range of an allocator
            if PARTLY[I.field()] < 0: v.pop('C', 0); good = times(v, -PARTLY[I.field()]) == {'B': 1, 'A': -1}
            else: good = v == {('&', R.mask(), fz({'A': 1})): 1}
            if good or any(isinstance(a, tuple) and a[0] in ('v', '?') for a in atoms): ctx.ok('records of how much of a partly full block is left', I)
            else: ctx.bad('mark', I, 'how much of a partly full block is left is recorded wrongly')

@rule('allocation-room', 'C13', configs=own, load=dict(), debug=False, limits=())
def allocation_room(ctx, m, cfg):
    n = 0
    for R in ranges(m, cfg):
        bad = {e[1].id for e in R.errors.values() if e[0] == 'room'}
        for I in R.bumps.values():
            n += 1
            if I.id not in bad: ctx.ok('objects taken from the free range that fit', I)
        for what, I, why in R.errors.values():
            if what == 'room': ctx.bad(what, I, why)

LARGE = 'large_object.addr'

@rule('large-zero', 'C12', configs=own, load=dict(), debug=False, limits=())
def large_zero(ctx, m, cfg):
    """a large object made from pages that were used before is cleared in all of its size"""
    n = 0
    for f in m.defined():
        if f.name.startswith('v_'): continue
        # where a free node becomes live again
        lives = [I for I in f.all() if I.op == 'store' and I.field() == 'large_object_data.is_live' and const_of(I.ops[0]) == 1]
        for S in lives:
            b = f.root_of(S.ptr())
            if b and b[0] == 'v' and f.insts[b[1]].op == 'alloca': continue        # a description of fresh pages
            if b and b[0] == 'v' and f.insts[b[1]].is_call() and (f.insts[b[1]].callee_name() or '') == 'malloc': continue
            n += 1
            sizes = [J for J in f.all() if J.op == 'store' and (J.field() or '').endswith('large_object.size') and f.root_of(J.ptr()) == b]
            same = {tuple(q.strip(f, J.ops[0])[:2]) for J in sizes}
            def clears(J):
                if not (J.is_call() and (J.callee_name() or '').startswith('llvm.memset')) or const_of(J.ops[1]) != 0: return False
                A = [L for L in q.value_loads(f, J.ops[0], 8) if (L.field() or '').endswith('large_object.addr') or L.field() is None and f.root_of(L.ptr()) == b]
                if not A or not start(f, J.ops[0]): return False
                z = q.strip(f, J.ops[2])
                if tuple(z[:2]) in same: return True
                return z[0] == 'v' and f.insts[z[1]].op == 'load' and (f.insts[z[1]].field() or '').endswith('large_object.size')
            ms = {J.block for J in f.all() if clears(J)}
            # to the end of the function, or to where the next hole is looked at, without it
            here = f.blocks[S.block]; i = here.index(S)
            bad = False
            if S.block in ms: ms.discard(S.block); done = True
            else: done = False
            if not done:
                seen = {S.block}; wl = list(f.succ[S.block])
                while wl:
                    x = wl.pop()
                    if x in seen or x in ms: continue
                    seen.add(x)
                    if f.terminator(x).op == 'ret': bad = True
                    wl += f.succ[x]
            if bad: ctx.bad('dirty', S, 'a large object is made from pages that were used before and are not cleared')
            else: ctx.ok('large objects from used pages that are cleared', S)
    ctx.need('large objects made from used pages', n, 1)

def start(f, v):
    """v is an address as it was loaded, nothing added"""
    for _ in range(12):
        v = q.strip(f, v)
        if v[0] != 'v': return False
        I = f.insts[v[1]]
        if I.op == 'load': return True
        if I.op == 'phi' and len({tuple(map(str, o)) for o, _ in I.ops if o[0] not in ('null', 'c')}) == 1: v = next(o for o, _ in I.ops if o[0] not in ('null', 'c'))
        else: return False
    return False
