"""C13: memory that could not be had is noticed, and allocation does not return without an object."""
from core import rule, own, mt, is_gen, is_mmc, is_pcc, is_semi, is_bdw, AnalysisError
import q
from ts import const_of, edge_atoms, atoms, SWAP, NEG

SYSTEM = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup', 'strndup', 'gc_platform_acquire_memory', 'gc_platform_acquire_memory_from_reservation',
          'GC_malloc', 'GC_malloc_atomic', 'GC_generic_malloc', 'GC_generic_or_special_malloc', 'GC_malloc_uncollectable', 'GC_malloc_explicitly_typed'}
OUT = {'GC_generic_malloc_many': 2, 'GC_malloc_many': None}; OUT.pop('GC_malloc_many')
HARMLESS = {'free', 'munmap', 'gc_platform_release_memory', 'gc_platform_release_reservation', 'perror', 'fprintf', 'printf', 'GC_free'}
COPIES = ('llvm.memset', 'llvm.memcpy', 'llvm.memmove', 'memset', 'memcpy', 'memmove', 'strcpy', 'strlen')
THROUGH = ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'extractvalue')
def zero(v): return v[0] in ('null', 'zero', 'undef') and v[0] != 'undef' or const_of(v) == 0
def key(v): return (v[0], v[1]) if v[0] in ('v', 'a') else None

class Walk:
    """every path from the place where memory is asked for; the state is what is known of the answer and where it is"""
    def __init__(self, an, f, start, aliases, at, at_block=None, status='maybe'):
        self.an = an; self.f = f; self.errors = {}; self.fails = False; self.limit = 40000; self.at = at
        self.untested_return = False
        s0 = (frozenset(aliases), status, frozenset())
        self.returns_alias = False
        if start is None: wl = [(at_block or 0, 0, s0)]
        else: wl = [(start.block, start.idx + 1 if hasattr(start, 'idx') else f.blocks[start.block].index(start) + 1, s0)]
        seen = set()
        while wl:
            b, i, st = wl.pop()
            if (b, i, st) in seen: continue
            seen.add((b, i, st))
            if len(seen) > self.limit: raise AnalysisError('memory: too many paths in %s from %s' % (f.name, start.where() if start else ''))
            st = self.block(b, i, st)
            if st is None: continue
            T = f.terminator(b)
            for s in dict.fromkeys(f.succ[b]):
                n = self.edge(T, b, s, st)
                if n is not None: wl.append((s, 0, n))
    # -- values
    def strip(self, v):
        f = self.f
        while v[0] == 'v':
            I = f.insts[v[1]]
            if I.op in THROUGH: v = I.ops[0]
            else: break
        return v
    def is_alias(self, st, v):
        v = self.strip(v); k = key(v)
        return k is not None and k in st[0]
    def place(self, p):
        f = self.f
        r = f.root_of(p); x = f.field_of(p)
        if x: return ('F', ('f', 'a' if r and r[0] == 'v' and f.insts[r[1]].op == 'alloca' else 'x'), x)
        return ('F', tuple(map(str, r[:2])), '') if r else None
    def points(self, st, p):
        f = self.f; v = p
        for _ in range(12):
            if self.is_alias(st, v): return True
            if v[0] != 'v': return False
            I = f.insts[v[1]]
            if I.op in THROUGH or I.op in ('getelementptr', 'and', 'or', 'add', 'sub'): v = I.ops[0] if I.op == 'getelementptr' or const_of(I.ops[0]) is None else I.ops[1]
            else: return False
        return False
    def err(self, rule, I, why):
        self.errors.setdefault((rule, I.id), (rule, I, why))
    # -- one block
    def block(self, b, i, st):
        f = self.f; A, status, env = st
        for I in f.blocks[b][i:]:
            if I is self.at and i == 0: return None       # asked for again: another answer
            if I.op == 'phi' or I.op == 'alloca': continue
            if I.op == 'load':
                pl = self.place(I.ptr())
                if pl in A: A = A | {('v', I.id)}
                elif self.points((A, status, env), I.ptr()):
                    self.err('use', I, 'memory is used without a test that it was obtained'); return None
            elif I.op == 'store':
                if self.points((A, status, env), I.ptr()):
                    self.err('use', I, 'memory is used without a test that it was obtained'); return None
                pl = self.place(I.ptr())
                if pl is not None:
                    if self.is_alias((A, status, env), I.ops[0]): A = A | {pl}
                    elif pl in A and pl[2]: A = A - {pl}
            elif I.op in ('atomicrmw', 'cmpxchg'):
                if self.points((A, status, env), I.ptr()):
                    self.err('use', I, 'memory is used without a test that it was obtained'); return None
            elif I.is_call():
                n = I.callee_name() or ''
                if n in ('llvm.trap', 'abort', 'exit', '_exit', '__assert_fail'): return None
                if n in HARMLESS or n.startswith('llvm.lifetime') or n.startswith('llvm.dbg'): continue
                for j, o in enumerate(I.ops):
                    if o[0] == 'v' or o[0] == 'a':
                        if not self.points((A, status, env), o): continue
                        if n.startswith(COPIES): bad = True
                        elif n in SYSTEM: bad = False
                        elif not self.an.m.fn(n) or self.an.m.fn(n).decl: bad = True
                        else: bad = self.an.param_unsafe(n, j)
                        if bad:
                            self.err('use', I, 'memory is used without a test that it was obtained'); return None
            elif I.op == 'ret':
                if I.ops and self.is_alias((A, status, env), I.ops[0]): self.fails = self.returns_alias = True; return None
                v = self.value(env, I.ops[0]) if I.ops else None
                if v is not None and zero(v) : self.fails = True; return None
                kept = [x for x in A if x[0] == 'F' and not self.local(x)]
                if kept and status == 'maybe': self.err('untested', self.at or I, 'it is not tested whether memory was obtained')
                elif kept and status == 'null': self.err('goes-on', I, 'a function goes on without the memory it asked for')
                return None
            elif I.op == 'unreachable': return None
        return (A, status, env)
    def local(self, pl):
        r = pl[1]
        if r[0] == 'f': return r[1] == 'a'
        return r[0] == 'v' and r[1].isdigit() and self.f.insts[int(r[1])].op == 'alloca'
    def value(self, env, v, d=0):
        e = dict(env)
        while v[0] == 'v' and d < 8:
            d += 1
            if v[1] in e: v = list(e[v[1]]); continue
            I = self.f.insts[v[1]]
            if I.op in ('zext', 'sext', 'freeze', 'trunc'): v = I.ops[0]
            else: break
        return v
    def edge(self, T, b, s, st):
        f = self.f; A, status, env = st
        facts = {('v', k): ('is', list(v)) for k, v in env}
        for p, L, R in edge_atoms(f, T, s, facts):
            if p == 'in': continue
            if p in ('slt', 'sgt', 'sle', 'sge'): pass
            l, r = self.value(env, L), self.value(env, R)
            if zero(l) and not zero(r) and key(r): l, r, p = r, l, SWAP.get(p, p)
            if self.is_alias(st, l) and zero(r):
                if p == 'ne' or p == 'ugt': return None if status == 'maybe' else None      # it is there: nothing more to see
                if p in ('eq', 'ule'): status = 'null'
            elif const_of(l) is not None and const_of(r) is not None or zero(l) and zero(r):
                a, c = const_of(l) or 0, const_of(r) or 0
                if p == 'eq' and a != c or p == 'ne' and a == c: return None
        A = set(A); env = dict(env)
        new = {}
        for I in f.blocks[s]:
            if I.op != 'phi': break
            for o, pb in I.ops:
                if pb == b: new[I.id] = o
        al = {i for i, o in new.items() if self.is_alias((frozenset(A), status, env), o) or status == 'null' and A and zero(o) and f.insts[i].ty == 'ptr'}
        vals = {i: self.value(tuple(env.items()), o) for i, o in new.items()}
        for i, o in new.items():
            A.discard(('v', i)); env.pop(i, None)
            if i in al: A.add(('v', i))
            else:
                o = vals[i]
                I = f.insts[i]
                if const_of(o) is not None or zero(o): env[i] = tuple(o) if o[0] != 'null' else ('null',)
                elif I.ty == 'i1' and o[0] == 'v' and f.insts[o[1]].op == 'icmp': env[i] = tuple(o)
        # forget what does not matter any more
        A = {x for x in A if x[0] == 'F' or x[0] == 'a' or self.needed(x[1], s)}
        if not A: env = {k: v for k, v in env.items() if k in new}
        env = {k: v for k, v in env.items() if self.needed(k, s)}
        return (frozenset(A), status, frozenset((k, tuple(v)) for k, v in env.items()))
    def needed(self, i, b):
        f = self.f; M = f.__dict__.setdefault('_memreach', {})
        us = M.get(i)
        if us is None:
            us = M[i] = {U.block for U in f.users(['v', i])} | {pb for U in f.users(['v', i]) if U.op == 'phi' for o, pb in U.ops if o[0] == 'v' and o[1] == i}
            # what is computed from it without another step of the path
            wl = [U for U in f.users(['v', i])]; seen = set()
            while wl:
                U = wl.pop()
                if U.id in seen or U.id is None: continue
                seen.add(U.id)
                if U.op in THROUGH or U.op in ('getelementptr', 'icmp', 'select', 'xor', 'and', 'or'):
                    for W in f.users(['v', U.id]):
                        us.add(W.block); wl.append(W)
                        if W.op == 'phi': us |= {pb for o, pb in W.ops if o[0] == 'v' and o[1] == U.id}
        R = M.get(('r', b))
        if R is None: R = M[('r', b)] = f.reachable([b])
        return bool(us & R)

class Memory:
    def __init__(self, m):
        self.m = m; self.params = {}; self.providers = dict.fromkeys(SYSTEM | set(OUT)); self.results = []
    def param_unsafe(self, n, j):
        k = (n, j)
        if k in self.params: return self.params[k]
        self.params[k] = False
        f = self.m.fn(n)
        w = Walk(self, f, None, {('a', j)}, None)
        self.params[k] = any(e[0] == 'use' for e in w.errors.values())
        return self.params[k]
    def place_of(self, f, p):
        w = Walk.__new__(Walk); w.f = f
        return w.place(p)
    def run(self, ctx):
        todo = [(f, I) for f in self.m.defined() for I in f.all() if I.is_call() and I.callee_name() in self.providers]
        done = set(); n = 0
        while todo:
            f, I = todo.pop()
            if (f.name, I.id) in done: continue
            done.add((f.name, I.id))
            start = {('v', I.id)}
            if I.callee_name() in OUT: start = {self.place_of(f, I.ops[OUT[I.callee_name()]])}
            w = Walk(self, f, I, start, I)
            n += 1
            ctx.ok('requests for memory' if I.callee_name() in SYSTEM else 'results of functions that may not get memory', I)
            for r, J, why in w.errors.values(): ctx.bad(r, J, why + ' (asked for in line %s)' % (I.where().split(' ')[0] if hasattr(I, 'where') else '?'))
            if w.fails and f.name not in self.providers:
                self.providers[f.name] = (f, I)
                todo += [(g, C) for g in self.m.defined() for C in g.all() if C.is_call() and C.callee_name() == f.name]
        return n

PUBLIC = ('gc_allocate_slow', 'gc_allocate_ephemeron', 'gc_allocate_finalizer')

def collecting(m):
    """functions that may stop the world and collect"""
    S = {f.name for f in m.defined() for I in f.all() if q.event_slot(m, I) == 'prepare_gc'}
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            if f.name in S: continue
            for I in f.all():
                if I.is_call() and (set(m.targets(I)) & S if I.callee_name() is None or m.fn(I.callee_name()) else False):
                    S.add(f.name); ch = True; break
    return S

def collects(m, S, I):
    """call I may collect: itself, or by a function it is given"""
    if not I.is_call(): return False
    if set(m.targets(I)) & S: return True
    return any(o[0] in ('f', 'g') and o[1] in S for o in I.ops)

def crashes(f):
    return [I for I in f.all() if I.is_call() and I.callee_name() in ('llvm.trap', 'abort')]

def path_atoms(f, b):
    """comparisons that hold whenever block b is reached: of the edges that every path to it takes"""
    out = []
    for x in range(len(f.blocks)):
        if len(set(f.succ[x])) < 2 or x not in f.dom(): continue
        for s in set(f.succ[x]):
            seen = {0}; wl = [0]
            while wl:
                y = wl.pop()
                for z in f.succ[y]:
                    if (y, z) != (x, s) and z not in seen: seen.add(z); wl.append(z)
            if b not in seen or b == 0:
                if b in seen: continue
                T = f.terminator(x)
                for p, L, R in edge_atoms(f, T, s):
                    if p != 'in': out.append((p, L, R, T)); out += flag_atoms(f, p, L, R, T)
    return out

def flag_atoms(f, p, L, R, T):
    """a flag that is a merge of conditions: of those that can give it the value it has, the only one holds"""
    c = const_of(R)
    if p not in ('eq', 'ne') or c not in (0, 1) or L[0] != 'v': return []
    return flag_is(f, L, (c == 0) == (p == 'ne'), T)

def flag_is(f, v, want, T, d=0):
    if v[0] != 'v' or d > 5: return []
    I = f.insts[v[1]]
    if I.op in ('zext', 'freeze', 'trunc'): return flag_is(f, I.ops[0], want, T, d + 1)
    fits = lambda o: const_of(o) is None or bool(const_of(o) & 1) == want
    if I.op == 'phi':
        arms = [(o, b) for o, b in I.ops if fits(o)]
        if len(arms) != 1: return []
        o, b = arms[0]
        x = path_atoms(f, b)
        if len(set(f.succ[b])) > 1: x += [(pp, l, r, f.terminator(b)) for pp, l, r in edge_atoms(f, f.terminator(b), I.block) if pp != 'in']
        return x + flag_is(f, o, want, T, d + 1)
    if I.op == 'select' and I.ty != 'i1':
        if fits(I.ops[1]) == fits(I.ops[2]): return []
        return flag_is(f, I.ops[0], fits(I.ops[1]), T, d + 1) + flag_is(f, I.ops[1 if fits(I.ops[1]) else 2], want, T, d + 1)
    if I.ty != 'i1': return []
    out = []
    for pp, l, r in atoms(f, v, want):
        out.append((pp, l, r, T))
        if const_of(r) in (0, 1) and l != v and tuple(l) != tuple(v): out += flag_atoms(f, pp, l, r, T)
    return out

def fields_in(f, v): return {L.field() or '' for L in q.value_loads(f, v)}

@rule('memory-obtained', 'C13', configs=lambda c: True, load=dict(), debug=False)
def memory_obtained(ctx, m, cfg):
    M = Memory(m); n = M.run(ctx)
    ctx.need('requests for memory', n, 2)
    # what the mutator is given is an object
    tree = {}
    for n in PUBLIC:
        f = m.fn(n)
        if f is None or f.decl: continue
        wl = [f]; seen = {n}
        while wl:
            g = wl.pop()
            for I in g.all():
                h = I.callee_name() and m.fn(I.callee_name()) if I.is_call() else None
                if h is not None and not h.decl and h.name not in seen and h.ret in ('ptr', 'i64') if h is not None and hasattr(h, 'ret') else h is not None and not h.decl and h.name not in seen and I.ty in ('ptr', 'i64'):
                    seen.add(h.name); wl.append(h)
        tree[n] = seen
    nul = {}
    def may_be_null(g):
        """g returns null, as such, on some path"""
        if g.name in nul: return nul[g.name]
        nul[g.name] = False
        r = False
        for J in map(g.terminator, g.exits()):
            if J.op != 'ret' or not J.ops: continue
            wl = [J.ops[0]]; seen = set()
            while wl:
                v = wl.pop()
                if zero(v): r = True
                if v[0] != 'v' or v[1] in seen: continue
                seen.add(v[1]); I = g.insts[v[1]]
                if I.op in THROUGH: wl.append(I.ops[0])
                elif I.op == 'phi': wl += [o for o, b in I.ops]
                elif I.op == 'select': wl += I.ops[1:]
                elif I.is_call() and I.callee_name() in M.providers: r = True
                elif I.is_call() and m.fn(I.callee_name() or '') and not m.fn(I.callee_name()).decl: r = r or may_be_null(m.fn(I.callee_name()))
        nul[g.name] = r
        return r
    nul['gc_allocate_slow'] = False       # judged by itself
    for n in tree:
        f = m.fn(n)
        def check(g, top):
            """g's result is never null; calls that may fail inside it are followed"""
            bad = False
            for I in g.all():
                if I.is_call() and I.ty in ('ptr', 'i64') and (I.callee_name() in SYSTEM or m.fn(I.callee_name() or '') and not m.fn(I.callee_name()).decl and may_be_null(m.fn(I.callee_name()))):
                    w = Walk(M, g, I, {('v', I.id)}, I)
                    if w.returns_alias: ctx.bad('null', I, 'allocation may return without an object'); bad = True
                    else: ctx.ok('attempts to allocate whose failure is not passed on', I)
                if I.op == 'phi' and I.ty in ('ptr', 'i64'):
                    for o, b in I.ops:
                        if zero(o) and I.ty == 'ptr' or zero(o) and flows_to_ret(g, I):
                            w = Walk(M, g, None, {('v', I.id)}, None, at_block=I.block, status='null')
                            if w.returns_alias: ctx.bad('null', g.terminator(b), 'allocation may return without an object'); bad = True
            for J in map(g.terminator, g.exits()):
                if J.op == 'ret' and J.ops and zero(J.ops[0]): ctx.bad('null', J, 'allocation may return without an object')
        check(f, n)

def flows_to_ret(g, P):
    wl = [P]; seen = set()
    while wl:
        I = wl.pop()
        if I.id in seen: continue
        seen.add(I.id)
        for U in g.users(['v', I.id]):
            if U.op == 'ret': return True
            if U.op in THROUGH or U.op in ('phi', 'select'): wl.append(U)
    return False

@rule('out-of-memory', 'C13', configs=own, load=dict(), debug=False, limits=())
def out_of_memory(ctx, m, cfg):
    S = collecting(m)
    f = m.fn('gc_allocate_slow')
    if f is None or f.decl: raise AnalysisError('out-of-memory: no gc_allocate_slow')
    # both small and large allocation collect before they give up
    thr = set()
    for I in f.all():
        if not collects(m, S, I): continue
        for p, L, R, T in path_atoms(f, I.block):
            for l, r, pp in ((L, R, p), (R, L, SWAP.get(p, p))):
                if l[0] == 'a' and l[1] == 1 and (const_of(r) or 0) > 64: thr.add('large' if pp in ('ugt', 'uge') else 'small' if pp in ('ult', 'ule') else None)
    for k in ('small', 'large'):
        if k in thr: ctx.ok('allocations that collect when there is no room', f.name + ' ' + k)
        else: ctx.bad('collect', f.name, 'a %s allocation for which there is no room does not cause a collection' % k)
    FIXED = m.enum_value('GC_HEAP_SIZE_FIXED'); MINOR = m.enum_value('GC_COLLECTION_MINOR')
    n = 0
    for g in m.defined():
        if g.name not in S: continue
        for C in crashes(g):
            at = path_atoms(g, C.block)
            pol = [(p, L, R) for p, L, R, T in at if p in ('eq', 'ne') and const_of(R) == FIXED and any(x.endswith('policy') for x in fields_in(g, L))]
            if is_semi(cfg):
                # the end of a semispace heap: no room after a collection
                both = {'semi_space.limit', 'semi_space.hp'}
                rooms = lambda x, y: any(p != 'in' and both <= fields_in(g, L) | fields_in(g, R) for p, L, R in edge_atoms(g, g.terminator(x), y))
                R = g.reachable([0])
                tests = [(x, y) for x in R for y in set(g.succ[x]) if len(set(g.succ[x])) > 1 and rooms(x, y) and C.block in g.reachable([y])]
                if any(p == 'eq' and R[0] == 'null' or p == 'eq' and L[0] == 'null' for p, L, R, T in at): continue      # no memory from the system: not this
                if not tests and not pol: continue
                n += 1
                cs = {I.block for I in g.all() if collects(m, S, I)}
                def comes(starts, avoid):
                    """the crash is reached from starts without what avoid says"""
                    seen = set(starts); wl = list(starts)
                    while wl:
                        x, fr = wl.pop()
                        if x == C.block: return True
                        for y in feasible(g, x, fr):
                            if (y, x) in seen or avoid(x, y): continue
                            seen.add((y, x)); wl.append((y, x))
                    return False
                if not cs or 0 not in cs and comes([(0, None)], lambda x, y: y in cs): ctx.bad('early', C, 'the program is ended for want of memory without a collection'); continue
                if any(comes([(x, None)], rooms) for x in cs): ctx.bad('early', C, 'the program is ended for want of memory although there may be room'); continue
                more = [I for I in g.all() if collects(m, S, I) and any(p == 'ne' and const_of(R) == FIXED and any(x.endswith('policy') for x in fields_in(g, L)) for p, L, R, T in path_atoms(g, I.block))]
                if not more: ctx.bad('grow', C, 'the program is ended for want of memory although the heap may still grow')
                else: ctx.ok('ends for want of memory', C)
                continue
            if not pol: continue
            n += 1
            if not any(p == 'eq' for p, L, R in pol): ctx.bad('grow', C, 'the program is ended for want of memory although the heap may still grow'); continue
            if is_mmc(cfg):
                kind = [1 for p, L, R, T in at if p == 'ne' and const_of(R) == MINOR and any('kind' in x for x in fields_in(g, L))]
                if not kind: ctx.bad('minor', C, 'the program is ended for want of memory after no more than a minor collection'); continue
                asked = [L for p, L, R, T in at if p == 'eq' and zero(R) and L[0] == 'a']
                vals = [passed(m, g, L[1]) for L in asked]
                if not any(v.get('gc_collect') and 0 not in v['gc_collect'] and all(0 in x for n, x in v.items() if n != 'gc_collect') for v in vals): ctx.bad('requested', C, 'the program is ended for want of memory where the program only asked for a collection'); continue
                frag = lambda v: any('fragmentation' in x for x in fields_in(g, v))
                room = [1 for p, L, R, T in at if p in ('ule', 'ult') and frag(R) and not frag(L) or p in ('uge', 'ugt') and frag(L) and not frag(R)]
                if not room: ctx.bad('progress', C, 'the program is ended for want of memory although memory was allocated since the last collection'); continue
            else:
                room = [1 for p, L, R, T in at if p in ('sgt', 'sge', 'slt', 'sle') and any('page_out' in x for x in fields_in(g, L) | fields_in(g, R)) or p == 'eq' and zero(R) and key(L) and any(x.endswith('bytes_to_page_out') for x in deep_fields(m, g, L))]
                if not room: ctx.bad('progress', C, 'the program is ended for want of memory although what was asked for is there'); continue
            ctx.ok('ends for want of memory', C)
    if not n: ctx.bad('never', f.name, 'a heap of fixed size that is full is not reported: allocation collects for ever')

def constants(g, v, b, fr, d=0):
    """the constants value v may have in block b when it was entered from fr, or None"""
    c = const_of(v)
    if c is not None: return {c}
    if zero(v): return {0}
    if v[0] != 'v' or d > 6: return None
    I = g.insts[v[1]]
    if I.op in ('zext', 'sext', 'freeze'): return constants(g, I.ops[0], b, fr, d + 1)
    if I.op == 'select': x, y = (constants(g, o, b, fr, d + 1) for o in I.ops[1:3])
    elif I.op == 'phi' and I.block == b and fr is not None:
        o = [o for o, pb in I.ops if pb == fr]
        return constants(g, o[0], None, None, d + 1) if o else None
    else: return None
    return None if x is None or y is None else x | y

def feasible(g, x, fr):
    """successors of block x that a comparison of constants does not rule out when it is entered from fr"""
    out = []
    for y in set(g.succ[x]):
        ok = True
        for p, L, R in edge_atoms(g, g.terminator(x), y):
            if p not in ('eq', 'ne'): continue
            l, r = constants(g, L, x, fr), constants(g, R, x, fr)
            if l is None or r is None: continue
            if p == 'eq' and not l & r or p == 'ne' and l == r and len(l) == 1: ok = False
        if ok: out.append(y)
    return out

def passed(m, g, k, seen=()):
    """public function -> constants that come as argument k of g when it is called"""
    out = {}
    if (g.name, k) in seen: return out
    for h in m.defined():
        for I in h.all():
            if not I.is_call() or g.name not in (m.targets(I) if I.callee_name() is None else [I.callee_name()]) or k >= len(I.ops): continue
            v = I.ops[k]; c = const_of(v)
            if c is not None: out.setdefault(h.name, set()).add(c)
            elif v[0] == 'a':
                for n, x in passed(m, h, v[1], seen + ((g.name, k),)).items(): out.setdefault(n, set()).update(x)
            else: out.setdefault(h.name, set()).add('?')
    return out

def deep_fields(m, g, v, d=0):
    out = set(fields_in(g, v))
    I = g.insts[v[1]] if v[0] == 'v' else None
    if I is not None and I.is_call() and m.fn(I.callee_name() or '') and d < 2:
        h = m.fn(I.callee_name())
        for J in map(h.terminator, h.exits()):
            if J.op == 'ret' and J.ops: out |= deep_fields(m, h, J.ops[0], d + 1) | {x for T in [J] for b in range(len(h.blocks)) for K in h.blocks[b] if K.op in ('load', 'atomicrmw') for x in [K.field() or '']}
    if I is not None and I.op == 'phi':
        for T, s in g.all_control_deps(I.block):
            for p, L, R in edge_atoms(g, T, s): 
                if d < 2: out |= deep_fields(m, g, L, d + 1)
        for o, b in I.ops:
            for T, s in g.all_control_deps(b):
                for p, L, R in edge_atoms(g, T, s): out |= fields_in(g, L)
    return out
