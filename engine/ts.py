"""Typestate over the whole program.

A finite automaton is run along every CFG path of an entry function and, through
summaries (state in, constant arguments -> states out, constant result), of every
function it calls that the normal form did not flatten.  The engine itself keeps
equality facts about the SSA values that decide more than one branch (and about
phis of constants and constant results), so correlated branches, flag variables
and short-circuit conditions do not produce paths the program does not have.
"""
from collections import deque

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'uge': 'ule', 'ule': 'uge',
        'slt': 'sgt', 'sgt': 'slt', 'sge': 'sle', 'sle': 'sge'}

def key_of(v):
    return (v[0], v[1]) if v[0] in ('v', 'a') else None

def const_of(v):
    if v[0] == 'c': return v[1]
    if v[0] == 'null': return 0
    return None

def atoms(fn, v, truth, facts=None, depth=0):
    """Atomic comparisons implied by 'v is truth' : list of (pred, L, R)."""
    if depth > 12: return []
    if v[0] != 'v': return []
    if facts:
        a = facts.get(('v', v[1]))
        if a and a[0] == 'is': return atoms(fn, a[1], truth, facts, depth + 1)
        if a and a[0] == 'eq': return [] if bool(a[1] & 1) == truth else [('ne' if truth else 'eq', v, ('c', 0, 1))]
        if a and a[0] == 'ne': return [('eq', v, ('c', 0, 1))] if not truth and 0 in a[1] else []
    I = fn.insts[v[1]]
    one = ('c', 0, 1)
    if I.op == 'xor' and I.ty == 'i1' and I.ops[1][0] == 'c' and (I.ops[1][1] & 1):
        return atoms(fn, I.ops[0], not truth, facts, depth + 1)
    if I.op == 'freeze': return atoms(fn, I.ops[0], truth, facts, depth + 1)
    if I.op == 'trunc' and I.ty == 'i1':
        J = fn.insts.get(I.ops[0][1]) if I.ops[0][0] == 'v' else None
        if J is not None and J.op == 'zext' and J.ops[0][0] == 'v' and fn.insts[J.ops[0][1]].ty == 'i1':
            return atoms(fn, J.ops[0], truth, facts, depth + 1)
        return [('ne' if truth else 'eq', I.ops[0], one)]
    if I.ty == 'i1' and (I.op == 'and' and truth or I.op == 'or' and not truth):
        return atoms(fn, I.ops[0], truth, facts, depth + 1) + atoms(fn, I.ops[1], truth, facts, depth + 1)
    if I.ty == 'i1' and I.op == 'select':
        c, a, b = I.ops
        if truth and const_of(b) == 0: return atoms(fn, c, True, facts, depth + 1) + atoms(fn, a, True, facts, depth + 1)
        if not truth and const_of(a) in (1, -1): return atoms(fn, c, False, facts, depth + 1) + atoms(fn, b, False, facts, depth + 1)
        return []
    if I.op == 'icmp':
        p = I.raw['pred']; L, R = I.ops
        if const_of(L) is not None and const_of(R) is None: L, R = R, L; p = SWAP[p]
        if not truth: p = NEG[p]
        c = const_of(R)
        if c is not None and p in ('eq', 'ne') and L[0] == 'v':
            a = facts.get(('v', L[1])) if facts else None
            if a and a[0] == 'is' : L = a[1]
            J = fn.insts[L[1]] if L[0] == 'v' else None
            if J is not None and J.op == 'zext' and J.ops[0][0] == 'v' and fn.insts[J.ops[0][1]].op == 'phi' and J.ty != 'i1' and fn.insts[J.ops[0][1]].ty != 'i1' and 0 <= c < 128:
                L = J.ops[0]; J = fn.insts[L[1]]
                a = facts.get(('v', L[1])) if facts else None
                if a and a[0] == 'is': L = a[1]; J = fn.insts[L[1]] if L[0] == 'v' else None
            if J is not None:
                # (zext b) ==/!= 0/1
                b = None
                if J.ty == 'i1': b = L
                elif J.op in ('zext', 'sext') and J.ops[0][0] == 'v' and fn.insts[J.ops[0][1]].ty == 'i1': b = J.ops[0]
                if b is not None and c in (0, 1, -1):
                    t = (p == 'ne') if c == 0 else (p == 'eq')
                    return atoms(fn, b, t, facts, depth + 1)
        return [(p, L, R)]
    if I.ty == 'i1': return [('ne' if truth else 'eq', v, one)]
    return []

def edge_atoms(fn, T, s, facts=None):
    """Atomic comparisons that hold when terminator T goes to block s."""
    if T.op == 'br' and T.ops:
        ss = T.raw['succ']
        if ss[0] == ss[1]: return []
        return atoms(fn, T.ops[0], s == ss[0], facts)
    if T.op == 'switch':
        vals = [c for c, b in T.raw['cases'] if b == s]
        if T.raw['default'] == s:
            if vals: return []
            return [('ne', T.ops[0], ('c', c, 64)) for c, b in T.raw['cases'] if b != s]
        if len(vals) == 1: return [('eq', T.ops[0], ('c', vals[0], 64))]
        return [('in', T.ops[0], tuple(vals))]
    return []

def _interesting(fn, A=None):
    """Keys whose equality facts are worth carrying."""
    wk = A.watch_key() if A is not None else None
    cache = fn.__dict__.setdefault('_tskeys', {})
    if wk in cache: return cache[wk]
    cnt = {}
    def note(v, w=1):
        k = key_of(v)
        if k: cnt[k] = cnt.get(k, 0) + w
    for b in fn.blocks:
        if not b: continue
        T = b[-1]
        if T.op == 'switch': note(T.ops[0], 2)
        elif T.op == 'br' and T.ops:
            seen = set()
            def rec(v, d=0):
                if v[0] not in ('v', 'a') or d > 8 or (v[0], v[1]) in seen: return
                seen.add((v[0], v[1]))
                note(v)
                if v[0] == 'a': return
                I = fn.insts[v[1]]
                if I.op == 'phi':
                    note(v, 2)
                    for o in I.ops: rec(o[0], d + 1)
                elif I.op in ('xor', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'select') and len(I.ops) <= 3:
                    for o in I.ops: rec(o, d + 1)
                elif I.op == 'icmp':
                    if const_of(I.ops[1]) is not None or const_of(I.ops[0]) is not None:
                        for o in I.ops: rec(o, d + 1)
                elif I.op == 'call': note(v, 2)
            rec(T.ops[0])
        elif T.op == 'ret' and T.ops:
            v = T.ops[0]
            if v[0] == 'v' and fn.insts[v[1]].op in ('phi', 'zext', 'call'): note(v, 2)
            if v[0] == 'v' and fn.insts[v[1]].op == 'zext': note(fn.insts[v[1]].ops[0], 2)
            # phis feeding phis
    if wk is not None:
        def wrec(v, d=0):
            if v[0] not in ('v', 'a') or d > 8: return
            if cnt.get((v[0], v[1]), 0) >= 2 and d > 4: return
            note(v, 2)
            if v[0] == 'a': return
            I = fn.insts[v[1]]
            if I.op in ('xor', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'select', 'icmp'):
                for o in I.ops: wrec(o, d + 1)
            elif I.op == 'phi':
                for o in I.ops: wrec(o[0], d + 2)
        for I in fn.all():
            for v in A.watch(I) or (): wrec(v)
    # phis that feed interesting phis
    ch = True
    while ch:
        ch = False
        for I in fn.all():
            if I.op == 'phi' and cnt.get(('v', I.id), 0) >= 2:
                for o in I.ops:
                    k = key_of(o[0])
                    if k and k[0] == 'v' and fn.insts[k[1]].op in ('phi', 'call') and cnt.get(k, 0) < 2:
                        cnt[k] = 2; ch = True
    cache[wk] = frozenset(k for k, n in cnt.items() if n >= 2)
    return cache[wk]

def _tree_keys(fn, v, keys, out, d=0, seen=None):
    """interesting keys that the value of condition v is computed from"""
    k = key_of(v)
    if not k or d > 8: return
    if seen is None: seen = set()
    if k in seen: return
    seen.add(k)
    if k in keys: out.add(k)
    if k[0] == 'a': return
    I = fn.insts[k[1]]
    if I.op in ('xor', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'select', 'icmp'):
        for o in I.ops: _tree_keys(fn, o, keys, out, d + 1, seen)

def _livefacts(fn, A=None):
    """per block: the interesting keys that some later branch, phi or return still depends on"""
    wk = A.watch_key() if A is not None else None
    cache = fn.__dict__.setdefault('_tslive', {})
    if wk in cache: return cache[wk]
    keys = _interesting(fn, A); n = len(fn.blocks)
    use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
    phiuse = [set() for _ in range(n)]      # at the end of the predecessor
    for bi, b in enumerate(fn.blocks):
        for I in b:
            if ('v', I.id) in keys: dfn[bi].add(('v', I.id))
            if I.op == 'phi' and ('v', I.id) in keys:
                for o in I.ops: _tree_keys(fn, o[0], keys, phiuse[o[1]])
            if I.op in ('br', 'switch', 'ret') and I.ops: _tree_keys(fn, I.ops[0], keys, use[bi])
            if I.op == 'call':
                for o in I.ops:
                    if key_of(o) in keys: use[bi].add(key_of(o))
            if wk is not None:
                for v in A.watch(I) or (): _tree_keys(fn, v, keys, use[bi])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            out = set(phiuse[bi])
            for s in fn.succ[bi]: out |= live[s]
            new = use[bi] | (out - dfn[bi])
            # a use of a key defined in this same block is not live in
            new -= {k for k in dfn[bi]}
            if new != live[bi]: live[bi] = new; ch = True
    # phis of the block itself are computed on the edge: keep them
    res = []
    for bi, b in enumerate(fn.blocks):
        l = set(live[bi])
        for I in b:
            if I.op != 'phi': break
            k = ('v', I.id)
            if k in keys: l.add(k)
        res.append(frozenset(l))
    cache[wk] = res
    return res

class Automaton:
    """Override: init states are any hashable; step / assume / call / ret / map_in / map_out."""
    descend = True
    max_states = 4000
    def __init__(self, mod):
        self.mod = mod
        self.summ = {}; self.deps = {}; self.errors = {}; self.parents = {}
        self.inwork = set(); self.wq = deque()
        self.visited = set(); self.nsteps = 0; self.cur_entry = None
        self.cur = None; self._rel = None
    # -- to override
    relevant = None      # relevant(I): does I (an instruction) matter?  None: all do
    def _relevant_fns(self):
        """functions from which a relevant instruction can be reached"""
        if self._rel is None:
            if self.relevant is None: self._rel = False; return False
            key = (type(self), self.relevance_key()); cache = self.mod.__dict__.setdefault('_relcache', {})
            if key not in cache:
                rel = set(); callers = {}
                for f in self.mod.defined():
                    for I in f.all():
                        if I.is_call():
                            for t in self.mod.targets(I): callers.setdefault(t, set()).add(f.name)
                        if f.name not in rel and self.relevant(I): rel.add(f.name)
                wl = list(rel)
                while wl:
                    x = wl.pop()
                    for c in callers.get(x, ()):
                        if c not in rel: rel.add(c); wl.append(c)
                cache[key] = rel
            self._rel = cache[key]
        return self._rel
    def relevance_key(self): return None
    # values whose constants are worth following: watch(I) -> operands of I; used with value()
    def watch_key(self): return None
    def watch(self, I): return ()
    def value(self, v, facts=None, d=0):
        """set of constants v may be on this path, or None"""
        if facts is None: facts = self.cur_facts(); 
        fn = self.mod.fn(self.cur[0][0])
        return _value(fn, v, facts, d)
    def cur_facts(self):
        if isinstance(self._cf, frozenset): self._cf = dict(self._cf)
        return self._cf
    def step(self, st, I): return None
    def assume(self, st, I, pred, L, R): return None
    def edge(self, st, T, s): return None
    def enter(self, st, fn, s): return st    # control reaches block s (on every edge, also the only one)
    def call(self, st, I, target): return None
    def ret(self, st, I): return None
    def results(self, st, I): return None      # for a call that is not entered: [(state, constant result or None)]
    def map_in(self, st, I, t): return st
    def map_out(self, st_before, st_out, I, t): return st_out
    # -- reporting
    def error(self, kind, I, msg):
        k = (kind, I.fn.name, I.id)
        if k not in self.errors:
            self.errors[k] = dict(kind=kind, inst=I, msg=msg, entry=self.cur_entry, path=self.path(), stack=self.stack_of())
    def stack_of(self):
        out = []; k = self.cur[0] if self.cur else None; n = 0
        while k in self.parents and n < 20:
            ci, pk = self.parents[k]; out.append(ci.where()); k = pk; n += 1
        return out
    def path(self):
        if not self.cur: return []
        key, prev, node = self.cur
        fn = self.mod.fn(key[0]); out = []; seen = set()
        while node is not None and node not in seen and len(out) < 60:
            seen.add(node)
            b = node[0]
            ls = [i.loc[0] for i in fn.blocks[b] if i.loc]
            if ls: out.append('%s:%s' % (ls[0][1].replace('/repo/', ''), ls[0][2]))
            node = prev.get(node)
        return out[::-1]
    # -- engine
    def run(self, fname, init, args=None):
        fn = self.mod.fn(fname)
        if fn is None: return None
        self.cur_entry = fname
        k = self._request(fname, init, frozenset((args or {}).items()), None, None)
        while self.wq:
            kk = self.wq.popleft(); self.inwork.discard(kk)
            self._analyse(kk)
        return set(s for s, _ in self.summ[k])
    def _request(self, fname, st, cargs, caller, ci):
        k = (fname, st, cargs)
        if k not in self.summ:
            self.summ[k] = set()
            if caller is not None and k not in self.parents: self.parents[k] = (ci, caller)
            self.wq.append(k); self.inwork.add(k)
        if caller is not None: self.deps.setdefault(k, set()).add(caller)
        return k
    def _addfact(self, facts, k, pred, c):
        """-> new facts dict or None when contradictory"""
        old = facts.get(k)
        if old is not None and old[0] == 'is': old = None
        if pred == 'eq':
            if old:
                if old[0] == 'eq' and old[1] != c: return None
                if old[0] == 'ne' and c in old[1]: return None
            f = dict(facts); f[k] = ('eq', c); return f
        if pred == 'ne':
            if old:
                if old[0] == 'eq': return None if old[1] == c else facts
                f = dict(facts); f[k] = ('ne', old[1] | {c}); return f
            f = dict(facts); f[k] = ('ne', frozenset([c])); return f
        return facts
    def _edge_states(self, fn, ust, facts, T, s, keys):
        """states after taking T -> s; list of (ust, facts)"""
        fd = dict(facts)
        # direct truth of the condition value
        if T.op == 'br' and T.ops:
            ss = T.raw['succ']
            if ss[0] != ss[1]:
                truth = (s == ss[0])
                v = T.ops[0]
                if v[0] == 'c' and bool(v[1] & 1) != truth: return []
                k = key_of(v)
                if k:
                    f = fd.get(k)
                    if f and f[0] == 'eq' and bool(f[1] & 1) != truth: return []
                    if f and f[0] == 'ne' and (0 in f[1]) != truth and (0 in f[1]): return []
                    if k in keys and not (f and f[0] == 'is'): fd[k] = ('eq', 1 if truth else 0)
        at = edge_atoms(fn, T, s, dict(facts))
        outs = [(ust, fd)]
        for (p, L, R) in at:
            nxt = []
            for (u, f) in outs:
                k = key_of(L)
                if k and k in f and f[k][0] == 'is':
                    L2 = f[k][1]
                    k = key_of(L2)
                    if p not in ('eq', 'ne', 'in') and k: L = L2
                if p == 'in':
                    if k and k in f and f[k][0] == 'eq' and f[k][1] not in R: continue
                    self._cf = f
                    r = self.assume(u, T, p, L, R)
                    for x in ([u] if r is None else r): nxt.append((x, f))
                    continue
                c = const_of(R)
                if c is None:
                    rk = key_of(R); rf = f.get(rk) if rk else None
                    if rf and rf[0] == 'is': rk = key_of(rf[1]); rf = f.get(rk) if rk else (('eq', const_of(rf[1])) if const_of(rf[1]) is not None else None)
                    if rf and rf[0] == 'eq': c = rf[1]; R = ('c', c, 64)
                    elif k and k in f and f[k][0] == 'eq' and p in SWAP:
                        L, R, p, c = R, ('c', f[k][1], 64), SWAP[p], f[k][1]
                        k = key_of(L)
                if c is not None and p in ('eq', 'ne') and k:
                    old = f.get(k)
                    if k in keys or old is not None:
                        g = self._addfact(f, k, p, c)
                        if g is None: continue
                        f = g
                elif c is not None and k and k in f and f[k][0] == 'eq':
                    if not _cmp(p, f[k][1], c): continue
                self._cf = f
                r = self.assume(u, T, p, L, R)
                for x in ([u] if r is None else r): nxt.append((x, f))
            outs = nxt
        r2 = []
        for (u, f) in outs:
            r = self.edge(u, T, s)
            for x in ([u] if r is None else r): r2.append((x, f))
        return r2
    def _phis(self, fn, b, pb, facts, keys):
        f = None
        for I in fn.blocks[b]:
            if I.op != 'phi': break
            k = ('v', I.id)
            if f is None: f = dict(facts)
            src = next((o[0] for o in I.ops if o[1] == pb), None)
            new = None
            if k in keys and src is not None:
                c = const_of(src)
                if c is not None: new = ('eq', (c & 1) if I.ty == 'i1' else c)
                else:
                    sk = key_of(src)
                    sf = facts.get(sk) if sk else None
                    if sf and sf[0] == 'eq': new = sf
                    elif sk and sk[0] == 'v' and fn.insts[sk[1]].op == 'zext' and (facts.get(key_of(fn.insts[sk[1]].ops[0])) or ('',))[0] == 'eq':
                        new = ('eq', facts[key_of(fn.insts[sk[1]].ops[0])][1] & (1 if fn.insts.get(fn.insts[sk[1]].ops[0][1]) is not None and fn.insts[fn.insts[sk[1]].ops[0][1]].ty == 'i1' else -1))
                    elif sk and sk[0] == 'v' and sf is None and (fn.insts[sk[1]].ty == 'i1' and fn.insts[sk[1]].op in ('xor', 'icmp', 'and', 'or', 'select', 'freeze') or fn.insts[sk[1]].op == 'zext') and len(_value(fn, src, facts if isinstance(facts, dict) else dict(facts)) or ()) == 1:
                        new = ('eq', next(iter(_value(fn, src, facts if isinstance(facts, dict) else dict(facts)))) & (1 if fn.insts[sk[1]].ty == 'i1' else -1))
                    elif sf and sf[0] == 'is': new = sf
                    elif sk or src[0] == 'fp': new = ('is', tuple(src))
            if new is None: f.pop(k, None)
            else: f[k] = new
        if f is None: return facts
        return f
    def _kill(self, facts, kid):
        k = ('v', kid)
        bad = [x for x, y in facts.items() if x == k or (y[0] == 'is' and tuple(y[1][:2]) == k)]
        if not bad: return facts
        f = dict(facts)
        for x in bad: f.pop(x, None)
        return f
    def _analyse(self, key):
        fname, st0, cargs = key
        fn = self.mod.fn(fname)
        keys = _interesting(fn, self); livef = _livefacts(fn, self)
        relf = self._relevant_fns()
        seen = [set() for _ in fn.blocks]
        prev = {}
        init = frozenset((('a', i), ('eq', c)) for i, c in cargs)
        wl = deque([(0, st0, init)])
        seen[0].add((st0, init))
        exits = set(); total = 0
        while wl:
            b, st, ff = wl.popleft()
            self.cur = (key, prev, (b, st, ff))
            states = {(st, ff)}
            for I in fn.blocks[b]:
                if not states: break
                self.visited.add((fname, I.id))
                if I.op == 'phi': continue
                if I.op == 'ret':
                    for (s, f) in states:
                        self._cf = f
                        r = self.ret(s, I)
                        rc = None
                        if I.ops:
                            rc = const_of(I.ops[0])
                            if rc is None:
                                kk = key_of(I.ops[0]); fd = dict(f); x = fd.get(kk)
                                if x is None and kk and kk[0] == 'v' and fn.insts[kk[1]].op == 'zext':
                                    x = fd.get(key_of(fn.insts[kk[1]].ops[0]))
                                if x and x[0] == 'is':
                                    rc = const_of(x[1])
                                    if rc is None: x = fd.get(key_of(x[1]))
                                if x and x[0] == 'eq': rc = x[1]
                        for x in ([s] if r is None else (r if isinstance(r, (list, set, tuple)) and not isinstance(r, str) and getattr(self, 'ret_multi', False) else [r])):
                            exits.add((x, rc))
                    states = set(); break
                if I.op in ('br', 'switch', 'unreachable'): continue
                nxt = set()
                kk = ('v', I.id)
                for (s, f) in states:
                    self.nsteps += 1
                    if kk in keys:
                        fd = dict(f); g = self._kill(fd, I.id)
                        f2 = frozenset(g.items()) if g is not fd else f
                    else: f2 = f
                    if I.op == 'call' or I.op == 'invoke':
                        tg = self.mod.targets(I)
                        defined = [t for t in tg if self.mod.fn(t) is not None]
                        if relf is not False and kk not in keys: defined = [t for t in defined if t in relf]
                        self._cf = f
                        r = self.step(s, I)
                        pre = [s] if r is None else list(r)
                        if I.get('noreturn'): continue
                        outs = [self.results(p, I) for p in pre] if type(self).results is not Automaton.results else [None]
                        if any(o is not None for o in outs):
                            for p, o in zip(pre, outs):
                                for (ns, rc) in ([(p, None)] if o is None else o):
                                    if rc is not None and kk in keys:
                                        g = dict(f2); g[kk] = ('eq', rc); nxt.add((ns, frozenset(g.items())))
                                    else: nxt.add((ns, f2))
                            continue
                        if defined and self.descend:
                            for p in pre:
                                for t in defined:
                                    ov = self.call(p, I, t)
                                    if ov is not None:
                                        for o in ov: nxt.add((o, f2))
                                        continue
                                    ca = frozenset((i, c) for i, c in ((i, self._argc(o, f)) for i, o in enumerate(I.ops)) if c is not None and ('a', i) in _interesting(self.mod.fn(t), self))
                                    k2 = self._request(t, self.map_in(p, I, t), ca, key, I)
                                    for (o, rc) in self.summ[k2]:
                                        ns = self.map_out(p, o, I, t)
                                        if rc is not None and kk in keys:
                                            g = dict(f2); g[kk] = ('eq', rc); nxt.add((ns, frozenset(g.items())))
                                        else: nxt.add((ns, f2))
                                if len(defined) < len(tg): nxt.add((p, f2))
                        else:
                            for p in pre: nxt.add((p, f2))
                    else:
                        self._cf = f
                        r = self.step(s, I)
                        if r is None: nxt.add((s, f2))
                        else:
                            for x in r: nxt.add((x, f2))
                states = nxt
            if not states: continue
            T = fn.blocks[b][-1]
            if T.op in ('br', 'switch'):
                for s in fn.succ[b]:
                    for (stt, f) in states:
                        res = self._edge_states(fn, stt, dict(f), T, s, keys) if len(fn.succ[b]) > 1 else [(stt, dict(f))]
                        for (u, fd) in res:
                            u = self.enter(u, fn, s)
                            fd = self._phis(fn, s, b, fd, keys)
                            lv = livef[s]
                            if fd:
                                al = {key_of(x[1]) for k, x in fd.items() if x[0] == 'is' and k in lv}
                                fd = {k: x for k, x in fd.items() if k in lv or k[0] == 'a' or k in al}
                            n = (u, frozenset(fd.items()))
                            if n not in seen[s]:
                                if len(seen[s]) > self.max_states:
                                    # widen: forget the facts
                                    n = (u, frozenset())
                                    if n in seen[s]: continue
                                seen[s].add(n); wl.append((s,) + n)
                                prev[(s,) + n] = (b, st, ff)
        if not exits <= self.summ[key]:
            self.summ[key] |= exits
            for d in self.deps.get(key, ()):
                if d not in self.inwork: self.wq.append(d); self.inwork.add(d)
    def _argc(self, o, f):
        c = const_of(o)
        if c is not None: return c
        k = key_of(o)
        if k:
            for (kk, x) in f:
                if kk == k and x[0] == 'eq': return x[1]
        return None

def _value(fn, v, facts, d=0):
    c = const_of(v)
    if c is not None: return {c}
    k = key_of(v)
    if k is None or d > 10: return None
    f = facts.get(k)
    if f is not None:
        if f[0] == 'eq': return {f[1]}
        if f[0] == 'is':
            r = _value(fn, f[1], facts, d + 1)
            if r is not None: return r
    if k[0] == 'a': return None
    I = fn.insts[k[1]]; r = None
    if I.op in ('zext', 'freeze', 'sext'):
        r = _value(fn, I.ops[0], facts, d + 1)
        if r is not None and I.op == 'zext' and fn.insts.get(I.ops[0][1]) is not None and fn.insts[I.ops[0][1]].ty == 'i1': r = {x & 1 for x in r}
    elif I.op == 'trunc':
        r = _value(fn, I.ops[0], facts, d + 1)
        if r is not None and I.ty == 'i1': r = {x & 1 for x in r}
    elif I.op == 'icmp':
        a, b = _value(fn, I.ops[0], facts, d + 1), _value(fn, I.ops[1], facts, d + 1)
        if a is not None and b is not None:
            r = {int(bool(_cmp(I.raw['pred'], x, y))) for x in a for y in b}
        elif I.raw['pred'] in ('eq', 'ne'):
            kk = key_of(I.ops[0]); ff = facts.get(kk) if kk else None
            if ff and ff[0] == 'ne' and b is not None and len(b) == 1 and next(iter(b)) in ff[1]: r = {0 if I.raw['pred'] == 'eq' else 1}
        if r is None: r = {0, 1}
    elif I.op == 'select':
        cnd = _value(fn, I.ops[0], facts, d + 1)
        arms = []
        if cnd is None or any(x & 1 for x in cnd): arms.append(I.ops[1])
        if cnd is None or any(not x & 1 for x in cnd): arms.append(I.ops[2])
        out = set()
        for o in arms:
            x = _value(fn, o, facts, d + 1)
            if x is None: return None
            out |= x
        r = out
    elif I.op in ('xor', 'and', 'or', 'add', 'sub') and len(I.ops) == 2:
        a, b = _value(fn, I.ops[0], facts, d + 1), _value(fn, I.ops[1], facts, d + 1)
        if a is not None and b is not None and len(a) * len(b) <= 16:
            op = {'xor': lambda x, y: x ^ y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y}[I.op]
            r = {op(x, y) for x in a for y in b}
            if I.ty == 'i1': r = {x & 1 for x in r}
    elif I.op == 'phi':
        out = set()
        for o in I.ops:
            if key_of(o[0]) == k: continue
            x = _value(fn, o[0], {}, d + 3)
            if x is None: out = None; break
            out |= x
        r = out
    if r is not None and f is not None and f[0] == 'ne': r = r - f[1] or r
    return r

def _cmp(p, a, c):
    try:
        return {'eq': a == c, 'ne': a != c, 'ult': a % 2**64 < c % 2**64, 'ule': a % 2**64 <= c % 2**64, 'ugt': a % 2**64 > c % 2**64,
                'uge': a % 2**64 >= c % 2**64, 'slt': a < c, 'sle': a <= c, 'sgt': a > c, 'sge': a >= c}[p]
    except KeyError: return True

# ---- locks ------------------------------------------------------------------
def lock_event(I):
    """(kind, lock field[, cond field]) for pthread mutex / condvar calls"""
    if I.op != 'call': return None
    n = I.callee_name()
    if not n or not n.startswith('pthread_'): return None
    F = lambda o: I.fn.field_of(o) or repr(I.fn.expr(o, 3))
    if n == 'pthread_mutex_lock': return ('acq', F(I.ops[0]))
    if n == 'pthread_mutex_trylock': return ('try', F(I.ops[0]))
    if n == 'pthread_mutex_unlock': return ('rel', F(I.ops[0]))
    if n in ('pthread_cond_wait', 'pthread_cond_timedwait'): return ('wait', F(I.ops[1]), F(I.ops[0]))
    if n in ('pthread_cond_signal', 'pthread_cond_broadcast'): return (n[13:], F(I.ops[0]))
    return None

class LockAutomaton(Automaton):
    """State (locks, user).  Override ustep(user, locks, I) and uassume."""
    def step(self, st, I):
        locks, u = st
        ev = lock_event(I)
        if ev:
            if ev[0] == 'acq':
                self.on_acquire(st, I, ev[1]); locks = locks | {ev[1]}
            elif ev[0] == 'rel':
                self.on_release(st, I, ev[1]); locks = locks - {ev[1]}
            elif ev[0] == 'wait':
                self.on_wait(st, I, ev[1], ev[2])
        r = self.ustep(u, locks, I, ev)
        if r is None: return [(locks, u)]
        return [(locks, x) for x in r]
    def assume(self, st, I, pred, L, R):
        locks, u = st
        if L[0] == 'v':
            J = I.fn.insts[L[1]]
            if J.op == 'call' and J.callee_name() == 'pthread_mutex_trylock' and const_of(R) == 0:
                f = lock_event(J)[1]
                if pred == 'eq' and f in locks: return []   # a plain mutex: the owner's trylock fails
                if pred == 'eq':
                    self.on_acquire(st, J, f, True); locks = locks | {f}
        r = self.uassume(u, locks, I, pred, L, R)
        if r is None: return [(locks, u)]
        return [(locks, x) for x in r]
    def on_acquire(self, st, I, f, try_=False): pass
    def on_release(self, st, I, f): pass
    def on_wait(self, st, I, f, cond): pass
    def ustep(self, u, locks, I, ev): return None
    def uassume(self, u, locks, I, pred, L, R): return None
