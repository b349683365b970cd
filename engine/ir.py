"""The resolved program: functions, CFGs, values, field paths, call targets."""
import re

OPS = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'lshr': '>>', 'ashr': '>>s',
       'udiv': '/', 'sdiv': '/s', 'urem': '%', 'srem': '%s'}

class Inst:
    __slots__ = ('fn', 'block', 'idx', 'id', 'op', 'ty', 'ops', 'raw', 'loc', '_path')
    def __init__(self, fn, block, idx, raw):
        self.fn = fn; self.block = block; self.idx = idx; self.raw = raw
        self.id = raw['id']; self.op = raw['op']; self.ty = raw.get('ty'); self.ops = raw['ops']
        self.loc = raw.get('loc') or []
        self._path = None
    def get(self, k, d=None): return self.raw.get(k, d)
    @property
    def mod(self): return self.fn.mod
    def where(self):
        """file:line (function) [inlined at ...]"""
        if not self.loc: return '%s' % self.fn.name
        out = []
        for (fn, file, line) in self.loc[:4]:
            out.append('%s:%s (%s)' % (short(file), line, fn))
        if len(self.loc) > 4: out.append('...')
        return ' < '.join(out)
    def src_fn(self): return self.loc[0][0] if self.loc else self.fn.name
    def src_fns(self): return [l[0] for l in self.loc] if self.loc else [self.fn.name]
    # -- calls
    def callee(self):
        c = self.raw.get('callee')
        return c
    def callee_name(self):
        c = self.raw.get('callee')
        if c and c[0] == 'f': return c[1]
        return None
    def is_call(self): return self.op in ('call', 'invoke')
    # -- memory
    def ptr(self):
        if self.op == 'load': return self.ops[0]
        if self.op == 'store': return self.ops[1]
        if self.op in ('atomicrmw', 'cmpxchg'): return self.ops[0]
        return None
    def is_mem(self): return self.op in ('load', 'store', 'atomicrmw', 'cmpxchg')
    def is_write(self): return self.op in ('store', 'atomicrmw', 'cmpxchg')
    def access_size(self):
        t = self.ty if self.op in ('load', 'atomicrmw') else self.raw.get('vty')
        return tysize(t)
    def field(self):
        """'struct.field' of the accessed location, innermost named struct, or None."""
        if self._path is None:
            f = None
            p = self.ptr()
            if p is not None:
                f = self.fn.field_of(p, self.access_size())
                vf = self.raw.get('vf')
                if vf and f and self.mod.is_wrapper(vf.split('.')[0]) and not self.mod.is_wrapper(f.split('.')[0]): vf = None
                if vf and (f is None or vf.split('.')[0] != f.split('.')[0]):
                    # annotation taken before optimisation wins unless it is less specific
                    f = vf
            self._path = (f,)
        return self._path[0]
    def fields(self):
        """all struct.field names along the accessed path (innermost first)"""
        p = self.ptr()
        if p is None: return []
        r = self.fn.fields_of(p)
        f = self.field()
        return r if f in r or f is None else [f] + r
    def value(self):
        if self.op == 'store': return self.ops[0]
        if self.op == 'atomicrmw': return self.ops[1]
        if self.op == 'cmpxchg': return self.ops[2]
        return None
    def __repr__(self):
        return '<%s #%d %s %s>' % (self.fn.name, self.id, self.op, self.ops)

def short(f):
    return re.sub(r'^/repo/', '', re.sub(r'^.*/engine/model/', 'model/', f))

def tysize(t):
    if t is None: return None
    if t == 'ptr': return 8
    m = re.match(r'^i(\d+)$', t)
    if m: return max(1, int(m.group(1)) // 8)
    if t == 'double': return 8
    if t == 'float': return 4
    return None

class Fn:
    def __init__(self, mod, raw):
        self.mod = mod; self.raw = raw; self.name = raw['name']; self.decl = raw['decl']
        self.args = raw['args']; self.ret = raw['ret']
        self.file = raw.get('file'); self.line = raw.get('line'); self.ditypes = raw.get('ditypes')
        self.blocks = []; self.insts = {}
        if not self.decl:
            for bi, b in enumerate(raw['blocks']):
                lst = []
                for ii, r in enumerate(b):
                    I = Inst(self, bi, ii, r)
                    self.insts[I.id] = I
                    lst.append(I)
                self.blocks.append(lst)
            self.succ = [self._succ(b) for b in self.blocks]
            self.pred = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ):
                for s in ss:
                    if i not in self.pred[s]: self.pred[s].append(i)
        self._uses = None; self._dom = None; self._pdom = None; self._loops = None
    def _succ(self, b):
        if not b: return []
        t = b[-1]
        if t.op == 'br': return list(dict.fromkeys(t.raw['succ']))
        if t.op == 'switch': return list(dict.fromkeys([c[1] for c in t.raw['cases']] + [t.raw['default']]))
        return []
    def all(self):
        for b in self.blocks:
            for i in b: yield i
    def terminator(self, b): return self.blocks[b][-1]
    # -- def-use
    def uses(self):
        if self._uses is None:
            u = {}
            def add(o, I):
                if isinstance(o, list):
                    if o and o[0] == 'v': u.setdefault(('v', o[1]), []).append(I)
                    elif o and o[0] == 'a': u.setdefault(('a', o[1]), []).append(I)
                    elif o and o[0] == 'ce':
                        for x in o[2]: add(x, I)
            for I in self.all():
                for o in I.ops:
                    if I.op == 'phi': add(o[0], I)
                    else: add(o, I)
                c = I.raw.get('callee')
                if c: add(c, I)
            self._uses = u
        return self._uses
    def users(self, v):
        return self.uses().get((v[0], v[1]), []) if v[0] in ('v', 'a') else []
    def defn(self, v):
        return self.insts.get(v[1]) if v[0] == 'v' else None
    # -- dominators (iterative, small CFGs)
    def rpo(self):
        seen = set(); out = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); adv = True; break
            if not adv:
                out.append(b); st.pop()
        return out[::-1]
    def dom(self):
        if self._dom is None: self._dom = _domsets(len(self.blocks), [0], self.succ, self.pred, self.rpo())
        return self._dom
    def block_dominates(self, a, b): return a in self.dom().get(b, ())
    def dominates(self, A, B):
        if A.block == B.block: return A.idx < B.idx
        return self.block_dominates(A.block, B.block)
    def exits(self):
        return [i for i, b in enumerate(self.blocks) if b and b[-1].op == 'ret']
    def is_noreturn_block(self, b):
        return bool(self.blocks[b]) and self.blocks[b][-1].op == 'unreachable'
    def live_blocks(self):
        """blocks from which a return can be reached (i.e. not doomed to crash)"""
        if getattr(self, '_live', None) is None:
            live = set(self.exits()); wl = list(live)
            while wl:
                b = wl.pop()
                for p in self.pred[b]:
                    if p not in live: live.add(p); wl.append(p)
            self._live = live
        return self._live
    def pdom(self):
        """postdominators over non-crashing paths"""
        if self._pdom is None:
            live = self.live_blocks()
            n = len(self.blocks)
            ex = n
            succ = [[] for _ in range(n + 1)]; pred = [[] for _ in range(n + 1)]
            for b in live:
                for s in self.succ[b]:
                    if s in live: succ[s].append(b); pred[b].append(s)
            for e in self.exits(): succ[ex].append(e); pred[e].append(ex)
            seen = set([ex]); out = []
            st = [(ex, iter(succ[ex]))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(succ[s]))); break
                else:
                    out.append(b); st.pop()
            self._pdom = _domsets(n + 1, [ex], succ, pred, out[::-1])
        return self._pdom
    def postdominates(self, A, B):
        if A.block == B.block: return A.idx > B.idx
        return A.block in self.pdom().get(B.block, ())
    # -- natural loops: header -> set of blocks
    def loops(self):
        if self._loops is None:
            L = {}
            d = self.dom()
            for b in d:
                for s in self.succ[b]:
                    if s in d[b]:
                        body = L.setdefault(s, set([s]))
                        wl = [b]
                        while wl:
                            x = wl.pop()
                            if x in body: continue
                            body.add(x); wl.extend(p for p in self.pred[x] if p in d)
            self._loops = L
        return self._loops
    def in_loop(self, I):
        return [h for h, body in self.loops().items() if I.block in body]
    # -- control dependence: blocks -> list of (branch inst, succ block)
    def control_deps(self, b):
        """Branches (T, succ) such that taking succ leads to b (b postdominates succ) and b does not postdominate the branch."""
        out = []
        pd = self.pdom()
        for x in range(len(self.blocks)):
            if len(self.succ[x]) < 2 or x not in pd: continue
            if b in pd.get(x, ()) and b != x: continue
            for s in self.succ[x]:
                if s in pd and (s == b or b in pd[s]):
                    out.append((self.terminator(x), s))
        return out
    def all_control_deps(self, b):
        """transitive closure of control dependence"""
        seen = []; wl = [b]; done = set()
        while wl:
            x = wl.pop()
            if x in done: continue
            done.add(x)
            for (t, s) in self.control_deps(x):
                if (t, s) not in seen:
                    seen.append((t, s)); wl.append(t.block)
        return seen
    def reachable(self, src_blocks, avoid=()):
        seen = set(b for b in src_blocks if b not in avoid); wl = list(seen)
        while wl:
            b = wl.pop()
            for s in self.succ[b]:
                if s not in seen and s not in avoid: seen.add(s); wl.append(s)
        return seen
    # -- pointer resolution
    def resolve_ptr(self, v, depth=0):
        """-> (base value, struct name or None, constant byte offset, had variable index)
        The struct name is the outermost named struct of the GEP chain."""
        off = 0; sname = None; var = False
        for _ in range(24):
            g = None
            if v[0] == 'v':
                I = self.insts[v[1]]
                if I.op == 'getelementptr': g = I.raw['gep']; base = I.ops[0]
                elif I.op in ('bitcast', 'addrspacecast'): v = I.ops[0]; continue
                else: break
            elif v[0] == 'ce' and v[1] == 'getelementptr':
                g = v[3]; base = v[2][0]
            else: break
            src = g['src']
            path = g['path']
            # offset
            if 'off' in g: off += g['off']
            else:
                var = True
                first = True
                for st in path:
                    if st[0] == 's': off += st[3]
                    elif st[0] == 'i': off += st[1] * st[2]
            if src.startswith('%') and not src.startswith('%anon') and not src.startswith('%"'):
                sname = src[1:]
            elif src.startswith('%'):
                pass
            else:
                if src != 'i8' and sname is None: pass
            v = base
        return v, sname, off, var
    def field_of(self, v, size=None):
        """Innermost named struct.field for pointer v."""
        # walk chain, remember the innermost named struct step
        cur = v; off = 0; fallback = None
        for _ in range(24):
            g = None
            if cur[0] == 'v':
                I = self.insts[cur[1]]
                if I.op == 'getelementptr': g = I.raw['gep']; base = I.ops[0]
                elif I.op in ('bitcast',): cur = I.ops[0]; continue
                else: break
            elif cur[0] == 'ce' and cur[1] == 'getelementptr': g = cur[3]; base = cur[2][0]
            else: break
            o = 0; var = False
            if 'off' in g: o = g['off']
            else:
                var = True
                for st in g['path']:
                    if st[0] == 's': o += st[3]
                    elif st[0] == 'i': o += st[1] * st[2]
            # only the part after the first index is inside the struct
            src = g['src']
            if src.startswith('%') and not src[1:].startswith('anon'):
                inner = 0
                for k, st in enumerate(g['path']):
                    if k == 0: continue
                    if st[0] == 's': inner += st[3]
                    elif st[0] == 'i': inner += st[1] * st[2]
                name = self.mod.member_path(src[1:], inner + off, size, allow_root=len(g['path']) > 1 or off > 0)
                if name:
                    if not self.mod.is_wrapper(src[1:]): return name
                    fallback = fallback or name      # struct gc_ref and the like: name the field that holds it
            off += o
            cur = base
        return fallback
    def fields_of(self, v, size=None):
        """every struct.field on the way from the base pointer to v, outermost last"""
        cur = v; off = 0; out = []
        for _ in range(24):
            if cur[0] == 'v':
                I = self.insts[cur[1]]
                if I.op == 'getelementptr': g = I.raw['gep']; base = I.ops[0]
                elif I.op in ('bitcast',): cur = I.ops[0]; continue
                else: break
            elif cur[0] == 'ce' and cur[1] == 'getelementptr': g = cur[3]; base = cur[2][0]
            else: break
            o = 0
            if 'off' in g: o = g['off']
            else:
                for st in g['path']:
                    if st[0] == 's': o += st[3]
                    elif st[0] == 'i': o += st[1] * st[2]
            src = g['src']
            if src.startswith('%') and not src[1:].startswith('anon'):
                inner = 0
                for k, st in enumerate(g['path']):
                    if k == 0: continue
                    if st[0] == 's': inner += st[3]
                    elif st[0] == 'i': inner += st[1] * st[2]
                for n in self.mod.member_chain(src[1:], inner + off):
                    if n not in out: out.append(n)
            off += o
            cur = base
        return out
    def root_of(self, v, depth=0):
        """Base value under GEPs/casts."""
        while True:
            if v[0] == 'v':
                I = self.insts[v[1]]
                if I.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'): v = I.ops[0]; continue
            elif v[0] == 'ce' and v[1] in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint'): v = v[2][0]; continue
            return v
    # -- expressions
    def expr(self, v, depth=10, seen=()):
        """A symbolic tree of value v."""
        k = v[0]
        if k == 'c': return ('c', v[1])
        if k == 'null': return ('c', 0)
        if k == 'a': return ('arg', v[1], self.args[v[1]][0])
        if k == 'f': return ('fn', v[1])
        if k == 'g': return ('global', v[1])
        if k == 'fp': return ('fp', v[1])
        if k == 'undef': return ('undef',)
        if k == 'ce':
            if v[1] == 'getelementptr': return ('addr', self.field_of(v) or '?', self.expr(v[2][0], depth - 1))
            return (v[1],) + tuple(self.expr(x, depth - 1) for x in v[2])
        if k != 'v': return ('?',)
        if depth <= 0 or v[1] in seen: return ('id', v[1])
        I = self.insts[v[1]]
        E = lambda o: self.expr(o, depth - 1, seen + (v[1],))
        if I.op == 'load':
            f = I.field()
            if f: return ('load', f, E(self.root_of(I.ops[0])))
            return ('load', None, E(I.ops[0]))
        if I.op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'): return E(I.ops[0])
        if I.op == 'icmp': return ('icmp', I.raw['pred'], E(I.ops[0]), E(I.ops[1]))
        if I.op == 'fcmp': return ('fcmp', I.raw['pred'], E(I.ops[0]), E(I.ops[1]))
        if I.op == 'getelementptr':
            f = self.field_of(v)
            if f: return ('addr', f, E(self.root_of(v)))
            return ('gep', E(I.ops[0])) + tuple(E(o) for o in I.ops[1:])
        if I.op == 'phi': return ('phi', v[1]) + tuple(E(o[0]) for o in I.ops)
        if I.op == 'select': return ('select', E(I.ops[0]), E(I.ops[1]), E(I.ops[2]))
        if I.op in ('call', 'invoke'):
            c = I.raw['callee']
            nm = c[1] if c[0] == 'f' else '*'
            return ('call', nm, v[1]) + tuple(E(o) for o in I.ops)
        if I.op == 'extractvalue': return ('extract', tuple(I.raw['idx']), E(I.ops[0]))
        if I.op == 'cmpxchg': return ('cas', I.field(), v[1])
        if I.op == 'atomicrmw': return ('rmw', I.raw['rmw'], I.field(), v[1], E(I.ops[1]))
        if I.op == 'alloca': return ('alloca', v[1], I.raw.get('aty'))
        return (OPS.get(I.op, I.op),) + tuple(E(o) for o in I.ops)

def _domsets(n, roots, succ, pred, rpo):
    order = {b: i for i, b in enumerate(rpo)}
    root = roots[0]
    idom = {root: root}
    def inter(a, b):
        while a != b:
            while order[a] > order[b]: a = idom[a]
            while order[b] > order[a]: b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == root: continue
            new = None
            for p in pred[b]:
                if p in idom and p in order:
                    new = p if new is None else inter(p, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new; ch = True
    out = {}
    for b in rpo:
        if b not in idom: continue
        s = [b]; x = b
        while x != root: x = idom[x]; s.append(x)
        out[b] = frozenset(s)
    return out

class Mod:
    def __init__(self, raw, name):
        self.raw = raw; self.name = name; self.fp_stores = None
        self.types = raw['types']; self.enums = raw['enums']; self.globals = raw['globals']
        self.fns = {}
        for f in raw['functions']:
            self.fns[f['name']] = Fn(self, f)
        self._fp = None; self._callers = None
    def defined(self): return [f for f in self.fns.values() if not f.decl]
    def fn(self, name):
        f = self.fns.get(name)
        return f if f and not f.decl else None
    def enum_value(self, name):
        for e, vs in self.enums.items():
            for n, v in vs:
                if n == name: return v
        return None
    def member_chain(self, sname, off):
        """names of the nested members of sname that contain byte offset off, innermost first"""
        t = self.types.get(sname); out = []
        owner = sname; ms = t['members'] if t else None; bit = off * 8
        while ms:
            c = [m for m in ms if m['off'] <= bit < m['off'] + max(m['size'], 1)]
            if not c: break
            m = c[0]
            if m['name']: out.append(owner + '.' + m['name'])
            bit -= m['off']
            if m.get('array') and m.get('elemsize'): bit %= m['elemsize']
            if m['name']: owner = m.get('subname') or (owner + '.' + m['name'])
            ms = m.get('sub')
        return out[::-1]
    def is_wrapper(self, sname):
        t = self.types.get(sname)
        return bool(t) and t['size'] <= 64 and all(x['off'] == 0 for x in t['members'])
    def member_path(self, sname, off, size=None, allow_root=True):
        """Descend the debug info of struct sname to byte offset off; returns the innermost
        'named_struct.field[.anon...]'."""
        t = self.types.get(sname)
        if t is None: return None
        if off * 8 >= max(t['size'], 1): return None
        return self._descend(sname, t['members'], off * 8, size * 8 if size else None)
    def _descend(self, owner, members, bit, size):
        cands = [m for m in members if m['off'] <= bit < m['off'] + max(m['size'], 1)]
        if not cands:
            # flexible array at the end
            cands = [m for m in members if m.get('array') and m['off'] <= bit and m['size'] <= 0]
            if not cands: return None
        best = cands[0]
        if size:
            ex = [m for m in cands if m['off'] == bit and m['size'] == size]
            if ex: best = ex[0]
        m = best
        name = owner + '.' + m['name'] if m['name'] else owner
        rel = bit - m['off']
        if m.get('array') and m.get('elemsize'): rel = rel % m['elemsize'] if m['elemsize'] else rel
        sub = m.get('sub')
        if sub and not m.get('array') and m.get('subname') and m['size'] <= 64 and all(x['off'] == 0 for x in sub): return name
        if sub and (size is None or m['size'] != size or len(sub) == 1 or m.get('array')):
            if size is None and rel == 0 and not m.get('array') and m['name']:
                # address of the aggregate itself
                return name
            o = m.get('subname') or (owner if not m['name'] else name)
            r = self._descend(o, sub, rel, size)
            if r: return r
        return name
    # -- function pointers: which functions may a value be
    def fnptr_targets(self, fn, v, depth=0, seen=None):
        seen = seen if seen is not None else set()
        out = set()
        k = (fn.name, repr(v))
        if k in seen or depth > 12: return out
        seen.add(k)
        if v[0] == 'f': return {v[1]}
        if v[0] == 'a':
            for (cf, ci) in self.callers(fn.name):
                if v[1] < len(ci.ops): out |= self.fnptr_targets(cf, ci.ops[v[1]], depth + 1, seen)
            return out
        if v[0] == 'v':
            I = fn.insts[v[1]]
            if I.op == 'phi':
                for o in I.ops: out |= self.fnptr_targets(fn, o[0], depth + 1, seen)
            elif I.op == 'select':
                out |= self.fnptr_targets(fn, I.ops[1], depth + 1, seen) | self.fnptr_targets(fn, I.ops[2], depth + 1, seen)
            elif I.op == 'load':
                f = I.field()
                if f:
                    for g in self.defined():
                        for S in g.all():
                            if S.op == 'store' and S.field() == f:
                                out |= self.fnptr_targets(g, S.ops[0], depth + 1, seen)
        return out
    def callers(self, name):
        if self._callers is None:
            c = {}
            for f in self.defined():
                for I in f.all():
                    if I.is_call():
                        n = I.callee_name()
                        if n: c.setdefault(n, []).append((f, I))
            self._callers = c
        return self._callers.get(name, [])
    def targets(self, I):
        """Resolved call targets: list of names; unresolved indirect -> ['*'] or ['slot:struct.field']"""
        c = I.raw.get('callee')
        if c[0] == 'f': return [c[1]]
        if c[0] == 'asm': return ['asm']
        cache = self.__dict__.setdefault('_tcache', {})
        k = (I.fn.name, I.id)
        if k in cache: return cache[k]
        r = sorted(self.fnptr_targets(I.fn, c))
        if not r:
            d = I.fn.defn(c) if c[0] == 'v' else None
            if d is not None and d.op == 'load' and d.field(): r = ['slot:' + d.field()]
            elif d is not None and d.op == 'phi': r = ['*']
            else: r = ['*']
        else:
            d = I.fn.defn(c) if c[0] == 'v' else None
            if d is not None and d.op == 'load' and d.field(): r = r + ['slot:' + d.field()]
        cache[k] = r
        return r

def walk(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            for y in walk(x): yield y

def loads_in(e):
    return [x[1] for x in walk(e) if x[0] == 'load' and x[1]]

def calls_in(e):
    return [x[1] for x in walk(e) if x[0] == 'call']
