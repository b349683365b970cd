"""C24: the Boehm adapter.  What the mark procedures give to the collector, what is registered and when, where objects with references are allocated."""
from core import rule, is_bdw, AnalysisError
import q
from q import Automaton, const_of
from rules.finalizer import exits_of, always

KEEP = ('gc_trace_heap_roots', 'gc_trace_mutator_roots', 'gc_visit_finalizer_roots', 'gc_trace_ephemeron', 'gc_trace_finalizer', 'gc_ephemeron_init_internal', 'gc_finalizer_init_internal',
        'gc_finalizer_externally_activated', 'gc_finalizer_externally_fired', 'gc_ephemeron_mark_dead', 'gc_visit_ephemeron_key', 'gc_finalizer_state_pop', 'gc_make_finalizer_state')
LEAST, MOST = 'GC_least_plausible_heap_addr', 'GC_greatest_plausible_heap_addr'
PUSH = 'GC_mark_and_push'
LISTS = ('gc_mutator.freelists', 'gc_mutator.pointerless_freelists')
# a structure of the adapter: what tells that it is in use (field, or None: its first word is null), and what has to be given to the collector
TYPES = {'heap': (None, ('roots', 'finalizers', 'mutators')),
         'mutator': ('gc_mutator.heap', ('roots', 'next', ('all', LISTS[0]), ('all', LISTS[1]))),
         'ephemeron': ('gc_ephemeron.value', ('traced',)),
         'finalizer': ('gc_finalizer.object', ('traced',)),
         'edge': (None, ('ref',))}
TRACE = {'gc_trace_heap_roots': ('heap', 'gc_heap.roots', 'roots'), 'gc_visit_finalizer_roots': ('heap', 'gc_heap.finalizer_state', 'finalizers'), 'gc_trace_mutator_roots': ('mutator', 'gc_mutator.roots', 'roots'),
         'gc_trace_ephemeron': ('ephemeron', None, 'traced'), 'gc_trace_finalizer': ('finalizer', None, 'traced')}
TEXT = {'roots': 'the roots that the embedder has set', 'finalizers': 'the finalizers that are waiting', 'mutators': 'the mutators', 'next': 'the mutators after this one', 'traced': 'what it keeps alive', 'ref': 'what the edge refers to',
        ('all', LISTS[0]): 'every object on its free lists', ('all', LISTS[1]): 'every object on its free lists of objects without references'}
def name(I): return I.callee_name() if I.is_call() else None
def stripc(f, v):
    v = q.strip(f, v)
    while v[0] == 'v' and f.insts[v[1]].op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'): v = q.strip(f, f.insts[v[1]].ops[0])
    return v
def inst(f, v):
    v = stripc(f, v)
    return f.insts[v[1]] if v[0] == 'v' else None
def is_arg(f, v, n): return tuple(stripc(f, v)[:2]) == ('a', n)
def isnull(v): return v[0] == 'null' or const_of(v) == 0

def place(f, v, d=0):
    """(base, constant offset, whether something that is not constant is added)"""
    if d > 16: return (v, 0, True)
    if v[0] == 'v':
        I = f.insts[v[1]]
        if I.op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'): return place(f, I.ops[0], d + 1)
        if I.op == 'getelementptr':
            g = I.raw['gep']; b, o, var = place(f, I.ops[0], d + 1)
            if 'off' in g: return b, o + g['off'], var
            for st in g['path']:
                if st[0] == 's': o += st[3]
                elif st[0] == 'i': o += st[1] * st[2]
            return b, o, True
        if I.op in ('add', 'or'):
            A, B = (addend(f, x, d + 1) for x in I.ops)
            if A[0] is not None or B[0] is not None: return A[0] or B[0], A[1] + B[1], A[2] or B[2]
    return v, 0, False
def addend(f, v, d):
    """(pointer or None, constant, variable)"""
    c = const_of(v)
    if c is not None: return None, c, False
    if d > 16: return None, 0, True
    if v[0] == 'a': return v, 0, False
    I = f.insts[v[1]] if v[0] == 'v' else None
    if I is not None and I.op in ('ptrtoint', 'inttoptr', 'getelementptr'): return place(f, v, d)
    if I is not None and I.op == 'add':
        A, B = (addend(f, x, d + 1) for x in I.ops)
        return A[0] or B[0], A[1] + B[1], A[2] or B[2]
    return None, 0, True

def member(m, off):
    t = m.types.get('gc_mutator')
    if t is None: raise AnalysisError('struct gc_mutator not found')
    for x in t['members']:
        if x['off'] <= off * 8 < x['off'] + x['size']: return 'gc_mutator.' + x['name'], x['off'] // 8, x['size'] // 64
    return None, 0, 0

def index(f, p, d=0):
    """the variable index of an element of an array: (value, constant that is added to it)"""
    while p[0] == 'v' and f.insts[p[1]].op in ('bitcast', 'freeze'): p = f.insts[p[1]].ops[0]
    if p[0] != 'v' or f.insts[p[1]].op != 'getelementptr': return None
    I = f.insts[p[1]]; g = I.raw['gep']
    if 'off' in g: return index(f, I.ops[0], d + 1) if d < 4 else None
    vs = [st for st in g['path'] if st[0] == 'v']
    if len(vs) != 1 or vs[0][2] != 8: return None
    return term(f, I.ops[vs[0][1]])
def term(f, v):
    c = 0
    for _ in range(12):
        v = q.strip(f, v)
        J = f.insts[v[1]] if v[0] == 'v' else None
        if J is not None and J.op in ('sext', 'zext', 'freeze'): v = J.ops[0]
        elif J is not None and J.op in ('add', 'sub') and const_of(J.ops[1]) is not None: c += s32(const_of(J.ops[1])) * (1 if J.op == 'add' else -1); v = J.ops[0]
        else: break
    return tuple(v[:2]), c
def s32(c): return c - (1 << 32) if 1 << 31 <= c < 1 << 32 else c - (1 << 64) if c >= 1 << 63 else c

def counted(f, h, body, x, cnt):
    """the loop with header h lets x take every value from 0 to cnt - 1"""
    (v, c) = x
    P = f.insts[v[1]] if v[0] == 'v' else None
    if P is None or P.op != 'phi' or P.block != h: return False
    ini = [const_of(o) for o, b in P.ops if b not in body]; stp = [term(f, o) for o, b in P.ops if b in body]
    if len(ini) != 1 or ini[0] is None or not stp or len(set(stp)) != 1 or stp[0][0] != v: return False
    first = s32(ini[0]) + c; k = stp[0][1]
    if (first, k) not in ((0, 1), (cnt - 1, -1)): return False
    # the value with which a round would start when the loop ends
    ends = 0
    for b in sorted(body):
        for s in sorted(set(f.succ[b]) - set(body)):
            if f.is_noreturn_block(s): continue
            ok = False
            for p, L, R in q.edge_atoms(f, f.terminator(b), s):
                t, e = term(f, L); r = const_of(R)
                if t != v or r is None: continue
                r = s32(r) - e      # the atom is: phi p r
                # at the top the next round is the one with the value of the phi; after the work it is one step further
                nxt = 0 if b == h and not work(f, h, body, v) else k
                last = (cnt if k == 1 else -1) - c - nxt
                if p == 'eq' and r == last: ok = True
                if k == 1 and (p in ('uge', 'sge') and r == last or p in ('ugt', 'sgt') and r == last - 1): ok = True
                if k == -1 and (p == 'sle' and r == last or p == 'slt' and r == last + 1 or p == 'ult' and r == last + 1 and last == 0 or p == 'ule' and r == last == 0): ok = True
            if not ok: return False
            ends += 1
    return ends > 0
def work(f, h, body, v):
    """an element is read in the header itself: the test comes after it"""
    return any(J.op == 'load' and index(f, J.ptr()) is not None and index(f, J.ptr())[0] == v for J in f.blocks[h])

class Mark(Automaton):
    """state: (whether the object is in use or free, names of the current top of the mark stack, what has been done)"""
    descend = False
    max_states = 20000
    def __init__(self, mod, f, typ):
        super().__init__(mod); self.f = f; self.typ = typ; self.hits = {}
        self.disc, self.want = TYPES[typ]
        self.head = {}
        for h, body in f.loops().items():
            ex = [k for k, _ in exits_of(f, h, body)]
            self.head[h] = (set(body), ex)
    def relevance_key(self): return ('bdwmark', self.f.name, self.typ)
    def relevant(self, I): return I.fn is self.f
    def watch_key(self): return 'bdwmark'
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def cell(self, p):
        """0: where the top of the mark stack is kept, other offsets: the rest of that structure"""
        b, o, var = place(self.f, p)
        if var: return None
        if self.typ == 'edge': return o if is_arg(self.f, b, 2) else None
        if b[0] == 'v' and self.f.insts[b[1]].op == 'alloca' and 'mark_state' in str(self.allocas().get(b[1], '')): return o
        return None
    def allocas(self):
        if not hasattr(self, '_al'):
            self._al = {}
            for I in self.f.all():
                if I.op == 'store' and self.f.defn(I.ops[1]) is not None or I.op == 'store':
                    b, o, var = place(self.f, I.ptr())
                    if b[0] == 'v' and self.f.insts[b[1]].op == 'alloca' and o == 0 and not var and self.f.insts[b[1]].block == 0 and is_arg(self.f, I.ops[0], 1): self._al[b[1]] = 'mark_state'
        return self._al
    def of(self, v):
        """what a value that may be pushed is"""
        f = self.f; v = stripc(f, v)
        if v[0] != 'v': return None
        I = f.insts[v[1]]
        if I.op == 'phi':
            # a walk along a list: starts with an element of a list, goes on with the first word of what it is at
            if I.block not in self.head: return None
            body, ex = self.head[I.block]
            out = None
            for o, b in I.ops:
                o = stripc(f, o)
                J = f.insts[o[1]] if o[0] == 'v' else None
                if J is None or J.op != 'load': return None
                if b in body:
                    if not (tuple(stripc(f, J.ptr())[:2]) == ('v', I.id)): return None
                else:
                    k = self.of(o)
                    if k is None or k[0] != 'elt': return None
                    out = k[1]
            return ('walk', out, I.block) if out and ex == ['null'] else None
        if I.op != 'load': return None
        b, o, var = place(f, I.ptr())
        if self.typ == 'edge': return ('ref',) if is_arg(f, b, 0) and o == 0 and not var else None
        if not is_arg(f, b, 0):
            # a pointer that goes through one of the arrays
            P = f.insts[b[1]] if b[0] == 'v' else None
            if P is not None and P.op == 'phi' and P.block in self.head and self.typ == 'mutator':
                k = self.cursor(P)
                if k: return ('elt', k, P.block)
            return None
        if not var and o == 0: return ('link',)
        fld = I.field()
        if self.typ == 'mutator' and var:
            n, base, cnt = member(self.mod, o)
            if n in LISTS and base == o:
                x = index(f, I.ptr())
                if x is None: return None
                for h, (body, ex) in self.head.items():
                    if I.block in body and counted(f, h, body, x, cnt): return ('elt', n, h)
            return None
        return {'gc_heap.mutators': ('mutators',), 'gc_mutator.next': ('next',)}.get(fld)
    def cursor(self, P):
        f = self.f; body, ex = self.head[P.block]
        ini = [o for o, b in P.ops if b not in body]; stp = [o for o, b in P.ops if b in body]
        if len(ini) != 1: return None
        b, o, var = place(f, ini[0])
        if not is_arg(f, b, 0) or var: return None
        n, base, cnt = member(self.mod, o)
        if n not in LISTS or base != o: return None
        for s in stp:
            b, so, var = place(f, s)
            if tuple(b[:2]) != ('v', P.id) or so != 8 or var: return None
        ends = 0
        for x in sorted(body):
            for s in sorted(set(f.succ[x]) - body):
                if f.is_noreturn_block(s): continue
                ok = False
                for p, L, R in q.edge_atoms(f, f.terminator(x), s):
                    if p not in ('eq', 'uge'): continue
                    lb, lo, lv = place(f, L); rb, ro, rv = place(f, R)
                    if tuple(lb[:2]) == ('v', P.id) and lo in (0, 8) and is_arg(f, rb, 0) and not lv and not rv and ro == base + 8 * cnt: ok = True
                if not ok: return None
                ends += 1
        return n if ends else None
    def visit(self, st, k, I):
        ph, cur, fl = st
        if k is None: return st
        if k[0] == 'link':
            if ph == 'used' and self.typ != 'heap': return st
            return ph, cur, fl | {'link'}
        if ph != 'used': self.error('free', I, 'an object that may be on a free list is treated as if it were in use: its words are taken for references'); return st
        return ph, cur, fl | ({k[0]} if len(k) == 1 else {k})
    def assume(self, st, I, p, L, R):
        ph, cur, fl = st; f = self.f
        a, b = stripc(f, L), stripc(f, R)
        def bound_of(v):
            J = f.insts[v[1]] if v[0] == 'v' else None
            return J.ptr()[1] if J is not None and J.op == 'load' and J.ptr()[0] == 'g' and J.ptr()[1] in (LEAST, MOST) else None
        SW = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
        if bound_of(a) and p in SW: a, b, p = b, a, SW[p]
        k = bound_of(b)
        if k and (k == LEAST and p == 'ult' or k == MOST and p == 'ugt'): return [self.visit(st, self.of(a), I)]
        if p not in ('eq', 'ne'): return None
        if isnull(a): a, b = b, a
        if not isnull(b) or a[0] != 'v': return None
        J = f.insts[a[1]]
        if J.op != 'load': return None
        fld = J.field(); bb, o, var = place(f, J.ptr())
        mine = is_arg(f, bb, 0) and not var
        if self.typ == 'edge': return [self.visit(st, self.of(a), I)] if p == 'eq' and self.of(a) else None
        if mine and ph is None:
            if self.disc is None and o == 0: return [('used' if p == 'eq' else 'free', cur, fl)]
            if self.disc is not None and fld == self.disc: return [('used' if p == 'ne' else 'free', cur, fl)]
        if mine and fld == 'gc_ephemeron.key': return [(ph, cur, fl | {'keydead' if p == 'eq' else 'keyalive'})]
        if mine and p == 'eq' and fld in ('gc_heap.roots', 'gc_mutator.roots'): return [(ph, cur, fl | {'roots'})]
        if p == 'eq' and self.of(a) and self.of(a)[0] in ('mutators', 'next', 'elt'): return [self.visit(st, self.of(a), I)]
        return None
    def enter(self, st, fn, s):
        if fn is not self.f: return st
        ph, cur, fl = st; f = self.f
        x = next((k[1] for k in fl if isinstance(k, tuple) and k[0] == 'at'), 0)
        new = set(cur)
        for J in f.blocks[s]:
            if J.op != 'phi': break
            new.discard(('v', J.id))
            for o, b in J.ops:
                if b == x and tuple(o[:2]) in cur: new.add(('v', J.id))
        fl = set(fl) - {('at', x)} | {('at', s)}
        for h, (body, ex) in self.head.items():
            if x in body and s == h:
                for kind, n in self.due(h):
                    got = (kind, n, h) in fl or kind == 'elt' and ('chain', n) in fl
                    if kind == 'elt' and n == LISTS[1]: got = ('chain', n) in fl
                    if got: fl.discard((kind, n, h))
                    else: fl.add(('missed', n))
                    if kind == 'elt': fl.discard(('chain', n))
            elif x in body and s not in body and not f.is_noreturn_block(s):
                for kind, n in self.due(h):
                    fl.discard((kind, n, h))
                    # a test after the body: what has been done in the last round is not known to have been complete unless it was marked
                    if ('missed', n) in fl: continue
                    fl.add(('chain', n) if kind == 'walk' else ('all', n))
        return ph, frozenset(new), frozenset(fl)
    def due(self, h):
        """what each round of the loop is to give to the collector"""
        if not hasattr(self, '_due'):
            self._due = {}
            for I in self.f.all():
                if I.op in ('load', 'phi'):
                    k = self.of(('v', I.id))
                    if k and len(k) == 3: self._due.setdefault(k[2], set()).add(k[:2])
        return self._due.get(h, ())
    def step(self, st, I):
        ph, cur, fl = st; f = self.f; n = name(I)
        if I.op in ('load', 'store') and self.cell(I.ptr()) == 0:
            if I.op == 'load': return [(ph, (cur | {('v', I.id)}) if 'mem' in cur else cur - {('v', I.id)}, fl)]
            v = tuple(I.ops[0][:2])
            if v not in cur: self.error('lost', I, 'the mark stack is set back to what it was before something was pushed, so that this is lost'); return [(ph, frozenset(['mem']), fl)]
            return [(ph, cur | {'mem'}, fl)]
        if n == PUSH:
            if tuple(I.ops[1][:2]) not in cur: self.error('lost', I, 'something is pushed where something else was pushed before, so that this is lost')
            lim = I.ops[2]; L = f.insts[lim[1]] if lim[0] == 'v' else None
            if not (self.typ != 'edge' and is_arg(f, lim, 2) or L is not None and L.op == 'load' and self.cell(L.ptr()) not in (None, 0)): self.error('limit', I, 'the limit of the mark stack is not the one that the collector gave')
            k = self.of(I.ops[0])
            if k is not None: self.hit('values pushed', I)
            ph, cur, fl = self.visit(st, k, I)
            return [(ph, frozenset([('v', I.id)]), fl)]
        if n in TRACE and self.typ != 'edge':
            typ, fld, what = TRACE[n]
            self.hit('tracing calls', I)
            if typ != self.typ: self.error('type', I, 'an object of one kind is traced as one of another')
            a = inst(f, I.ops[0])
            if fld is None and not is_arg(f, I.ops[0], 0) or fld is not None and not (a is not None and a.op == 'load' and a.field() == fld): self.error('wrong', I, 'something else than %s is traced' % TEXT[what])
            elif ph != 'used': self.error('free', I, 'an object that may be on a free list is treated as if it were in use: its words are taken for references')
            if self.cell(I.ops[3]) != 0: self.error('wrong', I, 'the visitor is not given the mark stack')
            if 'mem' not in cur: self.error('lost', I, 'the visitor is given the mark stack as it was before something was pushed, so that this is lost')
            if self.typ == 'ephemeron' and 'dead' not in fl and 'keyalive' not in fl: self.error('dead', I, 'an ephemeron whose key is gone is traced without having been made dead')
            return [(ph, frozenset(['mem']), fl | {what})]
        if n == 'gc_ephemeron_mark_dead':
            if not is_arg(f, I.ops[0], 0) or 'keydead' not in fl: self.error('alive', I, 'an ephemeron is made dead although its key may be alive')
            return [(ph, cur, fl | {'dead'})]
        return None
    def ret(self, st, I):
        ph, cur, fl = st
        if I.fn is self.f:
            self.hit('ends of mark procedures', I)
            if self.typ == 'edge':
                if 'mem' not in cur: self.error('lost', I, 'what is pushed is not recorded in the mark stack')
                if 'ref' not in fl: self.error('missing', I, 'a visited reference may not be given to the collector')
                return None
            if not (I.ops and tuple(I.ops[0][:2]) in cur): self.error('lost', I, 'what is returned is not the mark stack with all that was pushed')
            if ph == 'used' and self.typ == 'heap' and not all(w in fl for w in self.want) or ph == 'used' and self.typ != 'heap':
                for w in self.want:
                    if w not in fl: self.error('missing', I, '%s of a %s may not be given to the collector' % (TEXT[w], self.typ))
            elif ph == 'free' and 'link' not in fl: self.error('link', I, 'the rest of a free list is not given to the collector')
            elif ph is None: self.error('free', I, 'whether the object is on a free list is not looked at')
        return None

def proc_of(f, v, d=0):
    """the mark procedure of a descriptor"""
    if v[0] != 'v' or d > 8: return None
    I = f.insts[v[1]]
    if name(I) == 'GC_new_proc': return I.ops[0][1] if I.ops[0][0] == 'f' else None
    if I.op in ('shl', 'or', 'add', 'zext', 'sext', 'trunc', 'and', 'mul', 'freeze'):
        for o in I.ops:
            r = proc_of(f, o, d + 1)
            if r: return r
    return None

def kinds(m):
    """global -> (procedure, call, store)"""
    out = {}
    for f in m.defined():
        for I in f.all():
            if name(I) != 'GC_new_kind': continue
            for S in f.all():
                if S.op == 'store' and tuple(S.ops[0][:2]) == ('v', I.id) and S.ptr()[0] == 'g': out.setdefault(S.ptr()[1], []).append((proc_of(f, I.ops[1]), I, S))
    return out

def made(m):
    """[(function, call, type)]: objects of the adapter that are allocated"""
    out = []
    for f in m.defined():
        for I in f.all():
            if name(I) != 'GC_generic_malloc': continue
            t = {'gc_allocate_ephemeron': 'ephemeron', 'gc_allocate_finalizer': 'finalizer'}.get(f.name)
            if t is None and f.name == 'gc_init':
                for S in f.all():
                    if S.op == 'store' and tuple(stripc(f, S.ops[0])[:2]) == ('v', I.id): t = {('a', 2): 'heap', ('a', 3): 'mutator'}.get(tuple(S.ptr()[:2]), t)
            if t is None:
                for S in f.all():
                    if S.op in ('store', 'load') or S.is_call() and 'memcpy' in str(S.callee_name()):
                        p = S.ptr() if S.op in ('store', 'load') else S.ops[0]
                        b = stripc(f, f.root_of(p))
                        if tuple(b[:2]) == ('v', I.id):
                            for k in ('heap', 'mutator'):
                                if any(x.startswith('gc_%s.' % k) for x in f.fields_of(p)): t = k
            if t is None: raise AnalysisError('what is allocated in %s was not recognized' % f.name)
            out.append((f, I, t))
    return out

def without(f, start, blocks, edge_ok):
    """can the end be reached from after start without one of the blocks, on edges that are not excused"""
    seen = set(); wl = [start]
    while wl:
        b = wl.pop()
        if b in seen: continue
        seen.add(b)
        if f.terminator(b).op == 'ret': return True
        for s in f.succ[b]:
            if s not in blocks and not edge_ok(f.terminator(b), s): wl.append(s)
    return False

@rule('bdw-marking', 'C24', configs=is_bdw, load=dict(keep=KEEP), debug=False, limits=())
def bdw_marking(ctx, m, cfg):
    K = kinds(m); objs = made(m); done = set(); visitors = {}
    for f, I, t in objs:
        g = inst(f, I.ops[1])
        k = g.ptr()[1] if g is not None and g.op == 'load' and g.ptr()[0] == 'g' else None
        if k is None and g is not None and name(g) == 'GC_new_kind': k = next((x for x, v in K.items() if v[0][1] is g), None)
        if k not in K: ctx.bad('kind', I, 'a %s is not allocated as an object of a kind that has a mark procedure' % t); continue
        if len(K[k]) != 1: raise AnalysisError('kind %s is made in several places' % k)
        proc, N, S = K[k][0]
        ctx.ok('allocations of structures with a mark procedure', I)
        if const_of(N.ops[3]) in (0, None): ctx.bad('clear', N, 'objects of this kind are not cleared: free ones cannot be told from those in use')
        if const_of(N.ops[2]) != 0: ctx.bad('clear', N, 'the size is added to the descriptor')
        if S.fn is f and not f.dominates(S, I): ctx.bad('order', I, 'a %s is allocated before its kind has been made' % t)
        need = max([p['path'][0][2] for p in (J.raw.get('gep') for J in f.all() if J.op == 'getelementptr' and tuple(stripc(f, f.root_of(('v', J.id)))[:2]) == ('v', I.id)) if p and p.get('src') == '%gc_' + t and len(p['path'][0]) > 2] or [0])
        if const_of(I.ops[0]) is not None and const_of(I.ops[0]) < need: ctx.bad('size', I, 'a %s is allocated smaller than it is' % t)
        if proc is None or m.fn(proc) is None: raise AnalysisError('mark procedure of %s not found' % k)
        if (proc, t) in done: continue
        done.add((proc, t))
        A = Mark(m, m.fn(proc), t)
        A.run(proc, (None, frozenset([('a', 1)]), frozenset())); q.tally(ctx, A)
        for J in m.fn(proc).all():
            if name(J) in TRACE:
                if J.ops[1][0] == 'f': visitors[J.ops[1][1]] = J
                else: ctx.bad('visitor', J, 'the visitor is not known')
    ctx.need('mark procedures', len(done), 4)
    for v in sorted(visitors):
        f = m.fn(v)
        if f is None: raise AnalysisError('visitor %s not found' % v)
        A = Mark(m, f, 'edge'); A.run(v, ('used', frozenset(['mem']), frozenset())); q.tally(ctx, A)
    ctx.need('visitors', len(visitors), 1)

def published(f, I, J):
    return f.dominates(J, I)

@rule('bdw-registration', 'C24', configs=is_bdw, load=dict(keep=KEEP), debug=False, limits=())
def bdw_registration(ctx, m, cfg):
    objs = made(m)
    init = m.fn('gc_init')
    if init is None: raise AnalysisError('gc_init not found')
    H = [I for f, I, t in objs if t == 'heap']; M = [(f, I) for f, I, t in objs if t == 'mutator']
    if len(H) != 1 or H[0].fn is not init: raise AnalysisError('the heap is not allocated in gc_init')
    H = H[0]
    def passed(n, ok, what, before=None, msg=None):
        cs = [I for I in init.all() if name(I) == n and ok(I)]
        # on every path through the allocation of the heap
        good = [I for I in cs if init.dominates(I, H) or init.postdominates(I, H)]
        if not good: ctx.bad('setup', H, what); return None
        ctx.ok('steps of setting the collector up', good[0])
        if before is not None and not init.dominates(good[0], before): ctx.bad('order', good[0], msg or what)
        return good[0]
    g = passed('GC_init', lambda I: True, 'the collector is not initialized', H, 'the heap is allocated before the collector has been initialized')
    for I in init.all():
        if name(I) in ('GC_new_kind', 'GC_new_proc', 'GC_generic_malloc', 'GC_malloc', 'GC_malloc_atomic', 'GC_malloc_uncollectable', 'GC_new_free_list', 'GC_allow_register_threads') and g is not None and not init.dominates(g, I):
            ctx.bad('order', I, 'the collector is used before it has been initialized')
    passed('GC_allow_register_threads', lambda I: True, 'other threads are not allowed to register')
    passed('GC_set_finalize_on_demand', lambda I: const_of(I.ops[0]) not in (0, None), 'finalizers are not left until the program asks for them')
    n = passed('GC_set_finalizer_notifier', lambda I: I.ops[0][0] == 'f', 'nobody is told that there are finalizers')
    if n is not None:
        f = m.fn(n.ops[0][1])
        if f is None: raise AnalysisError('finalizer notifier not found')
        def cb(I): return I.is_call() and name(I) is None and any(L.field() == 'gc_heap.have_finalizers' for L in callee_loads(f, I))
        cs = {I.block for I in f.all() if cb(I)}
        if not cs: ctx.bad('notify', f.terminator(0), 'the callback of the embedder is not called when there are finalizers')
        elif 0 not in cs and without(f, 0, cs, lambda T, s: any(p == 'eq' and isnull(R) and (inst(f, L) is not None and inst(f, L).op == 'load' and (inst(f, L).field() == 'gc_heap.have_finalizers' or inst(f, L).ptr()[0] == 'g')) for p, L, R in q.edge_atoms(f, T, s))):
            ctx.bad('notify', f.terminator(0), 'the callback of the embedder may not be called although there are finalizers')
        else: ctx.ok('finalizer callback', f.terminator(0))
    # the heap is a root, complete, before anything else can start a collection that has to find it
    def is_heap(v):
        J = inst(init, v)
        return J is H or J is not None and J.op == 'load' and is_arg(init, J.ptr(), 2)
    roots = [S for S in init.all() if S.op == 'store' and S.ptr()[0] == 'g' and is_heap(S.ops[0])]
    fins = [S for S in init.all() if S.op == 'store' and S.field() == 'gc_heap.finalizer_state' and not isnull(S.ops[0])]
    for f, I in M:
        if f is init:
            if not any(init.dominates(S, I) for S in roots): ctx.bad('root', I, 'the heap is not reachable for the collector when the first mutator is allocated')
            else: ctx.ok('heap known to the collector', roots[0])
            if not any(init.dominates(S, I) for S in fins): ctx.bad('order', I, 'the first mutator is allocated, which may collect, before the heap has its finalizers')
        else:
            reg = [J for J in f.all() if name(J) == 'GC_register_my_thread']
            if not any(f.dominates(J, I) for J in reg): ctx.bad('thread', I, 'a thread allocates before it is known to the collector')
            else: ctx.ok('threads registered', I)
            for J in reg:
                b = [S for S in f.all() if S.op == 'store' and place(f, S.ptr())[0] == place(f, J.ops[0])[0] and place(f, S.ptr())[1] == 0 and f.dominates(S, J)]
                if not any(is_arg(f, S.ops[0], 0) for S in b): ctx.bad('thread', J, 'a thread is registered with another stack than the one it was given')
        linked(ctx, m, f, I)
    ctx.need('allocations of mutators', len(M), 2)
    unlinked(ctx, m)
    # ephemerons
    f = m.fn('gc_ephemeron_init')
    if f is None: raise AnalysisError('gc_ephemeron_init not found')
    ini = [I for I in f.all() if name(I) == 'gc_ephemeron_init_internal']
    always(ctx, f, 'gc_ephemeron_init_internal', 'an ephemeron may not be initialized')
    for I in ini:
        if not (is_arg(f, I.ops[1], 1) and is_arg(f, I.ops[2], 2) and is_arg(f, I.ops[3], 3)): ctx.bad('ephemeron', I, 'an ephemeron is given another key or value')
    reg = [I for I in f.all() if (name(I) or '') in ('GC_register_disappearing_link', 'GC_general_register_disappearing_link')]
    def the_key(v):
        J = inst(f, v)
        return is_arg(f, v, 2) or J is not None and name(J) == 'GC_base' and is_arg(f, J.ops[0], 2)
    for I in reg:
        b, o, var = place(f, I.ops[0])
        if not (is_arg(f, b, 1) and f.field_of(I.ops[0]) == 'gc_ephemeron.key'): ctx.bad('ephemeron', I, 'something else than the key of the ephemeron disappears')
        elif not any(f.dominates(J, I) for J in ini): ctx.bad('ephemeron', I, 'the key is registered before it has been stored')
        elif name(I) != 'GC_general_register_disappearing_link': ctx.bad('ephemeron', I, 'the key disappears when the ephemeron does, not when the key is no longer needed')
        elif not all(the_key(x) for x in leaves(f, I.ops[1])): ctx.bad('ephemeron', I, 'the key disappears when another object is no longer needed')
        else: ctx.ok('keys registered to disappear', I)
    def nokey(T, s):
        for p, L, R in q.edge_atoms(f, T, s):
            J = inst(f, L)
            if p == 'eq' and isnull(R) and J is not None and name(J) in ('GC_base', 'GC_is_heap_ptr') and is_arg(f, J.ops[0], 2): return True
            if p == 'eq' and isnull(R) and is_arg(f, L, 2): return True
        return False
    bl = {I.block for I in reg}
    if 0 not in bl and without(f, 0, bl, nokey): ctx.bad('ephemeron', f.terminator(0), 'the key of an ephemeron may not be registered to disappear although it is an object of the collector')
    f = m.fn('gc_visit_ephemeron_key')
    if f is not None:
        for I in f.all():
            if name(I) == PUSH or I.is_call() and name(I) is None: ctx.bad('key', I, 'asking for the key of an ephemeron keeps it alive')
            if I.op == 'ret':
                if const_of(I.ops[0]) in (0, None): ctx.bad('key', I, 'the key of an ephemeron is said not to have been traced: the ephemeron is put into a table that does not exist')
                else: ctx.ok('keys of ephemerons left alone', I)
    # finalizers
    f = m.fn('gc_finalizer_attach')
    if f is None: raise AnalysisError('gc_finalizer_attach not found')
    regs = [I for I in f.all() if (name(I) or '').startswith('GC_register_finalizer')]
    if not regs: ctx.bad('finalizer', f.terminator(0), 'a finalizer is not registered')
    for I in regs:
        if name(I) != 'GC_register_finalizer_no_order': ctx.bad('finalizer', I, 'a finalizer is registered with an order, so that objects in cycles are never finalized')
        if not is_arg(f, I.ops[0], 3): ctx.bad('finalizer', I, 'a finalizer is registered with another object')
        if not is_arg(f, I.ops[2], 1): ctx.bad('finalizer', I, 'another finalizer is registered')
        for w in ('gc_finalizer_init_internal', 'gc_finalizer_externally_activated'):
            if not any(name(J) == w and f.dominates(J, I) for J in f.all()): ctx.bad('finalizer', I, 'a finalizer is registered before it is ready to be fired')
        if I.ops[1][0] != 'f' or m.fn(I.ops[1][1]) is None: ctx.bad('finalizer', I, 'no callback is registered'); continue
        g = m.fn(I.ops[1][1]); always(ctx, g, 'gc_finalizer_externally_fired', 'a finalizer may not be fired')
        for J in g.all():
            if name(J) == 'gc_finalizer_externally_fired':
                s = inst(g, J.ops[0])
                if not is_arg(g, J.ops[1], 1): ctx.bad('finalizer', J, 'another finalizer is fired')
                elif not (s is not None and s.op == 'load' and s.field() == 'gc_heap.finalizer_state'): ctx.bad('finalizer', J, 'the finalizer is fired for another heap')
                else: ctx.ok('finalizers fired', J)
    # blocking
    f = m.fn('gc_call_without_gc')
    if f is None: raise AnalysisError('gc_call_without_gc not found')
    always(ctx, f, 'GC_do_blocking', 'a blocking call may be made while the collector waits for the thread')
    for I in f.all():
        if name(I) == 'GC_do_blocking' and not (is_arg(f, I.ops[0], 1) and is_arg(f, I.ops[1], 2)): ctx.bad('blocking', I, 'another function, or other data, are used for the blocking call')
        if I.is_call() and name(I) is None: ctx.bad('blocking', I, 'a blocking call is made while the collector waits for the thread')
        if I.op == 'ret' and not all(J is not None and name(J) == 'GC_do_blocking' for J in sources(f, I.ops[0])): ctx.bad('blocking', I, 'the result of the blocking call is not returned')

def sources(f, v, d=0):
    J = inst(f, v)
    if J is None or d > 6: return [J]
    if J.op == 'phi': return [x for o, b in J.ops for x in sources(f, o, d + 1)]
    return [J]

def leaves(f, v, d=0):
    v = stripc(f, v); J = inst(f, v)
    if J is not None and J.op == 'phi' and d < 6: return [x for o, b in J.ops for x in leaves(f, o, d + 1)]
    return [v]

def callee_loads(f, I):
    c = I.raw.get('callee')
    if isinstance(c, (list, tuple)) and c and c[0] == 'v': return q.value_loads(f, c, 4)
    return []

def linked(ctx, m, f, I):
    """a new mutator is put at the head of the list"""
    me = ('v', I.id)
    def base(p): return tuple(stripc(f, place(f, p)[0])[:2])
    def loads_list(v):
        J = inst(f, v)
        if J is None or J.op != 'load': return False
        return J.field() == 'gc_heap.mutators' or J.field() == 'gc_mutator.next' and base(J.ptr()) == me
    S = [J for J in f.all() if J.op == 'store']
    def mine(J, fld): return J.field() == fld and base(J.ptr()) == me
    req = {'its heap': [J for J in S if mine(J, 'gc_mutator.heap') and not isnull(J.ops[0])],
           'the mutators after it': [J for J in S if mine(J, 'gc_mutator.next') and loads_list(J.ops[0])],
           'the place it is linked from': [J for J in S if mine(J, 'gc_mutator.prev') and f.field_of(J.ops[0]) == 'gc_heap.mutators'],
           'the head of the list': [J for J in S if J.field() == 'gc_heap.mutators' and tuple(stripc(f, J.ops[0])[:2]) == me]}
    for k, js in req.items():
        js = [J for J in js if f.dominates(I, J) and (not without(f, I.block, {J.block}, lambda T, s: dead(f, T, s)) or J.block == I.block)]
        if not js: ctx.bad('linked', I, 'a new mutator is put on the list without %s' % k)
        else: ctx.ok('steps of adding a mutator', js[0])
    heads = req['the head of the list']; nexts = req['the mutators after it']
    for h in heads:
        for n in nexts:
            L = inst(f, n.ops[0])
            if L is not None and L.field() == 'gc_heap.mutators' and not f.dominates(L, h): ctx.bad('linked', n, 'the list is read after the new mutator has been put on it')
    back = [J for J in S if J.field() == 'gc_mutator.prev' and base(J.ptr()) != me and loads_list(place(f, J.ptr())[0]) and base(J.ops[0]) == me and f.field_of(J.ops[0]) == 'gc_mutator.next']
    bl = {J.block for J in back}
    def empty(T, s): return dead(f, T, s) or any(p == 'eq' and isnull(R) and loads_list(L) for p, L, R in q.edge_atoms(f, T, s))
    if I.block not in bl and without(f, I.block, bl, empty): ctx.bad('linked', I, 'the mutator that was first on the list may not be told what is before it now')
    elif back: ctx.ok('steps of adding a mutator', back[0])
    for J in heads + nexts + back:
        lk = [x for x in f.all() if name(x) == 'pthread_mutex_lock' and f.field_of(x.ops[0]) == 'gc_heap.lock' and f.dominates(x, J)]
        if not lk: ctx.bad('linked', J, 'the list of mutators is changed without its lock')

def dead(f, T, s): return f.is_noreturn_block(s)

def unlinked(ctx, m):
    f = m.fn('gc_finish_for_thread')
    if f is None: raise AnalysisError('gc_finish_for_thread not found')
    def ld(v, fld):
        J = inst(f, v)
        return J is not None and J.op == 'load' and J.field() == fld and is_arg(f, place(f, J.ptr())[0], 0)
    S = [J for J in f.all() if J.op == 'store']
    out = [J for J in S if ld(J.ops[0], 'gc_mutator.next') and ld(place(f, J.ptr())[0], 'gc_mutator.prev') and place(f, J.ptr())[1] == 0]
    back = [J for J in S if ld(J.ops[0], 'gc_mutator.prev') and J.field() == 'gc_mutator.prev' and ld(place(f, J.ptr())[0], 'gc_mutator.next')]
    un = [J for J in f.all() if name(J) == 'GC_unregister_my_thread']
    end = f.terminator(0)
    def avoid(js, ok=lambda T, s: False):
        bl = {J.block for J in js}
        return not bl or 0 not in bl and without(f, 0, bl, ok)
    if avoid(out): ctx.bad('unlinked', end, 'a mutator may stay on the list after its thread has gone')
    else: ctx.ok('steps of removing a mutator', out[0])
    if avoid(back, lambda T, s: any(p == 'eq' and isnull(R) and ld(L, 'gc_mutator.next') for p, L, R in q.edge_atoms(f, T, s))): ctx.bad('unlinked', end, 'the mutator after one that is removed may not be told what is before it now')
    elif back: ctx.ok('steps of removing a mutator', back[0])
    if avoid(un): ctx.bad('unlinked', end, 'a thread that goes may stay registered')
    for J in un:
        if not any(f.dominates(x, J) for x in out): ctx.bad('unlinked', J, 'a thread is unregistered while its mutator may still be on the list')
        else: ctx.ok('threads unregistered', J)
    forget = [J for J in S if J.field() == 'gc_mutator.roots' and is_arg(f, place(f, J.ptr())[0], 0) and isnull(J.ops[0])]
    if avoid(forget): ctx.bad('unlinked', end, 'the roots of a mutator that has been removed may still be looked at when something is left that refers to it')
    else:
        ctx.ok('steps of removing a mutator', forget[0])
        if un and not any(f.dominates(J, U) for J in forget for U in un): ctx.bad('unlinked', forget[0], 'a mutator is used after its thread has been unregistered')
    for J in out + back:
        if not any(name(x) == 'pthread_mutex_lock' and f.field_of(x.ops[0]) == 'gc_heap.lock' and f.dominates(x, J) for x in f.all()): ctx.bad('unlinked', J, 'the list of mutators is changed without its lock')

# ---- allocation
class Where(Automaton):
    """objects of one kind: which free lists and which allocation functions"""
    descend = False
    def __init__(self, mod, f, pointers): super().__init__(mod); self.f = f; self.P = pointers; self.hits = {}
    def relevance_key(self): return ('bdwwhere', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def watch_key(self): return 'bdwwhere'
    def watch(self, I): return [I.ops[1]] if name(I) == 'GC_generic_malloc_many' else ()
    def listof(self, p):
        f = self.f; b, o, var = place(f, p)
        if b[0] == 'v' and f.insts[b[1]].op == 'phi': return {x for v, _ in f.insts[b[1]].ops for x in [self.listof(v)] if isinstance(x, str)} or None
        if not is_arg(f, b, 0) or not var: return None
        n, base, cnt = member(self.mod, o)
        return n if n in LISTS else None
    def step(self, st, I):
        n = name(I)
        if I.op in ('load', 'store'):
            k = self.listof(I.ptr())
            if isinstance(k, str):
                self.hits.setdefault('free lists used', {})[I.id] = I
                if (k == LISTS[0]) != self.P:
                    self.error('list', I, 'an object %s references is taken from the free lists of objects %s' % (('with', 'without any') if self.P else ('without', 'with references')))
        if n == 'GC_generic_malloc_many':
            self.hits.setdefault('allocations', {})[I.id] = I
            v = self.value(I.ops[1])
            if v is None: raise AnalysisError('kind of the objects that fill a free list not found')
            if v != {int(self.P)}: self.error('kind', I, 'a free list for objects %s references is filled with objects of the other kind' % ('with' if self.P else 'without'))
            k = self.listof(I.ops[2])
            if isinstance(k, str) and (k == LISTS[0]) != self.P: self.error('list', I, 'objects are put on the free lists of the other kind')
        elif n and n.startswith('GC_') and 'malloc' in n:
            self.hits.setdefault('allocations', {})[I.id] = I
            if ('atomic' in n) == self.P: self.error('kind', I, 'the references in an object are not seen by the collector' if self.P else 'an object without references is scanned for them')
        return None

@rule('bdw-allocation', 'C24', configs=is_bdw, load=dict(keep=KEEP), debug=False, limits=())
def bdw_allocation(ctx, m, cfg):
    n = 0
    ks = [('GC_ALLOCATION_TAGGED', True), ('GC_ALLOCATION_UNTAGGED_CONSERVATIVE', True), ('GC_ALLOCATION_TAGGED_POINTERLESS', False), ('GC_ALLOCATION_UNTAGGED_POINTERLESS', False)]
    for e, ptrs in ks:
        v = m.enum_value(e)
        if v is None: raise AnalysisError('%s not found' % e)
        f = m.fn('gc_allocate_slow')
        if f is None: raise AnalysisError('gc_allocate_slow not found')
        A = Where(m, f, ptrs); A.run(f.name, 0, {2: v}); q.tally(ctx, A)
        n += sum(len(d) for d in A.hits.values())
        g = m.fn('v_api_allocate_' + e[len('GC_ALLOCATION_'):].lower())
        if g is not None:
            A = Where(m, g, ptrs); A.run(g.name, 0); q.tally(ctx, A)
            n += sum(len(d) for d in A.hits.values())
    ctx.need('places that allocate', n, 8)
