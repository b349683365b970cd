"""Large objects: C21 (tracked from allocation until freed exactly once)."""
from core import rule, own, is_gen, AnalysisError
import q
from q import Automaton, const_of, lock_event
from rules.roots import minor_value, minor_flag

LL = 'large_object_space.lock'
S = 'large_object_space.'
OPS = ('add', 'remove', 'clear', 'lookup', 'contains')
KEEP = tuple('address_%s_%s' % (k, o) for k in ('map', 'set') for o in OPS) + tuple('large_object_tree_' + o for o in ('insert', 'remove', 'lookup')) + ('large_object_space_mark',)
LOAD = dict(keep=KEEP)

def container(I):
    """(operation, container field) of a call on one of the space's containers"""
    if not I.is_call(): return None
    n = I.callee_name() or ''
    for p, ops in (('address_map_', OPS), ('address_set_', OPS), ('large_object_tree_', ('insert', 'remove', 'lookup'))):
        if n.startswith(p) and n[len(p):] in ops:
            fn = I.fn; i = 0
            if p == 'large_object_tree_' and 'splay' in n: i = 1
            for k in range(len(I.ops)):
                r = fn.resolve_ptr(I.ops[k])
                if not r: continue
                for x in I.mod.member_chain(r[1], r[2]) or ():
                    if x in (S + 'object_map', S + 'nursery', S + 'remembered_edges', S + 'object_tree'): return n[len(p):], x[len(S):]
            # sret: the container comes second
            for k in range(len(I.ops)):
                e = fn.expr(I.ops[k], 2)
                if e[0] == 'addr' and str(e[1]).startswith(S): return n[len(p):], e[1][len(S):].split('.')[0]
            return n[len(p):], None
    return None

def heap_node(I):
    """the accessed node is not a local structure"""
    return not rooted(I, 'alloca')

def rooted(I, what):
    fn = I.fn; wl = [I.fn.root_of(I.ptr())]; seen = set()
    while wl:
        v = wl.pop()
        if v[0] != 'v' or v[1] in seen: continue
        seen.add(v[1]); J = fn.insts[v[1]]
        if J.op == 'alloca' and what == 'alloca': return True
        if J.is_call() and what in str(J.callee_name()): return True
        if J.op in ('phi', 'select'):
            wl += [fn.root_of(o[0] if J.op == 'phi' else o) for o in (J.ops if J.op == 'phi' else J.ops[1:])]
    return False

def from_field(fn, v, field, depth=6):
    """v is loaded from field (directly, or as a select / phi of such)"""
    L = q.value_loads(fn, v, depth)
    return bool(L) and any(J.field() == field for J in L)

DEAD = 'large_object_dead_data.'; LIVE = 'large_object_live_data.'; ISL = 'large_object_data.is_live'
KS = 'large_object.size'; KA = 'large_object.addr'; BK = 'large_object_freelist.buckets'

def linked_next(fn, v):
    return from_field(fn, v, DEAD + 'next')

class LO(Automaton):
    descend = False
    """state: frozenset of facts since the space was locked (or since the node changed)"""
    def __init__(self, mod, gen):
        super().__init__(mod); self.gen = gen; self.hits = {}
    def relevance_key(self): return 'lo'
    def relevant(self, I):
        if lock_event(I) and lock_event(I)[1] == LL: return True
        if I.is_call(): return container(I) is not None or I.callee_name() in ('gc_platform_acquire_memory', 'gc_platform_release_memory') and self.near(I) or 'memset' in str(I.callee_name()) and self.near(I)
        return I.is_mem() and self.ev(I) is not None
    def near(self, I):
        c = self.mod.__dict__.setdefault('_lonear', {}); f = I.fn.name
        if f not in c: c[f] = any(J.is_mem() and (J.field() or '').startswith(DEAD) for J in I.fn.all())
        return c[f] and all((J.field() or 'large_object').startswith('large_object') for J in q.value_loads(I.fn, I.ops[0]))
    def ev(self, I):
        c = self.mod.__dict__.setdefault('_loev', {}); k = (I.fn.name, I.id)
        if k not in c: c[k] = self.ev0(I)
        return c[k]
    def ev0(self, I):
        fn = I.fn; f = I.field()
        if I.op == 'load':
            if f == ISL: return 'node'
            if f == LIVE + 'mark': return 'readmark'
            return None
        if I.op not in ('store', 'atomicrmw'): return None
        c = const_of(I.ops[0]) if I.op == 'store' else None
        if f == ISL and heap_node(I):
            if c == 0: return 'dead'
            if c is not None: return None if rooted(I, 'large_object_tree_insert') else 'live'
        if f == LIVE + 'mark' and heap_node(I): return 'mark0' if c == 0 else 'mark?'
        if f == LIVE + 'trace' and heap_node(I): return 'trace'
        if f == DEAD + 'age' and heap_node(I):
            if c == 0: return 'age0'
            return 'older'
        if f == DEAD + 'prev' and I.op == 'store':
            if c == 0: return None
            if from_field(fn, I.ops[0], DEAD + 'prev'): return 'relink'
            b = fn.root_of(I.ptr()); J = fn.insts[b[1]] if b[0] == 'v' else None
            return 'headok' if J is not None and J.op == 'load' and J.field() in (BK, DEAD + 'next') and not rooted(I, 'large_object_tree_insert') and from_field(fn, b, DEAD + 'next') | (J.field() == BK) and not self.ownnode(I) else 'prev'
        if f == DEAD + 'next' and I.op == 'store':
            if c == 0: return None
            return 'next' if from_field(fn, I.ops[0], BK) else None
        if I.op == 'store' and f != DEAD + 'prev' and linked_next(fn, I.ops[0]) and I.access_size() == 8:
            p = I.ptr()
            L = q.value_loads(fn, p, 3) if p[0] == 'v' and fn.insts[p[1]].op in ('load', 'phi', 'select') else []
            if L and all(J.field() == DEAD + 'prev' for J in L): return 'unlink'
        if f == BK and I.op == 'store' and c is None and not linked_next(fn, I.ops[0]): return 'bucket'
        if f == KS and heap_node(I) and 'large_object_tree' not in I.src_fn() and 'large_object_node' not in I.src_fn(): return 'shrunk'
        if f == S + 'free_pages': return 'free'
        if f == S + 'total_pages': return 'total'
        return None
    def assume(self, st, I, p, L, R):
        fn = I.fn
        if L[0] != 'v': return None
        lf = lambda v: {J.field() for J in q.value_loads(fn, v, 4)} if v[0] == 'v' else set()
        a = lf(L); b = lf(R)
        s = set(st)
        if LIVE + 'mark' in a | b and S + 'marked' in a | b and p in ('eq', 'ne'):
            s.discard('marked'); s.discard('unmarked'); s.add('unmarked' if p == 'ne' else 'marked')
        elif a == {ISL} and const_of(R) == 0 and p in ('eq', 'ne'):
            s.discard('islive'); s.discard('notlive'); s.add('islive' if p == 'ne' else 'notlive')
        elif (a == {KS} or b == {KS}) and const_of(L) is None and const_of(R) is None:
            if b == {KS} and a != {KS}: p = q.SWAP[p]
            if p in ('uge', 'ugt', 'eq'): s.discard('nofit'); s.add('fits')
            if p == 'ult': s.discard('fits'); s.add('nofit')
            if p == 'ugt': s.add('big')
            if p in ('ule', 'eq'): s.discard('big')
            if 'live' in st and p in ('ule', 'eq', 'ult'): s.add('exact')
        elif self.age(fn, L) and const_of(R) is not None:
            c = const_of(R)
            if p in ('uge', 'ugt', 'sge', 'sgt'): s.discard('young'); s.add('aged' if c + (p in ('ugt', 'sgt')) >= 2 else 'aged1')
            else: s.discard('aged'); s.discard('aged1')
        elif const_of(R) == 0 and p == 'ne' and L[0] == 'v' and fn.insts[L[1]].is_call() and 'acquire_memory' in str(fn.insts[L[1]].callee_name()):
            s.add('gotmem')
        elif const_of(R) == 0 and p == 'eq' and q.strip(fn, L)[0] == 'v' and fn.insts[q.strip(fn, L)[1]].is_call() and container(fn.insts[q.strip(fn, L)[1]]) == ('lookup', 'object_map') and 'islive' in st: s.add('unmarked')   # cannot be: it is in the map
        else: return None
        return [frozenset(s)]
    def age(self, fn, v):
        v = q.strip(fn, v)
        for U in fn.users(v) if v[0] == 'v' else ():
            if U.op == 'store' and U.field() == DEAD + 'age': return True
            if U.op in ('zext', 'trunc', 'and') and any(W.op == 'store' and W.field() == DEAD + 'age' for W in fn.users(['v', U.id])): return True
        return any(J.field() == DEAD + 'age' for J in q.value_loads(fn, v, 4))
    def ownnode(self, I):
        """the store's node is the one that becomes head of its bucket"""
        fn = I.fn; b = fn.root_of(I.ptr())
        return any(W.op == 'store' and W.field() == BK and tuple(fn.root_of(W.ops[0])[:2]) == tuple(b[:2]) for W in fn.all())
    def hit(self, k, I): self.hits.setdefault(k, {})[(I.fn.name, I.id)] = I
    def want(self, st, need, I, kind, msg):
        miss = [n for n in need if n not in st]
        if miss: self.error(kind, I, msg % ', '.join(WORDS.get(x, x) for x in miss))
    def retired(self, st, I):
        """a dead node must be on the quarantine list, completely"""
        if 'dead' in st: self.want(st, ['age0', 'next', 'bucket', 'prev', 'headok'], I, 'half-dead', 'a dead large object is not put into quarantine completely: %s')
    def gone(self, st, I):
        r = {'release', 'unlink', 'map-remove', 'tree-remove'}
        if 'older' in st or 'release' in st:
            if st & (r - {'unlink'}) and not r <= st:
                self.error('half-freed', I, 'a large object is freed without %s' % ', '.join(WORDS[x] for x in sorted(r - st)))
    def step(self, st, I):
        ev = lock_event(I)
        if ev and ev[1] == LL:
            if ev[0] == 'acq': return [frozenset()]
            if ev[0] == 'rel':
                self.retired(st, I); self.gone(st, I)
                if self.gen and 'swept' in st: self.error('nursery', I, 'large objects stay in the nursery after a collection, although they are then old or dead')
                if 'live' in st:
                    self.hit('reused large objects', I)
                    self.want(st, ['mark0', 'trace', 'unlink', 'map-keep', 'free'] + (['nursery'] if self.gen else []) , I, 'reuse', 'a large object is reused without: %s')
                    if 'nofit' in st or not ('fits' in st): self.error('too-small', I, 'a large object is reused without having been found large enough')
                    if 'relinked' not in st: self.error('reuse', I, 'a large object is reused without its neighbour in quarantine being linked past it')
                    if 'big' in st: self.want(st, ['shrunk', 'tree-insert', 'map', 'dead', 'bucket'], I, 'tail', 'the tail of a reused large object is lost: %s')
                elif 'tree-insert' in st and 'gotmem' in st:
                    self.hit('fresh large objects', I)
                    self.want(st, ['map', 'total'] + (['nursery'] if self.gen else []), I, 'fresh', 'a new large object is not recorded: %s')
                elif 'gotmem' in st: self.error('fresh', I, 'a new large object is not recorded: large_object_tree_insert')
                return [frozenset()]
            return None
        if I.is_call():
            c = container(I); n = I.callee_name() or ''
            if c:
                op, k = c
                if op == 'add' and k == 'nursery': return [st | {'nursery'}]
                if op == 'add' and k == 'object_map': return [st | {'map'}]
                if op == 'insert' and k == 'object_tree':
                    return [st | {'tree-insert'}]
                if op == 'clear' and k == 'nursery': return [(st | {'nursery-cleared'}) - {'swept'}]
                if op == 'remove' and (k == 'object_tree' or k is None and 'tree' in n): return [st | {'tree-remove'}]
                if op == 'remove' and k == 'object_map': return [st | {'map-remove'}]
                return None
            if 'memset' in n:
                return [st | {'age0'}] if 'dead' in st and const_of(I.ops[1]) == 0 and I.fn.resolve_ptr(I.ops[0]) and 'large_object' in str(I.fn.resolve_ptr(I.ops[0])[1]) else None
            if n == 'gc_platform_release_memory' and self.near(I):
                self.hit('released large objects', I)
                if 'aged' not in st: self.error('early-free', I, 'a large object is returned to the system before it spent two periods in quarantine')
                return [st | {'release'}]
            return None
        e = self.ev(I) if I.is_mem() else None
        if e is None: return None
        if e == 'node':
            self.retired(st, I)
            return [st - {'islive', 'notlive', 'marked', 'unmarked', 'dead', 'age0', 'next', 'prev', 'bucket', 'headok'}] if 'live' not in st else None
        if e == 'readmark': return [st - {'marked', 'unmarked'}]
        if e == 'dead':
            if not rooted(I, 'large_object_tree_insert'):
                self.hit('large objects declared dead', I)
                if 'unmarked' not in st: self.error('live-freed', I, 'a large object is put on the free list without having been found unmarked')
                if 'islive' not in st: self.error('freed-twice', I, 'a large object is put on the free list without having been found live')
            if not rooted(I, 'large_object_tree_insert'): st = st | {'swept'}
            return [(st - {'age0', 'next', 'prev', 'bucket', 'islive', 'unmarked', 'headok'}) | {'dead'}]
        if e == 'live':
            s = set(st) - {'mark0', 'trace', 'nursery', 'map', 'free', 'big', 'shrunk', 'tree-insert'} | {'live', 'map-keep'}
            return [frozenset(s)]
        if e == 'mark?': return [st - {'mark0'}]
        if e == 'older':
            self.gone(st, I)
            d = q.lin0(I.fn, I.ops[0]) if I.op == 'store' else None
            return [st - {'aged', 'aged1', 'release', 'unlink', 'map-remove', 'tree-remove', 'relink', 'relinked'} | {'older'}]
        if e == 'relink': return [st | {'relinked'}]
        if e == 'unlink': return [st | {'unlink'}]
        return [st | {e}]
    def edge(self, st, T, s):
        # no successor in the quarantine list: nothing to link past
        fn = T.fn
        for p, L, R in q.edge_atoms(fn, T, s):
            if p == 'eq' and const_of(R) == 0 and L[0] == 'v' and fn.insts[L[1]].op == 'load' and fn.insts[L[1]].field() in (DEAD + 'next', BK):
                if 'dead' in st: return [st | {'headok'}]
                if fn.insts[L[1]].field() != BK: return [st | {'relinked'}]
        return None

WORDS = {'mark0': 'resetting its mark', 'trace': 'recording its kind', 'unlink': 'unlinking it from quarantine', 'nursery': 'adding it to the nursery', 'free': 'counting its pages',
         'map': 'adding it to the object map', 'total': 'counting its pages', 'age0': 'resetting its age', 'next': 'linking to the next', 'bucket': 'making it the head of its bucket',
         'prev': 'linking back', 'headok': 'linking the former head back to it', 'release': 'returning its memory', 'map-remove': 'removing it from the object map', 'tree-remove': 'removing it from the object tree',
         'shrunk': 'shortening the object', 'tree-insert': 'adding the tail to the object tree', 'dead': 'marking the tail as dead'}

def guarded(fn, b, test, depth=8):
    """block b is only reached through a branch one of whose implied comparisons satisfies test(pred, L, R)"""
    for T, s in fn.all_control_deps(b):
        if any(test(p, L, R) for p, L, R in q.edge_atoms(fn, T, s)): return True
    return False

def branch_atoms(fn, b):
    """comparisons that hold whenever b is reached (from dominating single-entry edges)"""
    out = []; d = fn.dom().get(b, ())
    for x in d:
        T = fn.terminator(x)
        if T.op not in ('br', 'switch') or not T.ops: continue
        for s in set(fn.succ[x]):
            if s != b and not fn.block_dominates(s, b): continue
            if [p for p in fn.pred[s] if p != x and not fn.block_dominates(s, p)]: continue
            if fn.succ[x].count(s) > 1: continue
            out += q.edge_atoms(fn, T, s)
    return out

def alternatives(fn, v, b=None, depth=6):
    """[(value, atoms under which it is chosen)] through phis and selects"""
    if v[0] != 'v' or depth == 0: return [(v, [])]
    I = fn.insts[v[1]]
    if I.op == 'select':
        from ts import atoms
        out = []
        for o, t in ((I.ops[1], True), (I.ops[2], False)):
            out += [(x, at + atoms(fn, I.ops[0], t)) for x, at in alternatives(fn, o, None, depth - 1)]
        return out
    if I.op == 'phi':
        out = []
        for o, pb in I.ops:
            at = branch_atoms(fn, pb)
            T = fn.terminator(pb)
            if T.op == 'br' and T.ops and fn.succ[pb].count(I.block) == 1: at = at + q.edge_atoms(fn, T, I.block)
            out += [(x, at + y) for x, y in alternatives(fn, o, None, depth - 1)]
        return out
    return [(v, [])]

def rooted_arg(I):
    r = I.fn.root_of(I.ptr())
    return r[0] == 'a'

def swept_maps(fn, node_ptr):
    """maps whose entries node_ptr is taken from: [(map, atoms)]"""
    out = []; seen = set(); wl = [node_ptr]
    while wl:
        v = wl.pop()
        if v[0] != 'v' or v[1] in seen: continue
        seen.add(v[1]); J = fn.insts[v[1]]
        if J.op == 'load' and (J.field() == 'hash_map.data' or J.field() is None and J.ptr()[0] == 'v' and fn.insts[J.ptr()[1]].op in ('phi', 'select')):
            p = J.ptr()
            for x, at in alternatives(fn, p if p[0] != 'v' or fn.insts[p[1]].op in ('phi', 'select') else fn.root_of(p) if fn.root_of(p)[0] == 'v' and fn.insts[fn.root_of(p)[1]].op in ('phi', 'select') else p):
                r = fn.resolve_ptr(x)
                for c in (fn.mod.member_chain(r[1], r[2]) or ()) if r else ():
                    if c in (S + 'object_map', S + 'nursery'): out.append((c[len(S):], at, J))
            if J.field(): continue
        if J.is_call() or J.op == 'alloca': continue
        for o in J.ops:
            if J.op == 'phi': o = o[0]
            if isinstance(o, (list, tuple)) and o and o[0] == 'v': wl.append(list(o))
    return out

def minor_atom(fn, at):
    """True: minor, False: not minor, None: unknown"""
    MINOR = fn.mod.enum_value('GC_COLLECTION_MINOR')
    for p, L, R in at:
        if p not in ('eq', 'ne') or const_of(R) is None: continue
        if L[0] == 'v' and const_of(R) == MINOR and any(C.op == 'icmp' and C.raw['pred'] in ('eq', 'ne') and const_of(C.ops[1]) == MINOR and minor_flag(fn, ['v', C.id]) == (C.raw['pred'] == 'eq') for C in fn.users(L)): return p == 'eq'
        if L[0] == 'v' and fn.insts[L[1]].op == 'load' and fn.insts[L[1]].field() == 'gc_heap.gc_kind' or L[0] == 'v' and minor_value(fn, L) or L[0] == 'a':
            c = const_of(R); J = fn.insts[L[1]] if L[0] == 'v' else None
            if L[0] == 'a' or J is not None and J.field() == 'gc_heap.is_minor_collection' or c == 0: return (p == 'ne') == (c == 0)
            if c == MINOR: return p == 'eq'
    return None

@rule('large-object-marks', 'C21', configs=own, load=LOAD, limits=(200,))
def large_object_marks(ctx, m, cfg):
    gen = is_gen(cfg); n = 0; swept = 0
    for f in m.defined():
        for I in f.all():
            if I.op in ('cmpxchg', 'atomicrmw', 'store') and I.field() == LIVE + 'mark':
                new = I.ops[2] if I.op == 'cmpxchg' and len(I.ops) > 2 else I.ops[1] if I.op == 'cmpxchg' else I.ops[0]
                if I.op == 'store':
                    if const_of(new) is not None and const_of(new) != 0: ctx.bad('mark-value', I, 'a large object is marked with a constant, though the meaning of the mark alternates')
                    if const_of(new) is not None: continue
                if not from_field(f, new, S + 'marked'): ctx.bad('mark-value', I, 'a large object is marked with something else than the mark of this collection')
                n += 1; ctx.ok('marks of large objects', I)
                if I.op == 'store': ctx.bad('mark-race', I, 'several tracers may mark the same large object at once, and each would trace it')
                elif I.op == 'cmpxchg':
                    MarkPath(m, ctx, I).go()
            if I.op == 'icmp':
                a, b = I.ops
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'v' and {J.field() for J in q.value_loads(f, x, 3)} == {LIVE + 'mark'}:
                        if not from_field(f, y, S + 'marked'): ctx.bad('mark-compare', I, 'the mark of a large object is compared with something else than the mark of this collection')
                        ctx.ok('comparisons of marks', I)
            if I.op == 'store' and I.field() == ISL and const_of(I.ops[0]) == 0 and heap_node(I) and not rooted(I, 'large_object_tree_insert'):
                M = swept_maps(f, f.root_of(I.ptr()))
                if not M and not gen and rooted_arg(I): swept += 1
                if not M: continue
                swept += 1
                if not gen:
                    if {x for x, _, _ in M} != {'object_map'}: ctx.bad('swept', I, 'not all large objects are swept')
                    continue
                for name, at, J in M:
                    mi = minor_atom(f, at)
                    if mi is None: mi = minor_atom(f, branch_atoms(f, J.block))
                    ctx.ok('maps swept', I)
                    if name == 'nursery' and mi is not True: ctx.bad('swept', I, 'only young large objects are swept although the collection may be a major one')
                    if name == 'object_map' and mi is not False: ctx.bad('swept', I, 'old large objects are swept in a minor collection, which does not mark them')
            if I.is_call() and I.callee_name() == 'gc_platform_release_memory' and from_field(f, I.ops[0], KA):
                for o, w in ((I.ops[0], KA), (I.ops[1], KS)):
                    L = q.value_loads(f, o)
                    if not L or any(J.field() != w for J in L): ctx.bad('release-range', I, 'what is returned to the system is not exactly the dead object')
                    for J in L:
                        for T in f.all():
                            if T.is_call() and container(T) and container(T)[0] == 'remove' and 'tree' in T.callee_name() and f.dominates(T, J): ctx.bad('use-after-free', J, 'a large object\'s node is read after it was removed from the tree, which frees it')
                ctx.ok('ranges released', I)
            if I.op == 'load' and I.field() == KA and rooted(I, 'large_object_tree_lookup'):
                at = branch_atoms(f, I.block)
                live = any(p == 'ne' and const_of(R) == 0 and L[0] == 'v' and {J.field() for J in q.value_loads(f, L, 3)} == {ISL} for p, L, R in at) or SelGuard(f, I)
                ctx.ok('objects looked up by interior address', I)
                if not live and 'process_quarantine' not in I.src_fn(): ctx.bad('dead-object', I, 'a large object found by address is used without checking that it is not dead')
            if I.op == 'store' and I.field() in (S + 'free_pages', S + 'total_pages') and const_of(I.ops[0]) is None:
                l, c = q.lin0(f, I.ops[0]); own_ = I.field(); other = [k for k in l if k not in (own_,)]
                ctx.ok('page counts', I)
                if own_ == S + 'total_pages':
                    if l.get(own_) != 1 or any(l[k] < 0 for k in other) or not other: ctx.bad('pages', I, 'total_pages is not increased by the pages obtained')
                elif own_ in l:
                    if l[own_] != 1 or any(l[k] > 0 for k in other) or not other: ctx.bad('pages', I, 'free_pages is not decreased by the pages taken')
                elif l != {S + 'total_pages': 1, S + 'live_pages_at_last_collection': -1} or c: ctx.bad('pages', I, 'free_pages is not what remains of total_pages after the live ones')
            if I.is_call() and container(I) == ('insert', 'object_tree'):
                vals = [o for o in I.ops if isinstance(o, (list, tuple)) and o and o[0] in ('v', 'a', 'c')]
                L = [q.lin(f, o, False) for o in vals[1:3]]
                if len(L) == 2 and L[0][0].get(KA) == 1:
                    x = {k: v for k, v in L[0][0].items() if k != KA}; c = L[0][1]
                    y = {k: -v for k, v in L[1][0].items() if k != KS}; d = -L[1][1]
                    ctx.ok('tails split off', I)
                    if L[1][0].get(KS) != 1 or x != y or c != d: ctx.bad('tail-range', I, 'the tail split off a large object is not what remains after the part used')
                    for W in f.all():
                        if W.op == 'store' and W.field() == KS and heap_node(W) and not rooted(W, 'large_object_tree_insert'):
                            if q.lin(f, W.ops[0], False) != (x, c): ctx.bad('tail-range', W, 'the object is not shortened to where its tail starts')
                            if any(J.field() == KS and f.dominates(W, J) for J in q.value_loads(f, vals[2])): ctx.bad('tail-range', I, 'the size of the tail is computed from the size already shortened')
    ctx.need('points where large objects are marked', n)
    if not any('points where large objects are swept' in k for k in ctx.counts): ctx.need('points where large objects are swept', swept)

def SelGuard(f, I):
    """the loaded address is used only in a select or phi chosen when the object is live"""
    def ok(v, seen):
        us = f.users(v)
        if not us: return True
        for U in us:
            if U.id in seen: continue
            if U.op in ('select', 'phi'):
                for x, at in alternatives(f, ['v', U.id]):
                    if tuple(x[:2]) == tuple(v[:2]) and not any(p == 'ne' and const_of(R) == 0 and L[0] == 'v' and {J.field() for J in q.value_loads(f, L, 3)} == {ISL} for p, L, R in at): return False
            elif U.op in ('zext', 'inttoptr', 'ptrtoint', 'trunc'):
                if not ok(['v', U.id], seen | {U.id}): return False
            else: return False
        return True
    return ok(['v', I.id], set())

class MarkPath(Automaton):
    """one marking function: the object counts as newly marked exactly if this tracer changed its mark"""
    descend = False
    def __init__(self, mod, ctx, C): super().__init__(mod); self.C = C; self.ctx = ctx; self.added = False
    def relevance_key(self): return ('lomark', self.C.fn.name, self.C.id)
    def relevant(self, I): return I.fn is self.C.fn and (I is self.C or I.op in ('ret', 'atomicrmw'))
    def go(self):
        f = self.C.fn; self.run(f.name, (False, None, False))
        q.report(self.ctx, self)
        if not self.added and 'live_pages' not in str(self.ctx.counts): self.ctx.bad('live-pages', self.C, 'the pages of a live large object are not counted')
        else: self.ctx.ok('points where live pages are counted', self.C)
    def assume(self, st, I, p, L, R):
        fn = I.fn; t, won, add = st
        lf = lambda v: {J.field() for J in q.value_loads(fn, v, 5)} if v[0] == 'v' else set()
        if L[0] == 'v' and fn.insts[L[1]].op == 'extractvalue' and fn.insts[L[1]].ops[0][1] == self.C.id and const_of(R) in (0, 1):
            return [(t, (p == 'ne') == (const_of(R) == 0), add)]
        if p in ('eq', 'ne') and (S + 'marked' in lf(L) | lf(R)) and LIVE + 'mark' in lf(L) | lf(R): return [(p == 'ne', won, add)]
        return None
    def edge(self, st, T, s):
        fn = T.fn; t, won, add = st
        if T.op == 'br' and T.ops and T.ops[0][0] == 'v':
            v = T.ops[0]; J = fn.insts[v[1]]; n = False
            while J.op == 'xor' and J.ty == 'i1' and const_of(J.ops[1]) is not None and J.ops[0][0] == 'v': J = fn.insts[J.ops[0][1]]; n = not n
            if J.op == 'extractvalue' and J.ops[0][1] == self.C.id and J.ty == 'i1': return [(t, (T.raw['succ'][0] == s) != n, add)]
        return None
    def step(self, st, I):
        t, won, add = st
        if I is self.C:
            if t is not True: self.error('mark-twice', I, 'a large object that is already marked may be marked, and so traced, again')
            return [(False, None, add)]
        if I.op == 'atomicrmw' and I.field() == S + 'live_pages_at_last_collection':
            self.added = True
            if won is not True: self.error('live-pages', I, 'live pages are counted by a tracer that did not mark the object')
            return [(t, won, True)]
        return None
    def ret(self, st, I):
        if not I.ops or I.fn.name != 'large_object_space_mark': return None
        V = self.value(I.ops[0])
        if won_(st) is True and not st[2]: self.error('live-pages', I, 'the pages of a live large object are not counted')
        if V is None: return None
        if won_(st) is True and 0 in V: self.error('mark-result', I, 'a large object that was just marked is reported as not new and will not be traced')
        if won_(st) is not True and any(V - {0}): self.error('mark-result', I, 'a large object is reported as newly marked by a tracer that did not mark it')
        return None
def won_(st): return st[1]

@rule('large-objects', 'C21', 'C20', configs=own, load=LOAD, limits=(200,))
def large_objects(ctx, m, cfg):
    A = LO(m, is_gen(cfg))
    # the life cycle of a large object is in few functions; each is analysed by itself, from the point where it takes the space's lock
    for f in m.defined():
        if any(I.is_mem() and A.ev(I) in ('dead', 'live', 'bucket', 'older') or I.is_call() and I.callee_name() == 'gc_platform_release_memory' and A.near(I) for I in f.all()): A.run(f.name, frozenset())
    q.report(ctx, A)
    for k, d in A.hits.items():
        for I in d.values(): ctx.ok(k, I)
    for k in ('reused large objects', 'fresh large objects', 'released large objects', 'large objects declared dead'):
        if not A.hits.get(k): ctx.bad('missing', 'large-object-space.h', 'no path on which there are ' + k)
