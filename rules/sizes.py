"""C16: the size of the heap.  What is taken from a space or given to it is counted, once, where it happens; the size that is
recorded changes only with it, only if the sizing policy asks for it, and is announced; pages of large objects are charged before they are used."""
from core import rule, is_mmc, is_pcc, is_semi, is_gen, AnalysisError
from ts import Automaton, key_of
import q
from q import const_of, strip
from rules.blocks import Blocks, POPS, PUSHES, size_of, inst, name

COUNTER = ('nofl_space.pending_unavailable_bytes', 'copy_space.bytes_to_page_out')
SIZE, PAGES, STOLEN, NURSERY = 'gc_heap.size', 'gc_heap.large_object_pages', 'semi_space.stolen_pages', 'gc_heap.nursery_size'
LIVE = 'large_object_space.live_pages_at_last_collection'
FIXED, GROWABLE, ADAPTIVE = 0, 1, 2

def form(f, v): 
    a, c = q.lin(f, v, False)
    return frozenset(a.items()), c
def minus(x, y):
    d = dict(x[0])
    for k, n in y[0]: d[k] = d.get(k, 0) - n
    return frozenset((k, n) for k, n in d.items() if n), x[1] - y[1]
def neg(x): return frozenset((k, -n) for k, n in x[0]), -x[1]
def coef(x, F): return dict(x[0]).get(F, 0)

def summaries(m):
    """functions that add an argument to the count, or subtract it: {name: [(sign, argument)]}"""
    out = {}
    while True:
        n = sum(map(len, out.values()))
        for f in m.defined():
            for I in f.all():
                for s, o in changes(m, I, out):
                    o = strip(f, o)
                    if o[0] == "a":
                        if (s, o[1]) not in out.get(f.name, []): out.setdefault(f.name, []).append((s, o[1]))
        if n == sum(map(len, out.values())): return out

def changes(m, I, summ):
    """[(sign, operand)]: what is added to the number of bytes that a space has to give up"""
    if I.op == 'atomicrmw' and I.field() in COUNTER and I.raw['rmw'] in ('add', 'sub'):
        return [(1 if I.raw['rmw'] == 'add' else -1, I.ops[1])]
    n = name(I)
    if n in summ: return [(s, I.ops[k]) for s, k in summ[n]]
    return []

# ---- every block once
class Accounts(Blocks):
    """the balance of blocks taken out of use against what the space had to give up, in blocks"""
    def relevant(self, I): return super().relevant(I) or I.op == 'atomicrmw' and I.field() in COUNTER
    def relevance_key(self): return 'accounts'
    def error(self, kind, I, msg):
        if kind.startswith('acct'): super().error(kind, I, msg)
    def bal(self, st): return dict(st[1]).get('acct', 0)
    def add(self, st, I, n):
        b = self.bal(st) + n
        if abs(b) > 1:
            self.error('acct', I, 'blocks are taken out of use, or put to use again, without being counted once each'); b = 0
        return (st[0], frozenset([x for x in st[1] if x[0] != 'acct'] + ([('acct', b)] if b else [])))
    def plain(self, st): return (st[0], frozenset(x for x in st[1] if x[0] != 'acct'))
    def back(self, st, b): return (st[0], st[1] | {('acct', b)}) if b else st
    def step(self, st, I):
        self.cf = self.facts()
        if I.op == 'atomicrmw' and I.field() in COUNTER:
            c = const_of(I.ops[1])
            if not c: return None
            self.hits.setdefault('count', {})[(I.fn.name, I.id)] = I
            if c != self.B['SIZE']:
                self.error('acct-amount', I, 'a block is counted as %d bytes, and has %d' % (c, self.B['SIZE'])); return None
            return [self.add(st, I, 1 if I.raw['rmw'] == 'add' else -1)]
        b = self.bal(st); n = 0; p = self.plain(st)
        if name(I) in PUSHES:
            w, key = self.where(I.fn, I.ops[1])
            t = self.toks(st).get(key) if w == 'pop' else None
            src = t[2] if t else None
            dest = {x[0] for x in self.lists_of(I.fn, I.ops[0])}
            if src is not None and src != '?' and len(dest) == 1:
                out = 'paged_out' in dest
                if out and src != 'paged_out': n = 1
                if not out and src == 'paged_out': n = -1
                if n: self.hits.setdefault('moved', {})[(I.fn.name, I.id)] = I
        r = super().step(p, I)
        outs = [p] if r is None else r
        outs = [self.back(o, b) for o in outs]
        if n: outs = [self.add(o, I, n) for o in outs]
        return outs if r is not None or n else None
    def assume(self, st, I, p, L, R):
        r = super().assume(self.plain(st), I, p, L, R)
        return None if r is None else [self.back(o, self.bal(st)) for o in r]
    def enter(self, st, f, s): return self.back(super().enter(self.plain(st), f, s), self.bal(st))
    def map_in(self, st, I, t): return super().map_in(self.plain(st), I, t)
    def map_out(self, a, o, I, t): return self.back(super().map_out(self.plain(a), self.plain(o), I, t), self.bal(a))
    def ret(self, st, I):
        b = self.bal(st)
        if b > 0: self.error('acct', I, 'a block is taken out of use and not counted as given back')
        if b < 0: self.error('acct', I, 'a block is counted as given back that is still in use')
        return super().ret(self.plain(st), I)

@rule('block-accounts', 'C16', configs=lambda c: is_mmc(c) or is_pcc(c), load=dict(keep=POPS + PUSHES), limits=())
def block_accounts(ctx, m, cfg):
    if is_mmc(cfg):
        B = {n: m.enum_value('NOFL_BLOCK_' + n) for n in ('UNAVAILABLE', 'ZERO', 'PAGED_OUT')}
        if None in B.values(): raise AnalysisError('flags of blocks not found')
    else: B = {}
    B['QUEUE'] = 4; B['SIZE'] = size_of(m, 'nofl_block' if is_mmc(cfg) else 'copy_space_block_payload') or 0
    if not B['SIZE']: raise AnalysisError('size of blocks not found')
    n = dict(count=0, moved=0)
    for f in m.defined():
        if f.name in POPS + PUSHES: continue
        if not any(name(I) in POPS + PUSHES or I.op == 'atomicrmw' and I.field() in COUNTER for I in f.all()): continue
        A = Accounts(m, cfg, B); A.descend = True
        A.run(f.name, (frozenset(), frozenset([('S', 'unknown')])))
        q.report(ctx, A)
        for k, v in A.hits.items():
            for (fn, _), I in v.items():
                if fn == f.name and k in n: n[k] += 1; ctx.ok({'count': 'blocks counted', 'moved': 'blocks taken out of use or put to use'}[k], I)
    for k, v in n.items(): ctx.need('block accounts: ' + k, v, 1)

# ---- the recorded size
class Resize(Automaton):
    """state: (adjustments, size still to be announced, what is known of size - x: {(form, relation)})"""
    def __init__(self, mod, field, event, space, summ):
        super().__init__(mod); self.F = field; self.ev = event; self.space = space; self.summ = summ; self.hits = {}; self.descend = False
    def step(self, st, I):
        f = I.fn; adj, owe, ords, oth = st
        ch = changes(self.mod, I, self.summ)
        if ch and self.space is not None:
            p = I.ptr() if I.op == 'atomicrmw' else I.ops[0]
            if ('gc_heap.new_space' in f.fields_of(p)) != self.space: ch = []
        for s, o in ch:
            A = form(f, o); k = coef(A, self.F)
            if not k or len(A[0]) < 2:
                if const_of(o) is None and self.own(f, o): oth = oth | {A if s > 0 else neg(A)}
                continue
            self.hits[(f.name, I.id)] = I
            if k != s: self.error('resize-sign', I, 'the space is made smaller when the heap grows, or larger when it shrinks'); continue
            D = A if s > 0 else neg(A)        # what is left of the old size over the new one
            rel = {r for d, r in ords if d == D}
            ok = rel & ({'gt', 'ge'} if s > 0 else {'lt', 'le'})
            if not ok: self.error('resize-order', I, 'the space is made %s without a test that the heap %s' % (('smaller', 'shrinks') if s > 0 else ('larger', 'grows')))
            adj = adj | {D}
        if ch: return [(adj, owe, ords, oth)]
        if I.op == 'store' and I.field() == self.F:
            self.hits[(f.name, I.id)] = I
            V = form(f, I.ops[0]); D = minus((frozenset([(self.F, 1)]), 0), V)
            if owe is not None: self.error('resize-event', I, 'a change of the size is not announced before the next')
            if self.space is not None and D not in adj and D not in oth and not any(d == D and r == 'eq' for d, r in ords):
                self.error('resize-account', I, 'the recorded size changes without the space being made to match')
            return [(frozenset(), V if self.ev and not any(d == D and r == 'eq' for d, r in ords) else None, frozenset(), frozenset())]
        if self.ev and q.event_slot(self.mod, I) == self.ev:
            self.hits[(f.name, I.id)] = I
            V = form(f, I.ops[-1])
            if owe is None: self.error('resize-event', I, 'a change of the size is announced that was not made')
            elif V != owe and V != (frozenset([(self.F, 1)]), 0): self.error('resize-event', I, 'the size that is announced is not the one recorded')
            return [(adj, None, ords, oth)]
        return None
    def own(self, f, o):
        """is o computed from the size?"""
        return any(x.field() == self.F for x in q.value_loads(f, o, 6))
    def assume(self, st, I, p, L, R):
        f = I.fn; adj, owe, ords, oth = st
        D = minus(form(f, L), form(f, R)); k = coef(D, self.F)
        p = p[1:] if p[0] in 'us' and len(p) == 3 else p
        if k not in (1, -1) or p not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            if owe is not None and p == 'eq' and self.same(f, owe, L, R): return [(adj, None, ords, oth)]
            return None
        if k < 0: D = neg(D); p = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(p, p)
        if owe is not None:
            # semi-space: announced only if the size is not what it was
            if p == 'eq' and D[1] == 0: return [(adj, None, ords, oth)]
            return None
        return [(adj, owe, ords | {(D, p)}, oth)]
    def same(self, f, owe, L, R):
        """do L and R compare the size that was recorded with the old one?"""
        a, b = form(f, L), form(f, R)
        old = [x for x in (a, b) if x == (frozenset([(self.F, 1)]), 0)]
        return owe in (a, b) and bool(old)
    def ret(self, st, I):
        adj, owe, ords, oth = st
        if owe is not None: self.error('resize-event', I, 'a change of the size is not announced')
        if adj: self.error('resize-record', I, 'the space was made to match a size that is not recorded')
        return None

def must(f, b):
    """the edges that are taken on every path to block b"""
    for T, s in f.all_control_deps(b):
        if set(f.pred[s]) == {T.block} and (s == b or f.block_dominates(s, b)): yield T, s

def policy_facts(f, b):
    """the policies under which block b may be reached"""
    pol = {FIXED, GROWABLE, ADAPTIVE}; seen = False
    for T, s in must(f, b):
        for a in q.edge_atoms(f, T, s):
            p, L, R = a
            I = inst(f, strip(f, L))
            if I is None: continue
            fl = set(f.fields_of(I.ptr())) if I.op == 'load' else set()
            if not any(x.endswith('policy') for x in fl | {I.field() or ''} if x) and not (I.op == 'load' and 'gc_heap.sizer' in fl): continue
            seen = True
            if p == 'in': pol &= set(R)
            elif const_of(R) is None: continue
            elif p == 'eq': pol &= {const_of(R)}
            elif p == 'ne': pol -= {const_of(R)}
            elif p in ('ugt', 'sgt'): pol = {x for x in pol if x > const_of(R)}
            elif p in ('uge', 'sge'): pol = {x for x in pol if x >= const_of(R)}
    return pol if seen else None

def grows(f, b):
    """is block b reached only if something is larger than the size of the heap?"""
    for T, s in must(f, b):
        for p, L, R in q.edge_atoms(f, T, s):
            if p == 'in': continue
            D = minus(form(f, L), form(f, R)); k = coef(D, SIZE)
            p = p[1:] if p[0] in 'us' and len(p) == 3 else p
            if k == 1 and p in ('lt',) or k == -1 and p in ('gt',): return True
    return False

SPACE = POPS + PUSHES
@rule('heap-size', 'C16', configs=lambda c: is_mmc(c) or is_pcc(c) or is_semi(c), load=dict(keep=POPS + PUSHES), limits=())
def heap_size(ctx, m, cfg):
    summ = summaries(m); n = 0
    init = {f.name for f in m.defined() if f.name in ('gc_init', 'heap_init')}
    for f in m.defined():
        mine = [I for I in f.all() if I.op == 'store' and I.field() == SIZE]
        if f.name in init:
            for I in mine:
                V = form(f, I.ops[0]); ctx.ok('sizes recorded at the start', I)
                if not any(k == 'gc_common_options.heap_size' for k, _ in V[0]) and not any((x.field() or '').endswith('.heap_size') for x in q.value_loads(f, I.ops[0])):
                    ctx.bad('start', I, 'the heap does not start with the size that was asked for')
            continue
        adj = [I for I in f.all() if any(coef(form(f, o), SIZE) and len(form(f, o)[0]) > 1 for _, o in changes(m, I, summ))]
        ev = [I for I in f.all() if q.event_slot(m, I) == 'heap_resized']
        if not mine and not adj and not ev: continue
        A = Resize(m, SIZE, 'heap_resized', None if is_semi(cfg) else False, summ)
        A.run(f.name, (frozenset(), None, frozenset(), frozenset()))
        q.report(ctx, A)
        for I in A.hits.values(): ctx.ok('steps of a change of size', I)
        for I in mine:
            n += 1; ctx.ok('changes of the size', I)
            check_policy(ctx, m, f, I, {f.name})
    ctx.need('changes of the size', n, 1)

def check_policy(ctx, m, f, I, seen, at=None):
    at = at or I
    pol = policy_facts(f, I.block)
    if pol is not None:
        if FIXED in pol: ctx.bad('policy', at, 'the size of a fixed heap changes')
        elif pol == {GROWABLE} and not grows(f, I.block): ctx.bad('grow', at, 'the size of a growable heap changes without a test that it grows')
        return
    up = [(g, J) for g in m.defined() for J in g.all() if name(J) == f.name]
    taken = [(g, J) for g in m.defined() for J in g.all() if J.op == 'store' and J.ops and J.ops[0][0] in ('f', 'g', 'fn', 'global') and f.name in J.ops[0]]
    for g, J in taken:
        p = policy_facts(g, J.block)
        ctx.ok('places where the sizing policy is given the means to resize', J)
        if p is None or p != {ADAPTIVE}: ctx.bad('policy', J, 'a heap whose size is not adaptive may be resized from a thread')
    if taken: return
    if not up: ctx.bad('policy', at, 'the size of the heap changes whatever its sizing policy'); return
    for g, J in up:
        if g.name not in seen: check_policy(ctx, m, g, J, seen | {g.name}, at)

# ---- the nursery
@rule('nursery-size', 'C16', configs=lambda c: is_pcc(c) and is_gen(c), load=dict(keep=POPS + PUSHES), limits=())
def nursery_size(ctx, m, cfg):
    summ = summaries(m); n = 0
    for f in m.defined():
        if f.name in ('gc_init', 'heap_init'): continue
        st = any(I.op == 'store' and I.field() == NURSERY for I in f.all())
        rm = [I for I in f.all() if any(coef(form(f, o), NURSERY) and len(form(f, o)[0]) > 1 for _, o in changes(m, I, summ))]
        if not rm and (not st or len(list(f.all())) < 12): continue       # only records it
        A = Resize(m, NURSERY, None, True, summ)
        A.run(f.name, (frozenset(), None, frozenset(), frozenset()))
        q.report(ctx, A)
        for I in A.hits.values(): n += 1; ctx.ok('steps of a change of the size of the nursery', I)
    ctx.need('changes of the size of the nursery', n, 1)

# ---- pages of large objects
ALLOC = 'large_object_space_alloc'
def pages(f, v):
    """the number of pages of which v is the size"""
    I = inst(f, strip(f, v))
    if I is not None and I.op in ('shl', 'mul'):
        for a, b in ((0, 1), (1, 0))[: 1 if I.op == 'shl' else 2]:
            J = inst(f, strip(f, I.ops[b]))
            if J is not None and J.op == 'load' and (J.field() or '').split('.')[-1].startswith('page_size'): return form(f, I.ops[a])
    return None

class Large(Automaton):
    """state: (pages the space was asked for, has it given them up?, pages charged)"""
    def __init__(self, mod, summ, gcs): super().__init__(mod); self.summ = summ; self.gcs = gcs; self.descend = False; self.hits = {}
    def step(self, st, I):
        f = I.fn; ask, got, paid = st; ch = changes(self.mod, I, self.summ)
        for s, o in ch:
            P = pages(f, o)
            if P is None: continue
            self.hits[(f.name, I.id)] = I
            if s > 0: ask, got = ask | {P}, False
            else: ask = ask - {P}
        if ch: return [(ask, got, paid)]
        n = name(I)
        if n in self.gcs: return [(ask, False, paid)]
        if I.op == 'atomicrmw' and I.field() == PAGES and I.raw['rmw'] == 'add' or I.op == 'store' and I.field() == STOLEN:
            self.hits[(f.name, I.id)] = I
            P = form(f, I.ops[1 if I.op == 'atomicrmw' else 0])
            if I.op == 'store':
                if coef(P, STOLEN) != 1: return None
                P = minus(P, (frozenset([(STOLEN, 1)]), 0))
                if not roomy(f, I.block): self.error('large-room', I, 'pages are taken for large objects without a test that the space has them')
            elif P not in ask: self.error('large-charge', I, 'pages are counted as used by large objects that no space was asked to give up')
            elif not got: self.error('large-wait', I, 'pages are counted as used by large objects before the space has given them up')
            return [(ask, got, paid | {P})]
        if n == ALLOC:
            self.hits[(f.name, I.id)] = I
            P = form(f, I.ops[1])
            if P not in paid: self.error('large-alloc', I, 'a large object gets pages that were not charged against the heap')
            return [(ask - {P}, got, paid - {P})]
        return None
    def assume(self, st, I, p, L, R):
        f = I.fn; ask, got, paid = st
        if const_of(R) is None or got or not ask: return None
        J = inst(f, strip(f, L)); c = const_of(R)
        if p == 'ne' and c == 0 and J is not None and name(J) and tests_counter(self.mod, name(J)): return [(ask, True, paid)]
        if (p, c) in (('sle', 0), ('slt', 1), ('eq', 0)) and from_counter(f, L): return [(ask, True, paid)]
        return None
    def ret(self, st, I):
        if st[2]: self.error('large-unused', I, 'pages are charged against the heap for a large object that does not get them')
        return None

def roomy(f, b):
    for T, s in must(f, b):
        for p, L, R in q.edge_atoms(f, T, s):
            if p == 'in': continue
            D = minus(form(f, L), form(f, R)); p = p[1:] if len(p) == 3 else p
            k = coef(D, 'semi_space.limit')
            if k == 1 and coef(D, 'semi_space.hp') == -1 and p in ('ge', 'gt') or k == -1 and coef(D, 'semi_space.hp') == 1 and p in ('le', 'lt'): return True
    return False

def from_counter(f, v, d=0, seen=None):
    seen = set() if seen is None else seen; I = inst(f, strip(f, v))
    if I is None or I.id in seen or d > 8: return False
    seen.add(I.id)
    if I.op in ('load', 'atomicrmw'): return I.field() in COUNTER
    if I.op in ('phi', 'add', 'sub', 'select'): return any(from_counter(f, o[0] if I.op == 'phi' else o, d + 1, seen) for o in (I.ops[1:] if I.op == 'select' else I.ops))
    return False

def tests_counter(m, n):
    """does the function say whether there is nothing left to give up?"""
    f = m.fn(n)
    if f is None or not f.blocks: return False
    def given(b, s):
        deps = list(must(f, b)) + ([(f.terminator(b), s)] if s is not None else [])
        return any(p != 'in' and (p, const_of(R)) in (('sle', 0), ('slt', 1), ('eq', 0)) and from_counter(f, L) for T, t in deps for p, L, R in q.edge_atoms(f, T, t))
    def rec(v, b, s=None, d=0):
        """does v being true mean that there is nothing left?"""
        c = const_of(v)
        if c is not None: return c == 0 or given(b, s)
        J = inst(f, v)
        if J is None or d > 6: return False
        if J.op == 'icmp': return (J.raw['pred'], const_of(J.ops[1])) in (('sle', 0), ('slt', 1)) and from_counter(f, J.ops[0]) or given(b, s)
        if J.op == 'xor':
            K = inst(f, J.ops[0])
            return K is not None and K.op == 'icmp' and (K.raw['pred'], const_of(K.ops[1])) in (('sgt', 0), ('sge', 1)) and from_counter(f, K.ops[0])
        if J.op in ('zext', 'freeze', 'trunc'): return rec(J.ops[0], b, s, d + 1)
        if J.op == 'phi': return all(rec(o, k, J.block, d + 1) for o, k in J.ops)
        if J.op == 'select': return all(rec(o, b, s, d + 1) for o in J.ops[1:])
        return False
    rets = [I for I in f.all() if I.op == 'ret' and I.ops]
    return bool(rets) and all(rec(I.ops[0], I.block) for I in rets) and any(from_counter(f, ['v', I.id]) for I in f.all() if I.op in ('atomicrmw', 'load'))

def gc_functions(m):
    out = {f.name for f in m.defined() if any(I.op == 'store' and I.field() in (PAGES, STOLEN) and coef(form(f, I.ops[0]), LIVE) for I in f.all())}
    return out

@rule('large-pages', 'C16', configs=lambda c: is_mmc(c) or is_pcc(c) or is_semi(c), load=dict(keep=POPS + PUSHES + (ALLOC,)), limits=())
def large_pages(ctx, m, cfg):
    summ = summaries(m); gcs = gc_functions(m); n = r = 0; charged = None
    for f in m.defined():
        if f.name in ('gc_init', ALLOC): continue
        mine = [I for I in f.all() if I.op == 'atomicrmw' and I.field() == PAGES or name(I) == ALLOC or I.op == 'store' and I.field() == STOLEN and coef(form(f, I.ops[0]), STOLEN)]
        if mine:
            A = Large(m, summ, gcs | {g.name for g in m.defined() if any(name(I) in gcs for I in g.all())})
            A.run(f.name, (frozenset(), False, frozenset())); q.report(ctx, A)
            for I in A.hits.values():
                n += 1; ctx.ok('steps of charging for a large object', I)
                if I.op == 'atomicrmw' and I.field() == PAGES: charged = I
        for I in f.all():
            if I.op != 'store' or I.field() not in (PAGES, STOLEN) or coef(form(f, I.ops[0]), I.field()): continue
            r += 1; ctx.ok('resets of the pages of large objects', I)
            if form(f, I.ops[0]) != (frozenset([(LIVE, 1)]), 0): ctx.bad('large-reset', I, 'after a collection the pages of large objects are not those that are live'); continue
            if I.field() == STOLEN: continue
            want = (frozenset([(PAGES, 1), (LIVE, -1)]), 0); ok = False
            for J in f.all():
                for s, o in changes(m, J, summ):
                    if pages(f, o) == want and (f.dominates(I, J) or f.dominates(J, I)):
                        L = [x for x in q.value_loads(f, o) if x.field() == PAGES]
                        if s < 0 and L and all(f.dominates(x, I) for x in L): ok = True
            if not ok: ctx.bad('large-back', I, 'what dead large objects used is not given back to the space')
    if n and not r and not is_semi(cfg) and charged: ctx.bad('large-back', charged, 'pages that are charged for large objects are never given back'); r = 1
    ctx.need('charges for large objects', n, 2); ctx.need('resets of the pages of large objects', r, 1)

# ---- the adaptive size
LO, HI, ROOM, BYTES = ('gc_adaptive_heap_sizer.' + x for x in ('minimum_multiplier', 'maximum_multiplier', 'minimum_free_space', 'live_bytes'))
def fld(f, v):
    I = inst(f, v)
    while I is not None and I.op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'zext', 'trunc', 'freeze', 'fpext'): I = inst(f, I.ops[0])
    return I.field() if I is not None and I.op == 'load' else None

FNEG = {'olt': 'uge', 'ult': 'oge', 'ogt': 'ule', 'ugt': 'ole', 'ole': 'ugt', 'ule': 'ogt', 'oge': 'ult', 'uge': 'olt', 'uno': 'ord', 'ord': 'uno', 'oeq': 'une', 'une': 'oeq', 'ueq': 'one', 'one': 'ueq'}
FSWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
def fatoms(f, c, truth, d=0):
    """floating-point comparisons, and tests for a number, that c being true or false implies"""
    I = inst(f, c)
    if I is None or d > 10: return []
    if I.op == 'fcmp':
        p = I.raw['pred'] if truth else FNEG.get(I.raw['pred'], '')
        return [(p, I.ops[0], I.ops[1])]
    if I.op == 'icmp' and I.raw['pred'] in ('ne', 'eq') and const_of(I.ops[1]) == 0: return fatoms(f, I.ops[0], truth == (I.raw['pred'] == 'ne'), d + 1)
    if I.op == 'icmp':
        p = I.raw['pred'][1:] if len(I.raw['pred']) == 3 else I.raw['pred']
        if not truth: p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[p]
        return [('o' + p, I.ops[0], I.ops[1])] if p in FSWAP else []
    if I.op in ('zext', 'sext', 'freeze', 'trunc'): return fatoms(f, I.ops[0], truth, d + 1)
    if I.op == 'xor' and const_of(I.ops[1]) in (1, -1): return fatoms(f, I.ops[0], not truth, d + 1)
    if I.op == 'and' and truth or I.op == 'or' and not truth: return [a for o in I.ops for a in fatoms(f, o, truth, d + 1)]
    if I.op == 'select':
        c, a, b = I.ops
        if truth and const_of(b) == 0: return fatoms(f, c, True, d + 1) + fatoms(f, a, True, d + 1)
        if not truth and const_of(a) in (1, -1): return fatoms(f, c, False, d + 1) + fatoms(f, b, False, d + 1)
    if I.is_call() and (I.callee_name() or '').startswith('llvm.is.fpclass') and const_of(I.ops[1]) == 3 and not truth: return [('ord', I.ops[0], I.ops[0])]
    return []

def fknown(f, b, s=None):
    """what is known in block b, or on the edge from b to s"""
    out = []
    for T, t in list(must(f, b)) + ([(f.terminator(b), s)] if s is not None else []):
        if T.op == 'br' and T.ops and T.raw['succ'][0] != T.raw['succ'][1]: out += fatoms(f, T.ops[0], t == T.raw['succ'][0])
    return out

def bounds(f, v, known, d=0):
    """which of the two bounds v is known to keep, and whether it is a number"""
    I = inst(f, v); ALL = {LO, HI, 'number'}
    if fld(f, v) in (LO, HI): return ALL
    got = set()
    if I is not None and d < 8:
        if I.op == 'phi':
            got = set(ALL)
            for o, b in I.ops: got &= bounds(f, o, fknown(f, b, I.block), d + 1)
        elif I.op == 'select':
            got = bounds(f, I.ops[1], known + fatoms(f, I.ops[0], True), d + 1) & bounds(f, I.ops[2], known + fatoms(f, I.ops[0], False), d + 1)
        elif I.op in ('freeze', 'fpext'): got = bounds(f, I.ops[0], known, d + 1)
        elif I.is_call() and (I.callee_name() or '') in ('fmin', 'fmax', 'llvm.minnum.f64', 'llvm.maxnum.f64'):
            mine = HI if 'min' in I.callee_name() else LO
            a, b = (bounds(f, o, known, d + 1) for o in I.ops[:2])
            got = (a & b) | {mine, 'number'} & (a | b)
    soft = set()
    for p, L, R in known:
        if tuple(R[:2]) == tuple(v[:2]) and tuple(L[:2]) != tuple(v[:2]): L, R, p = R, L, p[0] + FSWAP.get(p[1:], p[1:])
        if tuple(L[:2]) != tuple(v[:2]): continue
        if p[0] == 'o': got.add('number')
        F = fld(f, R)
        if F == LO and p[1:] in ('ge', 'gt'): soft.add(LO)
        if F == HI and p[1:] in ('le', 'lt'): soft.add(HI)
    return got | (soft if 'number' in got else set())

def roomed(f, S, known):
    """is the size S known to leave the least free space?"""
    for p, L, R in known:
        for a, b, r in ((L, R, p[1:]), (R, L, FSWAP.get(p[1:], p[1:]))):
            if r not in ('ge', 'gt'): continue
            va, vb = plain(f, a), plain(f, b)
            A, Bf = inst(f, va), fld(f, b)
            if A is not None and A.op in ('sub', 'fsub') and tuple(plain(f, A.ops[0])[:2]) == tuple(plain(f, S)[:2]) and fld(f, A.ops[1]) == BYTES and Bf == ROOM: return True
            Bi = inst(f, vb)
            if tuple(va[:2]) == tuple(plain(f, S)[:2]) and Bi is not None and Bi.op in ('add', 'fadd') and {fld(f, o) for o in Bi.ops} == {BYTES, ROOM}: return True
    return False
def plain(f, v):
    for _ in range(8):
        I = inst(f, v)
        if I is None or I.op not in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'zext', 'trunc', 'freeze', 'fpext'): return v
        v = I.ops[0]
    return v

@rule('adaptive-bounds', 'C16', configs=lambda c: is_mmc(c) or is_pcc(c) or is_semi(c), load=dict(keep=POPS + PUSHES + ('gc_adaptive_heap_sizer_calculate_size',)), limits=())
def adaptive_bounds(ctx, m, cfg):
    n = 0
    for f in m.defined():
        if not any(I.op == 'load' and (I.field() or '') in (LO, HI, ROOM) for I in f.all()): continue
        for I in f.all():
            if I.op != 'fmul' or not any(fld(f, o) == BYTES for o in I.ops): continue
            sizes = [J for J in f.users(['v', I.id]) if J.op in ('fptoui', 'fptosi')]
            if not sizes: continue
            n += 1; ctx.ok('sizes computed from the live data', I)
            m_ = next((o for o in I.ops if fld(f, o) != BYTES), None)
            miss = {LO, HI} - (bounds(f, m_, fknown(f, I.block)) if m_ is not None else set())
            for F in sorted(miss): ctx.bad('multiplier', I, 'the multiplier of the live data may be %s its %s' % (('below', 'least') if F == LO else ('above', 'greatest')))
            for S in sizes:
                for U in f.users(['v', S.id]):
                    if U.op in ('sub', 'icmp', 'uitofp', 'fcmp', 'fsub'): continue
                    if U.op == 'phi': ok = all(roomed(f, o, fknown(f, b, U.block)) for o, b in U.ops if tuple(o[:2]) == ('v', S.id))
                    elif U.op == 'select': ok = all(roomed(f, o, fknown(f, U.block) + fatoms(f, U.ops[0], t)) for o, t in ((U.ops[1], True), (U.ops[2], False)) if tuple(o[:2]) == ('v', S.id))
                    elif U.is_call() and (U.callee_name() or '').startswith('llvm.umax'): ok = True
                    else: ok = roomed(f, ['v', S.id], fknown(f, U.block))
                    rest = [o for o, _ in U.ops] if U.op == 'phi' else U.ops[1:] if U.op == 'select' else []
                    for o in rest:
                        V = inst(f, plain(f, o))
                        if tuple(o[:2]) == ('v', S.id) or V is None or any(tuple(o[:2]) == ('v', x.id) for x in sizes) or V.op in ('phi', 'select', 'fmul'): continue
                        if not (V.op in ('add', 'fadd') and {fld(f, x) for x in V.ops} == {BYTES, ROOM}): ok = False
                    ctx.ok('uses of a size computed from the live data', U)
                    if not ok: ctx.bad('free-space', U, 'an adaptive heap may be left with less than its least free space')
    ctx.need('sizes computed from the live data', n, 1)
