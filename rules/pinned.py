"""C07: pinned and conservatively referenced objects stay where they are."""
from core import rule, own, is_mmc, is_pcc, is_semi, AnalysisError
import q, bits
from ts import Automaton, const_of
from rules.alloc import masked, where, opaque

EV = 'nofl_space.evacuating'; CM = 'nofl_space.current_mark'

def consts(f, v, seen=None):
    """constants v may be, None among them when it may be something else"""
    seen = set() if seen is None else seen
    v = q.strip(f, v)
    c = const_of(v)
    if c is not None: return {c}
    if v[0] == 'v' and v[1] not in seen:
        seen.add(v[1]); I = f.insts[v[1]]
        if I.op in ('phi', 'select'):
            r = set()
            for o in (I.ops if I.op == 'phi' else I.ops[1:]): r |= consts(f, o[0] if I.op == 'phi' else o, seen)
            return r
        if I.op in ('zext', 'sext', 'trunc'): return consts(f, I.ops[0], seen)
    elif v[0] == 'v': return set()
    return {None}

def acquirers(m):
    return {f.name: f for f in m.defined() if any(I.is_call() and I.callee_name() == 'v_fwd_acquire' for I in f.all())}

class Move(Automaton):
    """only objects that are neither pinned nor marked are moved, and only while objects may be moved"""
    descend = False
    def __init__(self, mod, fn, events, pin, markmask):
        super().__init__(mod); self.f = fn; self.ev = events; self.pin = pin; self.mm = markmask; self.hits = {}
    def relevance_key(self): return ('move', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def put(self, st, x): return [frozenset(y for y in st if y[0] != x[0] or y[1] != x[1]) | {x}]
    def assume(self, st, I, p, L, R):
        f = self.f
        if p not in ('eq', 'ne'): return None
        x = masked(f, L)
        if x:
            if x[1] & self.pin and const_of(R) is not None:
                if p == 'eq' and not const_of(R) & self.pin: return self.put(st, ('unpinned', x[0].id))
                if p == 'ne' and x[1] == self.pin and const_of(R) == self.pin: return self.put(st, ('unpinned', x[0].id))
                return None
            if x[1] == self.mm and R[0] == 'v' and any(y.field() == CM for y in q.value_loads(f, R, 3)):
                return self.put(st, ('unmarked', x[0].id)) if p == 'ne' else None
        y = masked(f, R)
        if y and y[1] == self.mm and L[0] == 'v' and any(z.field() == CM for z in q.value_loads(f, L, 3)): return self.put(st, ('unmarked', y[0].id)) if p == 'ne' else None
        if const_of(R) == 0 and any(y.field() == EV for y in q.value_loads(f, L, 3)) and p == 'ne': return self.put(st, ('moving', 0))
        return None
    def step(self, st, I):
        f = self.f
        if I.op == 'load' and I.ty == 'i8' and I.field() is None and any(y[1] == I.id for y in st): return [frozenset(y for y in st if y[1] != I.id)]
        if I.is_call() and I.callee_name() in self.ev:
            self.hit('objects moved', I)
            ops = {tuple(q.strip(f, o)[:2]) for o in I.ops}
            def same(i):
                L = f.insts[i]
                if tuple(q.strip(f, L.ptr())[:2]) in ops: return True
                fm = bits.form(f, L.ptr(), opaque=lambda J: opaque(J) if J.op != 'load' or J.ty == 'i64' else None)
                src = {k[0] for k in fm if k != 1} if fm else set()
                return len(src) == 1 and any(s in ops or s[0] == 'arg' and ('a', s[1]) in ops for s in src)
            for what, msg in (('unpinned', 'a pinned object may be moved'), ('unmarked', 'an object that was already reached in this collection may be moved')):
                if not any(y[0] == what and same(y[1]) for y in st): self.error(what, I, msg)
            if not any(y[0] == 'moving' for y in st): self.error('moving', I, 'an object may be moved in a collection that does not move objects')
        return None

class Pin(Automaton):
    """pinning sets the bit"""
    descend = False
    def __init__(self, mod, fn, pin, wh): super().__init__(mod); self.f = fn; self.pin = pin; self.wh = wh; self.hits = {}
    def relevance_key(self): return 'pin'
    def relevant(self, I): return I.fn is self.f
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def form(self, I):
        fm = bits.form(self.f, I.ptr())
        return bool(fm) and {k[0] for k in fm if k != 1} == {('arg', 1)} and bits.canon({(k if k == 1 else ('obj', k[1])): v for k, v in fm.items()}) in self.wh
    def gets(self, v, depth=6):
        """v is a byte with the bit set, and no other bits dropped"""
        v = q.strip(self.f, v); J = self.f.insts[v[1]] if v[0] == 'v' else None
        while J is not None and J.op in ('zext', 'trunc'): v = q.strip(self.f, J.ops[0]); J = self.f.insts[v[1]] if v[0] == 'v' else None
        return J is not None and J.op == 'or' and any(const_of(o) == self.pin for o in J.ops)
    def assume(self, st, I, p, L, R):
        f = self.f
        if p not in ('eq', 'ne') or const_of(R) is None: return None
        J = f.insts[L[1]] if L[0] == 'v' else None
        x = masked(f, L)
        if x and x[1] == self.pin:
            if (const_of(R) == 0) == (p == 'ne') and const_of(R) in (0, self.pin): return [st | {'pinned'}]
            return None
        if J is not None and J.op == 'extractvalue' and J.ty == 'i1' and ('try', J.ops[0][1]) in st:
            return [st - {('try', J.ops[0][1])} | {'pinned'}] if (const_of(R) == 1) == (p == 'eq') else [st - {('try', J.ops[0][1])}]
        return None
    def edge(self, st, I, s):
        fs = {x.field() for o in I.ops[:1] if o[0] == 'v' for x in q.value_loads(self.f, o, 6) if x.field()}
        odd = {x for x in fs if 'extent' not in x}
        return [st | {'odd'}] if odd else None
    def step(self, st, I):
        f = self.f
        if I.op == 'cmpxchg' and self.form(I):
            self.hit('bits set', I)
            return [frozenset(x for x in st if not isinstance(x, tuple)) | {('try', I.id), 'tried'}] if self.gets(I.ops[2]) else None
        if I.op == 'atomicrmw' and self.form(I) and I.raw.get('rmw') == 'or' and const_of(I.ops[1]) == self.pin: self.hit('bits set', I); return [st | {'pinned', 'tried'}]
        if I.op == 'store' and self.form(I) and self.gets(I.ops[0]): self.hit('bits set', I); return [st | {'pinned', 'tried'}]
        if I.op == 'load' and I.ty == 'i8' and self.form(I): return [st | {'tried'}]
        return None
    def ret(self, st, I):
        if ('tried' in st or 'odd' in st) and 'pinned' not in st: self.error('pin', I, 'pinning may return without the object being pinned')
        return None

class Order(Automaton):
    """conservative roots are traced before anything may be moved"""
    descend = False
    def __init__(self, mod, cons): super().__init__(mod); self.cons = cons; self.hits = {}
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def relevance_key(self): return 'pinorder'
    def queues(self, I):
        if I.is_call(): return I.callee_name() in self.cons or any(o[0] == 'f' and o[1] in self.cons for o in I.ops)
        if I.op == 'store' and I.field() == 'gc_root.kind': return bool(consts(I.fn, I.ops[0]) & {3, 4})
        return False
    def relevant(self, I): return self.queues(I) or I.is_call() and I.callee_name() in ('gc_tracer_trace', 'gc_tracer_trace_roots') or I.op in ('store', 'load') and I.field() == EV
    def step(self, st, I):
        if self.queues(I):
            self.hit('conservative roots queued', I)
            if 'moving' in st: self.error('late', I, 'conservative roots are handed to the tracer only after objects may be moved')
            return [st | {'queued'}]
        if I.is_call() and I.callee_name() in ('gc_tracer_trace', 'gc_tracer_trace_roots'): return [st - {'queued'}]
        if I.op == 'store' and I.field() == EV:
            if const_of(I.ops[0]) == 0: return [st - {'moving'}]
            self.hit('places where moving begins', I)
            if 'queued' in st: self.error('early', I, 'objects may be moved before the conservative roots have been traced')
            return [st | {'moving'}]
        return None
    def assume(self, st, I, p, L, R):
        if 'moving' in st and p == 'eq' and const_of(R) == 0 and L[0] == 'v' and I.fn.insts[L[1]].op in ('load', 'zext', 'sext', 'trunc') and any(x.field() == EV for x in q.value_loads(I.fn, L, 3)): return []
        return None
    def ret(self, st, I):
        if 'moving' in st: self.error('open', I, 'a collection may end with objects still being moved by the next one')
        return None

ROOTS = ('gc_tracer_trace', 'gc_tracer_trace_roots', 'nofl_space_mark_conservative_ref', 'nofl_space_evacuate')

@rule('pinned', 'C07', 'C06', configs=lambda c: is_mmc(c), load=dict(keep=ROOTS), debug=False, limits=(200,))
def pinned(ctx, m, cfg):
    cons = 'heap-conservative' in cfg
    E = {n: m.enum_value('NOFL_METADATA_BYTE_' + n) for n in ('YOUNG', 'MARK_0', 'MARK_1', 'MARK_2', 'PINNED')}
    if None in E.values(): raise AnalysisError('metadata byte values not found')
    mm = E['YOUNG'] | E['MARK_0'] | E['MARK_1'] | E['MARK_2']
    acq = acquirers(m); n = 0
    for f in m.defined():
        evs = {a for a in acq if a != f.name}
        own_ = f.name in acq and not any(I.is_call() and I.callee_name() == f.name for g in m.defined() for I in g.all())
        if own_: evs = evs | {'v_fwd_acquire'}
        if not any(I.is_call() and I.callee_name() in evs for I in f.all()): continue
        if cons:
            for I in f.all():
                if I.is_call() and I.callee_name() in evs and I.block in f.live_blocks(): ctx.bad('cons', I, 'an object may be moved although references in the heap are conservative')
            continue
        if f.name == 'nofl_space_mark_conservative_ref': ctx.bad('cons', f.terminator(0), 'an object reached by a conservative reference may be moved')
        A = Move(m, f, evs, E['PINNED'], mm); A.run(f.name, frozenset()); q.tally(ctx, A); n += len(A.hits)
    if not n and not cons: ctx.bad('moving', m.fn('trigger_collection').terminator(0) if m.fn('trigger_collection') else next(m.defined()).terminator(0), 'no object is ever moved')
    g = m.fn('gc_pin_object')
    if g is None or g.decl: raise AnalysisError('gc_pin_object not found')
    if not cons:
        P = Pin(m, g, E['PINNED'], where(m)); P.run(g.name, frozenset()); q.tally(ctx, P)
        if not P.hits: ctx.bad('pin', g.terminator(0), 'pinning an object sets no bit that the collector looks at')
        for f in m.defined():
            for I in f.all():
                if I.op not in ('store', 'cmpxchg') or I.field() is not None: continue
                v = I.ops[0] if I.op == 'store' else I.ops[2]
                if v[0] != 'v' or f.insts[v[1]].ty != 'i8': continue
                k = kept(f, v)
                if k is None: continue
                if k & E['PINNED']: ctx.ok('updates of metadata that keep the pinned bit', I)
                elif k & mm or True: ctx.bad('unpin', I, 'an update of the metadata of an object drops its pinned bit')
    cs = {f.name for f in m.defined() if any(I.op == 'store' and I.field() == 'gc_root.kind' and consts(f, I.ops[0]) & {3, 4} for I in f.all())}
    if 'conservative' in cfg or cs:
        O = Order(m, cs); O.run('trigger_collection', frozenset()); q.tally(ctx, O)
        if 'conservative' in cfg and not any('queued' in k for k in O.hits): ctx.bad('roots', m.fn('trigger_collection').terminator(0), 'conservative roots are not handed to the tracer')

def kept(f, v, depth=8):
    """mask of the bits that byte v keeps of a byte that it was read from"""
    v = q.strip(f, v)
    if v[0] != 'v' or depth == 0: return None
    I = f.insts[v[1]]
    if I.op in ('zext', 'trunc', 'freeze'): return kept(f, I.ops[0], depth - 1)
    if I.op == 'load': return 255 if I.ty == 'i8' and I.field() is None else None
    if I.op in ('cmpxchg', 'extractvalue'): return 255 if I.op == 'cmpxchg' or I.op == 'extractvalue' and I.ty == 'i8' else None
    if I.op == 'phi':
        r = [kept(f, o[0], depth - 1) for o in I.ops if o[0] != ['v', I.id]]
        return None if not r or None in r else min(r)
    if I.op in ('and', 'or'):
        for x, y in ((0, 1), (1, 0)):
            k = kept(f, I.ops[x], depth - 1)
            if k is None: continue
            c = const_of(I.ops[y])
            if I.op == 'or': return k
            if c is not None: return k & c & 255
            w = q.strip(f, I.ops[y]); J = f.insts[w[1]] if w[0] == 'v' else None
            return k   # a variable mask: the flags of fields
    return None

@rule('refuses-pinning', 'C07', configs=lambda c: is_pcc(c) or is_semi(c), load={}, debug=False, limits=())
def refuses(ctx, m, cfg):
    g = m.fn('gc_pin_object')
    if g is None or g.decl: raise AnalysisError('gc_pin_object not found')
    rets = [b for b in g.live_blocks() if g.terminator(b).op == 'ret']
    if rets: ctx.bad('refuse', g.terminator(rets[0]), 'a collector that moves objects pretends to pin one')
    else: ctx.ok('refusals', g.terminator(0))
