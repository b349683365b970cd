"""Queries shared by the rules."""
from ts import Automaton, LockAutomaton, lock_event, const_of, key_of, edge_atoms, atoms, NEG, SWAP
import ir

def entries(m, threads=True):
    """API entry points and thread start routines."""
    out = []
    for f in m.defined():
        if not f.raw['internal']: out.append(f.name)
    if threads:
        for t in thread_starts(m):
            if t not in out: out.append(t)
    return sorted(out)

_pub = None
def public_names():
    """identifiers declared with GC_API_ in /repo/api"""
    global _pub
    if _pub is None:
        import os, re, build
        _pub = set()
        d = os.path.join(build.REPO, 'api')
        for f in os.listdir(d):
            if f.endswith('.h'):
                t = open(os.path.join(d, f)).read()
                for mm in re.finditer(r'GC_API_[^;{]*?\b(\w+)\s*\(', t): _pub.add(mm.group(1))
    return _pub

def public_entries(m, threads=True):
    pub = public_names()
    out = [f.name for f in m.defined() if f.name in pub and not f.raw['internal'] or f.name.startswith('v_api_')]
    if threads: out += [t for t in thread_starts(m) if t not in out]
    return sorted(out)

def thread_starts(m):
    out = set()
    for f in m.defined():
        for I in f.all():
            if I.is_call() and I.callee_name() == 'pthread_create':
                out |= m.fnptr_targets(f, I.ops[2])
    return sorted(t for t in out if m.fn(t))

def strip(fn, v):
    """through integer width changes"""
    while v[0] == 'v':
        I = fn.insts[v[1]]
        if I.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'): v = I.ops[0]
        else: break
    return v

def stored_field(fn, v):
    """field F such that v was just computed from F and stored back to F (so v *is* F)"""
    k = key_of(v)
    if not k: return None
    for U in fn.users(v):
        if U.op == 'store' and U.ops[0][:2] == list(v[:2]) or U.op == 'store' and tuple(U.ops[0][:2]) == k:
            f = U.field()
            if f: return f
    return None

def lin(fn, v, current=True, depth=8):
    """linear form: ({atom: coef}, const); atom = field name, or ('v', id)"""
    v = strip(fn, v)
    c = const_of(v)
    if c is not None: return {}, c
    if v[0] == 'v' and depth > 0:
        I = fn.insts[v[1]]
        if current:
            sf = stored_field(fn, v)
            if sf: return {sf: 1}, 0
        if I.op == 'load' and I.field(): return {I.field(): 1}, 0
        if I.op in ('add', 'sub'):
            a, ac = lin(fn, I.ops[0], current, depth - 1); b, bc = lin(fn, I.ops[1], current, depth - 1)
            s = 1 if I.op == 'add' else -1
            r = dict(a)
            for k, x in b.items(): r[k] = r.get(k, 0) + s * x
            return {k: x for k, x in r.items() if x}, ac + s * bc
        if I.op == 'atomicrmw' and I.field() and I.raw['rmw'] in ('add', 'sub'):
            return {('old', I.field()): 1}, 0
        if I.op == 'mul' and const_of(I.ops[1]) is not None:
            a, ac = lin(fn, I.ops[0], current, depth - 1); c = const_of(I.ops[1])
            return {k: x * c for k, x in a.items()}, ac * c
        if I.op == 'shl' and const_of(I.ops[1]) is not None:
            a, ac = lin(fn, I.ops[0], current, depth - 1); c = 1 << const_of(I.ops[1])
            return {k: x * c for k, x in a.items()}, ac * c
    if v[0] == 'v': return {('v', v[1]): 1}, 0
    if v[0] == 'a': return {('a', v[1]): 1}, 0
    return {repr(v): 1}, 0

def lindiff(fn, L, R):
    a, ac = lin(fn, L); b, bc = lin(fn, R)
    r = dict(a)
    for k, x in b.items(): r[k] = r.get(k, 0) - x
    return {k: x for k, x in r.items() if x}, ac - bc

def delta_of_store(I):
    """for a store/rmw F := F + k : k ; None otherwise"""
    fn = I.fn; f = I.field()
    if I.op == 'atomicrmw' and I.raw['rmw'] in ('add', 'sub'):
        c = const_of(I.ops[1])
        if c is None: return None
        return c if I.raw['rmw'] == 'add' else -c
    if I.op == 'store':
        v = strip(fn, I.ops[0])
        if v[0] != 'v': return None
        J = fn.insts[v[1]]
        if J.op in ('add', 'sub'):
            a, ac = lin0(fn, v)
            if a == {f: 1}: return ac
    return None

def lin0(fn, v):
    """linear form of the value itself (its top node is expanded even if it is stored)"""
    v = strip(fn, v)
    I = fn.insts[v[1]] if v[0] == 'v' else None
    if I is not None and I.op in ('add', 'sub'):
        a, ac = lin(fn, I.ops[0]); b, bc = lin(fn, I.ops[1]); s = 1 if I.op == 'add' else -1
        r = dict(a)
        for k, x in b.items(): r[k] = r.get(k, 0) + s * x
        return {k: x for k, x in r.items() if x}, ac + s * bc
    return lin(fn, v)

def event_slot(m, I):
    """name of the event-listener slot called, or None"""
    if not I.is_call(): return None
    for t in m.targets(I):
        if t.startswith('slot:gc_event_listener.'): return t[len('slot:gc_event_listener.'):]
    return None

def stores(m, field):
    for f in m.defined():
        for I in f.all():
            if I.is_write() and I.field() == field: yield I

def loads(m, field):
    for f in m.defined():
        for I in f.all():
            if I.op in ('load', 'atomicrmw', 'cmpxchg') and I.field() == field: yield I

def calls(m, *names):
    for f in m.defined():
        for I in f.all():
            if I.is_call() and any(t in names for t in m.targets(I)): yield I

def report(ctx, A, what_prefix=''):
    """turn an automaton's errors into violations"""
    for (k, fn, iid), e in A.errors.items():
        ctx.bad(k, e['inst'], e['msg'], e['path'], e['entry'], stack=e['stack'])

def tally(ctx, A, what_prefix=''):
    """report, and count the places that the automaton looked at"""
    report(ctx, A, what_prefix)
    for k, d in A.hits.items():
        for I in d.values(): ctx.ok(k, I)

def value_loads(fn, v, depth=12, seen=None):
    """load (and atomic) instructions that v is computed from, through arithmetic, comparisons, phis and selects"""
    if seen is None: seen = set()
    if v[0] != 'v' or depth == 0 or v[1] in seen: return []
    seen.add(v[1])
    I = fn.insts[v[1]]
    if I.op in ('load', 'atomicrmw', 'cmpxchg'): return [I]
    if I.op in ('call', 'invoke', 'alloca'): return []
    out = []
    for o in I.ops:
        if I.op == 'phi': o = o[0]
        if isinstance(o, (list, tuple)) and o and o[0] == 'v': out += value_loads(fn, o, depth - 1, seen)
    return out
