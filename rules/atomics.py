"""Publication without locks: C29 (also C05 for the work-stealing queues)."""
from core import rule, own, is_par, is_gen, mt, AnalysisError
import q, ir
from q import const_of

ACQ = ('acquire', 'acq_rel', 'seq_cst', 'consume')
REL = ('release', 'acq_rel', 'seq_cst')
SEQ = ('seq_cst',)
def order(I): return I.raw.get('ord') or ''
def is_atomic(I): return I.is_mem() and order(I) not in ('', 'na', 'not_atomic')

PTROPS = ('getelementptr', 'phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'and', 'extractvalue')

def through(f, v):
    """values derived from pointer v by address arithmetic, phis and extraction"""
    seen = {tuple(v[:2])}; work = [list(v)]
    while work:
        x = work.pop()
        for U in f.users(x):
            if U.op in PTROPS and ('v', U.id) not in seen:
                seen.add(('v', U.id)); work.append(['v', U.id])
    return seen

def derefs(f, v):
    s = through(f, v); out = []
    for k in s:
        for U in f.users(list(k)):
            if U.is_mem() and tuple(U.ptr()[:2]) == k: out.append(U)
    return out

def cast(f, v):
    """through pointer/integer casts"""
    while v[0] == 'v' and f.insts[v[1]].op in ('ptrtoint', 'inttoptr', 'bitcast'): v = f.insts[v[1]].ops[0]
    return v

def is_ptr_access(I):
    """the cell holds a pointer (clang accesses such cells atomically as integers)"""
    f = I.fn
    if (I.ty if I.op in ('load', 'atomicrmw') else I.raw.get('vty')) == 'ptr': return True
    if I.op in ('store', 'cmpxchg', 'atomicrmw'):
        v = I.value()
        if v[0] == 'v' and f.insts[v[1]].op == 'ptrtoint': return True
    if I.op in ('load', 'atomicrmw', 'cmpxchg'):
        for U in f.users(['v', I.id]):
            if U.op == 'inttoptr': return True
            if U.op == 'extractvalue' and any(W.op == 'inttoptr' for W in f.users(['v', U.id])): return True
    return False

def fences_between(f, A, B, orders):
    """on every path from instruction A to instruction B (not through A again) there is a fence of one of the orders"""
    if A.block == B.block and A.idx < B.idx:
        if any(I.op == 'fence' and order(I) in orders for I in f.blocks[A.block][A.idx:B.idx]): return True
        return False
    if any(I.op == 'fence' and order(I) in orders for I in f.blocks[A.block][A.idx:]): return True
    if any(I.op == 'fence' and order(I) in orders for I in f.blocks[B.block][:B.idx]): return True
    has = {b for b in range(len(f.blocks)) if any(I.op == 'fence' and order(I) in orders for I in f.blocks[b])}
    return B.block not in f.reachable(f.succ[A.block], avoid=has | {A.block} if A.block != B.block else has)

def reaches_without(f, A, hit, stop):
    """first instruction satisfying hit reachable from just after A without passing one satisfying stop"""
    seen = set(); work = [(A.block, A.idx + 1)]
    while work:
        b, i = work.pop()
        halted = False
        for I in f.blocks[b][i:]:
            if hit(I): return I
            if stop(I): halted = True; break
        if halted: continue
        for s in f.succ[b]:
            if s not in seen: seen.add(s); work.append((s, 0))
    return None

def success_edge(f, C):
    """{block: successor taken when cmpxchg C has succeeded} for the branches on its outcome"""
    out = {}
    for X in f.users(['v', C.id]):
        if X.op == 'extractvalue' and X.raw.get('idx') == [1]:
            work = [(['v', X.id], True)]; seen = set()
            while work:
                v, pol = work.pop()
                if tuple(v) in seen: continue
                seen.add(tuple(v))
                for U in f.users(v):
                    if U.op == 'br' and len(f.succ[U.block]) == 2 and tuple(U.ops[0][:2]) == tuple(v[:2]): out[U.block] = f.succ[U.block][0 if pol else 1]
                    if U.op in ('zext', 'trunc', 'freeze'): work.append((['v', U.id], pol))
                    if U.op == 'xor' and const_of(U.ops[1]) in (1, -1, True): work.append((['v', U.id], not pol))
                    if U.op == 'icmp' and const_of(U.ops[1]) == 0:
                        work.append((['v', U.id], pol if U.raw['pred'] == 'ne' else not pol))
                    if U.op == 'phi': work.append((['v', U.id], pol))
    return out

def key(v): return tuple(v[:2])

# integer cells through which threads hand data over: (what a read needs, what a write needs)
ROLE = {
    'gc_ephemeron.state': ('acq', 'rel'), 'gc_ephemeron.key': ('acq', 'rel'),
    'gc_tracer.epoch': ('acq', 'rel'), 'gc_tracer.active_tracers': ('acq', 'rel'),
}
INIT = ('gc_init', 'gc_ephemeron_init_internal', 'gc_init_ephemeron')

@rule('publish-acquire', 'C29', configs=own)
def publish_acquire(ctx, m, cfg):
    n = 0
    for f in m.defined():
        if f.name in INIT: continue
        for I in f.all():
            if not is_atomic(I) or f.name == 'gc_init': continue
            fl = I.field()
            what = fl or 'list head'
            if is_ptr_access(I) and not (fl or '').startswith('gc_ephemeron.key'):
                # reads of pointers that are followed
                if I.op in ('load', 'cmpxchg', 'atomicrmw'):
                    d = derefs(f, ['v', I.id])
                    if d:
                        o = order(I) if I.op != 'cmpxchg' else I.raw.get('ford')
                        if o in ACQ or any(fences_between(f, I, D, ACQ) for D in d[:1]): ctx.ok('pointer read with acquire before it is followed (%s)' % what, I); n += 1
                        else: ctx.bad('relaxed-read', I, 'a pointer taken from %s is followed although it was read with %s ordering: what another thread wrote behind it need not be visible yet' % (what, o))
                if I.is_write():
                    v = I.value()
                    if v[0] == 'null' or const_of(v) == 0: continue
                    if order(I) in REL: ctx.ok('pointer published with release (%s)' % what, I); n += 1
                    elif release_fence_before(f, I): ctx.ok('pointer published after a release fence (%s)' % what, I); n += 1
                    else: ctx.bad('relaxed-publish', I, 'a pointer is made visible through %s with %s ordering: another thread may follow it before what it points to is complete' % (what, order(I)))
            elif fl in ROLE:
                rd, wr = ROLE[fl]
                if I.op in ('load', 'cmpxchg'):
                    o = order(I)
                    if I.op == 'load':
                        if o in ACQ: ctx.ok('%s read with acquire' % fl, I); n += 1
                        else: ctx.bad('relaxed-read', I, '%s is read with %s ordering, so what was published with it need not be visible' % (fl, o))
                if I.is_write():
                    if order(I) in REL: ctx.ok('%s written with release' % fl, I); n += 1
                    else: ctx.bad('relaxed-publish', I, '%s is written with %s ordering, so what precedes it need not be visible to a thread that reads it' % (fl, order(I)))
    # the cells whose accesses must be atomic at all
    for f in m.defined():
        if f.name in INIT or f.name == 'gc_init': continue
        for I in f.all():
            if I.op == 'store' and I.field() == 'large_object_live_data.mark' and not not_yet_shared(f, I):
                ctx.bad('claim-not-cas', I, 'a large object is marked by a store instead of a compare-and-swap: two workers can both take it for newly marked'); continue
            if I.is_mem() and not is_atomic(I) and I.field() in ('gc_ephemeron.state', 'gc_tracer.epoch', 'gc_tracer.active_tracers', 'large_object_live_data.mark'):
                if I.src_fn() in ('gc_ephemeron_init_internal',): continue
                if I.field() == 'large_object_live_data.mark' and not_yet_shared(f, I): continue
                ctx.bad('plain-access', I, '%s is accessed without an atomic operation while other threads may change it' % I.field())
    ctx.need('ordered accesses', n, 4)

def not_yet_shared(f, I):
    """written before the object is entered in the tables: the large object allocator"""
    return I.op == 'store' and ('large_object_space_alloc' in I.src_fns() or f.name == 'gc_allocate_slow' or 'large_object_space_node_data' in I.src_fns())

def release_fence_before(f, I):
    """a release fence dominates I with no store in between to other memory than I's own location"""
    for J in reversed(f.blocks[I.block][:I.idx]):
        if J.op == 'fence' and order(J) in REL: return True
        if J.op == 'store': return False
    return False

@rule('lock-free-list', 'C29', configs=own)
def lock_free_list(ctx, m, cfg):
    """pushes: link the entry to the very head that the exchange expects, and leave it alone once it is on the list"""
    np = 0; npop = 0
    for f in m.defined():
        linkstores = set(); todo = []
        for C in f.all():
            if C.op != 'cmpxchg' or not is_ptr_access(C): continue
            exp = cast(f, C.ops[1]); new = cast(f, C.ops[2])
            if new[0] in ('null', 'c'): continue
            ex = through(f, exp)
            kind = 'pop' if derived_by_load(f, new, exp) else 'push'
            if kind == 'pop':
                npop += 1; ctx.ok('pop: the new head is read through the entry being removed', C); continue
            np += 1
            nv = through(f, new); rt = key(f.root_of(new))
            links = [S for S in f.all() if S.op == 'store' and (key(f.root_of(S.ptr())) == rt or from_call_on(f, S.ptr(), new)) and is_ptr_access(S)]
            good = [S for S in links if key(cast(f, S.ops[0])) == key(exp) and f.dominates(S, C)]
            if good: ctx.ok('push: the entry is linked to the expected head before it is published', C)
            else: ctx.bad('push-link', C, 'an entry is put on a shared list by compare-and-swap, but its link was not set to the head that the swap expects: entries pushed by other threads in between are lost')
            linkstores |= {S.id for S in good}
            todo.append((C, new))
        for C, new in todo:      # nothing may be written to an entry afterwards, except its link for another list
            late = late_store(f, success_edge(f, C), new, C, linkstores)
            if late: ctx.bad('write-after-publish', late, 'an entry is written to (by a plain store) after it was put on a shared list at %s, where other threads already use it' % C.where().split(' < ')[0])
            else: ctx.ok('push: the entry is not touched after publication', C)
    ctx.need('lock-free pushes', np, 1)

def derived_by_load(f, new, exp, depth=8, seen=None):
    """new is read from memory behind exp (possibly several links on), or is exp itself walked along"""
    if seen is None: seen = set()
    new = cast(f, new)
    if new[0] != 'v' or new[1] in seen or depth == 0: return False
    seen.add(new[1])
    I = f.insts[new[1]]
    ek = key(exp); ev = through(f, exp)
    if key(new) in ev or key(new) == ek: return True
    if I.op == 'load':
        r = cast(f, f.root_of(I.ops[0]))
        if key(r) == ek or key(r) in ev: return True
        if r[0] == 'v' and f.insts[r[1]].is_call() and any(key(o) == ek for o in f.insts[r[1]].ops if isinstance(o, (list, tuple))): return True
        return derived_by_load(f, r, exp, depth - 1, seen)
    if I.op == 'phi': return any(derived_by_load(f, cast(f, o[0]), exp, depth - 1, seen) for o in I.ops)
    if I.is_call(): return any(derived_by_load(f, o, exp, depth - 1, seen) or key(o) == ek for o in I.ops if isinstance(o, (list, tuple)) and o and o[0] == 'v')
    return False

def from_call_on(f, p, new):
    """p is the result of an accessor called on new (get_next(head))"""
    r = cast(f, f.root_of(p))
    if r[0] != 'v': return False
    I = f.insts[r[1]]
    return I.is_call() and any(isinstance(o, (list, tuple)) and len(o) > 1 and key(cast(f, o)) == key(cast(f, new)) for o in I.ops)

def late_store(f, se, new, C, links):
    """a plain store to *new on a path from C's success that does not come back to C or to new's definition"""
    k = key(new); defb = f.insts[new[1]].block if new[0] == 'v' else None
    seen = set(); work = []
    for S in f.blocks[C.block][C.idx + 1:]:
        if S.id not in links and plain_write_to(f, S, k): return S
    work = [se[C.block]] if C.block in se else list(f.succ[C.block])
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        if b == defb or b == C.block: continue          # a new round, or a new entry
        for S in f.blocks[b]:
            if S.id not in links and plain_write_to(f, S, k): return S
        work += [se[b]] if b in se else f.succ[b]
    return None

def plain_write_to(f, S, k):
    # (the key of an ephemeron is an edge: whoever finds it moved writes the same new address)
    if S.op == 'store' and (S.field() == 'gc_ephemeron.key' or 'gc_edge_update' in S.src_fns()): return False
    if S.op == 'store' and not is_atomic(S): return key(cast(f, f.root_of(S.ptr()))) == k
    return S.is_call() and (S.callee_name() or '').startswith(('llvm.memset', 'llvm.memcpy', 'memset')) and bool(S.ops) and key(cast(f, f.root_of(S.ops[0]))) == k

@rule('work-stealing-queue', 'C29', 'C05', configs=is_par)
def work_stealing_queue(ctx, m, cfg):
    BOT, TOP, ACT = 'shared_worklist.bottom', 'shared_worklist.top', 'shared_worklist.active'
    isdata = lambda f, I: I.is_mem() and is_atomic(I) and 'shared_worklist_buf.data' in str(f.expr(I.ptr(), 4))
    npush = npop = nsteal = 0
    for f in m.defined():
        acc = [I for I in f.all() if I.is_mem() and I.field() in (BOT, TOP, ACT)]
        if not acc or f.name == 'gc_init': continue
        ids = {I.id for I in acc}
        data = [I for I in f.all() if isdata(f, I)]
        for I in acc:
            if not is_atomic(I): ctx.bad('plain-access', I, '%s is accessed without an atomic operation while thieves and owner use it concurrently' % I.field())
        for S in acc:
            if S.field() == ACT and S.op == 'store':
                puts = [D for D in data if D.op == 'store']
                if not any(f.block_dominates(D.block, S.block) or S.block in f.reachable([D.block]) for D in puts):
                    pass                                   # copying may be in a callee; the ordering check below covers the rest
                continue
            if S.field() != BOT or S.op != 'store': continue
            a, c = q.lin(f, S.ops[0], current=False)
            grow = not (c < 0 or (c == 0 and len(a) == 1))
            if grow:
                npush += 1
                puts = [D for D in data if D.op == 'store']
                before = [D for D in puts if S.block in f.reachable([D.block]) or D.block == S.block and D.idx < S.idx]
                # the new element is a value, not a copy between buffers
                if not before: ctx.bad('bottom-without-put', S, 'the queue is made one longer although nothing was put in the new slot'); continue
                for D in before:
                    if order(S) in REL or order(D) in REL or fences_between(f, D, S, REL): ctx.ok('push: slots are filled, with release, before the queue is made longer', S)
                    else: ctx.bad('relaxed-publish', S, 'the queue is made longer without release ordering after the slot was filled: a thief may read the old contents of the slot')
                L = reaches_without(f, S, lambda I: I.op == 'store' and isdata(f, I), lambda I: I.op == 'load' and I.field() == BOT)
                if L: ctx.bad('write-after-publish', L, 'a slot of the queue is filled after the queue was made longer: a thief may already have taken the old contents')
            elif c < 0:
                npop += 1
                L = reaches_without(f, S, lambda I: I.op in ('load', 'cmpxchg') and I.field() == TOP, lambda I: I.op == 'fence' and order(I) == 'seq_cst')
                if L and not (order(S) == 'seq_cst' and order(L) == 'seq_cst'): ctx.bad('pop-fence', L, 'the owner reads the top of its queue after taking the bottom without a sequentially consistent fence in between: owner and thief can both take the last entry')
                else: ctx.ok('pop: full fence between claiming the bottom and reading the top', S)
        for C in acc:
            if C.field() != TOP: continue
            if C.op == 'store' or C.op == 'atomicrmw':
                ctx.bad('top-not-cas', C, 'the top of the queue is changed by something else than a compare-and-swap: two takers can get the same entry'); continue
            if C.op != 'cmpxchg': continue
            if order(C) not in SEQ: ctx.bad('top-cas-order', C, 'an entry is claimed by a compare-and-swap weaker than sequentially consistent')
            T = next((J for J in q.value_loads(f, C.ops[1]) if J.field() == TOP), None)
            a, c = q.lindiff(f, C.ops[2], C.ops[1])
            if a or c != 1: ctx.bad('top-step', C, 'claiming an entry does not advance the top of the queue by exactly one')
            if not T: ctx.bad('top-expected', C, 'the compare-and-swap that claims an entry does not expect a previously read top'); continue
            Bs = [B for B in acc if B.op == 'load' and B.field() == BOT and f.dominates(B, C) and same_q(f, B, C)]
            deps = {J.id for X, _ in f.all_control_deps(C.block) if X.ops for J in q.value_loads(f, X.ops[0])}
            Bs = [B for B in Bs if B.id in deps]
            if not Bs: ctx.bad('claim-untested', C, 'an entry is claimed without a test, on the bottom and top read before, that there is one'); continue
            after = [B for B in Bs if f.dominates(T, B)]
            if after:
                nsteal += 1
                B = after[-1]
                if order(B) not in ACQ: ctx.bad('relaxed-read', B, 'a thief reads the bottom of the queue without acquire: the slot it then reads need not be filled yet')
                if not fences_between(f, T, B, SEQ): ctx.bad('steal-fence', B, 'a thief reads top and bottom without a sequentially consistent fence between them: it can take an entry that the owner took')
                if order(T) not in ACQ: ctx.bad('relaxed-read', T, 'a thief reads the top of the queue without acquire')
                ctx.ok('steal: top, full fence, bottom with acquire, then compare-and-swap', C)
            else:
                B = Bs[-1]
                claim = [S for S in acc if S.op == 'store' and S.field() == BOT and f.dominates(B, S) and f.dominates(S, T)]
                if not claim: ctx.bad('pop-unclaimed', C, 'the owner looks at the top of its queue before it has claimed the bottom entry by moving the bottom: owner and thief can both take the last entry')
                else: ctx.ok('pop: the bottom is claimed before the top is read', C)
            D = [d for d in data if d.op == 'load' and f.dominates(d, C)]
            if not D: ctx.bad('read-after-claim', C, 'the entry is not read before it is claimed: once claimed, the owner may overwrite its slot')
            else: ctx.ok('an entry is read before it is claimed', C)
    ctx.need('queue pushes', npush); ctx.need('owner pops', npop); ctx.need('steals', nsteal)

def same_q(f, A, B): return key(f.root_of(A.ptr())) == key(f.root_of(B.ptr()))

@rule('metadata-rmw', 'C29', 'C18', configs=mt)
def metadata_rmw(ctx, m, cfg):
    """mutators change bits in an object's metadata, which others may change too, only in one atomic step"""
    n = 0
    for name in ('gc_pin_object', 'gc_write_barrier_slow'):
        f = m.fn(name)
        if not f or f.decl: raise AnalysisError('no %s' % name)
        seen = set(); work = [f]
        while work:
            g = work.pop()
            if g.name in seen: continue
            seen.add(g.name)
            for I in g.all():
                if I.is_call():
                    for t in m.targets(I):
                        h = m.fn(t)
                        if h and not h.decl: work.append(h)
                if I.op in ('cmpxchg', 'atomicrmw') and I.raw.get('vty', I.ty) == 'i8': ctx.ok('metadata bits changed by one atomic step', I); n += 1
                if I.op != 'store' or I.raw.get('vty') != 'i8' or I.field(): continue
                a = key(I.ptr()); e = g.expr(I.ptr(), 6)
                if not any(isinstance(x, tuple) and len(x) == 3 and x[0] == '&' and x[2][0] == 'c' and x[2][1] < 0 for x in ir.walk(g.expr(I.ptr(), 8))): continue    # not in a heap slab
                if any(key(L.ptr()) == a or g.expr(L.ptr(), 6) == e for L in q.value_loads(g, I.ops[0])):
                    ctx.bad('lost-update', I, 'a metadata byte is read, changed and written back in separate steps while other threads may change other bits of it: one of the changes is lost')
    if 'heap-conservative' not in cfg and cfg != 'pcc' or is_gen(cfg): ctx.need('atomic metadata updates', n)

@rule('atomic-steps', 'C29', configs=mt)
def atomic_steps(ctx, m, cfg):
    from rules.guarded import Guarded, ATOMIC
    A = Guarded(m, is_par(cfg)); A.guard = {}
    for e in q.public_entries(m):
        dt = m.fn(e).ditypes or []
        u = 'init' if e == 'gc_init' else 'worker' if e == 'trace_worker_thread' or 'fn*' in dt and 'gc_mutator*' not in dt else 'run'
        A.run(e, (frozenset(), u))
    q.report(ctx, A)
    for f, s in A.hits.items(): ctx.ok('updates of %s are single atomic steps' % f, n=len(s))
    ctx.need('lock-free fields with updates', len(A.hits), 5)
