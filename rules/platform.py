"""The platform layer and stack/global scanning ranges: C34 (memory from the operating system), C03 (ranges of roots), C02 (capturing a stack), C20 (discarding pages)."""
from core import rule
import q
from q import const_of

PLAT = dict(units=['gc-platform-gnu-linux.c'], user=False)
STACK = dict(units=['gc-stack.c'], user=False)
NOT = ('v-none',)

def calls(f, name): return [I for I in f.all() if I.is_call() and I.callee_name() == name]

def lin(f, v, depth=10):
    """linear form over arguments and instructions"""
    while v[0] == 'v' and f.insts[v[1]].op in ('inttoptr', 'ptrtoint', 'zext', 'sext', 'trunc', 'freeze', 'bitcast'): v = f.insts[v[1]].ops[0]
    c = const_of(v)
    if c is not None: return {}, c
    if v[0] == 'v' and depth:
        I = f.insts[v[1]]
        if I.op in ('add', 'sub'):
            a, ac = lin(f, I.ops[0], depth - 1); b, bc = lin(f, I.ops[1], depth - 1); s = 1 if I.op == 'add' else -1
            r = dict(a)
            for k, x in b.items(): r[k] = r.get(k, 0) + s * x
            return {k: x for k, x in r.items() if x}, ac + s * bc
        if I.op == 'getelementptr' and len(I.ops) == 2 and I.raw.get('sty') in (None, 'i8'):
            a, ac = lin(f, I.ops[0], depth - 1); b, bc = lin(f, I.ops[1], depth - 1)
            r = dict(a)
            for k, x in b.items(): r[k] = r.get(k, 0) + x
            return {k: x for k, x in r.items() if x}, ac + bc
    return {tuple(v[:2]): 1}, 0

def lsub(a, b):
    r = dict(a[0])
    for k, x in b[0].items(): r[k] = r.get(k, 0) - x
    return {k: x for k, x in r.items() if x}, a[1] - b[1]
def ladd(a, b): return lsub(a, ({k: -x for k, x in b[0].items()}, -b[1]))

def is_failed(fn, v):
    """v is MAP_FAILED"""
    if const_of(v) == -1: return True
    return v[0] == 'ce' and v[1] == 'inttoptr' and const_of(v[2][0]) == -1 or v[0] == 'v' and fn.insts[v[1]].op == 'inttoptr' and const_of(fn.insts[v[1]].ops[0]) == -1

def succeeded(f, C, blocks_of_use):
    """every use block is reached only over an edge on which the result of C is known not to be MAP_FAILED"""
    good = set()
    for b in range(len(f.blocks)):
        T = f.blocks[b][-1] if f.blocks[b] else None
        if T is None or T.op != 'br' or not T.ops: continue
        for s in T.raw['succ']:
            for p, L, R in q.edge_atoms(f, T, s):
                if p == 'ne' and (is_failed(f, R) and strip(f, L) == ('v', C.id) or is_failed(f, L) and strip(f, R) == ('v', C.id)): good.add((b, s))
    # blocks reachable from C without passing a good edge
    seen = set(); work = [C.block]
    while work:
        b = work.pop()
        for s in f.succ[b]:
            if (b, s) in good or s in seen: continue
            seen.add(s); work.append(s)
    return good, seen

def strip(f, v):
    while v[0] == 'v' and f.insts[v[1]].op in ('inttoptr', 'ptrtoint', 'bitcast'): v = f.insts[v[1]].ops[0]
    return tuple(v[:2])

def derived(f, C, good):
    s = {('v', C.id)}; work = [['v', C.id]]
    checked = checked_blocks(f, good)
    while work:
        v = work.pop()
        for U in f.users(v):
            if U.op == 'phi' and all(o[1] in checked or (o[1], U.block) in good for o in U.ops if tuple(o[0][:2]) == tuple(v[:2])): continue
            if U.op in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'add', 'sub', 'and', 'or', 'phi', 'select', 'insertvalue') and ('v', U.id) not in s:
                s.add(('v', U.id)); work.append(['v', U.id])
    return s

@rule('os-memory', 'C34', 'C13', configs='none', load=PLAT)
def os_memory(ctx, m, cfg):
    n = 0
    for f in m.defined():
        for C in calls(f, 'mmap'):
            n += 1
            addr, ln, prot, flags = C.ops[0], C.ops[1], const_of(C.ops[2]), const_of(C.ops[3])
            if const_of(addr) != 0:
                if flags is not None and not flags & 0x100010:
                    ctx.bad('hint-only', C, 'memory is to be mapped at a given address, which is only a hint as called: the system may map it somewhere else, outside of the reservation and without its alignment')
                else: ctx.ok('mapping at a given address is exact', C)
            if flags is not None and flags & 0x22 != 0x22: ctx.bad('not-private', C, 'memory for the heap is not private anonymous memory: it is not zero-filled or is shared')
            good, bad = succeeded(f, C, None)
            d = derived(f, C, good); hit = None
            for b in bad:
                for I in f.blocks[b]:
                    if I.op == 'phi':
                        if any(tuple(o[0][:2]) in d and o[1] in bad | {C.block} and (o[1], b) not in good for o in I.ops if isinstance(o[0], (list, tuple))): hit = hit or I
                        continue
                    if I.op in ('icmp', 'br') or ('v', I.id) in d and I.op in ('ptrtoint', 'inttoptr', 'bitcast'): continue
                    if any(isinstance(o, (list, tuple)) and tuple(o[:2]) in d for o in I.ops) and not only_after(f, I, good): hit = hit or I
            if hit is not None: ctx.bad('failure-unnoticed', hit, 'the result of mmap is used although the call may have failed')
            else: ctx.ok('failure of mmap is noticed before the result is used', C)
    ctx.need('mappings', n, 1)
    f = m.fn('gc_platform_acquire_memory_from_reservation')
    if f:
        for C in calls(f, 'mmap'):
            a = lin(f, C.ops[0])
            if a != ({('a', 0): 1, ('a', 2): 1}, 0): ctx.bad('wrong-address', C, 'memory from a reservation is not mapped at the base of the reservation plus the offset asked for')
            elif lin(f, C.ops[1]) != ({('a', 3): 1}, 0): ctx.bad('wrong-size', C, 'a different size is mapped than was asked for')
            else: ctx.ok('memory is mapped at base + offset, in the size asked for', C)
        rets(ctx, f, calls(f, 'mmap'), 'the address of the mapping is returned')
    f = m.fn('gc_platform_acquire_memory')
    if f:
        for C in [I for I in f.all() if I.is_call() and I.callee_name() in ('gc_platform_acquire_memory_from_reservation', 'mmap')]:
            if C.callee_name() == 'mmap' and const_of(C.ops[0]) == 0: continue
            ln = C.ops[1] if C.callee_name() == 'mmap' else C.ops[-1]
            if lin(f, ln) != ({('a', 0): 1}, 0): ctx.bad('wrong-size', C, 'a different size is mapped than was asked for')
            else: ctx.ok('memory is mapped at base + offset, in the size asked for', C)
    for f in m.defined():
        if f.name not in ('gc_platform_reserve_memory', 'gc_platform_acquire_memory'): continue
        for C in calls(f, 'mmap'):
            if const_of(C.ops[0]) != 0: continue
            a = lin(f, C.ops[1])
            if a[0].get(('a', 0)) != 1 or a[0].get(('a', 1)) != 1 or a[1] < 0: ctx.bad('reservation-too-small', C, 'the reservation is not big enough to hold the size asked for once its start has been rounded up to the alignment')
            else: ctx.ok('reservation has room for alignment', C)
            trimmed(ctx, f, C)
    for name, fn_, adv, what in (('gc_platform_discard_memory', 'madvise', 4, 'discarded'), ('gc_platform_populate_memory', 'madvise', None, 'populated')):
        f = m.fn(name)
        if not f: continue
        cs = [I for I in f.all() if I.is_call() and I.callee_name() in ('madvise', 'mmap', 'posix_madvise')]
        for C in cs:
            if C.callee_name() == 'madvise':
                if adv is not None and const_of(C.ops[2]) not in (None, adv): ctx.bad('wrong-advice', C, 'memory that counts as zero afterwards is not discarded with an advice that zeroes it')
                if strip(f, C.ops[0]) != ('a', 0) or lin(f, C.ops[1]) != ({('a', 1): 1}, 0): ctx.bad('wrong-range', C, 'a different range is %s than was asked for' % what)
                else: ctx.ok('the range asked for is ' + what, C)
        if not cs: ctx.bad('no-call', f.name, '%s does not ask the system for anything' % f.name)
        if name == 'gc_platform_discard_memory': success_only(ctx, f, cs, what)
    for name in ('gc_platform_release_memory', 'gc_platform_release_reservation'):
        f = m.fn(name)
        if not f: continue
        for C in calls(f, 'munmap'):
            if strip(f, C.ops[0]) != ('a', 0) or lin(f, C.ops[1]) != ({('a', 1): 1}, 0): ctx.bad('wrong-range', C, 'a different range is unmapped than was asked for')
            else: ctx.ok('the range asked for is unmapped', C)

def only_after(f, I, good):
    """I can only be reached over a good edge"""
    return I.block in checked_blocks(f, good)

def checked_blocks(f, good):
    seen = {0}; work = [0]
    while work:
        b = work.pop()
        for s in f.succ[b]:
            if (b, s) in good or s in seen: continue
            seen.add(s); work.append(s)
    return {b for b in range(len(f.blocks)) if b not in seen}

def rets(ctx, f, cs, what):
    ids = {('v', C.id) for C in cs}
    def ok(v, depth=6):
        if const_of(v) == 0: return True
        v = strip(f, v)
        if v in ids: return True
        if v[0] == 'v' and depth:
            I = f.insts[v[1]]
            if I.op == 'phi': return all(ok(o[0], depth - 1) for o in I.ops)
            if I.op == 'select': return all(ok(o, depth - 1) for o in I.ops[1:])
        return False
    for I in f.all():
        if I.op == 'ret' and I.ops:
            if ok(I.ops[0]): ctx.ok(what, I)
            else: ctx.bad('wrong-result', I, 'not the address of the memory that was mapped is returned')

def trimmed(ctx, f, C):
    """what is given back of an over-sized reservation lies outside of the part that is kept"""
    mem = ({('v', C.id): 1}, 0); ext = lin(f, C.ops[1])
    # the start of the part that is kept: what is returned (as struct field 0) or mapped
    keep = None
    for I in f.all():
        if I.op == 'insertvalue' and I.ops[0][0] == 'undef': keep = lin(f, I.ops[1])
    if keep is None:
        for I in calls(f, 'mmap'):
            if const_of(I.ops[0]) != 0: keep = lin(f, I.ops[0])
    if keep is None: return
    size = ({('a', 0): 1}, 0)
    for U in calls(f, 'munmap'):
        st = lin(f, U.ops[0]); en = ladd(st, lin(f, U.ops[1]))
        before = lsub(en, keep) == ({}, 0) and lsub(st, mem) == ({}, 0)
        after = lsub(st, ladd(keep, size)) == ({}, 0) and lsub(en, ladd(mem, ext)) == ({}, 0)
        if before or after: ctx.ok('what is given back lies before or after the part kept', U)
        else: ctx.bad('trim', U, 'what is given back of an over-sized reservation is not exactly the part before or behind the one that is kept')
    # the start that is kept: rounded up to the alignment unless there is none
    (k, one), = keep[0].items() if len(keep[0]) == 1 else ((None, 0),)
    if k is None or k[0] != 'v': return
    I = f.insts[k[1]]
    alts = [o[0] for o in I.ops] if I.op == 'phi' else [['v', I.id]]
    for o in alts:
        if strip(f, o) == ('v', C.id):
            continue
        if aligned_up(f, o, C): ctx.ok('the kept part starts at the next multiple of the alignment', I)
        else: ctx.bad('misaligned', I, 'the start of the part that is kept is not the start of the reservation rounded up to the alignment')

def aligned_up(f, v, C):
    I = f.insts[v[1]] if v[0] == 'v' else None
    if I is None or I.op != 'and': return I is not None and I.op in ('load', 'call')     # some other way of rounding
    for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
        la = lin(f, a)
        if la[0] != {('v', C.id): 1, ('a', 1): 1} or la[1] != -1: continue
        x = f.insts[b[1]] if b[0] == 'v' else None
        if x is None: continue
        if x.op == 'xor' and lin(f, x.ops[0]) == ({('a', 1): 1}, -1) and const_of(x.ops[1]) == -1: return True
        if x.op == 'sub' and const_of(x.ops[0]) == 0 and lin(f, x.ops[1]) == ({('a', 1): 1}, 0): return True
    return False

def success_only(ctx, f, cs, what):
    """a nonzero result only on paths where the call returned 0"""
    ids = {('v', C.id) for C in cs}
    good = set()
    for b in range(len(f.blocks)):
        T = f.blocks[b][-1]
        if T.op != 'br' or not T.ops: continue
        for s in T.raw['succ']:
            for p, L, R in q.edge_atoms(f, T, s):
                if p == 'eq' and const_of(R) == 0 and tuple(L[:2]) in ids: good.add((b, s))
    unchecked = {0}; work = [0]
    while work:
        b = work.pop()
        for s in f.succ[b]:
            if (b, s) in good or s in unchecked: continue
            unchecked.add(s); work.append(s)
    def maybe(v, b, depth=6):
        """v, on leaving block b, may be nonzero on a path without success"""
        c = const_of(v)
        if c is not None: return c != 0 and b in unchecked
        if v[0] == 'v' and depth:
            I = f.insts[v[1]]
            if I.op == 'phi': return any(maybe(o[0], o[1], depth - 1) and (o[1], I.block) not in good for o in I.ops)
            if I.op == 'zext' and f.insts[I.ops[0][1]].op == 'icmp':
                J = f.insts[I.ops[0][1]]
                return not (J.raw['pred'] == 'eq' and const_of(J.ops[1]) == 0 and tuple(J.ops[0][:2]) in ids)
        return b in unchecked
    for I in f.all():
        if I.op == 'ret' and I.ops:
            if maybe(I.ops[0], I.block): ctx.bad('success-claimed', I, 'memory is said to have been %s although the system call may have failed' % what)
            else: ctx.ok('memory is said to have been %s only if it was' % what, I)

# ---------------------------------------------------------------- ranges scanned conservatively
def argcalls(f, k):
    """calls of argument k of f, or of a function pointer read from memory when k is None"""
    out = []
    for I in f.all():
        if I.is_call():
            c = I.raw.get('callee')
            if c and (k is not None and c[:2] == ['a', k] or k is None and c[0] == 'v'): out.append(I)
    return out

def rounded(f, v):
    """(linear form without rounding to a multiple of the word size, 'up' / 'down' / '')"""
    while v[0] == 'v' and f.insts[v[1]].op in ('inttoptr', 'ptrtoint'): v = f.insts[v[1]].ops[0]
    if v[0] == 'v' and f.insts[v[1]].op == 'and' and const_of(f.insts[v[1]].ops[1]) in (-8, -4, -16):
        a = lin(f, f.insts[v[1]].ops[0]); w = -const_of(f.insts[v[1]].ops[1])
        return ((a[0], a[1] - (w - 1)), 'up') if a[1] == w - 1 else (a, 'down')
    return lin(f, v), ''

def unavoidable(f, Cs):
    bl = {C.block for C in Cs}
    left = f.reachable([0], avoid=bl) if 0 not in bl else set()
    return not any(f.blocks[b] and f.blocks[b][-1].op == 'ret' for b in left)

@rule('stack-ranges', 'C03', configs='none', load=STACK)
def stack_ranges(ctx, m, cfg):
    f = m.fn('gc_stack_visit')
    if not f: ctx.bad('no-visit', 'src/gc-stack.c', 'there is no function that hands out the ranges of a stack'); return
    regs = []; stk = []
    cs = argcalls(f, 1)
    for C in cs:
        (lo, _), ru = rounded(f, C.ops[0]), None
        lo, ru = rounded(f, C.ops[0]); hi, rd = rounded(f, C.ops[1])
        d = lsub(hi, lo)
        fl = fields_in(f, C.ops[0]); fh = fields_in(f, C.ops[1])
        if not d[0]:
            if d[1] >= 200 and ('gc_stack.registers' in str(fl) + str(fh)): regs.append(C)
            else: ctx.bad('registers-cut', C, 'only %d bytes of the saved registers are handed out for scanning' % d[1])
        elif {'gc_stack.hot'} == fl and {'gc_stack.cold'} == fh:
            if lo[1] > 0 or hi[1] < 0 or rd == 'up': ctx.bad('stack-cut', C, 'words at an end of the stack are left out of the range that is scanned')
            else: stk.append(C)
        else: ctx.bad('stack-range', C, 'the range of the stack handed out for scanning does not run from its hot end to its cold end')
    for what, l in (('saved registers', regs), ('stack', stk)):
        if l and unavoidable(f, l): ctx.ok('the %s of a thread is handed out for scanning on every path' % what, l[0])
        else: ctx.bad('not-visited:' + what.split()[-1], (l or cs or [f.name])[0], 'the %s of a thread is not handed out for scanning on every path' % what)

def fields_in(f, v):
    out = set()
    def rec(v, d):
        if v[0] == 'v' and d:
            I = f.insts[v[1]]
            if I.op == 'load': out.add(I.field()); return
            if I.op == 'getelementptr':
                fl = f.field_of(v)
                if fl: out.add('gc_stack.registers' if fl.startswith('__jmp_buf_tag') else fl); return
            for o in I.ops:
                o = o[0] if I.op == 'phi' else o
                if isinstance(o, (list, tuple)): rec(o, d - 1)
    rec(v, 8)
    return out

@rule('stack-capture', 'C02', configs='none', load=STACK)
def stack_capture(ctx, m, cfg):
    f = m.fn('gc_stack_capture_hot')
    if not f: ctx.bad('no-capture', 'src/gc-stack.c', 'there is no function that captures the state of a thread'); return
    hot = [S for S in f.all() if S.op == 'store' and S.field() == 'gc_stack.hot']
    sj = [C for C in f.all() if C.is_call() and (C.callee_name() or '') in ('_setjmp', 'setjmp', '__sigsetjmp', 'sigsetjmp') and any((x or '').startswith('gc_stack.registers') for x in fields_in(f, C.ops[0]))]
    for what, l in (('hot end of the stack', hot), ('registers', sj)):
        if l and unavoidable(f, l): ctx.ok('the %s of the thread captured on every path' % what, l[0])
        else: ctx.bad('not-captured:' + what.split()[-1], (l or [f.name])[0], 'the %s of a thread that may be stopped is not captured on every path' % what)
    for S in hot:
        def fresh(v, d=6):
            if v[0] != 'v' or not d: return False
            I = f.insts[v[1]]
            if I.is_call(): return (I.callee_name() or '').startswith(('llvm.frameaddress', 'llvm.stacksave', 'llvm.sponentry', 'current_thread_hot')) or 'hot' in (I.callee_name() or '')
            if I.op == 'alloca': return True
            return any(isinstance(o, (list, tuple)) and fresh(o[0] if I.op == 'phi' else o, d - 1) for o in I.ops)
        if fresh(S.ops[0]): ctx.ok('the hot end is taken from the running frame', S)
        else: ctx.bad('stale-hot', S, 'the hot end of the stack is not taken from the frame that is running')

@rule('global-ranges', 'C03', configs='none', load=PLAT)
def global_ranges(ctx, m, cfg):
    g = m.fn('gc_platform_visit_global_conservative_roots')
    it = None
    if g:
        for C in calls(g, 'dl_iterate_phdr'):
            for t in m.fnptr_targets(g, C.ops[0]): it = m.fn(t) or it
    if not g or it is None: ctx.bad('no-walk', 'gc_platform_visit_global_conservative_roots', 'the loaded objects are not walked for global variables'); return
    f = it
    cs = argcalls(f, None)
    def hdr(v):
        """field number of a program header that v is read from"""
        v = q.strip(f, v)
        if v[0] != 'v' or f.insts[v[1]].op != 'load': return None
        p = f.insts[v[1]].ptr()
        if p[0] != 'v': return None
        G = f.insts[p[1]]
        if G.op == 'getelementptr' and len(G.ops) == 3 and const_of(G.ops[1]) == 0: return const_of(G.ops[2])
        return 0 if G.op in ('getelementptr', 'phi') else None
    for I in f.all():
        if I.op == 'ret' and I.ops and const_of(I.ops[0]) != 0: ctx.bad('walk-ends', I, 'the walk over the loaded objects ends early: a nonzero result stops it')
    if not cs: ctx.bad('no-visit', f.name, 'no segment is handed out for scanning'); return
    for C in cs:
        lo = lin(f, C.ops[0]); hi = lin(f, C.ops[1]); d = lsub(hi, lo)
        at = [hdr(list(k)) for k in d[0]]
        names = {3, 'addr'}
        lk = {('addr' if k[0] == 'v' and f.insts[k[1]].op == 'load' and f.insts[k[1]].field() == 'dl_phdr_info.dlpi_addr' else hdr(list(k))) for k in lo[0]}
        if at != [6] or d[1] < 0 or list(d[0].values()) != [1]: ctx.bad('segment-size', C, 'not the whole of a segment in memory is handed out for scanning (its size in memory is the field p_memsz)'); continue
        if lk != names or lo[1] > 0: ctx.bad('segment-start', C, 'the range handed out for scanning does not start at the address the segment was loaded at'); continue
        ctx.ok('whole segments are handed out', C)
        conds = []
        for T, s in f.all_control_deps(C.block):
            for p, L, R in q.edge_atoms(f, T, s): conds.append((p, L, R, T))
        for p, L, R, T in conds:
            c = const_of(R); h = hdr(L)
            if p in ('ult', 'ne', 'slt', 'ugt', 'sgt') and h is None and not is_and(f, L): continue       # the loop itself
            if h == 0 and p == 'eq' and c == 1: continue
            if is_and(f, L) is not None:
                a, mask = is_and(f, L)
                if hdr(a) == 1 and (p == 'ne' and c == 0 and mask & 2 or p == 'eq' and c == mask and mask == 2): continue
            ctx.bad('segments-skipped', T, 'some writable loaded segments are not handed out for scanning: an extra condition decides'); break
        else: ctx.ok('every writable loaded segment is handed out', C)
        loops = [b for h_, b in f.loops().items() if C.block in b]
        if not loops: ctx.bad('one-segment', C, 'only one segment of each loaded object is looked at')
        # the only way out of the loop is having seen all headers
        for body in loops:
            for b in body:
                for s in f.succ[b]:
                    if s in body: continue
                    T = f.blocks[b][-1]
                    at = q.edge_atoms(f, T, s) if T.op == 'br' and T.ops else []
                    if any('dl_phdr_info.dlpi_phnum' in str([J.field() for o in (L, R) for J in q.value_loads(f, o)]) for p, L, R in at): ctx.ok('the walk ends after the last segment', T)
                    else: ctx.bad('walk-ends', T, 'the walk over the segments ends before the last one')

def is_and(f, v):
    v = q.strip(f, v)
    if v[0] != 'v': return None
    I = f.insts[v[1]]
    if I.op == 'and' and const_of(I.ops[1]) is not None: return I.ops[0], const_of(I.ops[1])
    return None
