"""C19, C20: who has a block.  A block taken from a list is given to one allocator or put on one list, once; what it is marked as agrees with the list it is on."""
from core import rule, is_mmc, is_pcc, AnalysisError
from ts import Automaton, key_of
import q
from q import const_of, strip

POPS = ('nofl_block_list_pop', 'nofl_block_stack_pop', 'copy_space_block_list_pop', 'copy_space_block_stack_pop')
PUSHES = ('nofl_block_list_push', 'nofl_block_stack_push', 'copy_space_block_list_push', 'copy_space_block_stack_push')
SLOT = ('nofl_allocator.block', 'copy_space_allocator.block', 'nofl_block_ref.summary')
FREE = {'empty', 'evacuation_targets', 'paged_out'}
USED = {'partly_full', 'full', 'promoted', 'old', 'to_sweep'}
DISCARD = 'gc_platform_discard_memory'
def name(I): return I.callee_name() if I.is_call() else None

def inst(f, v):
    return f.insts.get(v[1]) if v[0] == 'v' else None

def is_slot(I):
    """the word of an allocator that says which block it has"""
    F = I.field()
    if F not in SLOT: return False
    return F != 'nofl_block_ref.summary' or 'nofl_allocator.block' in I.fn.fields_of(I.ptr())

def listname(f, p):
    for n in f.fields_of(p):
        if n.startswith(('nofl_space.', 'copy_space.')): return n.split('.')[1]
    return None

class Blocks(Automaton):
    """state: (tokens, allocators): tokens is a set of (key, status, source list, flags);
    allocators maps 'S' (one given by the caller) or a local variable to 'unknown' | 'empty' | 'has' | ('has', key) | 'stale'"""
    max_states = 8000
    def __init__(self, mod, cfg, flagbits):
        super().__init__(mod); self.cfg = cfg; self.B = flagbits; self.hits = {}
    def watch_key(self): return 'blocks'
    def watch(self, I):
        n = name(I)
        if n in PUSHES: return I.ops[:2]
        if n == DISCARD: return I.ops[:1]
        if I.op == 'store' and is_slot(I): return I.ops[:1]
        if I.op == 'ret' and I.ops: return I.ops[:1]
        return ()
    def relevant(self, I):
        return name(I) in POPS + PUSHES + (DISCARD,) or I.op == 'store' and is_slot(I)
    def relevance_key(self): return 'blocks'
    # -- values
    def resolve(self, f, v, d=0):
        """the call, load or other value that v is"""
        for _ in range(12):
            k = key_of(v)
            if k is None: return v
            a = self.cf.get(k) if self.cf else None
            if a and a[0] == 'is': v = a[1]; continue
            I = inst(f, v)
            if I is None: return v
            if I.op in ('extractvalue', 'freeze', 'bitcast', 'inttoptr', 'ptrtoint'): v = I.ops[0]; continue
            if I.op == 'phi':
                alts = {key_of(o) for o, _ in I.ops} - {('v', I.id)}
                if len(alts) == 1 and None not in alts: v = list(alts.pop()); continue
            return v
        return v
    def rk(self, f, p):
        r = f.root_of(p); A = inst(f, r) if r[0] == 'v' else None
        return (f.name, A.id) if A is not None and A.op == 'alloca' else 'S'
    def al(self, st, k): return dict(st[1]).get(k, 'unknown')
    def setal(self, st, k, v):
        d = dict(st[1]); d[k] = v
        return (st[0], frozenset(d.items()))
    def toks(self, st): return {t[0]: t for t in st[0]}
    def put(self, st, key, status=None, src=None, flags=None, new=False):
        d = self.toks(st)
        o = d.get(key, (key, None, None, frozenset()))
        d[key] = (key, status if status is not None else o[1], src if src is not None else o[2], frozenset(flags) if flags is not None else o[3])
        return (frozenset(d.values()), st[1])
    def drop(self, st, key): return (frozenset(t for t in st[0] if t[0] != key), st[1])
    def lists_of(self, f, p):
        v = self.resolve(f, p); out = set()
        def rec(v, d=0):
            I = inst(f, v)
            if I is not None and I.op in ('phi', 'select') and d < 5:
                for o in (I.ops if I.op == 'phi' else I.ops[1:]): rec(o[0] if I.op == 'phi' else o, d + 1)
            else: out.add((listname(f, v), tuple(v)))
        rec(v)
        return out
    # -- events
    def step(self, st, I):
        f = I.fn; n = name(I); self.cf = self.facts()
        if n in POPS:
            key = (f.name, I.id); d = self.toks(st)
            if key in d and d[key][1] in ('held', 'maybe'): self.error('dropped', I, 'a block that was taken from a list is forgotten when the next one is taken')
            src = {x[0] for x in self.lists_of_plain(f, I.ops[0])}
            counted = counted_loop(f, I)
            self.hits.setdefault('pop', {})[(f.name, I.id)] = I
            return [self.put(self.drop(st, key), key, 'held' if counted else 'maybe', next(iter(src)) if len(src) == 1 else '?', ())]
        if n in PUSHES: return [self.push(st, I)]
        if n and n.startswith('llvm.memset') and const_of(I.ops[1]) == 0 and is_mmc(self.cfg):
            k = self.origin(f, I.ops[0]); t = self.toks(st).get((f.name, k)) if k is not None else None
            if t is None or t[1] not in ('held', 'kept') or const_of(I.ops[2]) != self.B['SIZE'] // 16: return None
            if self.per(f, I.ops[0], 16): return [self.put(st, t[0], flags=t[3] | {'cleared'})]
            return None
        if n == DISCARD:
            k = self.origin(f, I.ops[0])
            t = self.toks(st).get((f.name, k)) if k is not None else None
            self.hits.setdefault('discard', {})[(f.name, I.id)] = I
            if t is None and not blockish(f, I.ops[0]): return None
            if t is None or t[1] != 'held':
                self.error('discard', I, 'the memory of a block that is not known to be held is given back to the operating system'); return None
            if t[2] != 'paged_out': self.error('discard', I, 'the memory of a block that may be in use is given back to the operating system')
            size = const_of(I.ops[1])
            if size is not None and size < self.B['SIZE']: self.error('zero', I, 'a block counts as given back and zero although only part of its memory was given back')
            if size is not None and size > self.B['SIZE']: self.error('discard', I, 'more memory than that of the block is given back to the operating system')
            return [self.put(st, t[0], flags=t[3] | {'discarded'})]
        if I.op in ('store', 'atomicrmw'):
            if I.op == 'store' and is_slot(I): return [self.keep(st, I)]
            F = I.field() or ''
            fl = self.flagging(I)
            if fl:
                r, sets, clears = fl
                t = self.toks(st).get((f.name, r))
                if t is None: t = ((f.name, r), 'ext', None, frozenset())
                if t[1] in ('ext', 'held', 'maybe'):
                    fs = (t[3] - {('-', b) for b in sets} - {('+', b) for b in clears}) | {('+', b) for b in sets} | {('-', b) for b in clears}
                    return [self.put(st, t[0], t[1], t[2], fs)]
        return None
    def facts(self):
        cf = self._cf
        return dict(cf) if cf is not None else {}
    def lists_of_plain(self, f, p):
        self.cf = self.facts(); return self.lists_of(f, p)
    def origin(self, f, v, d=0):
        """the id of the pop whose block v points into"""
        I = inst(f, self.resolve(f, v))
        if I is None or d > 8: return None
        if name(I) in POPS: return I.id
        if I.op in ('getelementptr', 'add', 'sub', 'and', 'or', 'mul', 'shl', 'lshr', 'udiv', 'sdiv', 'urem'):
            for o in I.ops:
                r = self.origin(f, o, d + 1)
                if r is not None: return r
        return None
    def per(self, f, p, unit):
        """is p the slab of a block plus (an offset in the slab) / unit?"""
        found = set()
        def rec(v, d=0):
            I = inst(f, self.resolve(f, v))
            if I is None or d > 10 or name(I) in POPS: return
            c = [const_of(o) for o in I.ops if const_of(o) is not None] if I.op in ('and', 'udiv', 'lshr') else []
            if c:
                if I.op == 'and': found.add('base' if c[0] < 0 or c[0] >> 40 else 'offset')
                else: found.add(('div', c[0] if I.op == 'udiv' else 1 << c[0]))
            if I.op == 'load' or I.op == 'phi': return
            for o in I.ops: rec(o, d + 1)
        rec(p)
        return 'base' in found and {x for x in found if isinstance(x, tuple)} == {('div', unit)}
    def flagging(self, I):
        """(root id, flags set, flags cleared) of a store to the flags of a block"""
        f = I.fn; F = I.field() or ''
        if F.startswith('nofl_block_summary.next') and I.op == 'store':
            r = self.rootid(f, I.ptr())
            if r is None: return None
            V = inst(f, I.ops[0]); sets = clears = 0
            while V is not None and V.op in ('or', 'and'):
                c = next((const_of(o) for o in V.ops if const_of(o) is not None), None)
                if c is None: return None
                if V.op == 'or': sets |= c & ~clears
                else: clears |= ~c & 0xff & ~sets
                V = inst(f, next(o for o in V.ops if const_of(o) is None))
            if V is None or V.op != 'load': return None
            return r, [b for b in (1, 2, 4, 8) if sets & b], [b for b in (1, 2, 4, 8) if clears & b]
        if F.rstrip('[]') in ('copy_space_block.in_core', 'copy_space_block.all_zeroes') and I.op == 'store':
            r = self.rootid(f, I.ptr()); c = const_of(I.ops[0]); w = int((I.raw.get('vty') or 'i8').lstrip('i') or 8)
            _, _, off, var = f.resolve_ptr(I.ptr())
            if r is None or c is None or off is None: return None
            if var: return (r, ['zero0', 'zero1'], []) if c else (r, [], ['zero0', 'zero1'])
            sets, clears = [], []
            for n in range(w // 8):
                for b, (o, z) in self.bytes().items():
                    if o == off + n: (sets if c >> (8 * n) & 0xff else clears).append(b)
            return r, sets, clears
        return None
    def bytes(self):
        out = {}
        def rec(ms):
            for x in ms:
                if x.get('name') == 'in_core': out['core'] = (x['off'] // 8, 1)
                if x.get('name') == 'all_zeroes': out['zero0'] = (x['off'] // 8, 1); out['zero1'] = (x['off'] // 8 + 1, 1)
                rec(x.get('sub') or ())
        rec((self.mod.types.get('copy_space_block') or {}).get('members', ()))
        return out
    def rootid(self, f, p):
        v = p
        for _ in range(6):
            v = self.resolve(f, v); I = inst(f, v)
            if I is None or I.op != 'getelementptr': break
            v = I.ops[0]
        return v[1] if v[0] == 'v' else None
    def where(self, f, v):
        v = self.resolve(f, v); I = inst(f, v)
        if v[0] == 'null' or const_of(v) == 0 or self.cf.get(key_of(v)) == ('eq', 0): return None, None
        if I is not None and name(I) in POPS: return 'pop', (f.name, I.id)
        if I is not None and I.op == 'load' and is_slot(I): return 'slot', self.rk(f, I.ptr())
        return 'ext', (f.name,) + tuple(v[:2]) if v[0] == 'a' else (f.name, v[1]) if v[0] == 'v' else (f.name, str(v))
    def push(self, st, I):
        f = I.fn; w, key = self.where(f, I.ops[1]); d = self.toks(st)
        dest = self.lists_of(f, I.ops[0]); names = {x[0] for x in dest}
        self.hits.setdefault('push', {})[(f.name, I.id)] = I
        if w is None: self.error('nothing', I, 'a list is given a block although there is none'); return st
        k = None
        for o, v in list(st[1]):
            if o[0] == 'owed' and (w == 'slot' and o[1] == key or w == 'pop' and v[2] == key):
                if names & FREE: self.error('used', I, 'a block that may have live objects is offered for allocation')
                return (st[0], frozenset(x for x in st[1] if x[0] != o))
        if w == 'slot':
            if 'partly_full' in names and is_mmc(self.cfg) and self.al(st, ('room', key)) != 1: self.error('room', I, 'a block without a test that it has room is put on the list of those that have')
            st = self.setal(st, ('room', key), 'unknown')
            k = key; alloc = self.al(st, k)
            if isinstance(alloc, tuple):
                w, key = 'pop', alloc[1]
                if names & FREE: self.error('used', I, 'a block that may have live objects is offered for allocation')
            elif alloc == 'stale': self.error('twice', I, 'a block is put on two lists'); return st
            elif alloc == 'empty': self.error('nothing', I, 'a list is given a block although there is none'); return st
            else:
                if names & FREE: self.error('used', I, 'a block that may have live objects is offered for allocation')
                return self.setal(st, k, 'stale')
        elif w == 'pop' and names & FREE and (d.get(key) or (0, 0))[1] == 'kept': self.error('used', I, 'a block that may have live objects is offered for allocation')
        t = d.get(key) or (key, 'ext', None, frozenset())
        if t[1] == 'gone': self.error('twice', I, 'a block is put on two lists')
        if t[1] == 'maybe': self.error('unchecked', I, 'a block is put on a list without a test that there was one')
        if t[1] == 'null': self.error('nothing', I, 'a list is given a block although there is none')
        self.flags(I, t, dest, names)
        st = self.put(st, key, 'gone', t[2], t[3])
        for k, a in list(st[1]):
            if k[0] != 'owed' and isinstance(a, tuple) and a[1] == key: st = self.setal(st, k, 'stale')
        return st
    def flags(self, I, t, dest, names):
        F = t[3]; src = t[2]; mmc = is_mmc(self.cfg); B = self.B; f = I.fn
        if src is not None and 'discarded' not in F and (mmc and ('+', B['ZERO']) in F or not mmc and {('+', 'zero0'), ('+', 'zero1')} & F):
            self.error('zero', I, 'a block counts as zero although its memory was not given back')
        if names & FREE and src in USED:
            if not mmc or src != 'to_sweep' or 'unmarked' not in F: self.error('used', I, 'a block that may have live objects is offered for allocation')
            elif 'cleared' not in F: self.error('uncleared', I, 'a block is offered for allocation with what is known of its dead objects')
        if 'paged_out' in names:
            idx = {index_of(f, x[1]) for x in dest}
            if mmc:
                if src != 'paged_out' and ('+', B['UNAVAILABLE']) not in F: self.error('available', I, 'a block that is taken out of use is not marked as unavailable')
                if ('-', B['UNAVAILABLE']) in F: self.error('available', I, 'a block that is not in use is marked as available')
            if 'discarded' in F:
                if mmc and not {('+', B['ZERO']), ('+', B['PAGED_OUT'])} <= F: self.error('zero', I, 'a block whose memory was given back is not marked as such')
                if not mmc and not {('-', 'core'), ('+', 'zero0'), ('+', 'zero1')} <= F: self.error('zero', I, 'a block whose memory was given back is not marked as such')
                if src == 'paged_out' and len(idx) == 1:
                    i = next(iter(idx))
                    if isinstance(i, int) and i != self.last(): self.error('requeued', I, 'a block whose memory was given back is put where it will be given back again')
            elif src == 'paged_out':
                i = next(iter(idx)) if len(idx) == 1 else None
                if isinstance(i, tuple): i = i[1]
                if i is not None and i >= self.last(): self.error('undiscarded', I, 'a block counts as given back to the operating system although its memory was not')
        else:
            if mmc and src == 'paged_out' and ('-', B['UNAVAILABLE']) not in F: self.error('unavailable', I, 'a block that is put to use again is still marked as unavailable')
            if mmc and ('+', B['UNAVAILABLE']) in F: self.error('unavailable', I, 'a block that is in use is marked as unavailable')
            if 'discarded' in F: self.error('discard', I, 'a block whose memory was given back is put to use')
    def last(self): return self.B['QUEUE'] - 1
    def keep(self, st, I):
        f = I.fn; w, key = self.where(f, I.ops[0]); d = self.toks(st); k = self.rk(f, I.ptr()); alloc = self.al(st, k)
        self.hits.setdefault('keep', {})[(f.name, I.id)] = I
        if isinstance(alloc, tuple) and w != 'slot' and d.get(alloc[1], (0, 'held'))[1] != 'gone' and alloc[1] != key or alloc == 'has':
            if w is not None or self.al(st, ('owed', k)) != 'unknown': self.error('lost', I, 'an allocator forgets a block that is on no list')
            else: st = self.setal(st, ('owed', k), (f.name, I.id, alloc[1] if isinstance(alloc, tuple) else None))    # it may be put on a list now
        if w is None: return self.setal(st, k, 'empty')
        if w == 'pop':
            t = d.get(key)
            if t and t[1] == 'maybe': self.error('unchecked', I, 'an allocator is given a block without a test that there was one')
            if t and t[1] == 'gone': self.error('twice', I, 'an allocator is given a block that is on a list')
            return self.setal(self.put(st, key, 'kept'), k, ('has', key))
        return self.setal(st, k, 'unknown')
    def assume(self, st, I, p, L, R):
        f = I.fn
        if p in ('ult', 'ugt', 'ne'):
            a, b = (inst(f, x) for x in ((R, L) if p == 'ugt' else (L, R)))
            if p == 'ne' and a is not None and a.op == 'load' and a.field() == 'nofl_allocator.sweep': a, b = b, a
            if a is not None and b is not None and a.op == b.op == 'load' and b.field() == 'nofl_allocator.sweep':
                x, y = f.resolve_ptr(a.ptr()), f.resolve_ptr(b.ptr())
                if a.field() in (None, 'nofl_allocator.alloc') and x[0] == y[0] and x[2] == 0 and not x[3]:
                    return [self.setal(st, ('room', self.rk(f, b.ptr())), 1)]
        if p not in ('eq', 'ne'): return None
        if not (R[0] == 'null' or const_of(R) == 0): return None
        f = I.fn; self.cf = self.facts(); v = self.resolve(f, L); J = inst(f, v)
        while J is not None and J.op in ('zext', 'shl', 'trunc'): v = self.resolve(f, J.ops[0]); J = inst(f, v)
        if J is None: return None
        if p == 'eq' and J.op == 'load' and J.field() == 'nofl_block_summary.fragmentation_granules':
            # a block is on that list only if it has room (rule 'room')
            w, key = self.where(f, f.root_of(J.ptr()))
            t = self.toks(st).get(key) if w == 'pop' else None
            if t is not None and t[2] == 'partly_full': return []
        if J.op == 'load' and is_mmc(self.cfg) and name(J) is None:
            k = self.origin(f, J.ptr()); t = self.toks(st).get((f.name, k)) if k is not None else None
            if t is not None and p == 'eq' and J.ty == 'i8' and self.per(f, J.ptr(), self.B['SIZE']): return [self.put(st, t[0], flags=t[3] | {'unmarked'})]
        if name(J) in POPS:
            key = (f.name, J.id); t = self.toks(st).get(key)
            if t is None: return None
            if p == 'ne' and t[1] == 'null' or p == 'eq' and t[1] in ('held', 'kept', 'gone'): return []
            return [self.put(st, key, 'null' if p == 'eq' else ('held' if t[1] == 'maybe' else t[1]))]
        if J.op == 'load' and is_slot(J):
            k = self.rk(f, J.ptr()); a = self.al(st, k)
            if p == 'eq':
                if isinstance(a, tuple) or a == 'has': return []
                return [self.setal(st, k, 'empty')] if a in ('unknown', 'empty') else None
            if a == 'empty': return []
            return [self.setal(st, k, 'has')] if a == 'unknown' else None
        return None
    def enter(self, st, f, s):
        """a block that is computed again is another one"""
        keep = []
        for t in st[0]:
            if t[0][0] == f.name and len(t[0]) == 2 and t[1] in ('ext', 'gone', 'null'):
                J = f.insts.get(t[0][1])
                if J is not None and (J.block == s or not f.block_dominates(J.block, s)): continue
            keep.append(t)
        return (frozenset(keep), st[1]) if len(keep) != len(st[0]) else st
    def given(self, st, I):
        f = I.fn; d = dict(st[1])
        for o in I.ops:
            if o[0] == 'v' and f.name in I.fn.name:
                k = self.rk(f, o)
                if k != 'S' and k in d: return k
        return 'S'
    def map_in(self, st, I, t):
        a = self.al(st, self.given(st, I))
        room = [(('room', 'S'), 1)] if self.al(st, ('room', self.given(st, I))) == 1 else []
        return (frozenset(), frozenset([('S', 'has' if isinstance(a, tuple) else a)] + room))
    def map_out(self, a, o, I, t):
        k = self.given(a, I); was = self.al(a, k); now = self.al(o, 'S')
        a = self.setal(a, ('room', k), 'unknown')
        return self.setal(a, k, was if now == 'has' and isinstance(was, tuple) else now)
    def ret(self, st, I):
        f = I.fn; self.cf = self.facts()
        got = None
        if I.ops:
            v = self.resolve(f, I.ops[0]); J = inst(f, v)
            while J is not None and J.op == 'insertvalue':
                w = self.resolve(f, J.ops[1]); K = inst(f, w)
                if K is not None and name(K) in POPS: got = (f.name, K.id)
                J = inst(f, J.ops[0])
            if J is not None and name(J) in POPS: got = (f.name, J.id)
        for t in st[0]:
            if t[1] in ('held', 'maybe') and t[0] != got and t[0][0] == f.name:
                self.error('dropped', f.insts[t[0][1]], 'a block that was taken from a list may be forgotten')
        for k, a in st[1]:
            if k == 'S' and a == 'stale': self.error('stale', I, 'an allocator keeps a block that it has put on a list')
            if k[0] == 'owed': self.error('lost', f.insts[a[1]], 'an allocator forgets a block that is on no list')
            if k[0] in ('room', 'owed'): continue
            if k != 'S' and k[0] == f.name and (a == 'has' or isinstance(a, tuple)): self.error('lost', I, 'an allocator ends without giving back the block it has')
        a = self.al(st, 'S')
        return (frozenset(), frozenset([('S', 'has' if isinstance(a, tuple) else a)]))

def blockish(f, v, d=0, seen=None):
    seen = set() if seen is None else seen
    J = inst(f, v)
    if J is None or J.id in seen or d > 10: return False
    seen.add(J.id)
    if J.op == 'load': return (J.field() or '').startswith(('nofl_', 'copy_space')) and 'slab' not in J.field()
    return any(blockish(f, o[0] if J.op == 'phi' else o, d + 1, seen) for o in J.ops)

def index_of(f, p):
    """the constant index into a queue of lists"""
    v = list(p); var = None
    for _ in range(8):
        I = inst(f, v)
        if I is None or I.op != 'getelementptr': break
        if var is None and f.fields_of(v) and any(x.endswith('.paged_out') for x in f.fields_of(v)):
            J = I
            g = I.raw['gep']
            src = g['src']
            if src.startswith('['): return const_of(I.ops[-1]) if const_of(I.ops[-1]) is not None else ('up to', index_max(f, I.ops[-1], I.block))
        v = I.ops[0]
    return 0

def index_max(f, v, at, d=0):
    """the largest value v can have in block at, or None"""
    c = const_of(v)
    if c is not None: return c
    I = inst(f, strip(f, v))
    if I is None or d > 6: return None
    for T, s in f.all_control_deps(at):
        for p, L, R in q.edge_atoms(f, T, s):
            if p in ('ult', 'slt', 'ule', 'sle') and const_of(R) is not None and tuple(strip(f, L)[:2]) == ('v', I.id):
                return const_of(R) - (p in ('ult', 'slt'))
    if I.op in ('add', 'sub') and const_of(I.ops[1]) is not None:
        x = index_max(f, I.ops[0], at, d + 1)
        return None if x is None else x + const_of(I.ops[1]) if I.op == 'add' else x - const_of(I.ops[1])
    if I.op == 'phi':
        xs = [index_max(f, o, b, d + 1) for o, b in I.ops if not dec(f, o, I)]
        return None if None in xs or not xs else max(xs)
    if I.op == 'select':
        xs = [index_max(f, o, at, d + 1) for o in I.ops[1:]]
        return None if None in xs else max(xs)
    return None

def size_of(m, t):
    T = m.types.get(t) or m.types.get('struct.' + t) or {}
    return T['size'] // 8 if T.get('size') else None

def counted_loop(f, I):
    """blocks are taken as often as the list was counted to have some"""
    src = listname(f, I.ops[0])
    for h, body in f.loops().items():
        if I.block not in body: continue
        for P in f.blocks[h]:
            if P.op != 'phi': continue
            inn = [o for o, b in P.ops if b not in body]; back = [o for o, b in P.ops if b in body]
            if not any((x.field() or '').endswith('.count') and listname(f, x.ptr()) == src for o in inn for x in q.value_loads(f, o, 4)): continue
            if all(dec(f, o, P) for o in back) and decides(f, body, P, I.block): return True
    return False

def dec(f, o, P):
    J = inst(f, o)
    return J is not None and (J.op == 'add' and const_of(J.ops[1]) == -1 or J.op == 'sub' and const_of(J.ops[1]) == 1) and tuple(J.ops[0][:2]) == ('v', P.id)

def decides(f, body, P, at):
    """block at is reached only if a test of P says so"""
    def tests(v, d=0):
        """P plus or minus something"""
        J = inst(f, v)
        if tuple(v[:2]) == ('v', P.id): return True
        return J is not None and d < 5 and J.op in ('add', 'sub', 'zext', 'sext', 'trunc', 'freeze') and any(tests(o, d + 1) for o in J.ops)
    def implies(v, truth, d=0):
        """v == truth implies that P is large enough"""
        J = inst(f, v)
        if J is None or d > 8: return False
        if J.op == 'icmp': 
            if J.raw.get('pred') in ('ne', 'eq') and const_of(J.ops[1]) == 0:
                K = inst(f, J.ops[0])
                while K is not None and K.op in ('zext', 'freeze'): K = inst(f, K.ops[0])
                if K is not None and K.op in ('icmp', 'phi', 'select', 'and', 'or', 'xor') and (K.ty == 'i1'): return implies(['v', K.id], truth if J.raw['pred'] == 'ne' else not truth, d + 1)
            p = J.raw.get('pred')
            if not truth: p = q.NEG.get(p)
            if tests(J.ops[0]): return p in ('ne', 'ugt', 'uge', 'sgt', 'sge')
            return tests(J.ops[1]) and p in ('ne', 'ult', 'ule', 'slt', 'sle')
        if J.op in ('zext', 'freeze'): return implies(J.ops[0], truth, d + 1)
        if J.op == 'xor' and const_of(J.ops[1]) in (-1, 1): return implies(J.ops[0], not truth, d + 1)
        if J.op in ('and', 'or'):
            n = sum(1 for o in J.ops if implies(o, truth, d + 1))
            return n > 0 if (J.op == 'and') == truth else n == len(J.ops)
        alts = None
        if J.op == 'select': alts = [(J.ops[1], implies(J.ops[0], True, d + 1)), (J.ops[2], implies(J.ops[0], False, d + 1))]
        if J.op == 'phi': alts = [(o, reached(b, d + 1) or edge(b, J.block, d + 1)) for o, b in J.ops]
        if alts is None: return False
        return all(known or (const_of(o) is not None and bool(const_of(o) & 1) != truth) or implies(o, truth, d + 1) for o, known in alts)
    def edge(b, s, d):
        T = f.terminator(b)
        if T.op != 'br' or not T.ops or len(set(f.succ[b])) < 2: return False
        return implies(T.ops[0], s == T.raw['succ'][0], d)
    memo = {}
    def reached(b, d=0):
        """block b is reached in this turn only if a test of P says so"""
        if b in memo: return memo[b]
        memo[b] = False
        if d > 8 or b == P.block or b not in body: return False
        ps = [x for x in body if b in f.succ[x]]
        memo[b] = bool(ps) and all(edge(x, b, d + 1) or reached(x, d + 1) for x in ps)
        return memo[b]
    return reached(at)

@rule('block-ownership', 'C19', 'C20', 'C12', configs=lambda c: is_mmc(c) or is_pcc(c), load=dict(keep=POPS + PUSHES), limits=())
def block_ownership(ctx, m, cfg):
    if is_mmc(cfg):
        B = {n: m.enum_value('NOFL_BLOCK_' + n) for n in ('UNAVAILABLE', 'ZERO', 'PAGED_OUT')}
        if None in B.values(): raise AnalysisError('flags of blocks not found')
    else: B = {}
    B['QUEUE'] = 4; B['SIZE'] = size_of(m, 'nofl_block' if is_mmc(cfg) else 'copy_space_block_payload') or 0
    n = dict(pop=0, push=0, keep=0)
    for f in m.defined():
        if f.name in POPS + PUSHES: continue
        if not any(name(I) in POPS + PUSHES + (DISCARD,) for I in f.all()): continue
        if not any(name(I) in POPS + PUSHES for I in f.all()): continue
        A = Blocks(m, cfg, B); A.descend = True
        A.run(f.name, (frozenset(), frozenset([('S', 'unknown')])))
        q.report(ctx, A)
        for k, v in A.hits.items():
            for (fn, _), I in v.items():
                if fn == f.name:
                    n[k] = n.get(k, 0) + 1
                    ctx.ok({'pop': 'blocks taken', 'push': 'blocks put on lists', 'keep': 'blocks given to allocators', 'discard': 'blocks paged out'}[k], I)
    for k, v in n.items(): ctx.need('blocks: ' + k, v, 1)

# ---- the lists themselves
HEAD = ('nofl_block_list.blocks', 'copy_space_block_list.head', 'copy_space_block_stack.list', 'nofl_block_stack.list')
LINK = ('nofl_block_summary.next_and_flags', 'copy_space_block.next')
COUNT = 'nofl_block_list.count'
THROUGH = ('phi', 'and', 'or', 'add', 'mul', 'udiv', 'lshr', 'sub', 'getelementptr', 'inttoptr', 'ptrtoint', 'extractvalue', 'insertvalue', 'select', 'bitcast', 'freeze', 'zext', 'shl')

def sources(f, v, seen=None, out=None):
    """loads, parameters and constants that v is made of"""
    out = set() if out is None else out; seen = set() if seen is None else seen
    I = inst(f, v)
    if I is None:
        out.add(tuple(v[:2])); return out
    if I.id in seen: return out
    seen.add(I.id)
    if I.op in THROUGH:
        for o in I.ops:
            o = o[0] if I.op == 'phi' else o
            if const_of(o) is None and o[0] not in ('null', 'undef'): sources(f, o, seen, out)
            elif I.op in ('phi', 'select', 'insertvalue') : out.add(('null',) if const_of(o) == 0 or o[0] == 'null' else ('const',))
    else: out.add(('v', I.id))
    return out

class Lists(Automaton):
    """one list operation; state: (link set to what it should be, done, change of the count, unlinked, list known to be empty)"""
    descend = False
    def __init__(self, mod, push, mask): super().__init__(mod); self.push = push; self.mask = mask; self.n = 0; self.pubs = set()
    def fld(self, I):
        F = I.field() if I.op in ('load', 'store', 'cmpxchg', 'atomicrmw') else None
        if F is None and I.op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
            b, _, off, var = I.fn.resolve_ptr(I.ptr())
            if tuple(b[:2]) == ('a', 0) and off == 0 and not var: return HEAD[1] if self.mask is None else COUNT
        return F
    def relevant(self, I): return I.op in ('load', 'store', 'cmpxchg', 'atomicrmw', 'ret')
    def watch_key(self): return 'lists'
    def from_head(self, f, v, only=True):
        s = sources(f, v) - {('null',)}
        h = {x for x in s if x[0] == 'v' and (self.fld(f.insts[x[1]]) in HEAD)}
        return bool(h) and (not only or h == s)
    def link_of(self, f, v):
        """v is (part of) the link of the block at the head"""
        s = sources(f, v) - {('null',)}
        return bool(s) and all(x[0] == 'v' and f.insts[x[1]].op == 'load' and self.fld(f.insts[x[1]]) in LINK and self.from_head(f, f.insts[x[1]].ptr()) for x in s)
    def masked(self, f, v, lo):
        """the link without the flags, or the flags without the link"""
        if self.mask is None: return True
        I = inst(f, v)
        while I is not None and I.op in ('phi', 'inttoptr', 'ptrtoint'):
            o = [x[0] if I.op == 'phi' else x for x in I.ops]
            o = [x for x in o if const_of(x) is None]
            if not o: return True
            I = inst(f, o[0])
        return I is not None and I.op == 'and' and any(const_of(o) is not None and const_of(o) & ((1 << 64) - 1) == (self.mask if lo else self.mask ^ ((1 << 64) - 1)) for o in I.ops)
    def contains(self, f, v, w):
        """v is w with other bits added"""
        a, b = strip(f, v), strip(f, w)
        if tuple(a[:2]) == tuple(b[:2]): return True
        I = inst(f, a)
        return I is not None and I.op in ('or', 'add') and any(self.contains(f, o, w) for o in I.ops)
    def step(self, st, I):
        link, done, n, un, empty = st; f = I.fn; F = self.fld(I) if I.op in ('store', 'cmpxchg', 'atomicrmw') else None
        if F in LINK and I.op == 'store':
            self.n += 1; base = f.root_of(I.ptr()); v = I.ops[0]
            if self.push:
                if base[0] != 'a': return None
                if done: self.error('late', I, 'a block is linked after it is on the list')
                s = sources(f, v)
                own = {x for x in s if x[0] == 'v' and self.fld(f.insts[x[1]]) in LINK}
                h = {x for x in s if x[0] == 'v' and self.fld(f.insts[x[1]]) in HEAD}
                if not h: self.error('link', I, 'a block that is put on a list is not linked to the rest'); return None
                if self.mask is not None and not self.flags_kept(f, v): self.error('flags', I, 'a block that is put on a list loses its flags or keeps an old link')
                return [(I.id, done, n, un, empty)]
            if not self.from_head(f, I.ptr(), False) and not any(x[0] == 'v' for x in sources(f, I.ptr())): return None
            if not done: self.error('early', I, 'a block is unlinked before it is taken off the list')
            ok = const_of(v) == 0 or v[0] == 'null' if self.mask is None else self.masked(f, v, True) and not any(x[0] == 'v' and self.fld(f.insts[x[1]]) in HEAD for x in sources(f, v))
            return [(link, done, n, 1 if ok else un, empty)]
        if not self.push and I.op == 'load' and I.field() in LINK and self.from_head(f, I.ptr()): return [(I.id, done, n, un, empty)]
        if F in HEAD:
            self.n += 1
            cas = I.op == 'cmpxchg'
            new = I.ops[2] if cas else I.ops[0]
            if self.push:
                if strip(f, new)[0] != 'a': self.error('head', I, 'what is put at the head of the list is not the block')
                if link is None: self.error('link', I, 'a block is on the list before it is linked to the rest')
                elif cas and not self.contains(f, f.insts[link].ops[0], I.ops[1]): self.error('expected', I, 'the head is replaced although it may not be what the block was linked to')
            else:
                if not self.link_of(f, new): self.error('head', I, 'what is put at the head of the list is not the block after the one that is taken')
                elif not self.masked(f, new, False): self.error('head', I, 'what is put at the head of the list is not a block')
                if ('v', link) not in sources(f, new): self.error('stale', I, 'the head is replaced by what came after another block')
                if cas and not self.from_head(f, I.ops[1]): self.error('expected', I, 'the head is replaced although it may not be the block that is taken')
            if cas: self.pubs.add(I.id); return None
            if done: self.error('again', I, 'the list is changed twice')
            self.pubs.add(I.id); return [(link, 1, n, un, empty)]
        if F == COUNT:
            self.n += 1; d = q.delta_of_store(I) if I.op == 'store' else None
            if I.op == 'atomicrmw':
                c = const_of(I.ops[1]); d = None if c is None else c if I.raw.get('rmw') == 'add' else -c if I.raw.get('rmw') == 'sub' else None
            if I.op == 'store' and not isinstance(d, int): d = self.delta(f, I)
            if d is None or abs(d) > 1: self.error('count', I, 'the count of a list changes by other than one'); return None
            return [(link, done, max(-2, min(2, n + d)), un, empty)]
        return None
    def delta(self, f, I):
        J = inst(f, I.ops[0])
        if J is not None and J.op in ('add', 'sub') and const_of(J.ops[1]) is not None:
            L = inst(f, J.ops[0])
            if L is not None and L.op == 'load' and self.fld(L) == COUNT: return const_of(J.ops[1]) if J.op == 'add' else -const_of(J.ops[1])
        return None
    def flags_kept(self, f, v):
        I = inst(f, v)
        if I is None or I.op not in ('or', 'add'): return False
        for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
            A = inst(f, a)
            if A is not None and A.op == 'and' and self.masked(f, a, True) and any(x[0] == 'v' and self.fld(f.insts[x[1]]) in LINK for x in sources(f, a)) and self.from_head(f, b): return True
        return False
    def assume(self, st, I, p, L, R):
        if p not in ('eq', 'ne') or not (R[0] == 'null' or const_of(R) is not None): return None
        f = I.fn; link, done, n, un, empty = st
        J = inst(f, L)
        if J is None: return None
        if J.op == 'extractvalue' and J.ty == 'i1':
            C = inst(f, J.ops[0])
            if C is not None and C.op == 'cmpxchg' and self.fld(C) in HEAD:
                won = (const_of(R) & 1 == 1) == (p == 'eq')
                return [(link, 1, n, un, empty)] if won else [(None, done, n, un, 0)]
        if (R[0] == 'null' or const_of(R) == 0) and J.ty in ('ptr', 'i64') and self.from_head(f, L) and not done:
            if p == 'ne' and empty == 1: return []
            if p == 'eq' and empty == 2: return []
            return [(link, done, n, un, 1 if p == 'eq' else 2)]
        return None
    def taken(self, f, v):
        """v was read from the head before the list was changed"""
        h = [f.insts[x[1]] for x in sources(f, v) if x[0] == 'v' and self.fld(f.insts[x[1]]) in HEAD]
        return bool(h) and all(x.op == 'cmpxchg' or any(f.dominates(x, f.insts[p]) for p in self.pubs) for x in h)
    def ret(self, st, I):
        link, done, n, un, empty = st; f = I.fn; counted = self.mask is not None
        if self.push:
            if not done: self.error('given-up', I, 'a block that is to be put on a list may be on none')
            elif counted and n != 1: self.error('count', I, 'a block is put on a list but the count does not follow')
        elif done:
            if not un: self.error('unlink', I, 'a block that is taken off a list keeps its link')
            if counted and n != -1: self.error('count', I, 'a block is taken off a list but the count does not follow')
            if not self.taken(f, I.ops[0]): self.error('result', I, 'the block that is taken off the list is not the one that is returned')
        else:
            if empty != 1: self.error('given-up', I, 'no block is taken although the list may have one')
            if counted and n: self.error('count', I, 'no block is taken off a list but the count changes')
        return st

@rule('block-lists', 'C19', configs=lambda c: is_mmc(c) or is_pcc(c), load=dict(keep=POPS + PUSHES), limits=())
def block_lists(ctx, m, cfg):
    mask = size_of(m, 'nofl_block') if is_mmc(cfg) else None
    if is_mmc(cfg) and not mask: raise AnalysisError('size of blocks not found')
    n = 0
    for name_ in POPS + PUSHES:
        f = m.fn(name_)
        if f is None: continue
        A = Lists(m, name_ in PUSHES, mask - 1 if mask else None)
        A.run(f.name, (None, 0, 0, 0, 0))
        q.report(ctx, A); n += 1
        ctx.ok('operations on lists of blocks', next(iter(f.all())))
    ctx.need('operations on lists of blocks', n, 3)

# ---- regions of the semi-space collector
def region_of(f, p):
    for n in f.fields_of(p):
        if n in ('semi_space.to_space', 'semi_space.from_space'): return n
    return None

def region_loads(f, v, field, seen=None):
    """loads of a field that v is computed from"""
    seen = set() if seen is None else seen; out = []
    I = inst(f, v)
    if I is None or I.id in seen: return out
    seen.add(I.id)
    if I.op == 'load':
        return [I] if I.field() == field else []
    for o in I.ops: out += region_loads(f, o[0] if I.op == 'phi' else o, field, seen)
    return out

@rule('region-release', 'C20', configs=lambda c: c == 'semi', load=dict(), limits=())
def region_release(ctx, m, cfg):
    n = 0
    for f in m.defined():
        for I in f.all():
            if not I.is_call() or I.callee_name() not in (DISCARD, 'gc_platform_release_memory'): continue
            bases = region_loads(f, I.ops[0], 'region.base')
            if not bases: continue
            n += 1; ctx.ok('parts of regions that are given back', I)
            if len(bases) != 1: ctx.bad('part', I, 'what is given back is not part of one region'); continue
            R = region_of(f, bases[0].ptr())
            P, pc = q.lin(f, I.ops[0], False); S, sc = q.lin(f, I.ops[1], False)
            A = dict(P); A['region.base'] = A.get('region.base', 0) - 1; A = {k: x for k, x in A.items() if x}
            if I.callee_name() == DISCARD:
                W = [J for J in f.all() if J.op == 'store' and J.field() == 'region.active_size' and region_of(f, J.ptr()) == R and f.dominates(J, I)]
                if not W: ctx.bad('active', I, 'part of a region is given back although the region still counts it as usable'); continue
                W = max(W, key=lambda J: (len([K for K in W if f.dominates(K, J)])))
                V, vc = q.lin(f, W.ops[0], False)
                T = dict(V)
                for k, x in S.items(): T[k] = T.get(k, 0) + x
                T = {k: x for k, x in T.items() if x}
                reread = A == {'region.active_size': 1} and pc == 0 and all(f.dominates(W, L) for L in region_loads(f, I.ops[0], 'region.active_size'))
                if (A, pc) != (V, vc) and not reread: ctx.bad('start', I, 'what is given back does not begin where the usable part of the region ends')
                if T != {'region.active_size': 1} or vc + sc != 0: ctx.bad('size', I, 'what is given back is not what the region has lost')
            elif A == {} and pc == 0 and S == {'region.mapped_size': 1} and sc == 0:
                # a whole region: its place must be taken by another one, and only the empty half may go
                new = [J for J in f.all() if J.op == 'store' and J.field() == 'region.base' and region_of(f, J.ptr()) == R]
                if not any((f.postdominates(J, I) or f.dominates(J, I) and all(f.dominates(L, J) for L in bases)) and strip(f, J.ops[0])[:2] != strip(f, I.ops[0])[:2] for J in new): ctx.bad('replaced', I, 'a region goes on using memory that was given back')
                if R != 'semi_space.from_space' and f.name != 'gc_init': ctx.bad('half', I, 'the half of the heap that has the objects is given back')
            else:
                mp = [J for J in f.all() if J.op == 'store' and J.field() == 'region.mapped_size' and region_of(f, J.ptr()) == R]
                if not any(f.postdominates(J, I) and q.lin(f, J.ops[0], False) == (A, pc) for J in mp): ctx.bad('mapped', I, 'a region counts as its own what was given back')
        for I in f.all():
            # the end of the heap comes nearer: what is cut off must lie beyond the last object
            if I.op != 'store' or I.field() != 'semi_space.limit': continue
            V, vc = q.lin(f, I.ops[0], False)
            if V.get('semi_space.limit') != 1: continue
            W = {k: x for k, x in V.items()}; W['semi_space.hp'] = W.get('semi_space.hp', 0) - 1
            W = {k: x for k, x in W.items() if x}
            room = False
            for T, s in f.all_control_deps(I.block):
                for p, L, R in q.edge_atoms(f, T, s):
                    if p is None: continue
                    a, ac = q.lin(f, L, False); b, bc = q.lin(f, R, False)
                    for k, x in b.items(): a[k] = a.get(k, 0) - x
                    a = {k: x for k, x in a.items() if x}; ac -= bc
                    if p in ('ult', 'ule', 'slt', 'sle'): a = {k: -x for k, x in a.items()}; ac = -ac; p = q.SWAP[p]
                    if p in ('uge', 'ugt', 'sge', 'sgt') and a == W and ac <= vc: room = True
            if room: ctx.ok('cuts beyond the last object', I)
            else: ctx.bad('live', I, 'the usable part of the heap is made smaller without looking whether objects are in what is cut off')
    ctx.need('parts of regions that are given back', n, 2)
