"""C15: options are validated before use."""
from core import rule, is_mmc, is_pcc, is_semi, is_bdw, AnalysisError
import q
from ts import Automaton, const_of, key_of

SETTERS = {'int': 'gc_common_options_set_int', 'size': 'gc_common_options_set_size', 'double': 'gc_common_options_set_double'}
TYPE = {'heap_size_policy': 'int', 'parallelism': 'int', 'heap_size': 'size', 'maximum_heap_size': 'size', 'heap_size_multiplier': 'double', 'heap_expansiveness': 'double'}
# the documented ranges; None: every value of the type
RANGE = {'parallelism': (1, 64), 'heap_size': None, 'maximum_heap_size': None, 'heap_size_multiplier': (1.0, 1e6), 'heap_expansiveness': (0.0, 50.0)}
LMAX = (1 << 63) - 1; UMAX = (1 << 64) - 1

def num(v):
    if v[0] == 'fp':
        try: return float(v[1])
        except ValueError: return None
    return const_of(v)

def spec(m):
    r = dict(RANGE)
    e = dict(m.enums.get('gc_heap_size_policy') or ())
    if len(e) < 3: raise AnalysisError('heap size policies not found')
    r['heap_size_policy'] = (min(e.values()), max(e.values()))
    opts = {}
    for k in r:
        v = m.enum_value('GC_OPTION_' + k.upper())
        if v is None: raise AnalysisError('option %s not found' % k)
        opts[v] = k
    return r, opts, e

class Base(Automaton):
    descend = False
    def __init__(self, mod, fn, **kw):
        super().__init__(mod); self.f = fn; self.hits = {}
        for k, v in kw.items(): setattr(self, k, v)
    def relevant(self, I): return I.fn is self.f
    def relevance_key(self): return (type(self).__name__, self.f.name)
    def watch_key(self): return (type(self).__name__, self.f.name)
    def watch(self, I):
        if I.fn is not self.f: return ()
        if I.is_call() and I.callee_name() in SETTERS.values():
            out = []; todo = [o for o in I.ops if o[0] == 'v']
            while todo:
                v = todo.pop()
                if tuple(v[:2]) in [tuple(x[:2]) for x in out]: continue
                out.append(v); J = self.f.insts[v[1]]
                if J.op in ('phi', 'mul', 'shl', 'trunc', 'zext', 'sext', 'freeze', 'extractvalue', 'select') or 'mul.with.overflow' in (J.is_call() and J.callee_name() or ''): todo += [o for o in ([x[0] for x in J.ops] if J.op == 'phi' else J.ops) if o[0] == 'v']
            return out
        if I.op in ('icmp', 'fcmp', 'mul', 'ret', 'call', 'store', 'sdiv', 'udiv', 'shl'): return [o for o in I.ops if o[0] == 'v']
        return ()
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def follow(self, v, thru=('freeze',), const=True):
        """the value that v is on this path"""
        fx = self.cur_facts()
        for _ in range(40):
            if v[0] != 'v': return v
            x = fx.get(('v', v[1]))
            if x and x[0] == 'is': v = x[1]; continue
            if x and x[0] == 'eq' and const: return ('c', x[1], 64)
            if self.f.insts[v[1]].op in thru: v = self.f.insts[v[1]].ops[0]; continue
            return v
        return v
    def arg(self, v, i): v = q.strip(self.f, self.follow(v)); return v[0] == 'a' and v[1] == i
    def cmp_of(self, p, L, R):
        """(predicate, left, right) of the comparison decided on this edge"""
        if L[0] == 'v' and const_of(R) == 0:
            J = self.f.insts[L[1]]
            if J.op == 'fcmp' and p in ('eq', 'ne'):
                a, b = self.follow(J.ops[0], const=False), self.follow(J.ops[1]); k = J.raw['pred']; t = p == 'ne'
                if a[0] == 'fp' and b[0] != 'fp':
                    k = {'l': 'g', 'g': 'l'}.get(k[1], k[1]).join((k[0], k[2:])) if k not in ('oeq', 'ueq', 'one', 'une', 'ord', 'uno') else k; a, b = b, a
                return ('f', k, t), a, b
        return p, self.follow(L, ('freeze', 'zext', 'sext'), False), self.follow(R, ('freeze', 'zext', 'sext'))

def names(mod, v):
    g = mod.globals.get(v[1]) if v[0] == 'g' else None
    return g.get('str') if g else None

class Setter(Base):
    """an accepted value is in range and goes into the option it names; only others are rejected"""
    def add(self, st, *xs): return [st | set(xs)]
    def assume(self, st, I, p, L, R):
        p, L, R = self.cmp_of(p, L, R)
        isv = lambda v: v[0] == 'a' and v[1] == 2
        if L[0] == 'a' and L[1] == 1:
            if p == 'eq' and const_of(R) is not None: return [frozenset(x for x in st if x[0] != 'opt') | {('opt', const_of(R))}]
            if p == 'in': return [frozenset(x for x in st if x[0] != 'opt') | {('opt', c)} for c in R]
            if p == 'ne' and const_of(R) is not None: return [] if ('opt', const_of(R)) in st else self.add(st, ('not', const_of(R)))
            return None
        if not isv(L): return None
        if isv(R):
            if isinstance(p, tuple): return self.add(st, ('ordered',)) if (p[1] in ('oeq', 'ord')) == p[2] and p[1] in ('oeq', 'ord', 'une', 'uno', 'one') else ([] if p[1] == 'one' else self.add(st, ('nan',)))
            return [] if p in ('ne', 'slt', 'sgt', 'ult', 'ugt') else None
        c = num(R)
        if c is None: return None
        below = any(x[0] == 'below' and x[1] <= c for x in st); above = any(x[0] == 'above' and x[1] >= c for x in st)
        if isinstance(p, tuple):
            _, k, t = p; r = k[1:]
            if k in ('oeq', 'ueq', 'one', 'une'):
                if (k[1:] == 'eq') == t: return [] if below or above else self.add(st, ('lo', c), ('hi', c), *([('ordered',)] if k[0] == 'o' or k == 'une' else []))
                return None
            o = k[0] == 'o'
            if not t:
                r = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}.get(r); o = not o
            if r is None: return None
            od = [('ordered',)] if o else []
            return self.add(st, {'lt': ('below', c), 'gt': ('above', c), 'le': ('hi', c), 'ge': ('lo', c)}[r], *od)
        if p == 'eq': return [] if below or above else self.add(st, ('lo', c), ('hi', c))
        if p == 'ne': return None
        if p[0] == 'u':
            c &= UMAX
            if p == 'ult' and c == 0 or p == 'ugt' and c in (UMAX, 0xffffffff): return []
            if p == 'uge' and c == 0 or p == 'ule' and c in (UMAX, 0xffffffff): return None
        return self.add(st, {'lt': ('below', c), 'le': ('hi', c), 'gt': ('above', c), 'ge': ('lo', c)}[p[1:]])
    def norm(self, st):
        lo = max([x[1] for x in st if x[0] == 'lo'] + [x[1] + 1 for x in st if x[0] == 'above' and self.type != 'double'] or [None], key=lambda x: float('-inf') if x is None else x)
        hi = min([x[1] for x in st if x[0] == 'hi'] + [x[1] - 1 for x in st if x[0] == 'below' and self.type != 'double'] or [None], key=lambda x: float('inf') if x is None else x)
        return lo, hi
    def step(self, st, I):
        fl = I.field() if I.op == 'store' else None
        if not fl or not fl.startswith('gc_common_options.'): return None
        n = fl.split('.')[1]; o = [x[1] for x in st if x[0] == 'opt']
        self.hit('values stored', I)
        if n not in self.R: raise AnalysisError('unknown option ' + n)
        if not o or self.opts.get(o[0]) != n: self.error('names', I, 'setting one option stores a value into another (%s)' % n)
        elif not self.arg(I.ops[0], 2): self.error('value', I, 'the value stored is not the value given')
        else:
            r = self.R[n]; lo, hi = self.norm(st)
            if r is not None:
                lo_ok = lo is not None and lo >= r[0]; hi_ok = hi is not None and hi <= r[1]
                if not lo_ok or not hi_ok: self.error('range', I, 'a value of %s that is too %s is accepted' % (n, 'small' if not lo_ok else 'big'))
                elif self.type == 'double' and ('ordered',) not in st: self.error('range', I, '%s accepts what is not a number' % n)
            self.done.add(n)
        return self.add(st, ('stored',))
    def ret(self, st, I):
        v = self.value(I.ops[0]) or {None}; o = [x[1] for x in st if x[0] == 'opt']; n = self.opts.get(o[0]) if o else None
        if ('stored',) in st:
            if v != {1}: self.error('result', I, 'an option is set and failure is reported')
            return None
        if 0 not in v or len(v) > 1: self.error('result', I, 'success is reported although no option was set')
        elif n and TYPE[n] == self.type:
            r = self.R[n]
            below = [x[1] for x in st if x[0] == 'below'] + [x[1] + 1 for x in st if x[0] == 'hi' and self.type != 'double']
            above = [x[1] for x in st if x[0] == 'above'] + [x[1] - 1 for x in st if x[0] == 'lo' and self.type != 'double']
            ok = r is not None and (any(c <= r[0] for c in below) or any(c >= r[1] for c in above)) or ('nan',) in st
            if not ok: self.error('rejects', I, 'a value of %s in its range is rejected' % n)
        elif not n:
            ex = {x[1] for x in st if x[0] == 'not'}
            for c, k in self.opts.items():
                if TYPE[k] == self.type and c not in ex and not o: self.error('rejects', I, 'option %s cannot be set' % k)
        return None

class Parse(Base):
    """what a string says is what is handed to the setter of the option it is for"""
    def parsed(self, v):
        """the number read from the string that v is computed from, and the multiplier"""
        f = self.f; mul = {1}; seen = []; self.ovf = []
        for _ in range(30):
            v = self.follow(v, ('freeze', 'sext', 'zext', 'trunc', 'sitofp', 'fpext', 'fptrunc'), False)
            if v[0] != 'v': return v, mul, seen
            I = f.insts[v[1]]
            if I.op in ('mul', 'shl'):
                x, y = I.ops
                if const_of(self.follow(x)) is not None: x, y = y, x
                k = self.value(y); k = k if k else {None}
                if I.op == 'shl': k = {None if z is None else 1 << z for z in k}
                mul = {None if a is None or b is None else a * b for a in mul for b in k}; seen.append((I, y)); v = x; continue
            if I.op == 'extractvalue' and I.ops[0][0] == 'v' and 'mul.with.overflow' in (f.insts[I.ops[0][1]].callee_name() or ''):
                J = f.insts[I.ops[0][1]]; k = self.value(J.ops[1]) or {None}; self.ovf.append(J.id)
                mul = {None if a is None or b is None else a * b for a in mul for b in k}; v = J.ops[0]; continue
            return v, mul, seen
        return v, mul, seen
    def number(self, v):
        v, mul, seen = self.parsed(v)
        if v[0] == 'v' and self.f.insts[v[1]].is_call() and (self.f.insts[v[1]].callee_name() or '').startswith(('strto', '__isoc23_strto')): return self.f.insts[v[1]]
        return None
    def endload(self, v):
        """v is the place where the number in the string ends"""
        v = q.strip(self.f, self.follow(v, const=False))
        if v[0] != 'v': return False
        I = self.f.insts[v[1]]
        while I.op == 'getelementptr' and I.ops[0][0] == 'v': I = self.f.insts[self.follow(I.ops[0])[1]]
        return I.op == 'load' and I.ty == 'ptr' and I.ptr()[0] == 'v' and self.f.insts[I.ptr()[1]].op == 'alloca'
    def assume(self, st, I, p, L, R):
        f = self.f; p, L, R = self.cmp_of(p, L, R); add = lambda *xs: [st | set(xs)]
        if L[0] == 'a' and L[1] == 1:
            if p == 'eq' and const_of(R) is not None: return [frozenset(x for x in st if x[0] != 'opt') | {('opt', const_of(R))}]
            if p == 'in': return [frozenset(x for x in st if x[0] != 'opt') | {('opt', c)} for c in R]
            if p == 'ne' and const_of(R) is not None: return [] if ('opt', const_of(R)) in st else add(('not', const_of(R)))
            return None
        if L[0] != 'v': L, R = (R, L) if R[0] == 'v' else (L, R)
        if L[0] != 'v': return None
        J = f.insts[L[1]]
        if J.op == 'extractvalue' and J.ty == 'i1' and J.ops[0][0] == 'v' and 'mul.with.overflow' in (f.insts[J.ops[0][1]].callee_name() or ''):
            return add(('high',)) if (p == 'ne') == (const_of(R) == 0) else add(('nov', J.ops[0][1]))
        if J.is_call() and J.callee_name() in SETTERS.values() and p in ('eq', 'ne') and const_of(R) == 0: return add(('res', int(p == 'ne')))
        if J.is_call() and J.callee_name() in ('strcmp', 'strcasecmp') and const_of(R) == 0:
            s = names(self.mod, J.ops[1]) or names(self.mod, J.ops[0])
            if s is not None: return add(('str', s)) if p == 'eq' else add(('nstr', s))
        n = self.number(L)
        if n is not None:
            c = const_of(R)
            if c is None and R[0] == 'v':
                D = f.insts[R[1]]
                if D.op in ('sdiv', 'udiv') and const_of(self.follow(D.ops[0])) is not None:
                    k = self.value(D.ops[1])
                    if k and None not in k and 0 not in k: c = max((const_of(self.follow(D.ops[0])) & UMAX) // x for x in k) if p in ('sle', 'ule', 'slt', 'ult') else min((const_of(self.follow(D.ops[0])) & UMAX) // x for x in k)
            if c is None: return None
            if p in ('sle', 'ule'): return add(('le', c))
            if p in ('slt', 'ult'): return add(('le', c - 1), ('low', c))
            if p in ('sge', 'uge'): return add(('ge', c))
            if p in ('sgt', 'ugt'): return add(('ge', c + 1), ('high', c))
            if p == 'eq': return add(('high', c) if c > 0 else ('low', c + 1))
            if p == 'ne': return add(('ne', c))
            return None
        if self.endload(L) and R[0] == 'a' and R[1] == 2: return add(('empty',)) if p == 'eq' else add(('some',))
        M = J; fold = False
        for _ in range(6):
            if M.op == 'trunc' or M.op in ('add', 'sub', 'or', 'xor', 'and') and const_of(M.ops[1]) is not None: fold = True; v = self.follow(M.ops[0], ('freeze', 'zext', 'sext', 'trunc'), False)
            elif M.op == 'call' and M.callee_name() in ('tolower', 'toupper'): fold = True; v = self.follow(M.ops[0], ('freeze', 'zext', 'sext', 'trunc'), False)
            elif M.op == 'phi': v = next((w for w in (self.follow(o[0], ('freeze', 'zext', 'sext', 'trunc'), False) for o in M.ops) if w[0] == 'v' and f.insts[w[1]].op == 'load'), None); fold = True
            else: break
            if v is None or v[0] != 'v': break
            M = f.insts[v[1]]
        if M.op == 'load' and M.ty == 'i8' and self.endload(M.ptr()):
            c = const_of(R)
            if c == 0: return [frozenset(x for x in st if x[0] != 'end') | {('end',)}] if p == 'eq' else add(('junk',))
            if c is not None and p == 'eq' and chr(c & 127).lower() in 'kmgtpe': [self.hit('suffix ' + x, I) for x in ((chr(c).lower(), chr(c).upper()) if fold else chr(c))]; return add(('suf', chr(c & 127).lower()))
        return None
    def step(self, st, I):
        f = self.f
        if I.op == 'store' and I.ptr()[0] == 'v' and f.insts[I.ptr()[1]].op == 'alloca' and f.insts[I.ptr()[1]].ty == 'ptr' and I.ops[0][0] == 'v' and f.insts[I.ops[0][1]].op == 'getelementptr':
            return [frozenset(x for x in st if x[0] != 'end') | {('adv',)}]
        if I.op == 'store' and (I.field() or '').startswith('gc_common_options.'): self.error('direct', I, 'an option is set from a string without its range being checked')
        if not I.is_call() or I.callee_name() not in SETTERS.values(): return None
        t = next(k for k, n in SETTERS.items() if n == I.callee_name())
        o = [x[1] for x in st if x[0] == 'opt']; n = self.opts.get(o[0]) if o else None
        self.hit('strings turned into values', I)
        oc = const_of(I.ops[1])
        if n is None or TYPE[n] != t: self.error('type', I, 'option %s is set by the wrong setter' % n); return [st | {('set', I.id)}]
        if not self.arg(I.ops[1], 1) and oc != o[0]: self.error('names', I, 'the value of one option is given to another')
        if not self.arg(I.ops[0], 0): self.error('names', I, 'the value is stored in other options than those given')
        self.done.add(n)
        v, mul, seen = self.parsed(I.ops[2]); c = num(self.follow(I.ops[2])); c = num(v) if c is None else c
        if c is not None:
            s = [x[1] for x in st if x[0] == 'str']
            if not s or n != 'heap_size_policy' or self.policies.get('GC_HEAP_SIZE_' + s[-1].upper()) != c: self.error('policy', I, 'a string is taken for a heap size policy that it does not name')
            else: self.named.add(s[-1])
            return [st | {('set', I.id)}]
        num_ = self.number(I.ops[2])
        if num_ is None: self.error('value', I, 'the value given to the setter is not what the string says'); return [st | {('set', I.id)}]
        cn = num_.callee_name()
        if not self.arg(num_.ops[0], 2): self.error('value', I, 'the value given to the setter is not read from the string')
        if ('some',) not in st: self.error('empty', I, 'a string without a number is accepted')
        if ('end',) not in st: self.error('junk', I, 'a number followed by something else is accepted')
        if (cn.endswith('d') or cn.endswith('f')) != (t == 'double'): self.error('value', I, 'the string is read as a number of the wrong type')
        if t == 'int':
            if not any(x[0] == 'ge' and x[1] >= -(1 << 31) for x in st) or not any(x[0] == 'le' and x[1] <= (1 << 31) - 1 for x in st):
                self.error('overflow', I, 'a number that does not fit is accepted as another one')
        if t == 'size':
            unsigned = 'toul' in cn; big = UMAX if unsigned else LMAX
            lo = any(x[0] == 'ge' and x[1] >= 0 for x in st) and not unsigned
            hi = [x[1] for x in st if x[0] == 'le']
            if not lo and not unsigned: self.error('negative', I, 'a negative size is accepted')
            if not any(x == ('ne', big) or x == ('ne', -1) for x in st) and not any(h < big for h in hi): self.error('overflow', I, 'a size that is too big is accepted as another one')
            suf = [x[1] for x in st if x[0] == 'suf']
            want = 1024 ** ('kmgtpe'.index(suf[-1]) + 1) if suf else 1
            if mul != {want}: self.error('suffix', I, 'the suffix of a size is taken for the wrong unit (%s)' % '/'.join(map(str, mul)))
            if suf and ('adv',) not in st: self.error('suffix', I, 'a size with a suffix is never accepted')
            for J in self.ovf:
                if ('nov', J) not in st: self.error('overflow', I, 'a size overflows when it is multiplied by its unit')
            if want > 1 and seen and not any(h * want <= UMAX for h in hi): self.error('overflow', I, 'a size overflows when it is multiplied by its unit')
        return [st | {('set', I.id)}]
    def ret(self, st, I):
        s = [x[1] for x in st if x[0] == 'set']; v = self.follow(I.ops[0], const=False); val = self.value(I.ops[0])
        o = [x[1] for x in st if x[0] == 'opt']
        if s:
            for _ in range(4):
                if v[0] == 'v' and self.f.insts[v[1]].op in ('zext', 'sext', 'freeze'): v = self.follow(self.f.insts[v[1]].ops[0], const=False)
                elif v[0] == 'v' and self.f.insts[v[1]].op == 'icmp' and self.f.insts[v[1]].raw['pred'] == 'ne' and const_of(self.f.insts[v[1]].ops[1]) == 0: v = self.follow(self.f.insts[v[1]].ops[0], const=False)
            res = {x[1] for x in st if x[0] == 'res'}
            if len(s) > 1 or not (v[0] == 'v' and v[1] == s[0] or len(res) == 1 and val == res or val != {1} and s[0] in leaves(self.f, I.ops[0], set())): self.error('result', I, 'what the setter reports is not reported to the caller')
        else:
            if val != {0}: self.error('result', I, 'success is reported although no option was set')
            elif o and o[0] in self.opts and not any(x[0] in ('empty', 'junk', 'low', 'high') for x in st): self.error('rejects', I, 'option %s cannot be set from a string' % self.opts[o[0]])
            elif not o:
                for c, k in self.opts.items():
                    if ('not', c) not in st: self.error('rejects', I, 'option %s cannot be set from a string' % k)
        return None

class Names(Base):
    """the option found is the one named"""
    def assume(self, st, I, p, L, R):
        p, L, R = self.cmp_of(p, L, R)
        if L[0] == 'v' and self.f.insts[L[1]].is_call() and self.f.insts[L[1]].callee_name() == 'strcmp' and const_of(R) == 0 and p in ('eq', 'ne'):
            J = self.f.insts[L[1]]; s = names(self.mod, J.ops[1]) or names(self.mod, J.ops[0])
            if s is not None: return [st | {('is' if p == 'eq' else 'not', s)}]
        return None
    def ret(self, st, I):
        v = self.value(I.ops[0]); s = [x[1] for x in st if x[0] == 'is']
        self.hit('names looked up', I)
        if v is None or len(v) != 1: self.error('names', I, 'the option found depends on something other than its name'); return None
        c = next(iter(v))
        if s:
            if self.opts.get(c, '').replace('_', '-') != s[-1]: self.error('names', I, 'the name of one option is taken for another (%s)' % s[-1])
            else: self.done.add(self.opts[c])
        elif c >= 0: self.error('names', I, 'an unknown name is taken for an option')
        return None

class Many(Base):
    """a list of settings is accepted only if each of its settings is"""
    def assume(self, st, I, p, L, R):
        p, L, R = self.cmp_of(p, L, R)
        if L[0] != 'v' or const_of(R) is None or isinstance(p, tuple): return None
        J = self.f.insts[L[1]]; c = const_of(R); n = J.callee_name() if J.is_call() else None
        if n == 'gc_option_from_string':
            if p == 'slt' and c <= 0 or p == 'eq' and c < 0 or p == 'sle' and c < 0: return [st | {'fail'}]
            if p == 'sge' and c >= 0 or p == 'sgt' and c >= -1: return [st | {('known', J.id)}]
            if p == 'ne' and c == -1: return [st | {('known', J.id)}]
        if n == 'gc_options_parse_and_set':
            if (p == 'eq') == (c == 0): return [st | {'fail'}]
            return [st | {'ok'}]
        if J.op == 'load' and J.ty == 'i8' and q.strip(self.f, J.ptr())[0] == 'a' and c == 0: return [st | {'none'}] if p == 'eq' else None
        return None
    def step(self, st, I):
        if not I.is_call(): return None
        if I.callee_name() == 'gc_option_from_string': return [frozenset(x for x in st if not isinstance(x, tuple))]
        if I.callee_name() == 'gc_options_parse_and_set':
            self.hit('settings in a list', I); o = q.strip(self.f, self.follow(I.ops[1], const=False))
            if not self.arg(I.ops[0], 0): self.error('many', I, 'a setting is stored in other options than those given')
            if not (o[0] == 'v' and self.f.insts[o[1]].is_call() and self.f.insts[o[1]].callee_name() == 'gc_option_from_string'): self.error('many', I, 'a setting is given to an option that it does not name')
            elif ('known', o[1]) not in st: self.error('many', I, 'a setting of an unknown option is not rejected')
            return [st - {'ok'}]
        return None
    def ret(self, st, I):
        v = self.value(I.ops[0])
        if 'fail' in st:
            if v != {0}: self.error('many', I, 'a list of settings is accepted although one of them was rejected')
        elif v != {0} and 'ok' not in st and 'none' not in st: self.error('many', I, 'a list of settings is accepted without being set')
        elif v == {1}: self.hit('lists accepted', I)
        return None

@rule('options', 'C15', configs=lambda c: c == 'mmc', load=dict(units=['gc-options.c'], user=False, keep=tuple(SETTERS.values())), debug=False, limits=(), compile_is_property=True)
def options(ctx, m, cfg):
    R, opts, pol = spec(m)
    for t, fn in SETTERS.items():
        f = m.fn(fn)
        if f is None or f.decl: raise AnalysisError(fn + ' not found')
        A = Setter(m, f, R=R, opts=opts, type=t, done=set()); A.run(fn, frozenset()); q.tally(ctx, A)
        for k in sorted(TYPE):
            if TYPE[k] == t and k not in A.done: ctx.bad('rejects', f.terminator(0), 'option %s cannot be set' % k)
    f = m.fn('gc_common_options_parse_and_set')
    if f is None or f.decl: raise AnalysisError('gc_common_options_parse_and_set not found')
    A = Parse(m, f, opts=opts, policies=pol, done=set(), named=set()); A.run(f.name, frozenset()); q.tally(ctx, A)
    for k in sorted(TYPE):
        if k not in A.done: ctx.bad('rejects', f.terminator(0), 'option %s cannot be set from a string' % k)
    for k in pol:
        if k[len('GC_HEAP_SIZE_'):].lower() not in A.named: ctx.bad('policy', f.terminator(0), 'a heap size policy cannot be given by its name (%s)' % k)
    for ch in 'kmgtKMGT':
        if 'suffix ' + ch not in A.hits: ctx.bad('suffix', f.terminator(0), 'sizes cannot be given with the suffix ' + ch)
    f = m.fn('gc_common_option_from_string')
    if f is None or f.decl: raise AnalysisError('gc_common_option_from_string not found')
    A = Names(m, f, opts=opts, done=set()); A.run(f.name, frozenset()); q.tally(ctx, A)
    for k in sorted(TYPE):
        if k not in A.done: ctx.bad('names', f.terminator(0), 'option %s is not known by its name' % k)
    f = m.fn('gc_options_parse_and_set_many')
    if f is None or f.decl: raise AnalysisError('gc_options_parse_and_set_many not found')
    A = Many(m, f); A.run(f.name, frozenset()); q.tally(ctx, A)
    if 'lists accepted' not in A.hits: ctx.bad('many', f.terminator(0), 'no list of settings is ever accepted')
    f = m.fn('gc_init_common_options')
    if f is None or f.decl: raise AnalysisError('gc_init_common_options not found')
    got = set()
    for I in f.all():
        fl = I.field() if I.op == 'store' else None
        if not fl or not fl.startswith('gc_common_options.'): continue
        n = fl.split('.')[1]; got.add(n); r = R.get(n); v = q.strip(f, I.ops[0]); c = num(v)
        if r is not None and c is not None and not r[0] <= c <= r[1]: ctx.bad('default', I, 'the default of %s is out of its range' % n)
        elif r is not None and c is None:
            lo, hi = bounds(f, v)
            if lo is None or hi is None or lo < r[0] or hi > r[1]: ctx.bad('default', I, 'the default of %s may be out of its range' % n)
            else: ctx.ok('defaults', I)
        else: ctx.ok('defaults', I)
    for k in sorted(TYPE):
        if k not in got: ctx.bad('default', f.terminator(0), 'option %s has no default' % k)

def bounds(f, v, depth=8):
    """constant bounds that a clamp puts on a value: of each value that v may be, compared with it"""
    v = q.strip(f, v); c = num(v)
    if c is not None: return c, c
    if v[0] != 'v' or depth == 0: return None, None
    I = f.insts[v[1]]
    if I.op == 'phi': arms = [(o[0], o[1]) for o in I.ops]
    elif I.op == 'select': arms = [(I.ops[1], ('t', I)), (I.ops[2], ('f', I))]
    else: return None, None
    los, his = [], []
    for o, b in arms:
        lo, hi = bounds(f, o, depth - 1)
        for p, L, R in guards(f, b):
            if tuple(q.strip(f, L)[:2]) != tuple(q.strip(f, o)[:2]) or num(R) is None: continue
            k = num(R)
            if p in ('sge', 'uge'): lo = k if lo is None else max(lo, k)
            if p in ('sgt', 'ugt'): lo = k + 1 if lo is None else max(lo, k + 1)
            if p in ('sle', 'ule'): hi = k if hi is None else min(hi, k)
            if p in ('slt', 'ult'): hi = k - 1 if hi is None else min(hi, k - 1)
        los.append(lo); his.append(hi)
    return (None if None in los else min(los)), (None if None in his else max(his))

def guards(f, b):
    from ts import atoms
    if isinstance(b, tuple): return atoms(f, b[1].ops[0], b[0] == 't')
    out = []; seen = set()
    while b not in seen:
        seen.add(b)
        ps = [p for p in range(len(f.blocks)) if f.blocks[p] and b in f.succ[p]]
        if len(ps) != 1: break
        T = f.terminator(ps[0])
        if T.op == 'br' and T.ops: out += q.edge_atoms(f, T, b)
        b = ps[0]
    return out

def leaves(f, v, seen):
    v = q.strip(f, v)
    if v[0] != 'v' or v[1] in seen: return set()
    seen.add(v[1]); I = f.insts[v[1]]
    if I.op == 'phi': return set().union(*[leaves(f, o[0], seen) for o in I.ops])
    if I.op in ('select', 'icmp'): return set().union(*[leaves(f, o, seen) for o in I.ops])
    return {I.id}

WRAP = {'gc_options_set_int': 'gc_common_options_set_int', 'gc_options_set_size': 'gc_common_options_set_size', 'gc_options_set_double': 'gc_common_options_set_double',
        'gc_options_parse_and_set': 'gc_common_options_parse_and_set', 'gc_option_from_string': 'gc_common_option_from_string'}

class Given(Base):
    """a collector started without options uses the default ones"""
    def isarg(self, v):
        v = self.follow(v)
        while v[0] == 'v' and self.f.insts[v[1]].op == 'getelementptr': v = self.follow(self.f.insts[v[1]].ops[0])
        return v[0] == 'a' and v[1] == 0
    def watch(self, I): return [o for o in I.ops if o[0] == 'v'] if I.fn is self.f and I.op in ('load', 'getelementptr', 'icmp') else ()
    def assume(self, st, I, p, L, R):
        if L[0] == 'a' and L[1] == 0 and p in ('eq', 'ne') and (const_of(R) == 0 or R[0] in ('null', 'z')): return [frozenset({'null' if p == 'eq' else 'given'})]
        return None
    def step(self, st, I):
        fl = I.field() if I.op == 'load' else None
        if fl and fl.startswith('gc_common_options.'):
            self.hit('options read', I)
            if self.isarg(I.ptr()) and 'given' not in st: self.error('null', I, 'gc_init reads options that it may not have been given')
        return None

@rule('option-forwarding', 'C15', 'C23', configs=lambda c: c in ('semi', 'pcc', 'mmc', 'bdw'), load={}, debug=False, limits=())
def forwarding(ctx, m, cfg):
    for w, g in WRAP.items():
        f = m.fn(w)
        if f is None or f.decl: ctx.bad('missing', next(m.defined()).terminator(0), w + ' is not defined'); continue
        calls = [I for I in f.all() if I.is_call() and I.callee_name() == g and I.block in f.live_blocks()]
        if len(calls) != 1: ctx.bad('forward', f.terminator(0), '%s does not do what it should: validate through %s' % (w, g)); continue
        C = calls[0]; good = True
        for i, o in enumerate(C.ops):
            if o[0] not in ('v', 'a', 'c', 'fp', 'g', 'f', 'null', 'z'): continue
            v = o
            while v[0] == 'v' and f.insts[v[1]].op in ('getelementptr', 'freeze'): v = f.insts[v[1]].ops[0]
            if i < len(f.args) and tuple(v[:2]) != ('a', i): good = False
        for b in f.live_blocks():
            T = f.terminator(b)
            if T.op == 'ret' and C.id not in leaves(f, T.ops[0], set()): good = False
        (ctx.ok('calls forwarded', C) if good else ctx.bad('forward', C, '%s passes on something other than what it was given' % w))
    f = m.fn('gc_allocate_options')
    if f is not None and not f.decl:
        c = [I for I in f.all() if I.is_call() and I.callee_name() == 'gc_init_common_options']
        if not c: ctx.bad('defaults', f.terminator(0), 'new options do not have their defaults')
        else: ctx.ok('defaults', c[0])
    f = m.fn('gc_init')
    if f is None or f.decl: raise AnalysisError('gc_init not found')
    A = Given(m, f); A.run('gc_init', frozenset()); q.tally(ctx, A)
