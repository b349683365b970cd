"""Finalizers: C10."""
from core import rule, own, is_mmc, is_pcc, is_semi, is_bdw, is_gen, AnalysisError
import q
from q import Automaton, const_of

API = ('gc_finalizer_init_internal', 'gc_finalizer_attach_internal', 'gc_finalizer_state_pop', 'gc_finalizer_externally_activated', 'gc_finalizer_externally_fired', 'gc_visit_finalizer_roots', 'gc_trace_finalizer',
       'gc_resolve_finalizers', 'gc_notify_finalizers', 'gc_visit_finalizer_links', 'gc_visit_ephemeron_key', 'gc_make_finalizer_state', 'gc_finalizer_state_set_callback', 'gc_finalizer_size')
F = 'gc_finalizer.'; T = 'gc_finalizer_table.'; S = 'gc_finalizer_state.'

def flds(f, v):
    """fields whose address v is, also for the first field of what an argument points to"""
    out = set(f.fields_of(v)) | {f.field_of(v)}
    b = f.resolve_ptr(v)
    if b[1] is None and b[2] == 0 and b[0][0] == 'a' and f.ditypes and b[0][1] + 1 < len(f.ditypes):
        t = str(f.ditypes[b[0][1] + 1])
        if t.endswith('*'): out |= set(f.mod.member_chain(t[:-1].strip(), 0))
    return {str(x).replace('[]', '') for x in out if x}
def acc(I, *fields): return (I.op == 'load' or I.is_write()) and bool((flds(I.fn, I.ptr()) | {str(I.field()).replace('[]', '')}) & set(fields))
def isnull(v): return v[0] == 'null' or const_of(v) == 0
def indirect(I): return I.is_call() and I.callee_name() is None and not str(I.raw.get('callee') or '').startswith('llvm')
def visited(I):
    """fields whose edges this indirect call is given"""
    return set().union(*[flds(I.fn, o) for o in I.ops if isinstance(o, (list, tuple)) and o[0] in ('v', 'a')]) if indirect(I) else set()
def stripc(f, v):
    v = q.strip(f, v)
    while v[0] == 'v' and f.insts[v[1]].op in ('ptrtoint', 'inttoptr', 'bitcast'): v = q.strip(f, f.insts[v[1]].ops[0])
    return v

class Fin(Automaton):
    descend = False
    def __init__(self, mod, fn):
        super().__init__(mod); self.f = fn; self.hits = {}
        self.st = {n: mod.enum_value('FINALIZER_STATE_' + n) for n in ('INIT', 'ACTIVE', 'FIRED')}
        if None in self.st.values(): raise AnalysisError('finalizer states not found')
        self.N = {v: k for k, v in self.st.items()}
    def relevance_key(self): return ('fin', self.f.name)
    def relevant(self, I): return I.fn is self.f
    def watch_key(self): return 'fin'
    def hit(self, k, I): self.hits.setdefault(k, {})[I.id] = I
    def rebuilt(self):
        for I in self.f.all():
            if I.is_call() and 'memcpy' in str(I.callee_name()):
                s = self.f.root_of(I.ops[1])
                if s[0] == 'v' and self.f.insts[s[1]].op == 'alloca': return True
    def push(self, C):
        """which list a compare-and-swap adds a finalizer to"""
        k = flds(C.fn, C.ptr())
        if not k & {T + 'buckets', S + 'fired'}: return None
        n = stripc(C.fn, C.ops[2])
        J = C.fn.insts[n[1]] if n[0] == 'v' else None
        if J is not None and J.op == 'load' and J.field() == F + 'next' or isnull(n): return 'pop'
        return 'fired' if S + 'fired' in k and T + 'buckets' not in k else 'table'
    def assume(self, st, I, p, L, R):
        fn = I.fn; ph, fl = st
        if L[0] != 'v': return None
        J = fn.insts[L[1]]; c = const_of(R) if R[0] != 'null' else 0
        if p not in ('eq', 'ne'): return None
        if J.op == 'extractvalue' and J.ty == 'i1' and c in (0, 1):
            C = fn.insts[J.ops[0][1]]
            if C.op != 'cmpxchg' or not self.push(C): return None
            if ('done', C.id) in fl: return None if (c == 1) == (p == 'eq') else []
            if (c == 1) == (p == 'eq') and 'trying' in fl:
                k = self.push(C)
                r = fn.root_of(C.ptr())
                scratch = r[0] == 'v' and fn.insts[r[1]].op == 'alloca'
                keep = {x for x in fl if x in ('scratch',)} | ({'scratch'} if scratch else set())
                return [(None, frozenset(keep | {('done', C.id)}))]
            return None
        if J.is_call() and J.callee_name() == 'gc_visit_ephemeron_key' and c == 0 and ph == 'hand': return [(ph, fl - {'live', 'dead'} | {'live' if p == 'ne' else 'dead'})]
        if J.op == 'load' and J.field() == F + 'state' and c is not None:
            if p == 'eq' and c in self.N: return [(ph, fl | {'was' + self.N[c]})]
            if p == 'ne' and c in self.N: return [(ph, fl | {'not' + self.N[c]})]
        if J.op == 'load' and J.field() == F + 'object' and c == 0: return [(ph, fl | {'object' if p == 'ne' else 'noobject'})]
        return None
    def step(self, st, I):
        ph, fl = st; fn = I.fn
        if I.op == 'cmpxchg' and ('done', I.id) in fl: fl = fl - {('done', I.id)}
        if I.is_call() and I.callee_name() == 'gc_visit_ephemeron_key':
            if fn.field_of(I.ops[0]) != F + 'object': self.error('edge', I, 'something other than the object of a finalizer is examined'); return None
            self.hit('finalizers examined', I)
            if ph == 'hand': self.error('dropped', I, 'a finalizer that was examined is neither kept nor handed to the mutator')
            return [('hand', frozenset(x for x in fl if x in ('nextread', 'scratch')))]
        if indirect(I):
            v = visited(I)
            if F + 'object' in v:
                if ph == 'hand' and 'live' not in fl and 'dead' not in fl: self.error('kept-alive', I, 'the object of a finalizer is traced before it is known to be dead')
                if ph == 'hand': return [(ph, fl | {'visited'})]
            return None
        if I.op == 'load' and I.field() == F + 'next': return [(ph, fl | {'nextread'})]
        if I.is_write() and I.field() == F + 'state':
            n = self.N.get(const_of(I.ops[0])) if I.op == 'store' else None
            self.hit('changes of state', I)
            if n == 'ACTIVE':
                if 'wasINIT' not in fl: self.error('attach-twice', I, 'a finalizer is attached without checking that it is new')
                return [(ph, fl | {'active'})]
            if n == 'FIRED':
                if 'wasACTIVE' not in fl: self.error('fire-twice', I, 'a finalizer fires without checking that it has not fired before')
                if ph == 'hand' and 'dead' not in fl: self.error('fired-live', I, 'a finalizer fires although its object is not known to be dead')
                return [(ph, fl | {'fired'})]
            self.error('state', I, 'a finalizer is put into an unexpected state')
            return None
        if I.is_write() and I.field() == F + 'object' or I.is_write() and I.field() == F + 'closure':
            if 'wasINIT' not in fl: self.error('reinit', I, 'the object or closure of a finalizer that is in use is overwritten')
            return None
        if I.op == 'store' and I.field() == F + 'next':
            if ph == 'hand' and 'nextread' not in fl: self.error('chain', I, 'the rest of a list of finalizers is lost')
            if isnull(I.ops[0]): return [(ph, fl - {'linked'})]
            return [(ph, fl | {'linked'})]
        if I.is_write() and acc(I, T + 'finalizer_count'):
            if q.delta_of_store(I) == 1 or I.op == 'atomicrmw' and I.raw.get('rmw') == 'add' and const_of(I.ops[1]) == 1:
                if 'counted' in fl: self.error('count', I, 'a finalizer is counted twice')
                return [(ph, fl | {'counted'})]
            if I.op == 'store' and const_of(I.ops[0]) == 0: return [(ph, fl)]
            self.error('count', I, 'the number of finalizers in a table is changed in some other way')
        if I.op == 'store' and acc(I, S + 'fired') and not isnull(I.ops[0]): self.error('list', I, 'the list of fired finalizers is overwritten')
        if I.op == 'cmpxchg':
            k = self.push(I)
            if k == 'table':
                self.hit('finalizers put into a table', I)
                r = fn.root_of(I.ptr())
                if ph == 'hand' and not (r[0] == 'v' and fn.insts[r[1]].op == 'alloca') and self.rebuilt(): self.error('dropped', I, 'a finalizer is put into a table that is then overwritten')
                if 'linked' not in fl: self.error('list', I, 'the other finalizers in a bucket are dropped when one is added')
                if 'counted' not in fl: self.error('count', I, 'a finalizer is put into a table that does not count it')
                if ph == 'hand' and 'live' not in fl: self.error('kept', I, 'a finalizer whose object is dead does not fire')
                if ph is None and 'active' not in fl: self.error('inactive', I, 'a finalizer is put into a table without becoming active')
                return [(ph, fl | {'trying'})]
            if k == 'fired':
                self.hit('finalizers put onto the list of fired ones', I)
                if 'linked' not in fl: self.error('list', I, 'the list of fired finalizers is dropped when one is added')
                if 'fired' not in fl: self.error('state', I, 'a finalizer is handed to the mutator without its state saying so')
                if ph == 'hand' and 'visited' not in fl: self.error('untraced', I, 'a finalizer fires without its object being kept alive')
                return [(ph, fl | {'trying'})]
        if I.is_call() and 'memcpy' in str(I.callee_name()):
            s = fn.root_of(I.ops[1])
            if s[0] == 'v' and fn.insts[s[1]].op == 'alloca' and 'scratch' in fl:
                if const_of(I.ops[2]) != table_size(self.mod): self.error('table', I, 'only part of the new table of finalizers is kept')
                if ph == 'hand': self.error('dropped', I, 'a finalizer that was examined is neither kept nor handed to the mutator')
                return [(ph, fl - {'scratch'})]
        return None
    def ret(self, st, I):
        ph, fl = st
        if ph == 'hand': self.error('dropped', I, 'a finalizer that was examined is neither kept nor handed to the mutator')
        if 'scratch' in fl: self.error('table', I, 'the new table of finalizers is dropped')
        if 'active' in fl and self.f.name != 'gc_finalizer_externally_activated': self.error('lost', I, 'an active finalizer is put into no table')
        if 'fired' in fl: self.error('lost', I, 'a fired finalizer is never handed to the mutator')
        if 'counted' in fl: self.error('count', I, 'a finalizer is counted that is in no table')
        return None

def table_size(m):
    return m.structs['gc_finalizer_table']['size'] if 'gc_finalizer_table' in getattr(m, 'structs', {}) else 264

def exits_of(f, h, body):
    """[(kind, terminator)] : how a loop ends: ('count', bound) | 'null' | 'other'"""
    out = []
    for b in sorted(body):
        for s in sorted(set(f.succ[b]) - set(body)):
            if f.is_noreturn_block(s): continue
            t = f.terminator(b); k = 'other'
            for p, L, R in q.edge_atoms(f, t, s):
                a = q.strip(f, L)
                if p == 'eq' and isnull(R) and (a[0] == 'v' and f.insts[a[1]].ty == 'ptr'): k = 'null'
                P = f.insts[a[1]] if a[0] == 'v' else None
                if P is not None and P.op == 'add' and const_of(P.ops[1]) == 1:      # test at the end of the body
                    x = q.strip(f, P.ops[0]); P = f.insts[x[1]] if x[0] == 'v' else None
                if P is None or P.op != 'phi' or P.block != h or p not in ('uge', 'eq', 'sge'): continue
                ins = [o[0] for o in P.ops if o[1] not in body]; stp = [o[0] for o in P.ops if o[1] in body]
                if ins and all(const_of(x) == 0 for x in ins) and stp and all(x[0] == 'v' and f.insts[x[1]].op == 'add' and const_of(f.insts[x[1]].ops[1]) == 1 and tuple(f.insts[x[1]].ops[0][:2]) == ('v', P.id) for x in stp):
                    k = ('count', bound(f, R))
            out.append((k, t))
    return out
def bound(f, v):
    c = const_of(v)
    if c is not None: return c
    v = q.strip(f, v)
    if v[0] == 'v' and f.insts[v[1]].op == 'load': return f.insts[v[1]].field()
    if v[0] == 'v' and f.insts[v[1]].is_call(): return f.insts[v[1]].callee_name()
    return None

def whole_walk(ctx, m, f, I, tables, what):
    """I is carried out for all 32 buckets (of all tables)"""
    nb = (table_size(m) - 8) // 8
    want = {nb} | ({S + 'table_count'} if tables else set()); got = set(); ok = True
    for h, body in f.loops().items():
        if I.block not in body: continue
        for k, t in exits_of(f, h, body):
            if k == 'other': ctx.bad('walk', t, what + ': the walk may stop early'); ok = False
            elif k != 'null':
                got.add(k[1])
                if k[1] not in want: ctx.bad('walk', t, what + ': not all of them are walked'); ok = False
    for b, t in f.all_control_deps(I.block):
        pass
    if want - got: ctx.bad('walk', I, what + ': not every %s is walked' % ('bucket' if nb not in got else 'table'))
    elif ok: ctx.ok('whole walks', I)

@rule('finalizer-states', 'C10', configs=lambda c: own(c) or is_bdw(c), load=dict(keep=API), limits=(200,))
def finalizer_states(ctx, m, cfg):
    seen = set(); n = 0
    for f in m.defined():
        if not any(I.is_write() and (I.field() in (F + 'state', F + 'object', F + 'closure') or acc(I, T + 'finalizer_count', S + 'fired')) or I.is_call() and I.callee_name() == 'gc_visit_ephemeron_key' and f.field_of(I.ops[0]) == F + 'object' for I in f.all()): continue
        if f.name == 'gc_make_finalizer_state': continue
        n += 1
        A = Fin(m, f); A.run(f.name, (None, frozenset())); q.report(ctx, A)
        for k, d in A.hits.items():
            seen.add(k)
            for I in d.values(): ctx.ok(k, I)
    ctx.need('functions that handle finalizers', n)
    if not is_bdw(cfg):
        for k in ('finalizers examined', 'finalizers put into a table', 'finalizers put onto the list of fired ones'):
            if k not in seen: ctx.bad('missing', m.fn('gc_resolve_finalizers').terminator(0), 'no ' + k)

class Traced(Automaton):
    """what of a finalizer, or of the finalizer state, has been handed to the visitor"""
    descend = False
    def __init__(self, mod, fn, final): super().__init__(mod); self.f = fn; self.final = final; self.act = mod.enum_value('FINALIZER_STATE_ACTIVE')
    def relevance_key(self): return ('fintraced', self.f.name)
    def watch_key(self): return 'fintraced'
    def relevant(self, I): return I.fn is self.f and (indirect(I) or I.op in ('load', 'ret'))
    def step(self, st, I):
        return [st | visited(I)] if visited(I) else None
    def assume(self, st, I, p, L, R):
        J = I.fn.insts[L[1]] if L[0] == 'v' else None
        if J is not None and J.op == 'load' and J.field() == F + 'state' and p in ('eq', 'ne'):
            c = const_of(R)
            if c == self.act: return [st | {'active' if p == 'eq' else 'inactive'}]
            if p == 'eq' and c is not None: return [st | {'inactive'}]
        return None
    def ret(self, st, I): self.final(self, st, I); return None

def trace_final(A, st, I):
    if F + 'closure' not in st: A.error('closure', I, "a finalizer's closure is not traced")
    if F + 'next' not in st: A.error('next', I, 'the finalizers after this one are not traced')
    if F + 'object' in st and 'inactive' not in st: A.error('kept-alive', I, 'a finalizer that has not fired keeps its object alive')
    if F + 'object' not in st and 'active' not in st: A.error('object-lost', I, 'the object of a finalizer that has fired is not kept alive')
def roots_final(A, st, I):
    if S + 'fired' not in st: A.error('fired', I, 'finalizers that have fired but not been popped are not traced')

@rule('finalizer-tracing', 'C10', 'C03', configs=lambda c: own(c) or is_bdw(c), load=dict(keep=API), limits=(200,))
def finalizer_tracing(ctx, m, cfg):
    for name, final in (('gc_trace_finalizer', trace_final), ('gc_visit_finalizer_roots', roots_final)):
        f = m.fn(name)
        if f is None: raise AnalysisError(name + ' not found')
        A = Traced(m, f, final); A.run(name, frozenset()); q.report(ctx, A)
        ctx.ok('tracing functions', f.terminator(0))
    f = m.fn('gc_visit_finalizer_roots')
    vs = [I for I in f.all() if T + 'buckets' in visited(I)]
    if not vs: ctx.bad('walk', f.terminator(0), 'the tables of finalizers are not traced')
    from rules.large import branch_atoms
    for I in vs:
        whole_walk(ctx, m, f, I, True, 'finalizers as roots')
        skip(ctx, f, I)

def skip(ctx, f, I):
    """a table may be passed over only if it counts no finalizer"""
    from rules.large import branch_atoms
    inner = [h for h, body in f.loops().items() if I.block in body]
    for t, s in f.all_control_deps(I.block):
        if t.block in inner or any(f.terminator(t.block) is x[1] for h, body in f.loops().items() for x in exits_of(f, h, body)): continue
        for p, L, R in q.edge_atoms(f, t, s):
            fs = set().union(*[flds(f, J.ptr()) for J in q.value_loads(f, L, 4)]) if L[0] == 'v' else set()
            if T + 'finalizer_count' in fs and isnull(R) and p in ('ne', 'ugt'): ctx.ok('tables passed over', t)
            elif fs & {T + 'buckets'} and isnull(R) and p == 'ne': ctx.ok('buckets passed over', t)
            else: ctx.bad('skip', t, 'some finalizers are passed over')

@rule('finalizer-resolution', 'C10', configs=own, load=dict(keep=API), limits=(200,))
def finalizer_resolution(ctx, m, cfg):
    from rules.large import alternatives, branch_atoms
    f = m.fn('gc_resolve_finalizers')
    if f is None: raise AnalysisError('gc_resolve_finalizers not found')
    for I in f.all():
        if I.is_call() and I.callee_name() == 'gc_visit_ephemeron_key': whole_walk(ctx, m, f, I, False, 'finalizers of a priority'); skip(ctx, f, I)
        if I.op == 'load' and acc(I, T + 'buckets'):
            # the table is that of the priority asked for
            r = f.resolve_ptr(I.ptr())
            if r[0][0] == 'a' and T + 'buckets' in flds(f, I.ptr()):
                if any(tuple(i[:2]) == ('a', 1) for i in indices(f, I.ptr())): ctx.ok('tables by priority', I)
                else: ctx.bad('priority', I, 'the finalizers resolved are not those of the priority asked for')
        if I.op == 'cmpxchg' and acc(I, T + 'buckets'): bucket_index(ctx, f, I, (table_size(m) - 8) // 8)
    counts(ctx, m, f)
    # attach
    a = m.fn('gc_finalizer_attach_internal')
    for C in a.all():
        if C.op == 'cmpxchg' and acc(C, T + 'buckets'):
            n = stripc(a, C.ops[2])
            bucket_index(ctx, a, C, (table_size(m) - 8) // 8)
            if any(tuple(i[:2]) == ('a', 2) for i in indices(a, C.ptr())): ctx.ok('tables by priority', C)
            else: ctx.bad('priority', C, 'a finalizer is put into the table of another priority')
            if tuple(n[:2]) != ('a', 1): ctx.bad('attach', C, 'something other than the finalizer is put into the table')
    # init
    i = m.fn('gc_finalizer_init_internal')
    for k, want in (('object', 1), ('closure', 2)):
        st = [I for I in i.all() if I.op == 'store' and I.field() == F + k]
        if not st: ctx.bad('init', i.terminator(0), 'the %s of a finalizer is not recorded' % k)
        for I in st:
            if tuple(q.strip(i, I.ops[0])[:2]) == ('a', want): ctx.ok('finalizers set up', I)
            else: ctx.bad('init', I, 'the %s of a finalizer is set to something else' % k)
    for name, k in (('gc_finalizer_object', 'object'), ('gc_finalizer_closure', 'closure')):
        g = m.fn(name)
        for R in g.all() if g is not None else []:
            if R.op != 'ret': continue
            v = q.strip(g, R.ops[0]); J = g.insts[v[1]] if v[0] == 'v' else None
            if J is not None and J.op == 'load' and J.field() == F + k: ctx.ok('accessors', R)
            else: ctx.bad('accessor', R, name + ' returns something else')
    pop(ctx, m)
    notify(ctx, m)
    make(ctx, m)

def indices(f, v, depth=12):
    """the variable indices used in computing address v"""
    out = []
    while depth and v[0] == 'v':
        I = f.insts[v[1]]; depth -= 1
        if I.op == 'getelementptr': out += [q.strip(f, o) for o in I.ops[1:] if o[0] in ('v', 'a')]
        elif I.op not in ('bitcast', 'freeze'): break
        v = I.ops[0]
    return out
def bucket_index(ctx, f, C, n):
    for i in indices(f, C.ptr()):
        if i[0] == 'a': continue
        J = f.insts[i[1]]; k = const_of(J.ops[1]) if J.op in ('urem', 'and') else None
        if J.op == 'urem' and k is not None and k <= n or J.op == 'and' and k is not None and 0 <= k < n: ctx.ok('buckets within the table', C)
        else: ctx.bad('bucket', C, 'a finalizer may be put into a bucket that does not exist')

def args_in(f, v, depth=12):
    """arguments that take part in computing v"""
    if v[0] == 'a': return {v[1]}
    if v[0] != 'v' or depth == 0: return set()
    out = set(); I = f.insts[v[1]]
    for o in I.ops:
        o = o[0] if I.op == 'phi' else o
        if isinstance(o, (list, tuple)): out |= args_in(f, o, depth - 1)
    return out

def counts(ctx, m, f):
    """the number reported is the number fired"""
    fires = [I for I in f.all() if I.op == 'store' and I.field() == F + 'state']
    seen = set(); adds = []
    def walk(v):
        if v[0] != 'v' or v[1] in seen: return
        seen.add(v[1]); I = f.insts[v[1]]
        if I.op == 'phi': [walk(o[0]) for o in I.ops]
        elif I.op in ('zext', 'trunc', 'freeze'): walk(I.ops[0])
        elif I.op == 'select': [walk(o) for o in I.ops[1:]]
        elif I.op == 'add' and const_of(I.ops[1]) == 1: adds.append(I); walk(I.ops[0])
        else: adds.append(None)
    for R in f.all():
        if R.op == 'ret': walk(R.ops[0])
    for S_ in fires:
        A = [x for x in adds if x is not None and (f.dominates(x, S_) or f.postdominates(x, S_) or x.block == S_.block)]
        if None in adds or len(adds) != 1 or not A: ctx.bad('fired-count', S_, 'the number of finalizers that fired is not what is reported to the collector')
        else: ctx.ok('finalizers counted', S_)
    ups = [I for I in f.all() if I.op == 'store' and acc(I, S + 'fired_this_cycle')]
    for U in ups:
        v = q.strip(f, U.ops[0]); J = f.insts[v[1]] if v[0] == 'v' else None
        ok = J is not None and J.op == 'add' and any(x[0] == 'v' and f.insts[x[1]].op == 'load' and acc(f.insts[x[1]], S + 'fired_this_cycle') for x in J.ops)
        if ok: ctx.ok('finalizers counted', U)
        else: ctx.bad('fired-count', U, 'the number of finalizers that fired in this collection is overwritten')
    if not ups: ctx.bad('fired-count', f.terminator(0), 'nothing records that finalizers fired')

def pop(ctx, m):
    f = m.fn('gc_finalizer_state_pop')
    if f is None: raise AnalysisError('gc_finalizer_state_pop not found')
    C = [I for I in f.all() if I.op == 'cmpxchg' and S + 'fired' in flds(f, I.ptr())]
    X = [I for I in f.all() if I.op == 'atomicrmw' and S + 'fired' in flds(f, I.ptr())]
    if not C: ctx.bad('pop', f.terminator(0), 'a finalizer is popped without being taken off the list atomically'); return
    for I in C:
        old = stripc(f, I.ops[1]); n = stripc(f, I.ops[2])
        J = f.insts[n[1]] if n[0] == 'v' else None
        if J is not None and J.op == 'load' and J.field() == F + 'next' and tuple(stripc(f, f.insts[J.ptr()[1]].ops[0])[:2]) == tuple(old[:2]): ctx.ok('pops', I)
        else: ctx.bad('pop', I, 'popping a finalizer loses those after it')
    w = [I for I in f.all() if I.op == 'store' and I.field() == F + 'next' and isnull(I.ops[0])]
    for R in f.all():
        if R.op == 'ret' and not w: ctx.bad('pop', R, 'a finalizer that was popped keeps those after it alive'); break
    def alts(v, seen):
        v = stripc(f, v)
        if tuple(v[:2]) in seen: return []
        seen.add(tuple(v[:2]))
        I = f.insts[v[1]] if v[0] == 'v' else None
        if I is not None and I.op in ('phi',): return [x for o in I.ops for x in alts(o[0], seen)] + [v]
        return [v]
    heads = {tuple(stripc(f, I.ops[1])[:2]) for I in C}
    for R in f.all():
        if R.op != 'ret': continue
        a = alts(R.ops[0], set())
        if all(isnull(x) for x in a if x[0] != 'v') and any(tuple(x[:2]) in heads for x in a): ctx.ok('pops', R)
        else: ctx.bad('pop', R, 'what is returned is not the finalizer taken off the list')

def notify(ctx, m):
    from rules.large import branch_atoms
    f = m.fn('gc_notify_finalizers')
    if f is None: raise AnalysisError('gc_notify_finalizers not found')
    calls = [I for I in f.all() if indirect(I)]
    if not calls: ctx.bad('notify', f.terminator(0), 'the embedder is never told of finalizers')
    for I in calls:
        for p, L, R in branch_atoms(f, I.block):
            fs = set().union(*[flds(f, J.ptr()) for J in q.value_loads(f, L, 4)]) if L[0] == 'v' else set()
            if isnull(R) and p in ('ne', 'ugt') and fs & {S + 'fired_this_cycle', S + 'have_finalizers'}: continue
            ctx.bad('notify', I, 'the embedder is told of finalizers only on some further condition')
        if not any({S + 'fired_this_cycle'} & set().union(*[flds(f, J.ptr()) for J in q.value_loads(f, o, 3)]) for o in I.ops[1:] if o[0] == 'v'): ctx.bad('notify', I, 'the embedder is told a number that is not that of the finalizers fired')
        rs = [S_ for S_ in f.all() if S_.op == 'store' and acc(S_, S + 'fired_this_cycle') and const_of(S_.ops[0]) == 0]
        if any(f.postdominates(S_, I) or S_.block == I.block for S_ in rs): ctx.ok('notifications', I)
        else: ctx.bad('notify', I, 'the embedder is told of the same finalizers again')

def make(ctx, m):
    from rules.ephemeron import shape, norm
    f = m.fn('gc_make_finalizer_state')
    if f is None: raise AnalysisError('gc_make_finalizer_state not found')
    st = [I for I in f.all() if I.op == 'store' and acc(I, S + 'table_count')]
    if not st: ctx.bad('make', f.terminator(0), 'the number of priorities is not recorded')
    al = [I for I in f.all() if I.is_call() and I.callee_name() in ('malloc', 'calloc', 'realloc')]
    for I in st:
        v = q.strip(f, I.ops[0]); J = f.insts[v[1]] if v[0] == 'v' else None
        if J is not None and J.is_call() and 'finalizer_priority_count' in str(J.callee_name()): ctx.ok('finalizer states made', I)
        else: ctx.bad('make', I, 'the number of tables is not the number of priorities')
        for A in al:
            n = shape(f, A.ops[-1], lambda i: ('arg', i))
            want = norm(('add', ('c', m_off(m)), ('mul', ('c', table_size(m)), shape(f, v, lambda i: ('arg', i)))))
            if norm(n) != want and A.callee_name() == 'malloc': ctx.bad('make', A, 'there is not room for one table per priority')
            zero = A.callee_name() == 'calloc' or any(Z.is_call() and 'memset' in str(Z.callee_name()) and tuple(q.strip(f, Z.ops[0])[:2]) == ('v', A.id) and const_of(Z.ops[1]) == 0 and tuple(q.strip(f, Z.ops[2])[:2]) == tuple(q.strip(f, A.ops[0])[:2]) for Z in f.all())
            if zero: ctx.ok('finalizer states made', A)
            else: ctx.bad('make', A, 'the tables of finalizers do not start out empty')
def m_off(m): return 32

KIDS = API + ('gc_tracer_trace', 'gc_tracer_add_root', 'gc_tracer_release')

class Links(Automaton):
    """links made between finalizers in a minor collection of a collector with survivors are remembered"""
    def __init__(self, mod): super().__init__(mod); self.hits = {}
    def relevance_key(self): return ('finlinks',)
    def watch_key(self): return 'finlinks'
    def watch(self, I): return ()
    def relevant(self, I): return I.is_call() and I.callee_name() in ('gc_resolve_finalizers', 'gc_visit_finalizer_links', 'gc_tracer_release')
    def step(self, st, I):
        n = I.callee_name()
        if n == 'gc_resolve_finalizers': self.hits.setdefault('resolutions', {})[I.id] = I; return ['major' if st == 'major' else 'made']
        if n == 'gc_visit_finalizer_links': return ['kept']
        if n == 'gc_tracer_release':
            if st == 'made': self.error('links', I, 'links that a minor collection has made from old finalizers to young ones are not remembered, so that the next one loses the young ones')
        return None
    def edge(self, st, T_, s):
        from rules.roots import not_minor_edge
        if not_minor_edge(self.mod, T_, s): return ['major']
        return None

@rule('finalizer-collection', 'C10', configs=lambda c: own(c) or is_bdw(c), load=dict(keep=KIDS), limits=(200,))
def finalizer_collection(ctx, m, cfg):
    n = 0
    for f in m.defined():
        for I in f.all():
            if not I.is_call(): continue
            nm = I.callee_name()
            if nm == 'gc_resolve_finalizers':
                n += 1
                P = q.strip(f, I.ops[1]); P = f.insts[P[1]] if P[0] == 'v' else None
                ok = False
                for h, body in f.loops().items():
                    if P is None or P.op != 'phi' or P.block != h: continue
                    ex = exits_of(f, h, body)
                    if [k for k, _ in ex] == [('count', 'v_finalizer_priority_count')]: ok = True
                    elif any(k[0] == 'count' and k[1] == S + 'table_count' for k, _ in ex if k not in ('other', 'null')) and len(ex) == 1: ok = True
                if ok: ctx.ok('priorities in order', I)
                else: ctx.bad('priorities', I, 'finalizers are not resolved for every priority from the first to the last')
            if nm == 'gc_finalizer_init_internal' and f.name == 'gc_finalizer_attach':
                if [tuple(q.strip(f, o)[:2]) for o in I.ops] == [('a', 1), ('a', 3), ('a', 4)]: ctx.ok('attachments', I)
                else: ctx.bad('attach', I, 'a finalizer is attached to something else')
            if nm == 'gc_finalizer_attach_internal':
                A = [tuple(q.strip(f, o)[:2]) for o in I.ops]
                if A[1:] == [('a', 1), ('a', 2)] and 'gc_heap.finalizer_state' in {J.field() for J in q.value_loads(f, I.ops[0], 2)}: ctx.ok('attachments', I)
                else: ctx.bad('attach', I, 'a finalizer is attached with another priority, or to another heap')
                pre = [J for J in f.all() if J.is_call() and J.callee_name() == 'gc_finalizer_init_internal' and f.dominates(J, I)]
                if not pre: ctx.bad('attach', I, 'a finalizer is put into the table before it has been given its object')
    f = m.fn('gc_finalizer_attach')
    want = ('gc_finalizer_init_internal', 'gc_finalizer_externally_activated', 'GC_register_finalizer_no_order') if is_bdw(cfg) else ('gc_finalizer_init_internal', 'gc_finalizer_attach_internal')
    for w in want: always(ctx, f, w, 'a finalizer may not be attached')
    f = m.fn('gc_pop_finalizable')
    for w in (('GC_invoke_finalizers',) if is_bdw(cfg) else ()) + ('gc_finalizer_state_pop',): always(ctx, f, w, 'fired finalizers may not be found')
    for R in f.all():
        if R.op == 'ret':
            v = q.strip(f, R.ops[0]); J = f.insts[v[1]] if v[0] == 'v' else None
            if J is not None and J.is_call() and J.callee_name() == 'gc_finalizer_state_pop': ctx.ok('pops', R)
            else: ctx.bad('pop', R, 'what is returned is not the finalizer that was popped')
    f = m.fn('gc_set_finalizer_callback')
    for I in f.all():
        if I.is_call() and I.callee_name() == 'gc_finalizer_state_set_callback' and tuple(q.strip(f, I.ops[1])[:2]) != ('a', 1) or I.op == 'store' and tuple(q.strip(f, I.ops[0])[:2]) != ('a', 1): ctx.bad('callback', I, 'another callback is recorded')
    g = m.fn('gc_finalizer_state_set_callback')
    if g is not None and not is_bdw(cfg):
        s = [I for I in g.all() if I.op == 'store' and acc(I, S + 'have_finalizers') and tuple(q.strip(g, I.ops[0])[:2]) == ('a', 1)]
        if s: ctx.ok('callbacks', s[0])
        else: ctx.bad('callback', g.terminator(0), 'the callback is not recorded')
    if is_bdw(cfg): return
    ctx.need('resolutions of finalizers', n)
    if is_gen(cfg) and is_pcc(cfg):
        for f in m.defined():
            if any(I.is_call() and I.callee_name() == 'gc_resolve_finalizers' for I in f.all()):
                A = Links(m); A.run(f.name, None); q.report(ctx, A)
                for d in A.hits.values():
                    for I in d.values(): ctx.ok('links remembered', I)
            for I in f.all():
                if I.is_call() and I.callee_name() == 'gc_visit_finalizer_links': links(ctx, m, f, I)

def always(ctx, f, callee, what):
    cs = [I for I in f.all() if I.is_call() and I.callee_name() == callee]
    rets = [b for b in f.live_blocks() if f.terminator(b).op == 'ret']
    if not cs: ctx.bad('missing', f.terminator(0), what); return
    blocks = {I.block for I in cs}
    r = f.reachable([0], blocks)
    for b in rets:
        if b in r and 0 not in blocks: ctx.bad('missing', f.terminator(b), what)
    ctx.ok('steps always taken', cs[0])

def closure(m, h):
    out = {h.name: h}; todo = [h]
    while todo:
        for I in todo.pop().all():
            g = m.fns.get(I.callee_name()) if I.is_call() else None
            if g is not None and not g.decl and g.name not in out: out[g.name] = g; todo.append(g)
    return out.values()

def links(ctx, m, f, I):
    """the links visited are all of them, and the visitor adds old-to-young ones to the remembered set"""
    g = m.fn('gc_visit_finalizer_links')
    vs = [J for J in g.all() if F + 'next' in visited(J)]
    tab = [J for J in vs if len(g.in_loop(J)) >= 3]
    for J in tab: whole_walk(ctx, m, g, J, True, 'links between finalizers')
    if not tab or len(vs) == len(tab): ctx.bad('links', g.terminator(0), 'links between some finalizers are not visited')
    cb = [o for o in I.ops if o[0] == 'f']
    for o in cb:
        h = m.fns.get(o[1])
        if h is None or h.decl: continue
        w = [J for g in closure(m, h) for J in g.all() if J.is_write() and str(J.field() or '').startswith('gc_edge_buffer')]
        if not w: ctx.bad('links', h.terminator(0), 'links between finalizers are not added to the remembered set')
        else: ctx.ok('links remembered', w[0])
