"""Collectors implement the whole API: C23."""
import json, os, re, subprocess, tempfile, shutil, hashlib
from core import rule, is_semi, is_bdw, AnalysisError
import q
from q import Automaton
import build
from build import REPO, VERIF, BUILD

UNITS = ['gc-platform-gnu-linux.c', 'gc-stack.c', 'gc-options.c', 'gc-tracepoint.c', 'gc-ephemeron.c', 'gc-finalizer.c']
_decls = {}

def flags_of(cfg):
    stem, flags = build.makefile_configs()[cfg]
    fl = list(flags) + ['-DGC_ATTRS="%s/api/%s-attrs.h"' % (REPO, stem), '-DGC_EMBEDDER="%s/engine/model/v-embedder.h"' % VERIF,
                        '-I%s/engine/compat' % VERIF, '-I%s/api' % REPO, '-I%s/src' % REPO]
    if stem == 'bdw' and build.has_bdw(): fl += build.run(['pkg-config', '--cflags', 'bdw-gc']).decode().split()
    return stem, fl

def clang(args, cwd):
    p = subprocess.run([build.CLANG, '-std=gnu17', '-Wno-everything', '-DNDEBUG'] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: raise build.BuildError(p.stderr.decode(errors='replace')[-1500:])
    return p.stdout

def api_functions(cfg, td, fl):
    """{name: (type, file, line)} of the functions the API declares without defining them"""
    hs = sorted(h for h in os.listdir(os.path.join(REPO, 'api')) if h.endswith('.h'))
    main = [h for h in ('gc-api.h', 'gc-ephemeron.h', 'gc-finalizer.h', 'gc-options.h', 'gc-stack-addr.h') if h in hs]
    src = os.path.join(td, 'api.c')
    with open(src, 'w') as f:
        f.write('#include <stddef.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <sys/types.h>\n')
        for h in main: f.write('#include "%s"\n' % h)
    txt = clang(fl + ['-DGC_API_=__attribute__((annotate("whippet-api")))', '-fsyntax-only', '-Xclang', '-ast-dump=json', src], td)
    ast = json.loads(txt); out = {}; inl = {}
    last = [None, 0]
    def loc(d):
        l = d.get('loc', {})
        l = l.get('expansionLoc', l)
        if 'file' in l: last[0] = l['file']
        if 'line' in l: last[1] = l['line']
    for d in ast.get('inner', []):
        loc(d)
        if d.get('kind') != 'FunctionDecl': continue
        kids = d.get('inner', [])
        body = any(k.get('kind') == 'CompoundStmt' for k in kids)
        ann = any(k.get('kind') == 'AnnotateAttr' for k in kids)
        f = last[0] or ''
        if body:
            if '/api/' in f: inl[d['name']] = d['type']['qualType']
        elif ann: out[d['name']] = (d['type']['qualType'], f, last[1])
    return out, inl

@rule('api-parity', 'C23', configs='all', load={}, debug=False, limits=(), compile_is_property=True)
def api_parity(ctx, m, cfg):
    stem, fl = flags_of(cfg)
    td = tempfile.mkdtemp(prefix='vp', dir=BUILD)
    try:
        decls, inl = api_functions(cfg, td, fl)
        if len(decls) < 20: raise AnalysisError('only %d API functions found' % len(decls))
        defs = {}; undef = {}; vis = {}
        for u in UNITS + [stem + '.c']:
            o = os.path.join(td, u + '.o')
            clang(fl + ['-O0', '-fvisibility=hidden', '-DGC_API_=GC_PUBLIC', '-c', os.path.join(REPO, 'src', u), '-o', o], td)
            for l in build.run(['readelf', '-sW', o]).decode().splitlines():
                x = l.split()
                if len(x) < 8 or x[4] not in ('GLOBAL', 'WEAK'): continue
                n = x[7]
                if x[6] == 'UND': undef.setdefault(n, u)
                else: defs.setdefault(n, []).append(u); vis[n] = x[5]
    finally:
        shutil.rmtree(td, ignore_errors=True)
    for n, (ty, f, line) in sorted(decls.items()):
        if n not in defs: ctx.bad('missing', 'api', '%s, which the API declares (%s:%d), is not defined by this collector' % (n, os.path.relpath(f, REPO) if f else '?', line), key='api-parity:missing:' + n)
        elif len(defs[n]) > 1: ctx.bad('duplicate', 'api', '%s is defined by %s' % (n, ' and '.join(defs[n])), key='api-parity:duplicate:' + n)
        else: ctx.ok('API functions defined')
    for n in sorted(defs):
        if n in decls: continue
        if vis[n] == 'DEFAULT': ctx.bad('leak', 'api', '%s (%s) is not part of the API but visible outside of it' % (n, defs[n][0]), key='api-parity:leak:' + n)
        else: ctx.ok('internal functions hidden')
        if len(defs[n]) > 1: ctx.bad('duplicate', 'api', '%s is defined by %s' % (n, ' and '.join(defs[n])), key='api-parity:duplicate:' + n)
    for n, u in sorted(undef.items()):
        if n in defs: continue
        if n.startswith('gc_'): ctx.bad('undefined', 'api', '%s, which %s needs, is not defined by this collector' % (n, u), key='api-parity:undefined:' + n)
    for n in sorted(inl):
        if n.startswith('gc_'): ctx.ok('inline API functions that compile')

class Setter(Automaton):
    """argument `what` is stored into the object that argument 0 refers to, on every path"""
    descend = False
    def __init__(self, mod, f):
        super().__init__(mod); self.f = f; self.stores = {}
    def relevant(self, I): return I.fn is self.f
    def relevance_key(self): return ('setter', self.f.name)
    def step(self, st, I):
        if I.op == 'store' and tuple(q.strip(I.fn, I.ops[0])[:2]) == ('a', 1) and tuple(I.fn.root_of(I.ptr())[:2]) == ('a', 0):
            self.stores[I.id] = I
            return [st | {I.field()}]
        if I.op == 'store' and I.field() in st: return [st - {I.field()}]
        return None
    def ret(self, st, I):
        if not st: self.error('ignored', I, 'what is given to %s is not always kept' % self.f.name)
        return None

class Init(Automaton):
    """gc_init returns a heap and a mutator whenever it succeeds"""
    descend = False
    def __init__(self, mod, f):
        super().__init__(mod); self.f = f; self.n = 0
    def relevant(self, I): return I.fn is self.f
    def relevance_key(self): return ('init', self.f.name)
    def step(self, st, I):
        if I.op == 'store':
            p = q.strip(I.fn, I.ptr())
            if tuple(p[:2]) in (('a', 2), ('a', 3)) and I.field() is None or tuple(p[:2]) in (('a', 2), ('a', 3)):
                z = I.ops[0][0] in ('null', 'c')
                return [st - {p[1]} if z else st | {p[1]}]
            if any(tuple(q.strip(I.fn, I.ops[0])[:2]) == ('a', k) for k in (5,)): return [st | {'data'}]
        return None
    def ret(self, st, I):
        v = self.value(I.ops[0]) if I.ops else None
        if v is not None and v <= {0}: return None
        self.n += 1
        for k, n in ((2, 'heap'), (3, 'mutator'), ('data', 'data for the event listener')):
            if k not in st: self.error('init', I, 'gc_init may succeed without %s' % ('keeping the ' + n if k == 'data' else 'having provided a ' + n))
        return None

def uses_field(m, fld, but):
    return any(I.op == 'load' and I.field() == fld for f in m.defined() if f.name != but for I in f.all())

@rule('api-setters', 'C23', configs='all', load=dict(keep=('gc_mutator_set_roots', 'gc_heap_set_roots', 'gc_heap_set_extern_space', 'gc_mutator_heap', 'gc_init')), limits=(200,))
def api_setters(ctx, m, cfg):
    for n in ('gc_mutator_set_roots', 'gc_heap_set_roots', 'gc_heap_set_extern_space'):
        if n == 'gc_heap_set_extern_space' and is_bdw(cfg): continue   # the Boehm collector has no notion of it
        f = m.fn(n)
        if f is None or f.decl: ctx.bad('missing', 'api', n + ' is not defined by this collector', key='api-setters:missing:' + n); continue
        A = Setter(m, f); A.run(n, frozenset()); q.report(ctx, A)
        for I in A.stores.values():
            if uses_field(m, I.field(), n): ctx.ok('setters whose argument is kept and used', I)
            else: ctx.bad('unused', I, 'what is given to %s is never looked at' % n)
    f = m.fn('gc_mutator_heap')
    if f is None or f.decl: ctx.bad('missing', 'api', 'gc_mutator_heap is not defined by this collector', key='api-setters:missing:gc_mutator_heap')
    else:
        for b in f.live_blocks():
            T = f.terminator(b)
            if T.op != 'ret': continue
            ld = [str(x.field()) for x in q.value_loads(f, T.ops[0], 4)]
            if ld and all(x == 'gc_mutator.heap' for x in ld): ctx.ok('gc_mutator_heap returns the heap of the mutator', T)
            elif not ld and is_semi(cfg) and tuple(f.root_of(T.ops[0])[:2]) == ('a', 0): ctx.ok('gc_mutator_heap returns the heap of the mutator', T)
            elif is_bdw(cfg) and not any(x[0] == 'a' for x in [T.ops[0]]): ctx.ok('gc_mutator_heap returns the heap of the mutator', T)
            else: ctx.bad('heap', T, 'gc_mutator_heap returns something else than the heap of the mutator')
    f = m.fn('gc_init')
    if f is None or f.decl: ctx.bad('missing', 'api', 'gc_init is not defined by this collector', key='api-setters:missing:gc_init'); return
    A = Init(m, f); A.run('gc_init', frozenset()); q.report(ctx, A)
    if A.n: ctx.ok('gc_init provides what it is asked for when it succeeds')
    else: ctx.bad('init', f.terminator(0), 'gc_init never succeeds')
