"""Running rules over collector configurations and reporting."""
import json, os, sys, time, traceback, importlib, hashlib
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
import build, ir

class AnalysisError(Exception):
    """The rule no longer binds to the code (an anchor vanished, zero instances)."""

PROPS = {}      # id -> list of (rule name, function, config predicate, load options)
RULES = {}

def rule(name, *pids, configs='all', level=None, **opts):
    """Register fn(ctx, mod, cfg) as a rule of the given properties."""
    def deco(fn):
        RULES[name] = (fn, configs, opts)
        for p in pids: PROPS.setdefault(p, []).append(name)
        fn.rule_name = name
        return fn
    return deco

def want(configs, cfg):
    if callable(configs): return configs(cfg)
    if configs == 'all': return True
    return cfg in configs

is_mmc = lambda c: c.endswith('mmc')
is_pcc = lambda c: c.endswith('pcc')
is_semi = lambda c: c == 'semi'
is_bdw = lambda c: c == 'bdw'
is_gen = lambda c: 'generational' in c
is_par = lambda c: 'parallel' in c or is_pcc(c)
own = lambda c: not is_bdw(c)
mt = lambda c: is_mmc(c) or is_pcc(c)

class Ctx:
    def __init__(self, pid, cfg, tier):
        self.pid = pid; self.cfg = cfg; self.tier = tier
        self.counts = {}; self.viol = []; self.rule = None; self.samples = {}; self.notes = []
    def ok(self, what, I=None, n=1):
        k = '%s: %s' % (self.rule, what)
        self.counts[k] = self.counts.get(k, 0) + n
        if I is not None and hasattr(I, 'where'):
            l = self.samples.setdefault(k, [])
            w = I.where()
            if len(l) < 4 and w not in l: l.append(w)
    def bad(self, what, I, msg, path=None, entry=None, key=None, stack=None):
        where = I.where() if hasattr(I, 'where') else str(I)
        fnn = I.src_fn() if hasattr(I, 'src_fn') else str(I)
        self.viol.append(dict(rule=self.rule, what=what, where=where, msg=msg, path=path or [], entry=entry, stack=stack or [],
                              cfg=self.cfg, key=key or '%s:%s:%s' % (self.rule, what, fnn)))
    def need(self, what, n, minimum=1):
        if n < minimum: raise AnalysisError('rule %s (%s): %d instance(s) of %s, expected at least %d' % (self.rule, self.cfg, n, what, minimum))
        self.ok(what, n=n)

def _worker(args):
    cfg, jobs, tier = args       # jobs: list of (pid, rule name)
    out = []
    load_rules()
    mods = {}
    for pid, rn in jobs:
        fn, configs, opts = RULES[rn]
        ctx = Ctx(pid, cfg, tier); ctx.rule = rn
        t = time.time(); err = None
        try:
            variants = [dict(opts.get('load', {}))]
            if tier == 'thorough':
                for lim in opts.get('limits', (40, 200)): variants.append(dict(variants[0], limit=lim))
                if opts.get('debug', True): variants.append(dict(variants[0], debug=True))
            for v in variants:
                k = json.dumps(v, sort_keys=True)
                if k not in mods:
                    mods[k] = ir.Mod(build.load(cfg if cfg != '-' else None, **v), cfg)
                fn(ctx, mods[k], cfg)
        except AnalysisError as e: err = str(e)
        except build.BuildError as e:
            if opts.get('compile_is_property'): ctx.bad('does-not-compile', 'api', 'a program that uses this part of the API does not compile: ' + str(e)[-600:])
            else: err = 'BuildError: ' + str(e)
        except Exception: err = 'rule %s on %s: %s' % (rn, cfg, traceback.format_exc())
        out.append(dict(pid=pid, rule=rn, cfg=cfg, counts=ctx.counts, viol=ctx.viol, samples=ctx.samples, err=err, wall=time.time() - t))
    return out

_loaded = False
def load_rules():
    global _loaded
    if _loaded: return
    _loaded = True
    for f in sorted(os.listdir(os.path.join(VERIF, 'rules'))):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('rules.' + f[:-3])

def analyse(pids, tier, cfgs=None):
    load_rules()
    allc = list(build.makefile_configs())
    if not allc: raise AnalysisError('no collector configurations in the Makefile')
    build.irdump_path()
    jobs = {}
    for p in pids:
        for rn in PROPS.get(p, []):
            fn, configs, opts = RULES[rn]
            if configs == 'none':
                jobs.setdefault('-', []).append((p, rn)); continue
            n = 0
            for c in allc:
                if want(configs, c):
                    n += 1
                    if cfgs is None or c in cfgs: jobs.setdefault(c, []).append((p, rn))
            if n == 0: raise AnalysisError('rule %s: no collector configuration matches' % rn)
    work = [(c, j, tier) for c, j in jobs.items()]
    # biggest first
    work.sort(key=lambda w: -len(w[0]))
    res = []
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(_worker, work): res += r
    return res

def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def main(argv):
    pid = argv[0]; tier = 'quick'; cfgs = None; evid = True
    i = 1
    while i < len(argv):
        if argv[i] == '--tier': tier = argv[i + 1]; i += 2
        elif argv[i] == '--configs': cfgs = argv[i + 1].split(','); evid = False; i += 2
        else: i += 1
    t0 = time.time()
    load_rules()
    pids = [pid] if pid != 'ALL' else sorted(PROPS)
    try: res = analyse(pids, tier, cfgs)
    except (AnalysisError, build.BuildError) as e:
        print('ANALYSIS-ERROR: %s' % e); return 2
    rc = 0
    for p in pids:
        rc = max(rc, report(p, tier, [r for r in res if r['pid'] == p], time.time() - t0, evid))
    return rc

def report(pid, tier, res, wall, evid=True):
    counts = {}; samples = {}; errs = []; viol = {}
    cfgs = sorted(set(r['cfg'] for r in res))
    for r in res:
        for k, n in r['counts'].items(): counts[k] = counts.get(k, 0) + n
        for k, l in r['samples'].items(): samples.setdefault(k, l)
        if r['err']: errs.append((r['rule'], r['cfg'], r['err']))
        for v in r['viol']:
            e = viol.setdefault(v['key'], dict(v, cfgs=[]))
            if v['cfg'] not in e['cfgs']: e['cfgs'].append(v['cfg'])
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') != 'fixed']
    new = []; kf = []
    for k, v in sorted(viol.items()):
        m = [x for x in known if x['key'] == k]
        if m: kf.append((m[0], v))
        else: new.append(v)
    print('%s: %d configurations, %d rules, %d obligations' % (pid, len(cfgs), len(set(r['rule'] for r in res)), sum(counts.values())))
    for k in sorted(counts): print('   %6d  %s' % (counts[k], k))
    for (m, v) in kf:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, m['what'], v['where']))
    rp = os.path.join(VERIF, 'evidence', 'replay-%s.json' % pid)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if new: json.dump(new, open(rp, 'w'), indent=1)
    elif os.path.exists(rp): os.unlink(rp)
    for v in new:
        print('--- rule %s: %s' % (v['rule'], v['what']))
        print('    at %s' % v['where'])
        print('    %s' % v['msg'])
        if v['entry']: print('    entry %s' % v['entry'])
        for s in v['stack'][:6]: print('    called from %s' % s)
        if v['path']: print('    path %s' % ' -> '.join(v['path'][-14:]))
        print('    configurations: %s   key: %s' % (','.join(v['cfgs']), v['key']))
    for (r, c, e) in errs[:6]: print('ANALYSIS-ERROR: %s %s: %s' % (r, c, e))
    if new: print('VIOLATION property=%s replay=%s' % (pid, rp))
    if evid:
        levels = {}
        try:
            for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']: levels[c['property']] = c['level']
        except Exception: pass
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=levels.get(pid, 'other'),
                  coverage=dict(explanation='static analysis of every source path of the listed collector configurations; counts are obligations discharged per rule',
                                configurations=cfgs, rules=sorted(set(r['rule'] for r in res)), obligations=sum(counts.values()), obligation_counts=counts, sites=samples,
                                known_findings=[dict(key=v['key'], where=v['where'], what=m['what']) for m, v in kf],
                                analysis_errors=[e[2][:400] for e in errs]),
                  assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=len(new))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if new: return 1
    if errs: return 2
    return 0

ASSUMPTIONS = [
    'clang 18 front end lowers the C as gcc does for the constructs used; the atomics shim maps generic atomics one to one',
    'the embedder model (engine/model) stands for any embedder: visitors are called from loops, hooks are opaque',
    'a field is one abstract object per struct type (field-based aliasing), except where a rule tracks SSA identity',
]
