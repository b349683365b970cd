"""Compile /repo's current sources to LLVM bitcode and load them as JSON.

The collector configurations are the ones of /repo/Makefile (read from there at
run time through `make -p`, so a change of a configuration's flags is seen)."""
import resource, hashlib, json, os, subprocess, sys, shutil, tempfile, re, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = shutil.which('clang-18') or shutil.which('clang')
CLANGXX = shutil.which('clang++-18') or shutil.which('clang++')
LLVM_CONFIG = shutil.which('llvm-config-18') or shutil.which('llvm-config')

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-4000:]))
    return p.stdout

_tool_lock = threading.Lock()
def irdump_path():
    src = os.path.join(VERIF, 'engine', 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irdump-' + h)
    with _tool_lock:
        if not os.path.exists(out):
            os.makedirs(BUILD, exist_ok=True)
            cpp = run([LLVM_CONFIG, '--cppflags']).decode().split()
            lib = run([LLVM_CONFIG, '--libdir']).decode().strip()
            tmp = out + '.%d.tmp' % os.getpid()
            run([CLANGXX, '-O1', '-fno-rtti', '-fno-exceptions', '-std=c++17'] + cpp +
                [src, '-o', tmp, '-L' + lib, '-lLLVM-18'])
            os.rename(tmp, out)
    return out

# name -> (stem, cppflags) ; filled from the Makefile
_mk = None
def makefile_configs():
    global _mk
    if _mk is not None:
        return _mk
    # -n -p -q: parse only, print the variable database, run nothing
    p = subprocess.run(['make', '-pRrnq', '-f', 'Makefile', 'USE_LTTNG=0', 'CC=cc', 'DEPFLAGS='], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    db = {}
    for line in p.stdout.decode(errors='replace').splitlines():
        m = re.match(r'^([A-Za-z_][A-Za-z0-9_]*)\s*:?=\s*(.*)$', line)
        if m:
            db[m.group(1)] = m.group(2)
    def expand(s, depth=0):
        return re.sub(r'\$\(([A-Za-z0-9_]+)\)', lambda m: expand(db.get(m.group(1), ''), depth + 1) if depth < 8 else '', s)
    cfgs = {}
    for c in expand(db.get('COLLECTORS', '')).split():
        v = c.replace('-', '_')
        cfgs[c] = (expand(db.get('GC_STEM_' + v, '')).strip(), expand(db.get('GC_CPPFLAGS_' + v, '')).split())
    _mk = cfgs
    return cfgs

_srchash = None
def source_hash():
    global _srchash
    if _srchash: return _srchash
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'src'), os.path.join(REPO, 'api'), os.path.join(VERIF, 'engine')):
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.cc')):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    p = os.path.join(REPO, 'Makefile')
    if os.path.exists(p): h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'engine', 'build.py'), 'rb').read())
    _srchash = h.hexdigest()[:20]
    return _srchash

COMMON = ['-std=gnu17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-strict-aliasing', '-fno-discard-value-names',
          '-fvisibility=hidden', '-Wno-everything', '-emit-llvm', '-c']

def compile_bc(src, out, flags, debug):
    cmd = [CLANG] + COMMON + ['-I' + os.path.join(VERIF, 'engine', 'compat'), '-I' + os.path.join(REPO, 'api'), '-I' + os.path.join(REPO, 'src')]
    cmd += ['-DGC_DEBUG=1'] if debug else ['-DNDEBUG']
    cmd += flags + [src, '-o', out]
    run(cmd)

def has_bdw():
    return subprocess.run(['pkg-config', '--exists', 'bdw-gc']).returncode == 0

KEEP = []   # functions never flattened

def load(cfg, inline=True, debug=False, units=None, keep=(), extra_flags=(), user=True, export=None, limit=None):
    """Return the JSON dict for a collector configuration.

    units: list of /repo/src file names (default: the collector, ephemerons and
    finalizers, plus the API-user model)."""
    cfgs = makefile_configs()
    key = hashlib.sha256(repr((cfg, inline, debug, units, tuple(keep), tuple(extra_flags), user, tuple(export) if export else None, limit,
                               source_hash())).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, 'ir')
    os.makedirs(cdir, exist_ok=True)
    cache = os.path.join(cdir, key + '.json')
    if os.path.exists(cache):
        with open(cache) as f:
            return json.load(f)
    if cfg is not None:
        if cfg not in cfgs:
            raise BuildError('collector configuration %s is not in the Makefile' % cfg)
        stem, flags = cfgs[cfg]
        flags = list(flags) + ['-DGC_ATTRS="%s/api/%s-attrs.h"' % (REPO, stem)]
        if stem == 'bdw':
            if has_bdw():
                flags += run(['pkg-config', '--cflags', 'bdw-gc']).decode().split()
        if units is None:
            units = [stem + '.c', 'gc-ephemeron.c', 'gc-finalizer.c']
    else:
        flags = []
    flags += ['-DGC_EMBEDDER="%s/engine/model/v-embedder.h"' % VERIF]
    flags += list(extra_flags)
    tool = irdump_path()
    td = tempfile.mkdtemp(prefix='vf', dir=BUILD)
    try:
        # One translation unit: the bitcode linker would merge structurally equal
        # struct types and with them the field names.
        srcs = [u if os.path.isabs(u) else os.path.join(REPO, 'src', u) for u in units]
        if user and cfg is not None: srcs.append(os.path.join(VERIF, 'engine', 'model', 'v-user.c'))
        uni = os.path.join(td, 'unity.c')
        with open(uni, 'w') as f:
            for x in srcs: f.write('#include "%s"\n' % x)
        out = os.path.join(td, 'unity.bc')
        try:
            compile_bc(uni, out, flags, debug)
            bcs = [out]
        except BuildError:
            bcs = []
            for i, x in enumerate(srcs):
                out = os.path.join(td, 'u%d.bc' % i)
                compile_bc(x, out, flags, debug); bcs.append(out)
        cmd = [tool, '--inline' if inline else '--no-inline']
        if limit: cmd.append('--limit=%d' % limit)
        if keep: cmd.append('--keep=' + ','.join(keep))
        if export: cmd.append('--export=' + ','.join(export))
        data = run(cmd + bcs, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
        # prune old cache entries
        def mtime(p):
            try: return os.path.getmtime(p)
            except OSError: return 0
        olds = sorted((os.path.join(cdir, f) for f in os.listdir(cdir) if not f.endswith('.tmp')), key=mtime)
        for o in olds[:-400]:
            try: os.unlink(o)
            except OSError: pass
        tmp = cache + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        with open(tmp, 'wb') as f: f.write(data)
        os.rename(tmp, cache)
        return json.loads(data)
    finally:
        shutil.rmtree(td, ignore_errors=True)

def load_many(specs):
    """specs: list of kwargs dicts for load(); returns list in order."""
    irdump_path()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda kw: load(**kw), specs))

if __name__ == '__main__':
    if '--setup' in sys.argv: print(irdump_path())
    for c, v in makefile_configs().items(): print(c, v)
