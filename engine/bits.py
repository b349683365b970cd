"""Values as sums of bits: a small abstract domain for address arithmetic.

A form is {key: coefficient}, the value being the sum; a key is 1 (the constant)
or (source, i): bit i of a source value.  Masks, shifts and divisions by powers
of two are exact while no two summands share a bit position."""
from ts import const_of

M64 = (1 << 64) - 1

def _bits(fm, width=64):
    """[0 | 1 | key] per position, or None if summands may overlap"""
    out = [0] * width
    c = fm.get(1, 0) & M64
    for i in range(width):
        if c >> i & 1: out[i] = 1
    for k, n in fm.items():
        if k == 1: continue
        n &= M64
        for i in range(width):
            if n >> i & 1:
                if out[i] != 0: return None
                out[i] = k
        if n >> width: pass
    return out
def _form(bs):
    fm = {}
    for i, b in enumerate(bs):
        if b == 0: continue
        fm[b] = fm.get(b, 0) + (1 << i)
    return fm
def _norm(fm, width=64):
    m = (1 << width) - 1
    return {k: v & m for k, v in fm.items() if v & m}

def source(key, width=64): return {(key, i): 1 << i for i in range(width)}
def canon(fm): return tuple(sorted(((repr(k), v) for k, v in fm.items()))) if fm is not None else None

def width_of(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64

def form(f, v, opaque=None, depth=24):
    """the form of value v of function f; opaque(I) may name the source of a load"""
    c = const_of(v)
    if v[0] == 'null': return {}
    if c is not None: return _norm({1: c}) if c else {}
    if v[0] == 'a': return source(('arg', v[1]))
    if v[0] != 'v' or depth == 0: return None
    I = f.insts[v[1]]; w = width_of(I.ty)
    def sub(i): return form(f, I.ops[i], opaque, depth - 1)
    if I.op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'zext'): return sub(0)
    if I.op == 'trunc':
        a = sub(0); b = a and _bits(a)
        if a == {}: return {}
        if b is None: return _norm(a, w) if a is not None else None
        return _form(b[:w])
    if I.op in ('add', 'sub'):
        a, b = sub(0), sub(1)
        if a is None or b is None: return None
        s = 1 if I.op == 'add' else -1
        out = dict(a)
        for k, n in b.items(): out[k] = out.get(k, 0) + s * n
        return _norm(out, w)
    if I.op == 'or':
        a, b = sub(0), sub(1)
        if a is None or b is None: return None
        x, y = _bits(a), _bits(b)
        if x is None or y is None: return None
        o = [q if p == 0 else p if q == 0 or q == p else 1 if 1 in (p, q) else None for p, q in zip(x, y)]
        return None if None in o else _form(o)
    if I.op in ('and', 'shl', 'lshr', 'udiv', 'urem', 'mul'):
        a = sub(0); c = const_of(I.ops[1])
        if c is None and I.op in ('and', 'mul'): a = sub(1); c = const_of(I.ops[0])
        if a is None or c is None: return None
        c &= (1 << w) - 1
        if I.op == 'mul': return _norm({k: n * c for k, n in a.items()}, w)
        if I.op == 'shl': return _norm({k: n << c for k, n in a.items()}, w)
        x = _bits(a, w)
        if x is None: return None
        if I.op in ('udiv', 'urem'):
            if c == 0 or c & (c - 1): return None
            k = c.bit_length() - 1
            return _form(x[k:]) if I.op == 'udiv' else _form(x[:k])
        if I.op == 'lshr': return _form(x[c:])
        return _form([b if c >> i & 1 else 0 for i, b in enumerate(x)])
    if I.op == 'getelementptr':
        if opaque and opaque(I) is not None: return source(opaque(I), w)
        a = sub(0)
        if a is None or len(I.ops) != 2: return None
        s = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}.get((I.raw.get('gep') or {}).get('src'))
        b = sub(1)
        if s is None or b is None: return None
        out = dict(a)
        for k, n in b.items(): out[k] = out.get(k, 0) + s * n
        return _norm(out)
    if opaque:
        k = opaque(I)
        if k is not None: return source(k, w)
    return None

def pattern(f, v, depth=8):
    """what a byte is combined with: ('c', n) or ('shl', n, form of the shift)"""
    while v[0] == 'v' and f.insts[v[1]].op in ('zext', 'trunc', 'freeze', 'sext'): v = f.insts[v[1]].ops[0]
    c = const_of(v)
    if c is not None: return ('c', c & 255)
    if v[0] != 'v': return None
    I = f.insts[v[1]]
    if I.op == 'xor' and const_of(I.ops[1]) in (-1, 255):
        p = pattern(f, I.ops[0], depth - 1); return ('not', p) if p else None
    if I.op == 'shl' and const_of(I.ops[0]) is not None:
        fm = form(f, I.ops[1])
        return ('shl', const_of(I.ops[0]), canon(fm)) if fm is not None else None
    return None
