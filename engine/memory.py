"""Memory model: per-object contents = array term (symbolic indices) overlaid by newer constant-offset cells."""
from terms import *

OBJ_SHIFT = 40
def base_of(i): return (i << OBJ_SHIFT) + (1 << (OBJ_SHIFT - 1))

class Arr:
    """functional array node; esz = element size in bytes; index width = 64-log2(esz)"""
    __slots__ = ("kind", "esz", "a", "memo", "iw", "id")
    n = 0
    def __init__(s, kind, esz, a):
        s.kind = kind; s.esz = esz; s.a = a; s.memo = {}; s.iw = 64 - (esz.bit_length() - 1); Arr.n += 1; s.id = Arr.n

_arrs = {}
def mkarr(kind, esz, *a):
    k = (kind, esz) + tuple(x if not isinstance(x, Arr) else ('A', x.id) for x in a)
    r = _arrs.get(k)
    if r is None: r = _arrs[k] = Arr(kind, esz, a)
    return r

def select(A, i):
    r = A.memo.get(i)
    if r is None:
        r = A.memo[i] = _select(A, i)
    return r

def _select(A, i):
    # iterative descent over long store chains
    conds = []
    while True:
        k = A.kind
        if k == 'store':
            B, j, v = A.a
            e = Eq(i, j)
            if e is TRUE: res = v; break
            if e is not FALSE: conds.append((e, v))
            A = B; continue
        if k == 'fill':
            B, lo, n, v = A.a
            c = ult(sub(i, lo), n)
            if c is TRUE: res = v; break
            if c is not FALSE: conds.append((c, v))
            A = B; continue
        if k == 'copy':
            B, lo, n, S, so = A.a
            c = ult(sub(i, lo), n)
            if c is not FALSE:
                v = select(S, add(so, sub(i, lo)))
                if c is TRUE: res = v; break
                conds.append((c, v))
            A = B; continue
        if k == 'ite':
            c, P, Q = A.a
            res = Ite(c, select(P, i), select(Q, i)); break
        if k == 'base':
            res = mk('sel', (A.a[0], i), 8 * A.esz); break
        if k == 'const':
            res = A.a[0]; break
        if k == 'table':
            res = tab_select(A.a[0], i, 8 * A.esz); break
        if k == 'view':
            B, = A.a
            if B.esz > A.esz:   # narrow view of a wider array
                r = B.esz // A.esz; lg = r.bit_length() - 1
                q = extract(i, i.w - 1, lg); rem = extract(i, lg - 1, 0)
                e = select(B, q); ew = 8 * A.esz
                if is_c(rem): res = extract(e, cv(rem) * ew + ew - 1, cv(rem) * ew)
                else:
                    res = extract(e, ew - 1, 0)
                    for j in range(1, r): res = Ite(Eq(rem, const(j, lg)), extract(e, j * ew + ew - 1, j * ew), res)
            else:               # wide view of a narrower array
                r = A.esz // B.esz; lg = r.bit_length() - 1
                i2 = concat(i, const(0, lg))
                res = select(B, i2)
                for j in range(1, r): res = concat(select(B, add(i2, const(j, i2.w))), res)
            break
        raise Exception(k)
    for c, v in reversed(conds): res = Ite(c, v, res)
    return res

def tab_select(vals, i, w):
    """table lookup; out-of-range indices give 0 (bounds are a separate obligation)"""
    if is_c(i): return const(vals[cv(i)], w) if cv(i) < len(vals) else const(0, w)
    n = len(vals)
    u = min(ub(i), n - 1)
    memo = {}
    def rec(lo, size):
        # values lo..lo+size-1, size power of two
        if lo >= n: return None
        if size == 1: return const(vals[lo], w)
        k = (lo, size)
        h = size // 2
        a = rec(lo, h); b = rec(lo + h, h)
        if a is None: return b
        if b is None or a is b: return a
        bit = Eq(extract(i, h.bit_length() - 1, h.bit_length() - 1), const(1, 1))
        return Ite(bit, b, a)
    p = 1
    while p <= u: p *= 2
    return rec(0, p)

def view(A, esz):
    if A.esz == esz: return A
    if A.kind == 'view' and A.a[0].esz == esz: return A.a[0]
    if A.kind == 'const':
        v = A.a[0]
        if esz < A.esz:
            parts = [extract(v, 8*esz*(k+1)-1, 8*esz*k) for k in range(A.esz // esz)]
            if all(p is parts[0] for p in parts): return mkarr('const', esz, parts[0])
        else:
            r = v
            for _ in range(esz // A.esz - 1): r = concat(r, v)
            return mkarr('const', esz, r)
    return mkarr('view', esz, A)

class Obj:
    """immutable-by-convention per-state object contents (copy on write)"""
    __slots__ = ("cells", "arr", "alive")
    def __init__(s, cells, arr, alive=TRUE):
        s.cells = cells; s.arr = arr; s.alive = alive
    def clone(s): return Obj(dict(s.cells), s.arr, s.alive)

class Meta:
    __slots__ = ("id", "name", "size", "kind", "ro", "base", "init", "site")
    def __init__(s, id, name, size, kind, ro=False):
        s.id = id; s.name = name; s.size = size; s.kind = kind; s.ro = ro; s.base = base_of(id); s.init = None; s.site = None

def bits_of(v):
    """value term -> bitvector"""
    if v.w in ('f32', 'f64'): return fp_bits(v)
    if v.w == 0: return zext(v, 8)
    return v
