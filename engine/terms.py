"""Hash-consed term DAG with local simplification; translation to z3.  BV terms have w>0, Bool terms w==0,
floating point terms w in ('f32','f64')."""
import sys
sys.setrecursionlimit(400000)

class T:
    __slots__ = ("op", "args", "w", "id", "_ub", "_lb", "_tz", "__weakref__")
    def __repr__(self): return show(self, 6)

_tab = {}
_cnt = [0]
def mk(op, args, w):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.w = w; _cnt[0] += 1; t.id = _cnt[0]; t._ub = None; t._lb = None; t._tz = None
        _tab[k] = t
    return t

def show(t, d=3):
    if not isinstance(t, T): return str(t)
    if t.op == 'c': return f"{t.args[0]:#x}" if t.args[0] > 9 else str(t.args[0])
    if t.op == 'v': return t.args[0]
    if t.op in ('true', 'false'): return t.op
    if d == 0: return f"<{t.op}#{t.id}>"
    if t.op == 'lin':
        return "(" + " + ".join(([hex(t.args[0])] if t.args[0] else []) + [(f"{c}*" if c != 1 else "") + show(x, d-1) for x, c in t.args[1]]) + ")"
    return f"{t.op}(" + ",".join(show(a, d-1) if isinstance(a, T) else str(a) for a in t.args) + ")"

TRUE = mk('true', (), 0)
FALSE = mk('false', (), 0)
def M(w): return (1 << w) - 1
def const(v, w): return mk('c', (v & ((1 << w) - 1),), w)
def var(name, w): return mk('v', (name,), w)
def boolc(b): return TRUE if b else FALSE
def is_c(t): return t.op == 'c'
def cv(t): return t.args[0]
def sgn(v, w): return v - (1 << w) if v >> (w-1) else v

# ---- ranges -------------------------------------------------------------------------------------------------
def ub(t):
    r = t._ub
    if r is None:
        r = t._ub = _ub(t)
    return r
def lb(t):
    r = t._lb
    if r is None:
        r = t._lb = _lb(t)
    return r
def _ub(t):
    op = t.op; w = t.w; m = (1 << w) - 1
    if op == 'c': return t.args[0]
    if op == 'zext': return ub(t.args[0])
    if op == 'and': return min(ub(a) for a in t.args)
    if op in ('or', 'xor'):
        n = max(ub(t.args[0]), ub(t.args[1])); return min(m, (1 << n.bit_length()) - 1)
    if op == 'lshr':
        if t.args[1].op == 'c': return ub(t.args[0]) >> t.args[1].args[0]
        return ub(t.args[0])
    if op == 'urem':
        if t.args[1].op == 'c' and t.args[1].args[0]: return min(ub(t.args[0]), t.args[1].args[0] - 1)
        return ub(t.args[0])
    if op == 'udiv':
        if t.args[1].op == 'c' and t.args[1].args[0]: return ub(t.args[0]) // t.args[1].args[0]
        return m
    if op == 'ite': return max(ub(t.args[1]), ub(t.args[2]))
    if op == 'lin':
        s = t.args[0]; cx = _convex([x for x, c in t.args[1] if c == 1]) if LANES[0] else {}
        for x, c in t.args[1]:
            s += c * (cx[x.id] if x.id in cx else ub(x))
            if s > m: return m
        return s
    if op == 'mul':
        s = ub(t.args[0]) * ub(t.args[1]); return s if s <= m else m
    if op == 'concat':
        lo = t.args[1]; return (ub(t.args[0]) << lo.w) | M(lo.w) if not is_c(lo) else (ub(t.args[0]) << lo.w) | cv(lo)
    if op == 'extract':
        hi, lo, x = t.args
        u = ub(x) >> lo
        return u if u <= m else m
    if op in ('ctlz', 'cttz', 'ctpop'): return t.args[0].w
    return m
def _lb(t):
    op = t.op
    if op == 'c': return t.args[0]
    if op == 'zext': return lb(t.args[0])
    if op == 'ite': return min(lb(t.args[1]), lb(t.args[2]))
    if op == 'or': return max(lb(t.args[0]), lb(t.args[1]))
    if op == 'lin':
        s = t.args[0]; m = M(t.w); l = s
        for x, c in t.args[1]:
            s += c * ub(x)
            if s > m: return 0
            l += c * lb(x)
        return l
    if op == 'lshr' and t.args[1].op == 'c': return lb(t.args[0]) >> t.args[1].args[0]
    return 0
def tz(t):
    r = t._tz
    if r is None: r = t._tz = _tzf(t)
    return r
def _ctz(v, w): return w if v == 0 else (v & -v).bit_length() - 1
def _tzf(t):
    op = t.op; w = t.w
    if op == 'c': return _ctz(t.args[0], w)
    if op == 'lin':
        r = _ctz(t.args[0], w)
        for x, c in t.args[1]: r = min(r, min(w, tz(x) + _ctz(c, w)))
        return r
    if op == 'and': return max(tz(a) for a in t.args)
    if op in ('or', 'xor'): return min(tz(a) for a in t.args)
    if op == 'zext':
        r = tz(t.args[0]); return w if r == t.args[0].w else r
    if op == 'sext': 
        r = tz(t.args[0]); return w if r == t.args[0].w else r
    if op == 'ite': return min(tz(t.args[1]), tz(t.args[2]))
    if op == 'concat':
        r = tz(t.args[1]); return r if r < t.args[1].w else r + tz(t.args[0])
    if op == 'mul': return min(w, tz(t.args[0]) + tz(t.args[1]))
    if op == 'shl': return tz(t.args[0])
    return 0

# ---- bool ----------------------------------------------------------------------------------------------------
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 0)

def And(*xs):
    s = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args)); continue
        if x.id in seen: continue
        if (x.args[0].id if x.op == 'not' else None) in seen: return FALSE
        n = _tab.get(('not', (x,), 0))
        if n is not None and n.id in seen: return FALSE
        seen.add(x.id); s.append(x)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('and', tuple(s), 0)

def Or(*xs):
    s = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args)); continue
        if x.id in seen: continue
        if (x.args[0].id if x.op == 'not' else None) in seen: return TRUE
        n = _tab.get(('not', (x,), 0))
        if n is not None and n.id in seen: return TRUE
        seen.add(x.id); s.append(x)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('or', tuple(s), 0)

def Implies(a, b): return Or(Not(a), b)
def conj(t):
    if t is TRUE: return ()
    return t.args if (t.op == 'and' and t.w == 0) else (t,)

def Eq(a, b):
    if a is b: return TRUE
    if a.w == 0:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if Not(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 0)
    if a.w in ('f32', 'f64'):
        raise Exception("Eq on fp")
    if a.op == 'c' and b.op == 'c': return FALSE
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.args[0]
        if v > ub(a) or v < lb(a): return FALSE
        o = a.op
        if o == 'ite':
            x, y = a.args[1], a.args[2]
            if x.op == 'c' and y.op == 'c':
                if x.args[0] == v: return Eq2(a.args[0]) if y.args[0] != v else TRUE
                return Not(a.args[0]) if y.args[0] == v else FALSE
            if x.op == 'c' or y.op == 'c':
                return Or(And(a.args[0], Eq(x, b)), And(Not(a.args[0]), Eq(y, b)))
        if o == 'zext':
            x = a.args[0]; return Eq(x, const(v, x.w)) if v <= M(x.w) else FALSE
        if o == 'concat':
            hi, lo = a.args
            return And(Eq(hi, const(v >> lo.w, hi.w)), Eq(lo, const(v, lo.w)))
        if o == 'lin':
            if v & ((1 << min(tz_nc(a), a.w)) - 1) != a.args[0] & ((1 << min(tz_nc(a), a.w)) - 1): return FALSE
            if len(a.args[1]) == 1 and a.args[1][0][1] == 1: return Eq(a.args[1][0][0], const(v - a.args[0], a.w))
            if a.args[0]: return Eq(add(a, const(-a.args[0], a.w)), const(v - a.args[0], a.w))
        if o == 'xor' and a.args[1].op == 'c': return Eq(a.args[0], const(v ^ a.args[1].args[0], a.w))
        if o == 'sext':
            x = a.args[0]
            if v == 0: return Eq(x, const(0, x.w))
        return mk('eq', (a, b), 0)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c': return boolc(d.args[0] == 0)
        if d.op == 'lin':
            k = min(tz_nc(d), d.w)
            if d.args[0] & ((1 << k) - 1): return FALSE
        # canonical form
        if d.op == 'lin' and len(d.args[1]) <= 1 or d.op != 'lin':
            return Eq(d, const(0, a.w))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return Eq(a.args[0], b.args[0])
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return Eq(a.args[0], b.args[0])
    if ub(a) < lb(b) or ub(b) < lb(a): return FALSE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 0)
def Eq2(c): return c
def tz_nc(t):  # trailing zeros of the non-constant part of a lin
    r = t.w
    for x, c in t.args[1]: r = min(r, tz(x) + _ctz(c, t.w))
    return r

def ult(a, b):
    if a is b: return FALSE
    if ub(a) < lb(b): return TRUE
    if lb(a) >= ub(b): return FALSE
    if b.op == 'c' and b.args[0] == 1: return Eq(a, const(0, a.w))
    if a.op == 'c' and a.args[0] == 0: return Not(Eq(b, const(0, a.w)))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return ult(a.args[0], b.args[0])
    if a.op == 'zext' and b.op == 'c': return ult(a.args[0], const(b.args[0], a.args[0].w))   # ub check above ensures fits
    if b.op == 'zext' and a.op == 'c': return ult(const(a.args[0], b.args[0].w), b.args[0])
    if a.op == 'ite' and b.op == 'c' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return Or(And(a.args[0], ult(a.args[1], b)), And(Not(a.args[0]), ult(a.args[2], b)))
    if b.op == 'ite' and a.op == 'c' and (b.args[1].op == 'c' or b.args[2].op == 'c'):
        return Or(And(b.args[0], ult(a, b.args[1])), And(Not(b.args[0]), ult(a, b.args[2])))
    return mk('ult', (a, b), 0)
def ule(a, b): return Not(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    w = a.w
    if a.op == 'c' and b.op == 'c': return boolc(sgn(a.args[0], w) < sgn(b.args[0], w))
    h = 1 << (w - 1)
    if ub(a) < h and ub(b) < h: return ult(a, b)
    if ub(a) < h and lb(b) >= h: return FALSE
    if lb(a) >= h and ub(b) < h: return TRUE
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return slt(a.args[0], b.args[0])
    if a.op == 'sext' and b.op == 'c':
        n = a.args[0].w; v = sgn(b.args[0], w)
        if v > (1 << (n-1)) - 1: return TRUE
        if v <= -(1 << (n-1)): return FALSE
        return slt(a.args[0], const(v, n))
    if b.op == 'sext' and a.op == 'c':
        n = b.args[0].w; v = sgn(a.args[0], w)
        if v >= (1 << (n-1)) - 1: return FALSE
        if v < -(1 << (n-1)): return TRUE
        return slt(const(v, n), b.args[0])
    if a.op == 'ite' and b.op == 'c' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return Or(And(a.args[0], slt(a.args[1], b)), And(Not(a.args[0]), slt(a.args[2], b)))
    if b.op == 'ite' and a.op == 'c' and (b.args[1].op == 'c' or b.args[2].op == 'c'):
        return Or(And(b.args[0], slt(a, b.args[1])), And(Not(b.args[0]), slt(a, b.args[2])))
    return mk('slt', (a, b), 0)
def sle(a, b): return Not(slt(b, a))

def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return Ite(c.args[0], b, a)
    if a.w == 0:
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        return mk('ite', (c, a, b), 0)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # factor common constant base of pointers:  ite(c, K+x, K+y)
    if a.w == 64:
        ka, kb = lin_const(a), lin_const(b)
        if ka is not None and kb is not None and (ka >> 40) and (ka + (1 << 39)) >> 40 == (kb + (1 << 39)) >> 40 and not (a.op == 'c' and b.op == 'c' and False):
            base = const((((ka) >> 40) << 40) + (1 << 39), 64)
            return add(base, Ite(c, sub(a, base), sub(b, base)))
    return mk('ite', (c, a, b), a.w)
def lin_const(t):
    if t.op == 'c': return t.args[0]
    if t.op == 'lin': return t.args[0]
    return None

# ---- bv ------------------------------------------------------------------------------------------------------
def _lin(t):
    """-> (const, dict term->coef)"""
    if t.op == 'c': return t.args[0], ()
    if t.op == 'lin': return t.args
    return 0, ((t, 1),)
# ---- lane normal form (opt lanes=1): packed arithmetic on values that are disjoint bit fields is split per field --------
LANES = [False]
def segs(t):
    """[(bit offset, field)] such that t is the disjoint union of the fields (gaps are zero)"""
    if t.op == 'c':
        v = t.args[0]; out = []; o = 0
        while v >> o:
            o += _ctz(v >> o, t.w); n = _ctz(~(v >> o), t.w); out.append((o, const(M(n), n))); o += n
        return out
    if t.op == 'zext': return segs(t.args[0])
    if t.op == 'concat': return segs(t.args[1]) + [(o + t.args[1].w, s) for o, s in segs(t.args[0])]
    return [(0, t)]
def _strip(t): return t.args[0] if t.op == 'zext' else t
def _convex(items):
    """x*m + y*(2^n-1 - m) <= max(x, y) * (2^n-1): {id of first product: joint bound, id of second: 0}"""
    out = {}
    ms = [t for t in items if t.op == 'mul']
    for i, p in enumerate(ms):
        for q in ms[i+1:]:
            if p.id in out or q.id in out or p is q: continue
            for f, of in (p.args, p.args[::-1]):
                for g, og in (q.args, q.args[::-1]):
                    m, n = _strip(f), _strip(g)
                    if m.w == n.w and p.id not in out and bxor(m, const(M(m.w), m.w)) is n:
                        u = max(ub(of), ub(og)) * M(m.w)
                        if u <= M(p.w): out[p.id] = u; out[q.id] = 0
    return out
def _fit(t, w): return t if t.w == w else zext(t, w) if t.w < w else extract(t, w-1, 0)
def _join(fs, w):
    """fields [(offset, term)] sorted, disjoint -> term of width w"""
    r = None; pos = 0
    for o, t in fs:
        if o > pos: r = const(0, o - pos) if r is None else concat(const(0, o - pos), r)
        r = t if r is None else concat(t, r); pos = o + t.w
    if r is None: return const(0, w)
    return _fit(r, w)
def _lanes_lin(k, items, w):
    if len(items) == 1 and items[0][1] == M(w) and k & (k+1) == 0 and ub(items[0][0]) <= k:
        return bxor(items[0][0], const(k, w))            # (2^n-1) - x
    fs = [(o, s, 1) for o, s in segs(const(k, w))]; multi = False
    for x, c in items:
        if c >> (w-1): return None
        z = _ctz(c, w); g = segs(x); multi |= len(g) > 1 or z > 0
        fs += [(o + z, s, c >> z) for o, s in g]
    cxs = {}
    for o in set(f[0] for f in fs): cxs[o] = _convex([_strip(s) for oo, s, c in fs if oo == o and c == 1])
    def U(o, s, c): return cxs[o][_strip(s).id] if c == 1 and _strip(s).id in cxs[o] else ub(s) * c
    fs.sort(key=lambda f: (f[0], -U(*f)))
    tot = sum(U(o, s, c) << o for o, s, c in fs)
    if tot > M(w): return None
    if not multi and tot.bit_length() == w: return None
    groups = []
    for o, s, c in fs:
        u = U(o, s, c)
        if groups and o < groups[-1][0] + groups[-1][1].bit_length():
            g = groups[-1]; g[1] += u << (o - g[0]); g[2].append((o - g[0], s, c))
        else: groups.append([o, u, [(0, s, c)]])
    # a group that grew may reach into the next one
    i = 0
    while i + 1 < len(groups):
        a, b = groups[i], groups[i+1]
        if b[0] < a[0] + a[1].bit_length():
            a[1] += b[1] << (b[0] - a[0]); a[2] += [(o + b[0] - a[0], s, c) for o, s, c in b[2]]; del groups[i+1]; i = max(i - 1, 0)
        else: i += 1
    if len(groups) == 1 and groups[0][0] == 0 and groups[0][1].bit_length() >= w and not any(len(segs(x)) > 1 for x, c in items): return None
    out = []
    for o, u, ts in groups:
        W = u.bit_length()
        if W == 0: continue
        if len(groups) == 1 and o == 0 and W >= w: return None
        d = {}; kk = 0
        for oo, s, c in ts:
            if s.op == 'c': kk += (s.args[0] * c) << oo; continue
            x = _fit(s, W); k2, l2 = _lin(x)   # exact: the field's value fits W bits
            kk += (k2 * c) << oo
            for t, c2 in l2: d[t] = d.get(t, 0) + ((c2 * c) << oo)
        out.append((o, _mklin(kk, d, W)))
    return _join(out, w)
def _lanes_mul(a, b):
    w = a.w; sa, sb = segs(a), segs(b)
    if len(sb) > 1 and len(sa) > 1: return None
    if len(sb) > 1: a, b, sa, sb = b, a, sb, sa
    ubb = ub(b); tot = sum((ub(s) * ubb) << o for o, s in sa)
    if tot > M(w) or (len(sa) == 1 and sa[0][0] == 0 and tot.bit_length() == w): return None
    out = []; pos = 0
    for o, s in sorted(sa, key=lambda f: f[0]):
        W = (ub(s) * ubb).bit_length()
        if W == 0: continue
        if o < pos: return None
        out.append((o, mul(_fit(s, W), _fit(b, W)))); pos = o + W
    return _join(out, w)
def _lanes_or(a, b):
    fs = sorted(segs(a) + segs(b), key=lambda f: f[0]); pos = 0
    for o, s in fs:
        if o < pos: return None
        pos = o + s.w
    return _join(fs, a.w)
def _lanes_and(a, v, w):
    out = []; o = 0
    while v >> o:
        o += _ctz(v >> o, w); n = _ctz(~(v >> o), w); out.append((o, extract(a, o+n-1, o))); o += n
    return _join(out, w)

def _mklin(k, d, w):
    m = M(w); k &= m
    items = [(t, c & m) for t, c in d.items() if c & m]
    if not items: return const(k, w)
    if LANES[0]:
        r = _lanes_lin(k, items, w)
        if r is not None: return r
    if k == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('lin', (k, tuple(items)), w)
def add(a, b):
    if a.op == 'c' and a.args[0] == 0: return b
    if b.op == 'c' and b.args[0] == 0: return a
    ka, la = _lin(a); kb, lb_ = _lin(b)
    d = dict(la)
    for t, c in lb_: d[t] = d.get(t, 0) + c
    return _mklin(ka + kb, d, a.w)
def neg(a): return mulc(a, -1)
def sub(a, b):
    if a is b: return const(0, a.w)
    return add(a, neg(b))
def mulc(a, k):
    w = a.w; k &= M(w)
    if k == 0: return const(0, w)
    if k == 1: return a
    ka, la = _lin(a)
    d = {}
    for t, c in la: d[t] = c * k
    return _mklin(ka * k, d, w)
def mul(a, b):
    if a.op == 'c': return mulc(b, a.args[0])
    if b.op == 'c': return mulc(a, b.args[0])
    if LANES[0]:
        r = _lanes_mul(a, b)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), a.w)
def udiv(a, b):
    w = a.w
    if b.op == 'c':
        v = b.args[0]
        if v == 1: return a
        if a.op == 'c' and v: return const(a.args[0] // v, w)
        if v and v & (v-1) == 0: return lshr(a, const(v.bit_length()-1, w))
        if v and ub(a) < v: return const(0, w)
    return mk('udiv', (a, b), w)
def urem(a, b):
    w = a.w
    if b.op == 'c':
        v = b.args[0]
        if a.op == 'c' and v: return const(a.args[0] % v, w)
        if v and v & (v-1) == 0: return band(a, const(v-1, w))
        if v and ub(a) < v: return a
    return mk('urem', (a, b), w)
def sdiv(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c' and b.args[0]:
        x, y = sgn(a.args[0], w), sgn(b.args[0], w)
        q = abs(x) // abs(y); return const(q if (x < 0) == (y < 0) else -q, w)
    if b.op == 'c' and b.args[0] == 1: return a
    h = 1 << (w-1)
    if ub(a) < h and ub(b) < h: return udiv(a, b)
    return mk('sdiv', (a, b), w)
def srem(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c' and b.args[0]:
        x, y = sgn(a.args[0], w), sgn(b.args[0], w)
        r = abs(x) % abs(y); return const(-r if x < 0 else r, w)
    h = 1 << (w-1)
    if ub(a) < h and ub(b) < h: return urem(a, b)
    return mk('srem', (a, b), w)
def shl(a, b):
    w = a.w
    if b.op == 'c':
        s = b.args[0]
        if s >= w: return const(0, w)
        return mulc(a, 1 << s)
    if a.op == 'c' and a.args[0] == 0: return a
    return mk('shl', (a, b), w)
def lshr(a, b):
    w = a.w
    if b.op == 'c':
        s = b.args[0]
        if s == 0: return a
        if s >= w: return const(0, w)
        if a.op == 'c': return const(a.args[0] >> s, w)
        if ub(a) >> s == 0: return const(0, w)
        if a.op == 'lin' and tz(a) >= s:
            # exact when no wrap in the scaled sum
            tot = a.args[0]
            for x, c in a.args[1]: tot += c * ub(x)
            if tot <= M(w) and all(c % (1 << s) == 0 for x, c in a.args[1]) and a.args[0] % (1 << s) == 0:
                return _mklin(a.args[0] >> s, {x: c >> s for x, c in a.args[1]}, w)
        if a.op == 'lin' and a.args[0] and ub_exact(a):
            # split off terms that are multiples of 2^s when the rest is < 2^s
            pass
        return zext(extract(a, w-1, s), w)
    if a.op == 'c' and a.args[0] == 0: return a
    return mk('lshr', (a, b), w)
def ub_exact(a): return False
def ashr(a, b):
    w = a.w
    if ub(a) < (1 << (w-1)): return lshr(a, b)
    if b.op == 'c':
        s = b.args[0]
        if s == 0: return a
        if a.op == 'c': return const(sgn(a.args[0], w) >> min(s, w-1), w)
        if s >= w: s = w-1
        return sext(extract(a, w-1, s), w)
    return mk('ashr', (a, b), w)
def band(a, b):
    w = a.w
    if a is b: return a
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.args[0]
        if v == 0: return b
        if v == M(w): return a
        if a.op == 'c': return const(a.args[0] & v, w)
        u = ub(a)
        n = u.bit_length()
        if v & M(n) == M(n): return a
        v &= M(n)
        if v == 0: return const(0, w)
        b = const(v, w)
        if v & (v+1) == 0:   # low mask
            k = v.bit_length()
            if tz(a) >= k: return const(0, w)
            return zext(extract(a, k-1, 0), w)
        if a.op == 'and' and a.args[1].op == 'c': return band(a.args[0], const(v & a.args[1].args[0], w))
        if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c': return Ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
        # contiguous mask -> concat form
        lowz = _ctz(v, w); vv = v >> lowz
        if vv & (vv+1) == 0:
            k = vv.bit_length()
            r = extract(a, lowz+k-1, lowz)
            return concat(zext(r, w-lowz), const(0, lowz)) if lowz else zext(r, w)
        if LANES[0]: return _lanes_and(a, v, w)
        return mk('and', (a, b), w)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c' and {a.args[1].args[0], a.args[2].args[0]} == {0, M(w)}:
        return Ite(a.args[0], b, const(0, w)) if a.args[1].args[0] else Ite(a.args[0], const(0, w), b)
    if b.op == 'ite' and b.args[1].op == 'c' and b.args[2].op == 'c' and {b.args[1].args[0], b.args[2].args[0]} == {0, M(w)}:
        return band(b, a)
    if bnot_of(a) is b: return const(0, w)
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), w)
def bnot_of(a):
    return a.args[0] if a.op == 'xor' and a.args[1].op == 'c' and a.args[1].args[0] == M(a.w) else _tab.get(('xor', (a, const(M(a.w), a.w)), a.w))
def bor(a, b):
    w = a.w
    if a is b: return a
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.args[0]
        if v == 0: return a
        if v == M(w): return b
        if a.op == 'c': return const(a.args[0] | v, w)
        if a.op == 'or' and a.args[1].op == 'c': return bor(a.args[0], const(v | a.args[1].args[0], w))
        if ub(a) < (1 << _ctz(v, w)): return add_disj(b, a)
        if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c': return Ite(a.args[0], bor(a.args[1], b), bor(a.args[2], b))
        if LANES[0]:
            r = _lanes_or(a, b)
            if r is not None: return r
        return mk('or', (a, b), w)
    # disjoint parts  (x << k) | y  with y < 2^k
    if ub(a) < (1 << min(tz(b), w)): return add_disj(b, a)
    if ub(b) < (1 << min(tz(a), w)): return add_disj(a, b)
    if LANES[0]:
        r = _lanes_or(a, b)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), w)
def add_disj(hi, lo):
    """hi | lo with disjoint bits, lo below tz(hi): produce a concat."""
    w = hi.w; k = max(ub(lo).bit_length(), 0)
    z = min(tz(hi), w)
    if z >= w: return lo
    if z == 0: return mk('or', (hi, lo) if hi.id < lo.id else (lo, hi), w)
    return concat(extract(hi, w-1, z), extract(lo, z-1, 0))
def bxor(a, b):
    w = a.w
    if a is b: return const(0, w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.args[0]
        if v == 0: return a
        if a.op == 'c': return const(a.args[0] ^ v, w)
        if a.op == 'xor' and a.args[1].op == 'c': return bxor(a.args[0], const(v ^ a.args[1].args[0], w))
        if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c': return Ite(a.args[0], bxor(a.args[1], b), bxor(a.args[2], b))
        if a.op == 'concat':
            hi, lo = a.args
            return concat(bxor(hi, const(v >> lo.w, hi.w)), bxor(lo, const(v, lo.w)))
        if a.op == 'zext' and w > a.args[0].w:
            x = a.args[0]
            if v >> x.w == 0: return zext(bxor(x, const(v, x.w)), w)
        return mk('xor', (a, b), w)
    if a.id > b.id: a, b = b, a
    return mk('xor', (a, b), w)
def bnot(a): return bxor(a, const(M(a.w), a.w))

def zext(a, w):
    if a.w == 0: return Ite(a, const(1, w), const(0, w))
    if a.w == w: return a
    assert w > a.w
    if a.op == 'c': return const(a.args[0], w)
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c': return Ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)
def sext(a, w):
    if a.w == 0: return Ite(a, const(M(w), w), const(0, w))
    if a.w == w: return a
    if a.op == 'c': return const(sgn(a.args[0], a.w), w)
    if ub(a) < (1 << (a.w-1)): return zext(a, w)
    if a.op == 'sext': return sext(a.args[0], w)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c': return Ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)
def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    op = a.op
    if op == 'c': return const(a.args[0] >> lo, w)
    if op == 'extract': return extract(a.args[2], a.args[1] + hi, a.args[1] + lo)
    if op in ('zext', 'sext'):
        x = a.args[0]
        if hi < x.w: return extract(x, hi, lo)
        if op == 'zext':
            if lo >= x.w: return const(0, w)
            return zext(extract(x, x.w-1, lo), w)
        if lo < x.w: return sext(extract(x, x.w-1, lo), w)
    if op == 'concat':
        h, l = a.args
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w-1, lo))
    if op == 'ite':
        if a.args[1].op == 'c' or a.args[2].op == 'c': return Ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if op in ('and', 'or', 'xor') and (a.args[1].op in ('c', 'concat', 'zext') or a.args[0].op in ('concat', 'zext')):
        f = band if op == 'and' else bor if op == 'or' else bxor
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if lo == 0 and op == 'lin':
        r = const(a.args[0], w)
        for x, c in a.args[1]: r = add(r, mulc(extract(x, hi, 0), c))
        return r
    if lo == 0 and op == 'mul': return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if op == 'lin' and lo > 0:
        u = ub(a)
        if u >> lo == 0: return const(0, w)
        z = tz(a)
        if hi < z: return const(0, w)
    return mk('extract', (hi, lo, a), w)
def trunc(a, w): return extract(a, w-1, 0)
def concat(h, l):
    w = h.w + l.w
    if h.op == 'c' and l.op == 'c': return const((h.args[0] << l.w) | l.args[0], w)
    if h.op == 'c' and h.args[0] == 0: return zext(l, w)
    if h.op == 'extract' and l.op == 'extract' and h.args[2] is l.args[2] and h.args[1] == l.args[0] + 1:
        return extract(h.args[2], h.args[0], l.args[1])
    if h.op == 'zext':
        return zext(concat(h.args[0], l), w)
    if h.op == 'concat' and l.op in ('extract', 'c'):
        r = concat(h.args[1], l)
        if r.op != 'concat': return concat(h.args[0], r)
    if l.op == 'concat':
        return concat(concat(h, l.args[0]), l.args[1])
    return mk('concat', (h, l), w)

def ctlz(a):
    if a.op == 'c': return const(a.w - a.args[0].bit_length(), a.w)
    return mk('ctlz', (a,), a.w)
def cttz(a):
    if a.op == 'c': return const(_ctz(a.args[0], a.w), a.w)
    return mk('cttz', (a,), a.w)
def ctpop(a):
    if a.op == 'c': return const(bin(a.args[0]).count('1'), a.w)
    return mk('ctpop', (a,), a.w)
def bswap(a):
    n = a.w // 8
    r = extract(a, 7, 0)
    for i in range(1, n): r = concat(r, extract(a, 8*i+7, 8*i))
    return r
def uf(name, args, w): return mk('uf', (name,) + tuple(args), w)

# ---- floating point ------------------------------------------------------------------------------------------
import struct
def fw(s): return 32 if s == 'f32' else 64
def fpconst(bits, s): return mk('fpc', (bits,), s)
def fp_from_bits(b, s):
    if b.op == 'fpbits': return b.args[0]
    if b.op == 'c': return fpconst(b.args[0], s)
    if b.op == 'ite': return Ite(b.args[0], fp_from_bits(b.args[1], s), fp_from_bits(b.args[2], s))
    return mk('fpof', (b,), s)
def fp_bits(f):
    if f.op == 'fpof': return f.args[0]
    if f.op == 'fpc': return const(f.args[0], fw(f.w))
    if f.op == 'ite': return Ite(f.args[0], fp_bits(f.args[1]), fp_bits(f.args[2]))
    return mk('fpbits', (f,), fw(f.w))
def fval(f):
    return struct.unpack('<f' if f.w == 'f32' else '<d', f.args[0].to_bytes(4 if f.w == 'f32' else 8, 'little'))[0]
def ffrom(v, s):
    try: return fpconst(int.from_bytes(struct.pack('<f' if s == 'f32' else '<d', v), 'little'), s)
    except OverflowError: return None
def fpop(op, args, s):
    return mk(op, tuple(args), s)

# ---- z3 ------------------------------------------------------------------------------------------------------
_z = {}
_fun = {}
def z3fun(name, argw, w):
    import z3
    k = (name, argw, w)
    f = _fun.get(k)
    if f is None:
        f = _fun[k] = z3.Function(name, *[z3sort(x) for x in argw], z3sort(w))
    return f
def z3sort(w):
    import z3
    if w == 0: return z3.BoolSort()
    if w == 'f32': return z3.Float32()
    if w == 'f64': return z3.Float64()
    return z3.BitVecSort(w)

def children(t):
    if t.op == 'lin': return [x for x, _ in t.args[1]]
    return [a for a in t.args if isinstance(a, T)]

def to_z3(t):
    r = _z.get(t.id)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _z: st.pop(); continue
        ch = [c for c in children(x) if c.id not in _z]
        if ch: st.extend(ch); continue
        _z[x.id] = _conv(x); st.pop()
    return _z[t.id]

def _conv(t):
    import z3
    op = t.op; A = t.args; w = t.w
    g = lambda i: _z[A[i].id]
    if op == 'c': return z3.BitVecVal(A[0], w)
    if op == 'v':
        if w == 0: return z3.Bool(A[0])
        if w in ('f32', 'f64'): return z3.FP(A[0], z3sort(w))
        return z3.BitVec(A[0], w)
    if op == 'true': return z3.BoolVal(True)
    if op == 'false': return z3.BoolVal(False)
    if op == 'not': return z3.Not(g(0))
    if op == 'and' and w == 0: return z3.And([_z[a.id] for a in A])
    if op == 'or' and w == 0: return z3.Or([_z[a.id] for a in A])
    if op == 'eq': return g(0) == g(1)
    if op == 'ult': return z3.ULT(g(0), g(1))
    if op == 'slt': return g(0) < g(1)
    if op == 'ite': return z3.If(g(0), g(1), g(2))
    if op == 'lin':
        r = None; m = 1 << w
        for x, c in A[1]:
            zx = _z[x.id]
            if c > m // 2 and w > 1:
                zx2 = zx if m - c == 1 else zx * z3.BitVecVal(m - c, w)
                r = (-zx2) if r is None else r - zx2
            else:
                zx2 = zx if c == 1 else (zx << z3.BitVecVal(c.bit_length()-1, w) if c & (c-1) == 0 else zx * z3.BitVecVal(c, w))
                r = zx2 if r is None else r + zx2
        if A[0]: r = r + z3.BitVecVal(A[0], w)
        return r
    if op == 'mul': return g(0) * g(1)
    if op == 'udiv': return z3.UDiv(g(0), g(1))
    if op == 'urem': return z3.URem(g(0), g(1))
    if op == 'sdiv': return g(0) / g(1)
    if op == 'srem': return z3.SRem(g(0), g(1))
    if op == 'shl': return g(0) << g(1)
    if op == 'lshr': return z3.LShR(g(0), g(1))
    if op == 'ashr': return g(0) >> g(1)
    if op == 'and': return g(0) & g(1)
    if op == 'or': return g(0) | g(1)
    if op == 'xor': return g(0) ^ g(1)
    if op == 'zext': return z3.ZeroExt(w - A[0].w, g(0))
    if op == 'sext': return z3.SignExt(w - A[0].w, g(0))
    if op == 'extract': return z3.Extract(A[0], A[1], _z[A[2].id])
    if op == 'concat': return z3.Concat(g(0), g(1))
    if op == 'ctlz':
        x = g(0); r = z3.BitVecVal(w, w)
        for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w-1-i, w), r)
        return r
    if op == 'cttz':
        x = g(0); r = z3.BitVecVal(w, w)
        for i in range(w-1, -1, -1): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        return r
    if op == 'ctpop':
        x = g(0); r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w-1, z3.Extract(i, i, x))
        return r
    if op in ('sel', 'uf'):
        f = z3fun(A[0], tuple(a.w for a in A[1:]), w)
        return f(*[_z[a.id] for a in A[1:]])
    # fp
    rne = z3.RNE()
    if op == 'fpc': return z3.fpBVToFP(z3.BitVecVal(A[0], fw(w)), z3sort(w))
    if op == 'fpof': return z3.fpBVToFP(g(0), z3sort(w))
    if op == 'fpbits': return z3.fpToIEEEBV(g(0))
    if op == 'fadd': return z3.fpAdd(rne, g(0), g(1))
    if op == 'fsub': return z3.fpSub(rne, g(0), g(1))
    if op == 'fmul': return z3.fpMul(rne, g(0), g(1))
    if op == 'fdiv': return z3.fpDiv(rne, g(0), g(1))
    if op == 'fsqrt': return z3.fpSqrt(rne, g(0))
    if op == 'frnd': return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}[A[0]], _z[A[1].id])
    if op == 'fneg': return z3.fpNeg(g(0))
    if op == 'fabs': return z3.fpAbs(g(0))
    if op == 'fmin': return z3.fpMin(g(0), g(1))
    if op == 'fmax': return z3.fpMax(g(0), g(1))
    if op == 'feq': return z3.fpEQ(g(0), g(1))
    if op == 'flt': return z3.fpLT(g(0), g(1))
    if op == 'fle': return z3.fpLEQ(g(0), g(1))
    if op == 'fisnan': return z3.fpIsNaN(g(0))
    if op == 'fcvt': return z3.fpFPToFP(rne, g(0), z3sort(w))
    if op == 'sitofp': return z3.fpSignedToFP(rne, g(0), z3sort(w))
    if op == 'uitofp': return z3.fpUnsignedToFP(rne, g(0), z3sort(w))
    if op == 'fptosi': return z3.fpToSBV({'z': z3.RTZ(), 'n': z3.RNE()}[A[1]], g(0), z3.BitVecSort(w))
    if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), g(0), z3.BitVecSort(w))
    raise Exception("conv " + op)
