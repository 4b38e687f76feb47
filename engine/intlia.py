"""Integer abstraction of bit-vector obligations: every wrap-around becomes an explicit bounded carry variable, operators without an integer
meaning become unconstrained values in range.  Only the answer 'unsat' is used (the abstraction has at least the models of the original)."""
from terms import *

def int_check(fs, timeout_ms):
    import z3
    S = z3.SolverFor("AUFLIA") if False else z3.Solver()
    S.set("timeout", int(timeout_ms))
    I = {}; side = []; n = [0]; funs = {}
    def fresh(lo, hi):
        n[0] += 1; v = z3.Int(f"i!{n[0]}"); side.append(v >= lo); side.append(v <= hi); return v
    def wrap(e, lo, hi, w):
        """e in [lo, hi] -> e mod 2^w"""
        m = 1 << w
        if lo >= 0 and hi < m: return e
        k0, k1 = lo // m, hi // m
        if k0 == k1: return e - k0 * m
        k = fresh(k0, k1); r = e - m * k; side.append(r >= 0); side.append(r <= m - 1); return r
    def divc(a, hi, c):
        if hi < c: return z3.IntVal(0)
        q = fresh(0, hi // c); side.append(c * q <= a); side.append(a - c * q <= c - 1); return q
    def conv(t):
        op, A, w = t.op, t.args, t.w
        g = lambda x: I[x.id]
        if w in ('f32', 'f64'): return None
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if w == 0:
            if op == 'v': return z3.Bool(A[0])
            if op == 'not': return z3.Not(g(A[0]))
            if op == 'and': return z3.And([g(a) for a in A])
            if op == 'or': return z3.Or([g(a) for a in A])
            if op == 'ite': return z3.If(g(A[0]), g(A[1]), g(A[2]))
            if op == 'eq':
                if A[0].w in ('f32', 'f64'): n[0] += 1; return z3.Bool(f"b!{n[0]}")
                return g(A[0]) == g(A[1])
            if op == 'ult': return g(A[0]) < g(A[1])
            if op == 'slt':
                h = 1 << (A[0].w - 1)
                s = lambda x: g(x) if ub(x) < h else z3.If(g(x) >= h, g(x) - 2 * h, g(x))
                return s(A[0]) < s(A[1])
            n[0] += 1; return z3.Bool(f"b!{n[0]}")
        m = M(w)
        if op == 'c': return z3.IntVal(A[0])
        if op == 'v':
            v = z3.Int(A[0]); side.append(v >= 0); side.append(v <= m); return v
        if op in ('sel', 'uf'):
            if any(a.w in (0, 'f32', 'f64') for a in A[1:]): return fresh(0, m)
            k = (A[0], len(A), w)
            f = funs.get(k)
            if f is None: f = funs[k] = z3.Function(f"f!{A[0]}!{w}", *([z3.IntSort()] * len(A)))
            v = f(*[g(a) for a in A[1:]]); side.append(v >= 0); side.append(v <= m); return v
        if op == 'ite': return z3.If(g(A[0]), g(A[1]), g(A[2]))
        if op == 'lin':
            e = z3.IntVal(sgn(A[0], w)); lo = hi = sgn(A[0], w)
            for x, c in A[1]:
                c = sgn(c, w); e = e + c * g(x)
                if c > 0: hi += c * ub(x)
                else: lo += c * ub(x)
            return wrap(e, lo, hi, w)
        if op == 'mul':
            a, b = A
            if b.op == 'c': a, b = b, a
            if a.op == 'c': return wrap(a.args[0] * g(b), 0, a.args[0] * ub(b), w)
            return fresh(0, ub(t))
        if op == 'udiv' and A[1].op == 'c' and A[1].args[0]: return divc(g(A[0]), ub(A[0]), A[1].args[0])
        if op == 'urem' and A[1].op == 'c' and A[1].args[0]: return g(A[0]) - A[1].args[0] * divc(g(A[0]), ub(A[0]), A[1].args[0])
        if op == 'udiv': v = fresh(0, m); side.append(z3.Or(g(A[1]) == 0, v <= g(A[0]))); return v
        if op == 'urem': v = fresh(0, m); side.append(v <= g(A[0])); side.append(z3.Or(g(A[1]) == 0, v < g(A[1]))); return v
        if op == 'lshr':
            if A[1].op == 'c': return divc(g(A[0]), ub(A[0]), 1 << A[1].args[0]) if A[1].args[0] < w else z3.IntVal(0)
            v = fresh(0, m); side.append(v <= g(A[0])); return v
        if op == 'shl' and A[1].op == 'c' and A[1].args[0] < w:
            c = 1 << A[1].args[0]; return wrap(c * g(A[0]), 0, c * ub(A[0]), w)
        if op == 'zext': return g(A[0])
        if op == 'sext':
            h = 1 << (A[0].w - 1)
            return g(A[0]) if ub(A[0]) < h else z3.If(g(A[0]) >= h, g(A[0]) + ((1 << w) - 2 * h), g(A[0]))
        if op == 'extract':
            hi, lo, x = A; u = ub(x); e = g(x)
            if lo: e = divc(e, u, 1 << lo); u >>= lo
            return wrap(e, 0, u, hi - lo + 1)
        if op == 'concat': return g(A[0]) * (1 << A[1].w) + g(A[1])
        if op == 'and':
            a, b = A
            if a.op == 'c': a, b = b, a
            if b.op == 'c':
                v = b.args[0]; low = (v & -v) if v else 0
                if v == 0: return z3.IntVal(0)
                if v + low == (1 << (v + low).bit_length() - 1):      # contiguous run of ones
                    top = v + low; u = ub(a); e = g(a)
                    if u >= top: e = e - top * divc(e, u, top); u = top - 1
                    if low > 1: e = low * divc(e, u, low)
                    return e
            v = fresh(0, m); side.append(v <= g(a)); side.append(v <= g(b)); return v
        if op == 'or':
            a, b = A
            if tz(a) >= ub(b).bit_length() or tz(b) >= ub(a).bit_length(): return g(a) + g(b)
            v = fresh(0, ub(t)); side.append(v >= g(a)); side.append(v >= g(b)); side.append(v <= g(a) + g(b)); return v
        if op == 'xor':
            a, b = A
            if b.op != 'c': a, b = b, a
            if b.op == 'c' and b.args[0] == m: return m - g(a)
            v = fresh(0, ub(t)); side.append(v <= g(a) + g(b)); return v
        return fresh(0, ub(t))
    for f in fs:
        st = [f]
        while st:
            x = st[-1]
            if x.id in I: st.pop(); continue
            ch = [c for c in children(x) if c.id not in I]
            if ch: st.extend(ch); continue
            I[x.id] = conv(x); st.pop()
    try:
        S.add(*[I[f.id] for f in fs]); S.add(*side)
        return 'unsat' if S.check() == z3.unsat else 'unknown'
    except z3.Z3Exception: return 'unknown'
