"""Differential test of the term simplifier against z3's own semantics (random terms, random values)."""
import random, sys, z3
from terms import *
import terms
def rnd(seed, depth=5):
    R = random.Random(seed)
    W = [1, 8, 16, 32, 64]
    vs = {w: [(var(f"x{w}_{i}", w), z3.BitVec(f"x{w}_{i}", w)) for i in range(2)] for w in W}
    def g(w, d):
        if d == 0 or R.random() < 0.12:
            if R.random() < 0.45:
                v = R.choice([0, 1, 2, M(w), 1 << (w-1), R.getrandbits(w), 3, 7, 8, 255, w, w-1]) & M(w)
                return const(v, w), z3.BitVecVal(v, w)
            return R.choice(vs[w])
        k = R.randrange(22)
        if k < 11:
            a, za = g(w, d-1); b, zb = g(w, d-1)
            if k == 0: return add(a, b), za + zb
            if k == 1: return sub(a, b), za - zb
            if k == 2: return mul(a, b), za * zb
            if k == 3: return band(a, b), za & zb
            if k == 4: return bor(a, b), za | zb
            if k == 5: return bxor(a, b), za ^ zb
            if k == 6: return shl(a, b), za << zb
            if k == 7: return lshr(a, b), z3.LShR(za, zb)
            if k == 8: return ashr(a, b), za >> zb
            if k == 9: return udiv(a, b), z3.UDiv(za, zb)
            if k == 10: return urem(a, b), z3.URem(za, zb)
        if k in (11, 12):
            c, zc = gb(d-1); a, za = g(w, d-1); b, zb = g(w, d-1); return Ite(c, a, b), z3.If(zc, za, zb)
        if k == 13 and w > 1:
            n = R.choice([x for x in W if x < w]); a, za = g(n, d-1); return zext(a, w), z3.ZeroExt(w-n, za)
        if k == 14 and w > 1:
            n = R.choice([x for x in W if x < w]); a, za = g(n, d-1); return sext(a, w), z3.SignExt(w-n, za)
        if k in (15, 16) and w < 64:
            n = R.choice([x for x in W if x > w]); a, za = g(n, d-1); lo = R.randrange(n - w + 1); return extract(a, lo+w-1, lo), z3.Extract(lo+w-1, lo, za)
        if k == 17 and w in (16, 32, 64):
            a, za = g(w//2, d-1); b, zb = g(w//2, d-1); return concat(a, b), z3.Concat(za, zb)
        if k == 18: 
            a, za = g(w, d-1); return bnot(a), ~za
        if k == 19:
            a, za = g(w, d-1); c = R.getrandbits(w); return mulc(a, c), za * z3.BitVecVal(c, w)
        if k == 20 and w >= 8:
            a, za = g(w, d-1); s = R.randrange(w); 
            return R.choice([(shl(a, const(s, w)), za << s), (lshr(a, const(s, w)), z3.LShR(za, s)), (ashr(a, const(s, w)), za >> s)])
        a, za = g(w, d-1); return neg(a), -za
    def gb(d):
        k = R.randrange(9); w = R.choice(W)
        if k < 5:
            a, za = g(w, max(d-1, 0)); b, zb = g(w, max(d-1, 0))
            return [(Eq(a, b), za == zb), (ult(a, b), z3.ULT(za, zb)), (ule(a, b), z3.ULE(za, zb)), (slt(a, b), za < zb), (sle(a, b), za <= zb)][k]
        if d <= 0: return boolc(True), z3.BoolVal(True)
        a, za = gb(d-1); b, zb = gb(d-1)
        return [(And(a, b), z3.And(za, zb)), (Or(a, b), z3.Or(za, zb)), (Not(a), z3.Not(za)), (Ite(a, b, Not(b)), z3.If(za, zb, z3.Not(zb)))][k-5]
    for _ in range(6):
        if R.random() < 0.5: t, z = g(R.choice(W), depth)
        else: t, z = gb(depth)
        for _ in range(3):
            sub_ = [(zv, z3.BitVecVal(R.choice([0, 1, M(w), 1 << (w-1), R.getrandbits(w), R.getrandbits(w), 7, 64]) & M(w), w)) for w in W for _, zv in vs[w]]
            l = z3.simplify(z3.substitute(to_z3(t), sub_)); r = z3.simplify(z3.substitute(z, sub_))
            if not l.eq(r): print("MISMATCH seed", seed, "\n term", show(t, 9), "\n z3", z, "\n", sub_, l, r); return False
            if t.w:
                v = r.as_long()
                if not (lb(t) <= v <= ub(t)) or (v and (v & -v).bit_length()-1 < tz(t)): print("RANGE", seed, show(t, 9), lb(t), v, ub(t), tz(t)); return False
    return True
terms.LANES[0] = len(sys.argv) > 3
a, b = int(sys.argv[1]), int(sys.argv[2]); bad = 0
for s in range(a, b):
    if not rnd(s, random.Random(s).choice([2, 3, 4, 5])):
        bad += 1
        if bad > 5: break
print("terms selftest:", b - a, "seeds", bad, "bad")
sys.exit(bad != 0)
