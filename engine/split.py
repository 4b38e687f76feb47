"""Word-level case splitting: substitutes equalities and known literals, simplifies, splits on if-then-else conditions and
disjunctions, and leaves small leaves to z3.  Used when a query is too hard as a whole (sums over merged paths)."""
import time
from terms import *
_B = {'eq': Eq, 'ult': ult, 'slt': slt, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
      'xor': bxor, 'concat': concat, 'ctlz': ctlz, 'cttz': cttz, 'ctpop': ctpop, 'ite': Ite, 'not': Not}
def remake(t, ch):
    op = t.op; A = t.args
    if op == 'lin':
        r = const(A[0], t.w)
        for (x, c), y in zip(A[1], ch): r = add(r, mulc(y, c))
        return r
    if op == 'and': return And(*ch) if t.w == 0 else band(*ch)
    if op == 'or': return Or(*ch) if t.w == 0 else bor(*ch)
    if op == 'zext': return zext(ch[0], t.w)
    if op == 'sext': return sext(ch[0], t.w)
    if op == 'extract': return extract(ch[0], A[0], A[1])
    f = _B.get(op)
    if f: return f(*ch)
    it = iter(ch)
    return mk(op, tuple(next(it) if isinstance(a, T) else a for a in A), t.w)
def rebuild(ts, mp):
    cache = {}
    def go(t):
        st = [t]
        while st:
            x = st[-1]
            if x.id in cache: st.pop(); continue
            m = mp.get(x.id)
            if m is not None: cache[x.id] = m; st.pop(); continue
            cs = children(x); ch = [c for c in cs if c.id not in cache]
            if ch: st.extend(ch); continue
            new = [cache[c.id] for c in cs]
            cache[x.id] = x if all(a is b for a, b in zip(new, cs)) else remake(x, new)
            st.pop()
        return cache[t.id]
    return [go(t) for t in ts]
def occurs(a, t, memo):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x is a: return True
        if x.id in seen: continue
        seen.add(x.id); st.extend(children(x))
    return False
ATOM = ('v', 'sel', 'uf')
def flat(cs):
    out = []; seen = set()
    for c in cs:
        for d in conj(c):
            if d is FALSE: return None
            if d is TRUE or d.id in seen: continue
            seen.add(d.id); out.append(d)
    return out
def simplify(cs, keep, deadline):
    done = set()
    for _ in range(12):
        cs = flat(cs)
        if cs is None: return None
        mp = {}; used = set()
        eqs = []
        for c in cs:
            if c.op == 'not': mp.setdefault(c.args[0].id, FALSE)
            elif c.op != 'or': mp.setdefault(c.id, TRUE)
        # one equality per round and atom; orient towards atoms
        sub = {}
        for c in cs:
            if c.op != 'eq' or c.id in done: continue
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if x.op in ATOM and x.id not in sub and not is_c(x):
                    sub_y = y
                    if occurs(x, y, None): continue
                    if any(occurs_id(k, y) for k in sub) or any(occurs(x, v, None) for v in sub.values()): continue
                    sub[x.id] = y; done.add(c.id)
                    if x.op != 'v': keep.append(c)
                    used.add(c.id)
                    break
            else:
                # lin with a unit-coefficient uf atom: a == lin(... + x ...)
                for L, o in ((a, b), (b, a)):
                    if L.op != 'lin': continue
                    hit = False
                    for x, k in L.args[1]:
                        if k in (1, (1 << L.w) - 1) and x.op in ATOM and x.id not in sub:
                            rest = sub_(L, x, k); y = sub2(o, rest) if k == 1 else sub2(rest, o)
                            if occurs(x, y, None) or any(occurs_id(q, y) for q in sub) or any(occurs(x, v, None) for v in sub.values()): continue
                            sub[x.id] = y; done.add(c.id); keep.append(c); used.add(c.id); hit = True; break
                    if hit: break
        lits = [c for c in cs if c.id not in used]
        allm = dict(mp); 
        for k in used: allm.pop(k, None)
        new = []
        for c in lits:
            m = dict(sub)
            if c.op == 'not': inner = rebuild1(c.args[0], allm, sub, True); new.append(Not(inner))
            else: new.append(rebuild1(c, allm, sub, True))
        if time.time() > deadline: return flat(new)
        if all(x is y for x, y in zip(new, lits)) and not sub: return flat(new)
        cs = new
    return flat(cs)
def rebuild1(c, lits, sub, top):
    """rewrite below the top node with the known literals, and everywhere with the substitution"""
    m = dict(lits); m.update(sub); m.pop(c.id, None)
    cs = children(c)
    if c.id in sub: return sub[c.id]
    new = rebuild(cs, m)
    return c if all(a is b for a, b in zip(new, cs)) else remake(c, new)
def occurs_id(i, t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.id == i: return True
        if x.id in seen: continue
        seen.add(x.id); st.extend(children(x))
    return False
def sub_(L, x, k): return sub2(L, mulc(x, k))
def sub2(a, b): return add(a, neg(b))
def pick(cs, goal_ids):
    cnt = {}; seen = set(); st = list(cs)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'ite' and x.args[0].op not in ('true', 'false'):
            c = x.args[0]
            # split on a leaf literal of the condition
            q = [c]; 
            while q:
                y = q.pop()
                if y.op == 'not': q.append(y.args[0])
                elif y.w == 0 and y.op in ('and', 'or'): q.extend(y.args)
                elif y.op == 'ite': q.append(y.args[0])
                else: cnt[y] = cnt.get(y, 0) + 1
        elif x.op == 'or' and x.w == 0:
            for y in x.args:
                z = y.args[0] if y.op == 'not' else y
                if z.op in ('eq', 'ult', 'slt', 'v') and z.w == 0: cnt[z] = cnt.get(z, 0) + 1
        st.extend(children(x))
    def nested(c):   # conditions that themselves contain an ite are split later
        st = [c]; s2 = set()
        while st:
            x = st.pop()
            if x.id in s2: continue
            s2.add(x.id)
            if x.op == 'ite': return 1
            st.extend(children(x))
        return 0
    if not cnt: return None
    return min(cnt, key=lambda c: (nested(c), -cnt[c], c.id))
def prove(cs, deadline, leaf_ms=300, depth=16, check=None):
    """True when the conjunction is unsatisfiable"""
    keep = []
    s = simplify(cs, keep, deadline)
    if s is None: return True
    if time.time() > deadline: return False
    r = check(s + keep, leaf_ms)
    if r == 'unsat': return True
    if r == 'sat': return False
    c = pick(s[-1:], None) or pick(s, None) if depth else None
    if c is None: return check(s + keep, leaf_ms * 10) == 'unsat'
    for lit in (c, Not(c)):
        if not prove([lit] + keep + s, deadline, leaf_ms, depth - 1, check): return False
    return True
