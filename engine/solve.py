"""Discharging obligations: z3 (several tactics), then cvc5, then bit-blasting to kissat."""
import os, time, subprocess, tempfile, sys, re
from terms import *

def atoms(ts):
    """all variables and select/uf terms reachable"""
    seen = set(); out = []; st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('v', 'sel', 'uf'): out.append(t)
        st.extend(children(t))
    return out, seen

def has_fp(ts):
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.w in ('f32', 'f64'): return True
        st.extend(children(t))
    return False

_dep = {}
def deps(t):
    """variables / array bases a term depends on"""
    r = _dep.get(t.id)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _dep: st.pop(); continue
        ch = [c for c in children(x) if c.id not in _dep]
        if ch: st.extend(ch); continue
        r = frozenset()
        for c in children(x): 
            d = _dep[c.id]
            r = d if not r else (r if d <= r else r | d)
        if x.op == 'v': r = r | {x.args[0]}
        elif x.op in ('sel', 'uf'): r = r | {'A:' + x.args[0]}
        _dep[x.id] = r; st.pop()
    return _dep[t.id]

def cone(cs, goal):
    """conjuncts connected to the goal through shared variables"""
    cur = set(deps(goal)); rest = [(c, deps(c)) for c in cs]; keep = []
    ch = True
    while ch:
        ch = False; nr = []
        for c, d in rest:
            if not d or d & cur: keep.append(c); 
            else: nr.append((c, d)); continue
            if not d <= cur: cur |= d; ch = True
        rest = nr
    return keep

def elim_div(fs):
    """unsigned division / remainder by a constant -> fresh quotient with its defining inequalities (exact, so sound and complete)"""
    seen = set(); st = list(fs); found = False
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('udiv', 'urem') and t.args[1].op == 'c' and t.args[1].args[0]: found = True; break
        st.extend(children(t))
    if not found: return fs
    from split import remake
    cache = {}; side = []; qs = {}
    def go(t):
        st = [t]
        while st:
            x = st[-1]
            if x.id in cache: st.pop(); continue
            cs = children(x); ch = [c for c in cs if c.id not in cache]
            if ch: st.extend(ch); continue
            new = [cache[c.id] for c in cs]
            if x.op in ('udiv', 'urem') and new[1].op == 'c' and new[1].args[0]:
                a, c = new; v = c.args[0]; k = (a.id, v)
                if k not in qs:
                    q = mk('v', (f"div!{a.id}!{v}",), a.w); qs[k] = q; p = mul(q, c)
                    side.append(Not(ult(const(((1 << a.w) - 1) // v, a.w), q))); side.append(Not(ult(a, p))); side.append(ult(sub(a, p), c))
                cache[x.id] = qs[k] if x.op == 'udiv' else sub(a, mul(qs[k], c))
            else: cache[x.id] = x if all(p is q for p, q in zip(new, cs)) else remake(x, new)
            st.pop()
        return cache[t.id]
    out = [go(f) for f in fs]
    return out + side

def z3_check(fs, timeout_ms, tactic=None):
    import z3
    if tactic is None: S = z3.Solver()
    else: S = tactic.solver()
    S.set("timeout", int(timeout_ms))
    S.add(*[to_z3(f) for f in fs])
    r = S.check()
    return ('unsat', None) if r == z3.unsat else ('sat', S) if r == z3.sat else ('unknown', S)

def smt2(fs):
    import z3
    S = z3.Solver(); S.add(*[to_z3(f) for f in fs]); return S.to_smt2()

def tac_ack():
    import z3
    return z3.Then(z3.With('simplify', elim_and=False), 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat')

def ext_cvc5(fs, secs):
    try: txt = smt2(fs)
    except Exception: return 'unknown'
    if '(_ bv' in txt or True: pass
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write("(set-logic ALL)\n" + txt); f.close()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(secs*1000)}', '--bv-solver=bitblast-internal', f.name] if False else ['cvc5', '--lang=smt2', f'--tlimit={int(secs*1000)}', f.name], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(f.name)

def tac_cnf():
    import z3
    return z3.Then(z3.With('simplify', elim_and=False), 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'propagate-values', 'solve-eqs', 'max-bv-sharing', 'bit-blast', 'tseitin-cnf')
def ackermann(fs, max_pairs=60000):
    """replace every array read / uninterpreted application by a fresh variable plus pairwise congruence; None when too many"""
    from split import remake
    at = [t for t in atoms(fs)[0] if t.op in ('sel', 'uf')]
    if not at: return fs
    groups = {}
    for t in at: groups.setdefault((t.op, t.args[0], t.w), []).append(t)
    if sum(len(g) * (len(g) - 1) // 2 for g in groups.values()) > max_pairs: return None
    names = {t.id: mk('v', (f"ack!{t.id}",), t.w) for t in at}
    cache = {}
    def go(t):
        st = [t]
        while st:
            x = st[-1]
            if x.id in cache: st.pop(); continue
            if x.id in names: cache[x.id] = names[x.id]; st.pop(); continue
            cs = children(x); ch = [c for c in cs if c.id not in cache]
            if ch: st.extend(ch); continue
            new = [cache[c.id] for c in cs]
            cache[x.id] = x if all(p is q for p, q in zip(new, cs)) else remake(x, new)
            st.pop()
        return cache[t.id]
    out = [go(f) for f in fs]
    for (op, nm, w), g in groups.items():
        for i in range(len(g)):
            ai = [go(c) for c in children(g[i])]
            for j in range(i):
                if len(children(g[j])) != len(ai): continue
                e = And(*[Eq(x, go(c)) for x, c in zip(ai, children(g[j]))])
                if e is FALSE: continue
                out.append(Implies(e, Eq(names[g[i].id], names[g[j].id])))
    return out

def ext_kissat(fs, secs):
    import z3
    fs = ackermann(fs)
    if fs is None: return 'unknown'
    if any(f is FALSE for f in fs): return 'unsat'
    g = z3.Goal(); g.add(*[to_z3(f) for f in fs])
    try:
        sub = z3.TryFor(tac_cnf(), int(secs * 500))(g)
    except z3.Z3Exception: return 'unknown'
    if len(sub) != 1: return 'unknown'
    if sub[0].inconsistent(): return 'unsat'
    try: d = sub[0].dimacs(True)
    except Exception: return 'unknown'
    # comment lines name the atoms: every one has to be a plain boolean for 'sat' to mean anything
    plain = not re.search(r"^c \d+ .*\(", d, re.M)
    f = tempfile.NamedTemporaryFile('w', suffix='.cnf', delete=False); f.write("\n".join(l for l in d.split("\n") if not l.startswith("c"))); f.close()
    try:
        r = subprocess.run(['kissat', '-q', '-n', f'--time={int(secs)}', f.name], capture_output=True, text=True, timeout=secs + 10)
        if 's UNSATISFIABLE' in r.stdout: return 'unsat'
        if 's SATISFIABLE' in r.stdout: return 'sat' if plain else 'unknown'
        return 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(f.name)

def model_of(S, fs, metas):
    """concrete nd values and object contents from a z3 model -> replay lines"""
    import z3
    m = S.model(); lines = []; mem = {}
    at, _ = atoms(fs)
    for t in at:
        if t.op == 'v' and t.args[0].startswith('nd:'):
            v = m.eval(to_z3(t), model_completion=True)
            if t.w == 0: x = 1 if z3.is_true(v) else 0
            elif t.w in ('f32', 'f64'):
                x = m.eval(z3.fpToIEEEBV(to_z3(t)), model_completion=True); x = x.as_long() if z3.is_bv_value(x) else 0
            else: x = v.as_long() if z3.is_bv_value(v) else 0
            lines.append(f"nd {t.args[0][3:]} {x:x}")
        elif t.op == 'sel':
            nm = t.args[0]
            if '@' not in nm: continue
            lab = nm.rsplit('@', 1)[0]
            i = m.eval(to_z3(t.args[1]), model_completion=True); v = m.eval(to_z3(t), model_completion=True)
            if not (z3.is_bv_value(i) and z3.is_bv_value(v)): continue
            es = t.w // 8; base = i.as_long() * es; v = v.as_long()
            for k in range(es): mem.setdefault(lab, {})[base + k] = (v >> (8 * k)) & 255
    for lab, d in mem.items():
        for o in sorted(d):
            if d[o]: lines.append(f"mem {lab} {o} {d[o]:02x}")
    return lines

def shrink(fs, limit=8.0):
    """a model with small 64-bit inputs, when there is one (sizes the native replay can allocate)"""
    import z3
    t0 = time.time(); at, _ = atoms(fs)
    vs = sorted({t for t in at if t.op == 'v' and t.w == 64 and t.args[0].startswith('nd:')}, key=lambda t: t.args[0])[:40]
    if not vs: return None
    S = z3.Solver(); S.set("timeout", 3000); S.add(*[to_z3(f) for f in fs]); best = None
    for b in (24, 300, 1 << 16):
        S.push(); S.add(*[z3.ULE(to_z3(v), z3.BitVecVal(b, 64)) for v in vs])
        if S.check() == z3.sat: return S
        S.pop()
        if time.time() - t0 > limit / 2: break
    ok = False
    for v in vs:
        for b in (24, 4096, 1 << 20):
            if time.time() - t0 > limit: return best if ok else None
            S.push(); S.add(z3.ULE(to_z3(v), z3.BitVecVal(b, 64)))
            if S.check() == z3.sat: ok = True; best = S; break
            S.pop()
    return S if ok and S.check() == z3.sat else None

def discharge(ob, budget, want_model=True):
    """sets ob.status in proved/failed/unknown"""
    t0 = time.time()
    neg = Not(ob.cond)
    if neg is FALSE: ob.status = 'proved'; ob.backend = 'simplifier'; return
    cs = list(conj(ob.pc))
    if ob.pc is FALSE or And(ob.pc, neg) is FALSE: ob.status = 'proved'; ob.backend = 'simplifier'; ob.ms = 0; return
    raw = cone(cs, neg) + list(conj(neg))
    full = elim_div(cs + list(conj(neg)))
    co = elim_div(raw)
    fp = has_fp(co)
    import z3
    def done(st, be): ob.status = st; ob.backend = be; ob.ms = int((time.time() - t0) * 1000)
    def sat_model(S, fs):
        if len(fs) < len(full):
            r, S2 = z3_check(full, budget * 1000)
            if r == 'unsat': done('proved', 'z3'); return True
            if r == 'sat': S = S2
        if want_model:
            try:
                S2 = shrink(full)
                if S2 is not None: S = S2
            except Exception: pass
            try: ob.model = model_of(S, full, None)
            except Exception as e: ob.model = ["# model error " + str(e)[:200]]
        done('failed', 'z3'); return True
    r, S = z3_check(co, min(budget, 1.5) * 1000)
    if r == 'unsat': return done('proved', 'z3')
    if r == 'sat': sat_model(S, co); return
    import intlia
    if not fp and intlia.int_check(raw, 4000) == 'unsat': return done('proved', 'z3-int')
    r, S = z3_check(co, min(budget, 4) * 1000)
    if r == 'unsat': return done('proved', 'z3')
    if r == 'sat': sat_model(S, co); return
    if not fp and ext_cvc5(co, 5) == 'unsat': return done('proved', 'cvc5')
    try:
        import split
        if split.prove(co, time.time() + min(budget, 25), check=lambda fs, ms: z3_check(fs, ms)[0]): return done('proved', 'split+z3')
    except RecursionError: pass
    if not fp:
        r, S = z3_check(co, min(budget, 15) * 1000, tac_ack())
        if r == 'unsat': return done('proved', 'z3-bitblast')
        if r == 'sat':
            r2, S2 = z3_check(full, budget * 1000)
            if r2 == 'unsat': return done('proved', 'z3')
            if r2 == 'sat': sat_model(S2, full); return
            # sat by bit-blasting but no model: retry with tactic on the full query
            r3, S3 = z3_check(full, budget * 1000, tac_ack())
            if r3 == 'unsat': return done('proved', 'z3-bitblast')
            if r3 == 'sat':
                try: ob.model = model_of(S3, full, None)
                except Exception: pass
                return done('failed', 'z3-bitblast')
        rem = max(5, budget - (time.time() - t0))
        k = ext_kissat(co, rem)
        if k == 'unsat': return done('proved', 'kissat')
        if k == 'sat':
            k2 = ext_kissat(full, rem) if len(co) < len(full) else 'sat'
            if k2 == 'unsat': return done('proved', 'kissat')
            if k2 == 'sat':
                return done('failed', 'kissat')
    rem = max(5, budget - (time.time() - t0))
    k = ext_cvc5(co, rem)
    if k == 'unsat': return done('proved', 'cvc5')
    r, S = z3_check(full, max(5, budget) * 1000)
    if r == 'unsat': return done('proved', 'z3')
    if r == 'sat': sat_model(S, full); return
    done('unknown', 'none')

def batch(obs, timeout_ms=4000):
    """try to prove all obligations with one query"""
    qs = [And(o.pc, Not(o.cond)) for o in obs]
    q = Or(*qs)
    t = time.time()
    if q is FALSE: 
        for o in obs: o.status = 'proved'; o.backend = 'simplifier'
        return True
    r, _ = z3_check(elim_div([q]), timeout_ms)
    if r == 'unsat':
        ms = int((time.time() - t) * 1000 / len(obs))
        for o in obs: o.status = 'proved'; o.backend = 'z3'; o.ms = ms
        return True
    return False
