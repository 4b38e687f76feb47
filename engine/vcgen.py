"""vcgen: verification-condition generator over LLVM IR exported by irdump (see DESIGN.md).
Symbolic execution with state merging; loops are either cut by an inductive invariant (deductive, unbounded)
or unrolled (complete when the unwinding obligation is discharged)."""
import json, re, sys, time, heapq, os
from terms import *
from memory import *
import memory
import intrin

class Unsupported(Exception): pass
class Budget(Exception): pass

class Fn:
    def __init__(s, name, j):
        s.name = name; s.dem = j.get('dem', name); s.ret = j.get('ret'); s.args = j['args']; s.decl = 'decl' in j
        if s.decl: return
        s.blocks = j['blocks']; s.loops = j['loops']; s.vars = j['vars']
        n = len(s.blocks)
        s.succ = [[] for _ in range(n)]
        for b in range(n):
            t = s.blocks[b][-1]
            if t[0] == 'br': s.succ[b] = list(t[6:8]) if len(t) > 6 else [t[5]]
            elif t[0] == 'switch': s.succ[b] = [t[6]] + [x[1] for x in t[7]]
        s.inloops = [[] for _ in range(n)]   # outermost first, loop indices
        for li, L in enumerate(s.loops):
            L['set'] = set(L['blocks'])
        order = sorted(range(len(s.loops)), key=lambda i: -len(s.loops[i]['set']))
        for li in order:
            for b in s.loops[li]['blocks']: s.inloops[b].append(li)
        s.hdr = {L['h']: i for i, L in enumerate(s.loops)}
        s._order()
    def _order(s):
        # weak topological order: position key path per block
        n = len(s.blocks); s.key = [None] * n
        def region(blocks, entry, depth, prefix):
            # nodes at this level: either plain blocks or loops (collapsed) nested directly
            node = {}
            for b in blocks:
                chain = s.inloops[b]
                node[b] = ('L', chain[depth]) if len(chain) > depth else ('B', b)
            seen = set(); post = []
            def dfs(x):
                st = [(x, None)]
                stack = [(x, iter(succs(x)))]; seen.add(x)
                while stack:
                    u, it = stack[-1]
                    for v in it:
                        if v not in seen:
                            seen.add(v); stack.append((v, iter(succs(v)))); break
                    else:
                        post.append(u); stack.pop()
            bl = set(blocks)
            hdr_at = entry
            def succs(x):
                src = [x[1]] if x[0] == 'B' else [b for b in s.loops[x[1]]['blocks']]
                out = []
                for b in src:
                    for t in s.succ[b]:
                        if t in bl and t != hdr_at:
                            y = node[t]
                            if y != x and y not in out: out.append(y)
                return out
            dfs(node[entry])
            post.reverse()
            for i, x in enumerate(post):
                if x[0] == 'B': s.key[x[1]] = prefix + [i]
                else: region(s.loops[x[1]]['blocks'], s.loops[x[1]]['h'], depth + 1, prefix + [i, ('it', x[1])])
        region(list(range(n)), 0, 0, [])

class Module:
    def __init__(s, path):
        j = json.load(open(path))
        s.globals = j['globals']
        s.fns = {k: Fn(k, v) for k, v in j['functions'].items()}

class Frame:
    __slots__ = ("fn", "regs", "blk", "prev", "ip", "objs", "dest", "iters", "cut", "uid", "bykey")
    def clone(f):
        g = Frame(); g.fn = f.fn; g.regs = dict(f.regs); g.blk = f.blk; g.prev = f.prev; g.ip = f.ip; g.objs = f.objs
        g.dest = f.dest; g.iters = f.iters; g.cut = f.cut; g.uid = f.uid; return g

class State:
    __slots__ = ("frames", "mem", "pc", "cnt", "wlog", "dead", "nheap", "notes")
    def fork(s):
        t = State(); t.frames = [f.clone() for f in s.frames]; t.mem = dict(s.mem); t.pc = s.pc; t.cnt = dict(s.cnt); t.wlog = s.wlog
        t.notes = s.notes
        return t
    @property
    def top(s): return s.frames[-1]

class Oblig:
    __slots__ = ("kind", "where", "pc", "cond", "status", "model", "ms", "backend", "label")
    def __init__(s, kind, where, pc, cond, label=None):
        s.kind = kind; s.where = where; s.pc = pc; s.cond = cond; s.status = None; s.model = None; s.ms = 0; s.backend = None; s.label = label

def tysize(ty):
    if isinstance(ty, str):
        if ty == 'ptr' or ty == 'f64': return 8
        if ty == 'f32': return 4
        if ty[0] == 'i': return (int(ty[1:]) + 7) // 8
        raise Unsupported("type " + ty)
    if ty[0] == 'v':
        if ty[2] == 'i1': return (ty[1] + 7) // 8
        return ty[1] * tysize(ty[2])
    if ty[0] == 's': return ty[1]
    if ty[0] == 'a': return ty[1] * ty[2]
def tyw(ty):
    if ty == 'ptr': return 64
    if ty in ('f32', 'f64'): return ty
    if ty == 'i1': return 0
    return int(ty[1:])

class Engine:
    def __init__(s, mod, opts=None):
        s.mod = mod
        o = dict(unroll=64, malloc_may_fail=True, merge=True, check_nsw=True, max_steps=3_000_000, time_limit=600, feas_timeout=3000, use_inv=True, max_cx=None, mergefn=r'^(spec_|rep_ok|tail_ok|same_bits)')
        o.update(opts or {}); s.o = o
        s.metas = {}; s.nobj = 1
        s.obl = []; s.trivial = 0; s.covers = {}
        s.gobj = {}; s.fobj = {}; s.fobj_rev = {}
        s.invs = []       # list of (regex-on-demangled, ordinal, invfn)
        s.contracts = {}  # symbol -> contract fn symbol
        s.cnum = 0; s.steps = 0; s.suppress = 0
        s.used_loops = {}; s.used_contracts = set(); s.fns_seen = {}; s.unwound = []
        s.nd_log = []     # (key, var/alloc info)
        s.t0 = time.time(); s.feas_q = 0; s.feas_t = 0.0
        s._solver = None; s._feas = {}; s._models = []; s._unsat = []; s.feas_hit = 0; s._cand = {}; s._cdepth = 0
        s.incomplete = []
        s.t_frames = 0
        s.invmod = {}
        s.assumed = []
        s.mode = None; s.inv_label = None; s.inv_ins = None; s.unfolded = set()

    # -- objects -----------------------------------------------------------------------------------------------
    def new_obj(s, name, size, kind, ro=False):
        i = s.nobj; s.nobj += 1
        if not isinstance(size, T): size = const(size, 64)
        m = Meta(i, name, size, kind, ro); s.metas[i] = m
        return m
    def fresh(s, name, w):
        s.cnum += 1
        return var(f"{name}!{s.cnum}", w)
    def base_arr(s, name, esz):
        s.cnum += 1
        return mkarr('base', esz, f"{name}!{s.cnum}")
    def global_addr(s, st, name):
        if name in s.mod.fns:
            a = s.fobj.get(name)
            if a is None:
                m = s.new_obj(name, 0, 'func', True); a = s.fobj[name] = const(m.base, 64); s.fobj_rev[m.id] = name
            return a
        m = s.gobj.get(name)
        if m is None:
            g = s.mod.globals[name]
            m = s.gobj[name] = s.new_obj(name, g['size'], 'global', bool(g['const']))
            if g['init'] is None: m.init = ('ext',)
            else: m.init = g['init']; 
        return const(m.base, 64)
    def get_obj(s, st, oid):
        o = st.mem.get(oid)
        if o is None:
            m = s.metas[oid]
            if m.kind == 'global':
                o = s.init_global(st, m); st.mem[oid] = o
                m.site = o
            else: return None
        return o
    def init_global(s, st, m):
        if m.site is not None: return m.site
        if m.init == ('ext',): return Obj({}, mkarr('base', 1, f"ext_{m.name}"))
        cells = {}
        gty = s.mod.globals[m.name]['ty']
        def flat(c, ty, off):
            k = c[0]
            if k == 'z' : return [('z', off, tysize(ty))]
            if k == 'u': return [('z', off, tysize(ty))]
            if k == 'agg':
                out = []
                if ty[0] == 's':
                    for (o, t), e in zip(ty[2], c[2]): out += flat(e, t, off + o)
                else:
                    es = ty[2] if ty[0] == 'a' else tysize(ty[2]); et = ty[3] if ty[0] == 'a' else ty[2]
                    for i, e in enumerate(c[2]): out += flat(e, et, off + i * es)
                return out
            return [('c', off, c, ty)]
        es = flat(m.init, gty, 0)
        zeros = True
        vals = []
        for e in es:
            if e[0] == 'c':
                v = s.val_const(st, e[2], e[3]); vals.append((e[1], tysize(e[3]), bits_of(v)))
        size = cv(m.size)
        if m.ro and len(vals) > 12 and all(is_c(v) for _, _, v in vals):
            ws = {n for _, n, _ in vals}
            esz = min(ws) if len(ws) == 1 else 1
            if size % esz == 0 and esz in (1, 2, 4, 8):
                tab = [0] * (size // esz)
                for o, n, v in vals:
                    if n == esz and o % esz == 0: tab[o // esz] = cv(v)
                    else:
                        for k in range(n): tab[o + k] = (cv(v) >> (8 * k)) & 255
                return Obj({}, mkarr('table', esz, tuple(tab)))
        for o, n, v in vals: cells[o] = (n, v)
        return Obj(cells, mkarr('const', 1, const(0, 8)))

    # -- feasibility -------------------------------------------------------------------------------------------
    def feasible(s, pc, extra=TRUE, timeout=None):
        """False only if definitely infeasible"""
        q = And(pc, extra)
        if q is FALSE: return False
        if q is TRUE: return True
        k = q.id
        if k in s._feas: return s._feas[k]
        ids = frozenset(c.id for c in conj(q))
        for u in s._unsat:
            if u <= ids: s._feas[k] = False; return False
        import z3
        t = time.time()
        zs = [to_z3(c) for c in conj(q)]
        for i, m in enumerate(s._models):
            try:
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in zs):
                    s._feas[k] = True; s._models.insert(0, s._models.pop(i)); s.feas_hit += 1; return True
            except z3.Z3Exception: pass
        if s._solver is None:
            s._solver = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        S = s._solver; S.set("timeout", timeout or s.o['feas_timeout'])
        S.push(); S.add(*zs); r = S.check()
        if r == z3.sat: s._models.insert(0, S.model()); del s._models[12:]
        elif r == z3.unsat: s._unsat.append(ids); del s._unsat[:-400]
        S.pop()
        s.feas_q += 1; s.feas_t += time.time() - t
        res = (r != z3.unsat)
        s._feas[k] = res
        return res
    def proves(s, pc, cond):
        if cond is TRUE: return True
        if cond is FALSE: return False
        cs = conj(pc)
        if cond in cs: return True
        return not s.feasible(pc, Not(cond))
    def model_eval(s, pc, t):
        import z3
        if not s.feasible(pc): return None
        zs = [to_z3(c) for c in conj(pc)]; zt = to_z3(t)
        for m in s._models:
            try:
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in zs):
                    v = m.eval(zt, model_completion=True)
                    if z3.is_bv_value(v): return v.as_long()
            except z3.Z3Exception: pass
        S = z3.Solver(); S.set("timeout", 5000); S.add(*zs)
        if S.check() != z3.sat: return None
        s._models.insert(0, S.model())
        v = S.model().eval(zt, model_completion=True)
        try: return v.as_long()
        except Exception: return None
    def where(s, st, ins=None):
        out = []
        for f in st.frames[-1:]:
            line = ins[3] if ins else 0
            out.append(f"{f.fn.dem.split('(')[0][-60:]}:{line}")
        return "<".join(out)
    def require(s, st, cond, kind, ins=None, label=None, assume=True):
        if cond is TRUE:
            if not s.suppress: s.trivial += 1
            return
        if not s.suppress:
            s.obl.append(Oblig(kind, s.where(st, ins), st.pc, cond, label))
        if assume: st.pc = And(st.pc, cond)

    # -- values ------------------------------------------------------------------------------------------------
    def undef(s, ty):
        if isinstance(ty, list):
            if ty[0] == 'v': return tuple(s.undef(ty[2]) for _ in range(ty[1]))
            if ty[0] == 's': return tuple(s.undef(t) for _, t in ty[2])
            if ty[0] == 'a': return tuple(s.undef(ty[3]) for _ in range(ty[1]))
        w = tyw(ty)
        return s.fresh("undef", w)
    def zero(s, ty):
        if isinstance(ty, list):
            if ty[0] == 'v': return tuple(s.zero(ty[2]) for _ in range(ty[1]))
            if ty[0] == 's': return tuple(s.zero(t) for _, t in ty[2])
            if ty[0] == 'a': return tuple(s.zero(ty[3]) for _ in range(ty[1]))
        w = tyw(ty)
        if w == 0: return FALSE
        if w in ('f32', 'f64'): return fpconst(0, w)
        return const(0, w)
    def val_const(s, st, c, ty=None):
        k = c[0]
        if k == 'c':
            v = int(c[2])
            return boolc(v & 1) if c[1] == 1 else const(v, c[1])
        if k == 'f': return fpconst(int(c[2]), c[1])
        if k == 'u': return s.undef(c[1])
        if k == 'z': return s.zero(c[1])
        if k == 'g': return s.global_addr(st, c[1])
        if k == 'agg': return tuple(s.val_const(st, e) for e in c[2])
        if k == 'gep':
            b = s.val_const(st, c[1]); r = add(b, const(c[2], 64))
            for v, sc in c[3]: r = add(r, mulc(sext(s.val_const(st, v), 64), sc))
            return r
        if k == 'ce':
            op = c[1]; a = s.val_const(st, c[3])
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                w = tyw(c[2])
                return trunc(a, w) if w < a.w else zext(a, w)
            if op in ('sub', 'add'):
                b = s.val_const(st, c[4]); return sub(a, b) if op == 'sub' else add(a, b)
            if op == 'trunc': return trunc(a, tyw(c[2]))
        raise Unsupported("const " + str(c)[:100])
    def val(s, st, o):
        if type(o) is int:
            return st.frames[-1].regs[o]
        return s.val_const(st, o)

    # -- memory ------------------------------------------------------------------------------------------------
    def resolve(s, st, p, n, what, ins, write=False):
        """-> list of (guard, oid, off) ; emits bounds obligations.  n: byte count term or int"""
        nt = n if isinstance(n, T) else const(n, 64)
        cands = s.candidates(st, p)
        out = []
        for g, oid in cands:
            if And(st.pc, g) is FALSE: continue
            m = s.metas.get(oid)
            o = s.get_obj(st, oid) if m else None
            if o is None or m.kind == 'func':
                s.require(st, Not(g), what + ":invalid-pointer", ins, assume=True)
                continue
            off = sub(p, const(m.base, 64))
            # off <= size  and n <= size - off
            if is_c(nt): 
                inb = And(ule(nt, m.size), ule(off, sub(m.size, nt))) 
            else: inb = And(ule(off, m.size), ule(nt, sub(m.size, off)))
            if write and m.ro: inb = FALSE
            s.require(st, Implies(g, inb), what + (":write-readonly" if write and m.ro else ":bounds"), ins)
            if o.alive is not TRUE: s.require(st, Implies(g, o.alive), what + ":use-after-free", ins)
            out.append((g, oid, off))
        return out
    def candidates(s, st, p, guard=TRUE, depth=0):
        if depth or guard is not TRUE or p.op not in ('ite', 'lin') and p.op != 'var' and is_c(p): return s.candidates0(st, p, guard, depth)
        k = lin_const(p)
        if k is not None and k >> (OBJ_SHIFT - 1) and (k >> OBJ_SHIFT) in s.metas: return [(guard, k >> OBJ_SHIFT)]
        ids = frozenset(c.id for c in conj(st.pc))
        L = s._cand.setdefault(p.id, [])
        for u, r in L:
            if u <= ids: return r
        r = s.candidates0(st, p, guard, depth)
        L.insert(0, (ids, r)); del L[8:]
        return r
    def candidates0(s, st, p, guard=TRUE, depth=0):
        k = lin_const(p)
        if k is not None and k >> (OBJ_SHIFT - 1):
            oid = (k) >> OBJ_SHIFT
            if oid in s.metas: return [(guard, oid)]
        if p.op == 'ite' and depth < 12:
            r = {}
            for g, o in s.candidates(st, p.args[1], And(guard, p.args[0]), depth+1) + s.candidates(st, p.args[2], And(guard, Not(p.args[0])), depth+1):
                r[o] = Or(r[o], g) if o in r else g
            return [(g, o) for o, g in r.items()]
        if p.op == 'lin' and depth < 12:
            # try an ite atom inside
            for x, c in p.args[1]:
                if c == 1 and x.op == 'ite':
                    rest = sub(p, x)
                    r = {}
                    for g, o in s.candidates(st, add(x.args[1], rest), And(guard, x.args[0]), depth+1) + s.candidates(st, add(x.args[2], rest), And(guard, Not(x.args[0])), depth+1):
                        r[o] = Or(r[o], g) if o in r else g
                    return [(g, o) for o, g in r.items()]
        if is_c(p): return [(guard, 0)]
        # solver-guided
        pc = And(st.pc, guard); out = []
        if not s.feasible(pc): return [(guard, 0)]
        cur = guard
        for _ in range(6):
            v = s.model_eval(And(st.pc, cur), p)
            if v is None: 
                break
            oid = v >> OBJ_SHIFT
            if oid not in s.metas: out.append((cur, 0)); cur = FALSE; break
            inobj = Eq(extract(p, 63, OBJ_SHIFT), const(oid, 64 - OBJ_SHIFT))
            out.append((And(cur, inobj), oid)); cur = And(cur, Not(inobj))
        else:
            raise Unsupported("pointer may refer to too many objects: " + show(p))
        if len(out) == 1: return [(guard, out[0][1])]
        if out and cur is not FALSE: out[-1] = (Or(out[-1][0], cur), out[-1][1])   # nothing may stay uncovered
        return out if out else [(guard, 0)]

    def arr_of(s, st, oid, o, esz):
        if o.arr is None:
            m = s.metas[oid]
            o = o.clone(); o.arr = mkarr('base', esz if esz in (1, 2, 4, 8) else 1, f"{m.name}@{oid}"); st.mem[oid] = o
        return o
    def read_arr(s, A, off, n):
        """read n bytes at byte offset term off from array A"""
        esz = A.esz
        t = tz(off)
        if esz == 1 or (t >= esz.bit_length() - 1 and n % esz == 0):
            lg = esz.bit_length() - 1
            i = extract(off, 63, lg)
            r = select(A, i)
            for j in range(1, n // esz): r = concat(select(A, add(i, const(j, i.w))), r)
            return r
        if n < esz and is_c(off):
            o = cv(off); q = o // esz
            if o % esz + n <= esz:
                e = select(A, const(q, A.iw)); k = o % esz
                return extract(e, 8*(k+n)-1, 8*k)
        if n < esz and t >= n.bit_length()-1 and n & (n-1) == 0:
            return s.read_arr(view(A, n), off, n)
        return s.read_arr(view(A, 1), off, n)
    def write_arr(s, A, off, n, v):
        esz = A.esz; lg = esz.bit_length() - 1
        if tz(off) >= lg and n % esz == 0:
            i = extract(off, 63, lg)
            for j in range(n // esz):
                A = mkarr('store', esz, A, add(i, const(j, i.w)), extract(v, 8*esz*(j+1)-1, 8*esz*j))
            return A
        if n < esz and tz(off) >= n.bit_length()-1 and n & (n-1) == 0:
            # read-modify-write of one element
            i = extract(off, 63, lg); sh = extract(off, lg-1, 0)
            e = select(A, i); W = 8*esz
            shv = zext(concat(sh, const(0, 3)), W) if lg + 3 < W else None
            if is_c(sh):
                k = cv(sh); parts = e
                r = v
                if k: r = concat(v, extract(e, 8*k-1, 0))
                if k + n < esz: r = concat(extract(e, W-1, 8*(k+n)), r)
                return mkarr('store', esz, A, i, r)
            mask = shl(const(M(8*n), W), shv)
            r = bor(band(e, bnot(mask)), shl(zext(v, W), shv))
            return mkarr('store', esz, A, i, r)
        return s.write_arr(view(A, 1), off, n, v)
    def hull(s, o):
        lo = min(o.cells); hi = max(k + c[0] for k, c in o.cells.items()); return lo, hi
    def disjoint(s, st, off, n, lo, hi):
        nt = n if isinstance(n, T) else const(n, 64)
        # [off, off+n) vs [lo,hi)
        c = Or(ule(const(hi, 64), off), ule(add(off, nt), const(lo, 64)), Eq(nt, const(0, 64)))
        return s.proves(st.pc, c)
    def log(s, st, oid, what):
        if st.wlog is not None: st.wlog.append((oid, what))
    def flush(s, st, oid, o):
        s.log(st, oid, 'flush')   # cells merged into the array: a later symbolic write is no longer known to miss them
        o = o.clone(); cells = sorted(o.cells.items()); 
        if o.arr is None:
            ns = {c[0] for _, c in cells}
            esz = min(ns) if ns and min(ns) in (1, 2, 4, 8) and all(k % min(ns) == 0 and c[0] % min(ns) == 0 for k, c in cells) else 1
            o = s.arr_of(st, oid, o, esz).clone()
        A = o.arr
        for k, (n, v) in cells: A = s.write_arr(A, const(k, 64), n, bits_of(v))
        o.arr = A; o.cells = {}; st.mem[oid] = o
        return o
    def load1(s, st, oid, off, n, raw=True):
        o = s.get_obj(st, oid)
        if is_c(off):
            k = cv(off); c = o.cells.get(k)
            if c is not None and c[0] == n: return c[1]
            if o.cells:
                # gather pieces
                pieces = []; pos = k; end = k + n
                hit = [(ko, cn, cvv) for ko, (cn, cvv) in o.cells.items() if ko < end and ko + cn > k]
                if hit:
                    hit.sort()
                    for ko, cn, cvv in hit:
                        if ko > pos: pieces.append(s.read_base(st, oid, const(pos, 64), ko - pos)); pos = ko
                        b = bits_of(cvv); a0 = pos - ko; a1 = min(end, ko + cn) - ko
                        pieces.append(extract(b, 8*a1-1, 8*a0)); pos = ko + a1
                    if pos < end: pieces.append(s.read_base(st, oid, const(pos, 64), end - pos))
                    r = pieces[0]
                    for p in pieces[1:]: r = concat(p, r)
                    return r
            return s.read_base(st, oid, off, n)
        if o.cells:
            lo, hi = s.hull(o)
            if not s.disjoint(st, off, n, lo, hi):
                o = s.flush(st, oid, o)
        return s.read_base(st, oid, off, n)
    def read_base(s, st, oid, off, n):
        o = s.get_obj(st, oid)
        if o.arr is None:
            esz = n if n in (1, 2, 4, 8) and tz(off) >= n.bit_length()-1 else 1
            o = s.arr_of(st, oid, o, esz)
        return s.read_arr(o.arr, off, n)
    def load(s, st, p, n, ins, what="load"):
        rs = s.resolve(st, p, n, what, ins)
        if not rs: return None
        r = None
        for g, oid, off in reversed(rs):
            v = s.load1(st, oid, off, n)
            if r is None: r = v
            else:
                if r.w != v.w: r = bits_of(r); v = bits_of(v)
                r = Ite(g, v, r)
        return r
    def store1(s, st, oid, off, n, v, g=TRUE):
        o = s.get_obj(st, oid)
        if is_c(off): s.log(st, oid, (cv(off), n))
        else: s.log(st, oid, 'arr')
        if g is not TRUE:
            old = s.load1(st, oid, off, n)
            if old.w != v.w: old = bits_of(old); v = bits_of(v)
            v = Ite(g, v, old)
            o = s.get_obj(st, oid)
        if is_c(off):
            o = o.clone(); k = cv(off); end = k + n
            if not (k in o.cells and o.cells[k][0] == n):
                for ko, (cn, cvv) in list(o.cells.items()):
                    if ko < end and ko + cn > k:
                        b = bits_of(cvv); del o.cells[ko]
                        if ko < k: o.cells[ko] = (k - ko, extract(b, 8*(k-ko)-1, 0))
                        if ko + cn > end: o.cells[end] = (ko + cn - end, extract(b, 8*cn-1, 8*(end-ko)))
            o.cells[k] = (n, v); st.mem[oid] = o
            return
        if o.cells:
            lo, hi = s.hull(o)
            if not s.disjoint(st, off, n, lo, hi): o = s.flush(st, oid, o)
        if o.arr is None: o = s.arr_of(st, oid, o, n if n in (1, 2, 4, 8) and tz(off) >= n.bit_length()-1 else 1)
        o = o.clone(); o.arr = s.write_arr(o.arr, off, n, bits_of(v)); st.mem[oid] = o
    def store(s, st, p, n, v, ins, what="store"):
        for g, oid, off in s.resolve(st, p, n, what, ins, write=True):
            s.store1(st, oid, off, n, v, g if g is not TRUE else TRUE)

    # typed load/store (vectors, aggregates)
    def tload(s, st, p, ty, ins):
        if isinstance(ty, list):
            if ty[0] == 'v' and ty[2] == 'i1':
                b = bits_of(s.load(st, p, tysize(ty), ins)); return tuple(Eq(extract(b, i, i), const(1, 1)) for i in range(ty[1]))
            if ty[0] == 'v':
                es = tysize(ty[2]); k = es
                b = s.load(st, p, tysize(ty), ins); 
                if isinstance(b, tuple): return s.vec_bitcast(b, ty)
                b = bits_of(b)
                return tuple(s.frombits(extract(b, 8*es*(i+1)-1, 8*es*i), ty[2]) for i in range(ty[1]))
            if ty[0] == 's': return tuple(s.tload(st, add(p, const(o, 64)), t, ins) for o, t in ty[2])
            if ty[0] == 'a': return tuple(s.tload(st, add(p, const(i*ty[2], 64)), ty[3], ins) for i in range(ty[1]))
        v = s.load(st, p, tysize(ty), ins)
        if v is None: return s.undef(ty)
        return s.frombits(v, ty)
    def frombits(s, v, ty):
        w = tyw(ty)
        if w == 0: return Eq(extract(bits_of(v), 0, 0), const(1, 1))
        if w in ('f32', 'f64'): return v if v.w == w else fp_from_bits(bits_of(v), w)
        if v.w != w:
            v = bits_of(v)
            if v.w > w: v = trunc(v, w)
        return v
    def tstore(s, st, p, ty, v, ins):
        if isinstance(ty, list):
            if ty[0] == 'v':
                if ty[2] == 'i1':
                    s.store(st, p, tysize(ty), s.packbits(v), ins); return
                b = bits_of(v[0])
                for x in v[1:]: b = concat(bits_of(x), b)
                s.store(st, p, tysize(ty), b, ins); return
            if ty[0] == 's':
                for (o, t), x in zip(ty[2], v): s.tstore(st, add(p, const(o, 64)), t, x, ins)
                return
            if ty[0] == 'a':
                for i, x in enumerate(v): s.tstore(st, add(p, const(i*ty[2], 64)), ty[3], x, ins)
                return
        n = tysize(ty)
        if v.w == 0: v = zext(v, 8)
        elif isinstance(v.w, int) and v.w < 8*n: v = zext(v, 8*n)
        s.store(st, p, n, v, ins)
    def packbits(s, v):
        r = zext(v[0], 1) if v[0].w == 0 else v[0]
        for x in v[1:]: r = concat(zext(x, 1) if x.w == 0 else x, r)
        n = len(v)
        return zext(r, (n + 7)//8*8) if n % 8 else r
    def flat_bits(s, v):
        if isinstance(v, tuple):
            r = None
            for x in v:
                b = zext(x, 1) if x.w == 0 else bits_of(x)
                r = b if r is None else concat(b, r)
            return r
        return zext(v, 1) if v.w == 0 else bits_of(v)
    def unflat(s, b, ty):
        if isinstance(ty, list) and ty[0] == 'v':
            ew = b.w // ty[1]
            return tuple((Eq(extract(b, i, i), const(1, 1)) if ty[2] == 'i1' else s.frombits(extract(b, ew*(i+1)-1, ew*i), ty[2])) for i in range(ty[1]))
        w = tyw(ty)
        if w == 0: return Eq(b, const(1, 1))
        return s.frombits(b, ty)
    def vec_bitcast(s, v, ty): return s.unflat(s.flat_bits(v), ty)

    # bulk operations
    def memcpy(s, st, d, sp, n, ins, move=False):
        if n.op == 'c' and cv(n) == 0: return
        if n.op == 'ite' and False: pass
        if is_c(n) and cv(n) <= 4096:
            N = cv(n)
            rs = s.resolve(st, sp, n, "memcpy-src", ins); rd = s.resolve(st, d, n, "memcpy-dst", ins, write=True)
            if len(rs) == 1 and len(rd) == 1 and is_c(rs[0][2]):
                _, so, soff = rs[0]; _, do, doff = rd[0]; b = cv(soff)
                o = s.get_obj(st, so)
                # piecewise by cells
                cuts = []
                pos = b
                for k in sorted(k for k, c in o.cells.items() if k < b + N and k + c[0] > b):
                    cn = o.cells[k][0]
                    if k > pos: cuts += s.chunks(pos, k); 
                    a0 = max(k, b); a1 = min(k + cn, b + N); cuts.append((a0, a1 - a0)); pos = a1
                if pos < b + N: cuts += s.chunks(pos, b + N)
                if len(cuts) <= 600:
                    vals = [(a - b, m, s.load1(st, so, const(a, 64), m)) for a, m in cuts]
                    for rel, m, v in vals: s.store1(st, do, add(doff, const(rel, 64)), m, v)
                    return
            if len(rs) >= 1 and len(rd) >= 1 and N <= 64:
                r = None
                for g, oid, off in reversed(rs):
                    v = bits_of(s.load1(st, oid, off, N)); r = v if r is None else Ite(g, v, r)
                for g, oid, off in rd: s.store1(st, oid, off, N, r, g)
                return
        else:
            nz = Not(Eq(n, const(0, 64)))
            # zero length copies may use any pointer
            if s.proves(st.pc, Not(nz)): return
            rs = s.resolve_opt(st, sp, n, "memcpy-src", ins, nz); rd = s.resolve_opt(st, d, n, "memcpy-dst", ins, nz, write=True)
        if not rs or not rd: return
        if len(rs) != 1 or len(rd) != 1:
            if len(rd) <= 4 and len(rs) <= 4 and not (len(rd) > 1 and {o for _, o, _ in rd} & {o for _, o, _ in rs}):
                # several possible sources / destinations: guarded updates of every destination
                for gd, do, doff in rd:
                    od = s.flush_if(st, do, doff, n); base = od.arr
                    if base is None: od = s.arr_of(st, do, od, 1); base = od.arr
                    res = None
                    for g, so, soff in reversed(rs):
                        A = s.copy_node(st, base, doff, so, soff, n)
                        res = A if res is None else (mkarr('ite', min(A.esz, res.esz), g, view(A, min(A.esz, res.esz)), view(res, min(A.esz, res.esz))))
                    if len(rd) > 1:
                        e = min(res.esz, base.esz); res = mkarr('ite', e, gd, view(res, e), view(base, e))
                    od = s.get_obj(st, do).clone(); od.arr = res; st.mem[do] = od
                    s.log(st, do, 'arr')
                return
            raise Unsupported("memcpy with ambiguous pointers")
        (_, so, soff), (_, do, doff) = rs[0], rd[0]
        if so == do and not move:
            pass
        od = s.flush_if(st, do, doff, n)
        if od.arr is None:
            osrc = s.get_obj(st, so); esz = osrc.arr.esz if osrc.arr else 1
            od = s.arr_of(st, do, od, esz)
        A = s.copy_node(st, od.arr, doff, so, soff, n)
        od = s.get_obj(st, do).clone(); od.arr = A; st.mem[do] = od
        s.log(st, do, 'arr')
    def resolve_opt(s, st, p, n, what, ins, nz, write=False):
        """resolve under the assumption nz (n != 0)"""
        nt = n; cands = s.candidates(st, p, TRUE); out = []
        for g, oid in cands:
            m = s.metas.get(oid); o = s.get_obj(st, oid) if m else None
            if o is None or m.kind == 'func':
                s.require(st, Not(And(g, nz)), what + ":invalid-pointer", ins); continue
            off = sub(p, const(m.base, 64)); g2 = And(g, nz)
            inb = And(ule(off, m.size), ule(nt, sub(m.size, off)))
            if write and m.ro: inb = FALSE
            s.require(st, Implies(g2, inb), what + ":bounds", ins)
            if o.alive is not TRUE: s.require(st, Implies(g2, o.alive), what + ":use-after-free", ins)
            out.append((g, oid, off))
        return out
    def chunks(s, a, b):
        out = []
        while a < b:
            for m in (8, 4, 2, 1):
                if a % m == 0 and a + m <= b: out.append((a, m)); a += m; break
        return out
    def flush_if(s, st, oid, off, n):
        o = s.get_obj(st, oid)
        if o.cells:
            lo, hi = s.hull(o)
            if not s.disjoint(st, off, n, lo, hi): o = s.flush(st, oid, o)
        return o
    def copy_node(s, st, base, doff, so, soff, n):
        osrc = s.flush_if(st, so, soff, n)
        if osrc.arr is None: osrc = s.arr_of(st, so, osrc, base.esz)
        S = osrc.arr
        def ok(e):
            z = e.bit_length() - 1
            return tz(doff) >= z and tz(soff) >= z and tz(n) >= z
        e = 1
        for c in (8, 4, 2):
            if c <= max(base.esz, S.esz) and ok(c): e = c; break
        e = min(e, max(base.esz, S.esz))
        lg = e.bit_length() - 1
        return mkarr('copy', e, view(base, e), extract(doff, 63, lg), extract(n, 63, lg), view(S, e), extract(soff, 63, lg))
    def memset(s, st, d, v, n, ins):
        if is_c(n) and cv(n) == 0: return
        if is_c(n):
            rd = s.resolve(st, d, n, "memset", ins, write=True); N = cv(n)
            for g, oid, off in rd:
                if is_c(off) and N <= 128:
                    for a, m in s.chunks(cv(off), cv(off) + N):
                        b = v
                        for _ in range(m - 1): b = concat(b, v)
                        s.store1(st, oid, const(a, 64), m, b, g)
                else: s.fill(st, oid, off, n, v, g)
            return
        nz = Not(Eq(n, const(0, 64)))
        if s.proves(st.pc, Not(nz)): return
        for g, oid, off in s.resolve_opt(st, d, n, "memset", ins, nz, write=True): s.fill(st, oid, off, n, v, g)
    def fill(s, st, oid, off, n, v, g=TRUE):
        s.log(st, oid, 'arr')
        o = s.flush_if(st, oid, off, n)
        if o.arr is None: o = s.arr_of(st, oid, o, 1)
        A = o.arr; e = A.esz
        z = e.bit_length() - 1
        if not (tz(off) >= z and tz(n) >= z): e = 1; A = view(A, 1)
        lg = e.bit_length() - 1; b = v
        for _ in range(e - 1): b = concat(b, v)
        B = mkarr('fill', e, A, extract(off, 63, lg), extract(n, 63, lg), b)
        if g is not TRUE: B = mkarr('ite', e, g, B, A)
        o = s.get_obj(st, oid).clone(); o.arr = B; st.mem[oid] = o

    # -- exploration -------------------------------------------------------------------------------------------
    def state_key(s, st):
        k = []
        for f in st.frames[:-1]:
            for e in f.fn.key[f.blk]:
                k.append(f.iters.get(e[1], 0) if isinstance(e, tuple) else e)
            k.append(1000000 + f.ip)
        f = st.frames[-1]
        for e in f.fn.key[f.blk] or [999999]:
            k.append(f.iters.get(e[1], 0) if isinstance(e, tuple) else e)
        k.append(1000000 + f.ip)
        return tuple(k)
    def merge_id(s, st):
        return tuple((f.fn.name, f.blk, f.ip, tuple(sorted(f.iters.items(), key=str)), tuple(sorted(f.cut.items()))) for f in st.frames)

    def run(s, entry, args=()):
        st = State(); st.frames = []; st.mem = {}; st.pc = TRUE; st.cnt = {}; st.wlog = None; st.notes = None
        s.push_call(st, s.mod.fns[entry], list(args), None)
        return s.explore([st], 0)

    def explore(s, states, base_depth, stop=None):
        """run states until frame depth drops to base_depth; returns list of finished states (with ret in notes)."""
        heap = []; waiting = {}; n = 0; done = []
        def put(st):
            nonlocal n
            if st is None: return
            if st.pc is FALSE: return
            if len(st.frames) <= base_depth: done.append(st); return
            mid = s.merge_id(st)
            if s.o['merge'] and mid in waiting:
                waiting[mid] = s.merge(waiting[mid], st); return
            if not s.o['merge']:
                n += 1; mid = (n,)
            waiting[mid] = st; n += 1
            heapq.heappush(heap, (s.state_key(st) if s.o['merge'] else (-n,), n, mid))
        for st in states: put(st)
        while heap:
            _, _, mid = heapq.heappop(heap)
            st = waiting.pop(mid)
            if time.time() - s.t0 > s.o['time_limit']: raise Budget("time")
            for x in s.run_block(st): put(x)
        if s.o['merge'] and len(done) > 1:
            r = done[0]
            for d in done[1:]: r = s.merge(r, d)
            done = [r]
        return done

    def merge(s, A, B):
        ca = conj(A.pc); cb = conj(B.pc)
        sb = set(cb); sa = set(ca)
        common = [c for c in ca if c in sb]
        ra = And(*[c for c in ca if c not in sb]); rb = And(*[c for c in cb if c not in sa])
        pc = And(*common, Or(ra, rb))
        # selector: prefer a literal that separates the two
        sel = ra
        for c in conj(ra):
            if Not(c) in sb: sel = c; break
        M_ = State(); M_.pc = pc; M_.wlog = A.wlog; M_.notes = A.notes
        if A.notes is not B.notes and A.notes is not None and B.notes is not None:
            M_.notes = s.mval(sel, A.notes, B.notes)
        M_.cnt = dict(A.cnt)
        for k, v in B.cnt.items(): M_.cnt[k] = max(v, M_.cnt.get(k, 0))
        M_.frames = []
        for fa, fb in zip(A.frames, B.frames):
            f = fa.clone()
            if fa.regs is not fb.regs:
                r = {}
                for k, va in fa.regs.items():
                    if k in fb.regs:
                        vb = fb.regs[k]
                        r[k] = va if va is vb else s.mval(sel, va, vb)
                f.regs = r
            if fa.objs is not fb.objs: f.objs = tuple(dict.fromkeys(fa.objs + fb.objs))
            if fa.prev != fb.prev: f.prev = None
            M_.frames.append(f)
        mem = {}
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is oa: mem[oid] = oa; continue
            if ob is None:
                # object created on one side only
                if s.metas[oid].kind == 'global': ob = s.get_obj(B, oid)
                else:
                    mem[oid] = oa
                    if s.metas[oid].kind == 'heap': mem[oid] = Obj(oa.cells, oa.arr, And(sel, oa.alive))
                    continue
            mem[oid] = s.merge_obj(A, B, oid, sel)
        for oid, ob in B.mem.items():
            if oid not in A.mem:
                if s.metas[oid].kind == 'global': A.mem[oid] = s.get_obj(A, oid); mem[oid] = s.merge_obj(A, B, oid, sel); continue
                mem[oid] = ob
                if s.metas[oid].kind == 'heap': mem[oid] = Obj(ob.cells, ob.arr, And(Not(sel), ob.alive))
        M_.mem = mem
        return M_
    def mval(s, c, a, b):
        if a is b: return a
        if isinstance(a, tuple): return tuple(s.mval(c, x, y) for x, y in zip(a, b))
        if a.w != b.w: a = bits_of(a); b = bits_of(b)
        return Ite(c, a, b)
    def merge_obj(s, A, B, oid, sel):
        oa, ob = A.mem[oid], B.mem[oid]
        if oa is ob: return oa
        if oa.arr is None and ob.arr is not None: oa = s.arr_of(A, oid, oa, ob.arr.esz)
        if ob.arr is None and oa.arr is not None: ob = s.arr_of(B, oid, ob, oa.arr.esz)
        cells = {}
        # align cell granularity
        ka = {(k, c[0]) for k, c in oa.cells.items()}; kb = {(k, c[0]) for k, c in ob.cells.items()}
        if ka == kb:
            for k, (n, v) in oa.cells.items(): cells[k] = (n, s.mval(sel, v, ob.cells[k][1]))
        else:
            # partition points
            ivs = sorted(ka | kb)
            # merge overlapping intervals' boundaries
            done_hi = -1; groups = []
            for k, n in ivs:
                if k < done_hi: groups[-1][1] = max(groups[-1][1], k + n); groups[-1][2].update((k, k+n)); done_hi = groups[-1][1]
                else: groups.append([k, k + n, {k, k + n}]); done_hi = k + n
            for lo, hi, pts in groups:
                pts = sorted(pts)
                for a, b in zip(pts, pts[1:]):
                    va = s.load1(A, oid, const(a, 64), b - a) if A.mem[oid] is oa or True else None
                    vb = s.load1(B, oid, const(a, 64), b - a)
                    cells[a] = (b - a, s.mval(sel, va, vb))
            oa = A.mem[oid]; ob = B.mem[oid]
            if oa.arr is None and ob.arr is not None: oa = s.arr_of(A, oid, oa, ob.arr.esz)
            if ob.arr is None and oa.arr is not None: ob = s.arr_of(B, oid, ob, oa.arr.esz)
        if oa.arr is ob.arr: arr = oa.arr
        else:
            e = min(oa.arr.esz, ob.arr.esz); arr = mkarr('ite', e, sel, view(oa.arr, e), view(ob.arr, e))
        return Obj(cells, arr, Ite(sel, oa.alive, ob.alive))

    def push_call(s, st, fn, args, dest, byval=None):
        f = Frame(); f.fn = fn; f.regs = {}; f.blk = 0; f.prev = None; f.ip = 0; f.objs = (); f.dest = dest; f.iters = {}; f.cut = {}; f.uid = 0
        if len(st.frames) > 200: raise Unsupported("recursion too deep")
        s.fns_seen[fn.name] = s.fns_seen.get(fn.name, 0) + 1
        for i, a in enumerate(args):
            f.regs[i] = a
        st.frames.append(f)
    def pop_call(s, st, ret):
        f = st.frames.pop()
        for oid in f.objs: st.mem.pop(oid, None)
        if st.frames:
            if f.dest is not None and f.dest >= 0: st.frames[-1].regs[f.dest] = ret
        if len(st.frames) == 0 or f.uid == 1: st.notes = ret

    def goto(s, st, tgt, cond=TRUE):
        """move st to block tgt; handles loop headers; returns state or None"""
        f = st.frames[-1]; fn = f.fn
        src = f.blk
        # leaving loops
        if f.iters or f.cut:
            inl = fn.inloops[tgt]
            if any(l not in inl for l in f.iters) : f.iters = {l: c for l, c in f.iters.items() if l in inl}
            if any(l not in inl for l in f.cut): f.cut = {l: c for l, c in f.cut.items() if l in inl}
        # phis
        blk = fn.blocks[tgt]; i = 0; vals = []
        while i < len(blk) and blk[i][0] == 'phi':
            ins = blk[i]
            for b, v in ins[5]:
                if b == src: vals.append((ins[1], s.val(st, v))); break
            else: raise Unsupported("phi")
            i += 1
        for d, v in vals: f.regs[d] = v
        f.prev = src; f.blk = tgt; f.ip = i
        li = fn.hdr.get(tgt)
        if li is not None:
            L = fn.loops[li]
            backedge = src in L['set']
            inv = s.find_inv(fn, li) if s.o['use_inv'] else None
            if inv is not None:
                if li in f.cut and backedge:
                    s.check_inv(st, fn, li, inv, "preserved"); return None
                st2 = s.cut_loop(st, fn, li, inv)
                return st2
            if backedge:
                c = f.iters.get(li, 0) + 1
                f.iters = dict(f.iters); f.iters[li] = c
                if c > 3 or c > 0 and not s.o['merge']:
                    if not s.feasible(st.pc): return None
                if c >= s.o['unroll']:
                    if s.feasible(st.pc, timeout=20000):
                        s.incomplete.append(f"unwind {fn.dem.split('(')[0]} line {L['line']} > {s.o['unroll']}")
                        s.obl.append(Oblig("unwind", s.where(st), st.pc, FALSE, f"loop at line {L['line']}")) if not s.suppress else None
                    return None
            else:
                f.iters = dict(f.iters); f.iters[li] = 0
        return st

    def run_block(s, st):
        f = st.frames[-1]; fn = f.fn; blk = fn.blocks[f.blk]
        o = s.o
        while True:
            ins = blk[f.ip]; op = ins[0]
            s.steps += 1
            if s.steps > o['max_steps']: raise Budget("steps")
            h = DISPATCH.get(op)
            if h is not None:
                r = h(s, st, f, ins)
                if r is not None:
                    if isinstance(r, tuple) and r and r[0] == 'FORK':
                        return r[1]
                    f.regs[ins[1]] = r
                f.ip += 1
                if st.pc is FALSE: return []
                continue
            if op == 'br':
                s.trim(f, blk)
                if len(ins) == 6:
                    r = s.goto(st, ins[5]); return [r] if r else []
                c = s.val(st, ins[5]) if type(ins[5]) is not int else f.regs[ins[5]]
                if c is TRUE: r = s.goto(st, ins[6]); return [r] if r else []
                if c is FALSE: r = s.goto(st, ins[7]); return [r] if r else []
                out = []
                t = st.fork(); t.pc = And(st.pc, c); st.pc = And(st.pc, Not(c))
                if not o['merge']:
                    if t.pc is not FALSE and not s.feasible(t.pc): t.pc = FALSE
                    if st.pc is not FALSE and not s.feasible(st.pc): st.pc = FALSE
                if t.pc is not FALSE: out.append(s.goto(t, ins[6]))
                if st.pc is not FALSE: out.append(s.goto(st, ins[7]))
                return [x for x in out if x]
            if op == 'switch':
                s.trim(f, blk)
                c = s.val(st, ins[5]); out = []; rest = TRUE; byt = {}
                for cvv, tgt in ins[7]:
                    e = Eq(c, s.val(st, cvv)); byt[tgt] = Or(byt.get(tgt, FALSE), e); rest = And(rest, Not(e))
                byt[ins[6]] = Or(byt.get(ins[6], FALSE), rest)
                for tgt, g in byt.items():
                    if g is FALSE: continue
                    t = st.fork(); t.pc = And(st.pc, g)
                    if t.pc is FALSE: continue
                    if not o['merge'] and not s.feasible(t.pc): continue
                    r = s.goto(t, tgt)
                    if r: out.append(r)
                return out
            if op == 'ret':
                v = s.val(st, ins[5]) if len(ins) > 5 else None
                s.pop_call(st, v)
                return [st]
            if op == 'unreachable':
                s.require(st, FALSE, "unreachable", ins); return []
            if op == 'call' or op == 'invoke':
                r = s.call(st, f, ins)
                if r == 'PUSH': return [st]
                if isinstance(r, list): return r
                if st.pc is FALSE: return []
                f = st.frames[-1]
                f.ip += 1
                continue
            raise Unsupported("op " + op)
    def trim(s, f, blk):
        pass

    # -- calls -------------------------------------------------------------------------------------------------
    def call(s, st, f, ins):
        callee = ins[5]; args = [None if (type(a) is list and a[0] == 'md') else s.val(st, a) for a in ins[6]]
        if type(callee) is list and callee[0] == 'g': name = callee[1]
        else:
            p = s.val(st, callee); c = s.candidates(st, p)
            c = [(g, o) for g, o in c if o in s.fobj_rev or s.feasible(And(st.pc, g))]
            if len(c) == 1 and c[0][1] in s.fobj_rev: name = s.fobj_rev[c[0][1]]
            elif len(c) > 1:
                out = []
                for g, o in c:
                    t = st.fork(); t.pc = And(st.pc, g)
                    if t.pc is FALSE: continue
                    if o not in s.fobj_rev: s.require(t, FALSE, "call:invalid-function-pointer", ins); continue
                    r = s.call_named(t, t.frames[-1], ins, s.fobj_rev[o], args)
                    if r == 'PUSH': out.append(t)
                    elif isinstance(r, list): out += r
                    else: t.frames[-1].ip += 1; out.append(t)
                return out
            else:
                s.require(st, FALSE, "call:invalid-function-pointer", ins); return []
        return s.call_named(st, f, ins, name, args)
    def call_named(s, st, f, ins, name, args):
        h = intrin.TABLE.get(name)
        if h is None:
            for pre, hh in intrin.PREFIX:
                if name.startswith(pre): h = hh; break
        ct = s.contracts.get(name)
        if ct and st.frames and not any(fr.fn.name == ct for fr in st.frames):
            s.used_contracts.add(name); name = ct; h = None
        if h is not None:
            r = h(s, st, ins, name, args)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'FORK': return r[1]
            if r is not None and ins[1] >= 0: st.frames[-1].regs[ins[1]] = r
            return None
        fn = s.mod.fns.get(name)
        if fn is None or fn.decl: raise Unsupported("call to unmodelled function " + name)
        for i, bv in enumerate(ins[8]):
            if bv:
                m = s.new_obj("byval", bv, 'stack'); st.mem[m.id] = Obj({}, None); p = const(m.base, 64)
                s.memcpy(st, p, args[i], const(bv, 64), ins); args[i] = p
                f.objs = f.objs + (m.id,)
        f.ip += 1
        d = len(st.frames)
        s.push_call(st, fn, args, ins[1])
        if not s.o['merge'] and re.search(s.o['mergefn'], fn.dem):
            # specification helpers: explore with merging so that they do not multiply the paths of the code under proof
            s.o['merge'] = True
            try: return s.explore([st], d)
            finally: s.o['merge'] = False
        return 'PUSH'

    # -- loops -------------------------------------------------------------------------------------------------
    def find_inv(s, fn, li):
        k = (fn.name, li)
        if k in s.invmod: return s.invmod[k]
        r = None
        for rx, ordn, inv in s.invs:
            if ordn == li and re.search(rx, fn.dem): r = inv; break
        s.invmod[k] = r
        return r
    def bind_args(s, st, fn, li, invfn):
        f = st.frames[-1]; L = fn.loops[li]
        used = set()
        for b in L['blocks']:
            for ins in fn.blocks[b]:
                for a in ins[5:]:
                    if type(a) is int: used.add(a)
                    elif type(a) is list:
                        for x in a:
                            if type(x) is int: used.add(x)
                            elif type(x) is list and x and type(x[0]) is int: used.add(x[0])
        args = []
        for name, ty, _ in invfn.args:
            cands = [v for v in fn.vars if v[0] == ('this' if name == 'this_' else name) and v[1] in f.regs]
            if not cands: raise Unsupported(f"invariant {invfn.name}: no variable '{name}' in {fn.dem.split('(')[0]}")
            pref = [v for v in cands if v[1] in used] or cands
            # prefer latest declared before / in loop scope
            pref.sort(key=lambda v: (v[3] if v[3] <= L['line'] else -v[3]))
            v = pref[-1]
            if v[2] == 'arg': args.append(f.regs[v[1]])
            else:
                addr = f.regs[v[1]]
                if isinstance(v[2], list): args.append(addr)
                else:
                    x = s.tload(st, addr, v[2], None)
                    if ty != v[2] and not (isinstance(x, tuple)):
                        if ty == 'ptr' and v[2] != 'ptr': x = addr
                        elif isinstance(x.w, int) and x.w and tyw(ty) not in ('f32', 'f64') :
                            w = tyw(ty)
                            if w == 0: x = Not(Eq(x, const(0, x.w)))
                            elif x.w < w: x = zext(x, w)
                            elif x.w > w: x = trunc(x, w)
                    args.append(x)
        return args
    def eval_fn(s, st, fn, args, mode):
        """evaluate a spec function in place; returns (state, value)"""
        d = len(st.frames)
        s.push_call(st, fn, args, None); st.frames[-1].uid = 1
        old = s.o['merge'], s.mode
        s.o['merge'] = True; s.mode = mode
        try: r = s.explore([st], d)
        finally: s.o['merge'] = old[0]; s.mode = old[1]
        if not r: return None, None
        x = r[0]; v = x.notes; x.notes = None
        return x, v
    def run_inv(s, st, fn, li, invfn, mode):
        """evaluate the invariant function: vc_inv clauses become obligations (mode check-*) or assumptions (mode assume)"""
        args = s.bind_args(st, fn, li, invfn)
        old = s.inv_label, s.inv_ins
        s.inv_label = invfn.name; s.inv_ins = ('inv', -1, None, fn.loops[li]['line'])
        x, v = s.eval_fn(st, invfn, args, mode)
        s.inv_label, s.inv_ins = old
        if x is not None and v is not None:
            c = v if v.w == 0 else Not(Eq(v, const(0, v.w)))
            if mode == 'assume': x.pc = And(x.pc, c)
            else: s.require(x, c, "invariant-" + mode[6:], ('inv', -1, None, fn.loops[li]['line']), label=invfn.name + ":ret")
        return x
    def check_inv(s, st, fn, li, inv, what):
        invfn = s.mod.fns[inv]
        st2 = st.fork(); st2.wlog = None
        bases = st.frames[-1].cut.get(li, ()) if what == "preserved" else ()
        for oid, k, n, bid in bases:
            v = bits_of(s.load1(st2, oid, const(k, 64), n))
            s.require(st2, Eq(extract(v, 63, OBJ_SHIFT), const(bid, 64 - OBJ_SHIFT)), "invariant-preserved", None, label=f"{inv}:pointer-base")
        s.run_inv(st2, fn, li, invfn, 'check-' + what)
    def cut_loop(s, st, fn, li, inv):
        L = fn.loops[li]; invfn = s.mod.fns[inv]
        s.used_loops[(fn.name, li)] = inv
        s.check_inv(st, fn, li, inv, "initial")
        # discover the modified set (fixpoint)
        H = {}   # oid -> set of 'all' | 'arr' | (off,n)
        for round_ in range(12):
            wl = []
            t = st.fork(); t.wlog = None
            b = s.havoc(t, H, fn, li); t.wlog = wl
            f = t.frames[-1]; f.cut = dict(f.cut); f.cut[li] = b; f.iters = dict(f.iters)
            s.suppress += 1
            save = {k: list(v) for k, v in s.covers.items()}
            try:
                x = s.run_inv(t, fn, li, invfn, 'assume')
                if x is not None: s.explore_loop(x, fn, li)
            finally: s.suppress -= 1; s.covers = save
            grown = False
            for oid, what in wl:
                if oid not in st.mem: continue
                if what == 'free': raise Unsupported("loop with invariant frees memory")
                ws = H.setdefault(oid, set())
                if what not in ws: ws.add(what); grown = True
            if not grown: break
        else: raise Unsupported("modified set does not converge")
        if st.wlog is not None:
            for oid, ws in H.items():
                for w in ws: s.log(st, oid, w)
        w_ = st.wlog; st.wlog = None
        reach = s.suppress or s.feasible(st.pc)
        b = s.havoc(st, H, fn, li)
        f = st.frames[-1]; f.cut = dict(f.cut); f.cut[li] = b
        s.suppress += 1
        try: x = s.run_inv(st, fn, li, invfn, 'assume')
        finally: s.suppress -= 1
        if x is None: return None
        x.wlog = w_
        # vacuity: the invariant must be satisfiable where it is assumed
        if not s.suppress and reach: s.covers.setdefault(f"inv:{inv}:{fn.name}", []).append(x.pc)
        return x
    def explore_loop(s, st, fn, li):
        """explore the loop body only (used for modified-set discovery)"""
        d = len(st.frames) - 1; L = fn.loops[li]
        heap = []; waiting = {}; n = 0
        def put(x):
            nonlocal n
            if x is None or x.pc is FALSE: return
            if len(x.frames) <= d: return
            if len(x.frames) == d + 1 and x.frames[-1].blk not in L['set']: return
            mid = s.merge_id(x)
            if mid in waiting: waiting[mid] = s.merge(waiting[mid], x); return
            waiting[mid] = x; n += 1; heapq.heappush(heap, (s.state_key(x), n, mid))
        put(st)
        while heap:
            _, _, mid = heapq.heappop(heap)
            x = waiting.pop(mid)
            if time.time() - s.t0 > s.o['time_limit']: raise Budget("time")
            for y in s.run_block(x): put(y)
    def havoc(s, st, H, fn, li):
        """make everything in the modified set arbitrary; returns the cells whose pointer base is kept (checked at the back edge)"""
        bases = []
        for oid, ws in H.items():
            o = s.get_obj(st, oid)
            if o is None: continue
            m = s.metas[oid]; o = o.clone()
            if 'arr' in ws and 'flush' in ws: ws = ws | {'all'}
            if 'all' in ws or 'arr' in ws:
                esz = o.arr.esz if o.arr is not None else 1
                if 'all' in ws: o.cells = {}
                o.arr = s.base_arr(f"havoc_{m.name}", esz)
            st.mem[oid] = o
            if 'all' in ws: continue
            if ws == {'flush'}: continue
            rs = sorted(w for w in ws if isinstance(w, tuple)); groups = []
            for k, n in rs:
                if groups and k < groups[-1][0] + groups[-1][1] and not (k == groups[-1][0] and n == groups[-1][1]):
                    e = max(groups[-1][0] + groups[-1][1], k + n); groups[-1] = (groups[-1][0], e - groups[-1][0])
                elif not groups or (k, n) != groups[-1]: groups.append((k, n))
            for k, n in groups:
                old = o.cells.get(k)
                if old is not None and old[0] == n and not isinstance(old[1], tuple):
                    v = old[1]
                    if v.w in ('f32', 'f64'): nv = s.fresh(f"hv_{m.name}", v.w)
                    else:
                        kc = lin_const(v) if v.w == 64 else None
                        bid = kc >> OBJ_SHIFT if kc is not None else None
                        if bid in s.metas and kc >> (OBJ_SHIFT-1):
                            nv = add(const(base_of(bid), 64), s.fresh(f"hvoff_{m.name}", 64))
                            st.pc = And(st.pc, Eq(extract(nv, 63, OBJ_SHIFT), const(bid, 64 - OBJ_SHIFT)))
                            bases.append((oid, k, n, bid))
                        else: nv = s.fresh(f"hv_{m.name}", v.w)
                else: nv = s.fresh(f"hv_{m.name}", 8 * n)
                s_w = st.wlog; st.wlog = None
                s.store1(st, oid, const(k, 64), n, nv); st.wlog = s_w
                o = st.mem[oid]
        # phi values at the header
        f = st.frames[-1]
        for ins in fn.blocks[fn.loops[li]['h']]:
            if ins[0] != 'phi': break
            f.regs[ins[1]] = s.undef(ins[2])
        return tuple(bases)

# ---- instruction handlers --------------------------------------------------------------------------------------
def vecmap(fn2, a, b):
    if isinstance(a, tuple): return tuple(fn2(x, y) for x, y in zip(a, b))
    return fn2(a, b)

def h_alloca(s, st, f, ins):
    size = ins[5]; cnt = s.val(st, ins[6])
    if not is_c(cnt): raise Unsupported("vla")
    # reuse the object when re-executed in a loop
    r = f.regs.get(ins[1])
    m = s.new_obj(ins[8] or "tmp", size * cv(cnt), 'stack'); st.mem[m.id] = Obj({}, None)
    f.objs = f.objs + (m.id,)
    return const(m.base, 64)
def h_load(s, st, f, ins): return s.tload(st, s.val(st, ins[5]), ins[2], ins)
def h_store(s, st, f, ins): s.tstore(st, s.val(st, ins[6]), ins[7], s.val(st, ins[5]), ins)
def h_gep(s, st, f, ins):
    if ins[5] == '?': raise Unsupported("vector gep")
    r = add(s.val(st, ins[5]), const(ins[6], 64))
    for v, sc in ins[7]:
        r = add(r, mulc(sext(s.val(st, v), 64), sc))
    return r
def icmp1(pred, a, b):
    if a.w == 0:
        if pred == 'eq': return Eq(a, b)
        if pred == 'ne': return Not(Eq(a, b))
        a = zext(a, 1); b = zext(b, 1)
    if pred == 'eq': return Eq(a, b)
    if pred == 'ne': return Not(Eq(a, b))
    if pred == 'ult': return ult(a, b)
    if pred == 'ule': return ule(a, b)
    if pred == 'ugt': return ult(b, a)
    if pred == 'uge': return ule(b, a)
    if pred == 'slt': return slt(a, b)
    if pred == 'sle': return sle(a, b)
    if pred == 'sgt': return slt(b, a)
    if pred == 'sge': return sle(b, a)
def h_icmp(s, st, f, ins):
    a = s.val(st, ins[7]); b = s.val(st, ins[8])
    return vecmap(lambda x, y: icmp1(ins[5], x, y), a, b)
def fcmp1(p, a, b):
    if a.op == 'fpc' and b.op == 'fpc':
        x, y = fval(a), fval(b); un = x != x or y != y
        r = {'oeq': x == y, 'ogt': x > y, 'oge': x >= y, 'olt': x < y, 'ole': x <= y, 'one': x != y and not un, 'ord': not un,
             'ueq': x == y or un, 'ugt': x > y or un, 'uge': x >= y or un, 'ult': x < y or un, 'ule': x <= y or un, 'une': x != y, 'uno': un}[p]
        return boolc(r)
    feq = mk('feq', (a, b), 0); flt = mk('flt', (a, b), 0); fgt = mk('flt', (b, a), 0); fle = mk('fle', (a, b), 0); fge = mk('fle', (b, a), 0)
    nan = Or(mk('fisnan', (a,), 0) if a.op != 'fpc' else boolc(fval(a) != fval(a)), mk('fisnan', (b,), 0) if b.op != 'fpc' else boolc(fval(b) != fval(b)))
    if p == 'oeq': return feq
    if p == 'une': return Not(feq)
    if p == 'one': return And(Not(feq), Not(nan))
    if p == 'ueq': return Or(feq, nan)
    if p == 'olt': return flt
    if p == 'ogt': return fgt
    if p == 'ole': return fle
    if p == 'oge': return fge
    if p == 'ult': return Not(fge)
    if p == 'ugt': return Not(fle)
    if p == 'ule': return Not(fgt)
    if p == 'uge': return Not(flt)
    if p == 'ord': return Not(nan)
    if p == 'uno': return nan
def h_fcmp(s, st, f, ins): return vecmap(lambda x, y: fcmp1(ins[5], x, y), s.val(st, ins[7]), s.val(st, ins[8]))
import math
def fbin(op, a, b):
    if a.op == 'fpc' and b.op == 'fpc':
        x, y = fval(a), fval(b); r = None
        try:
            if op == 'fadd': r = x + y
            elif op == 'fsub': r = x - y
            elif op == 'fmul': r = x * y
            elif op == 'fdiv': r = x / y
        except (ZeroDivisionError, OverflowError): r = None
        # double rounding is innocuous for f32 +,-,*,/ computed in f64
        if r is not None and r == r and abs(r) != float('inf'):
            c = ffrom(r, a.w)
            if c is not None: return c
    return mk(op, (a, b), a.w)
def binop(op, a, b, s=None, st=None, ins=None):
    if a.w in ('f32', 'f64'):
        if op == 'frem': raise Unsupported("frem")
        return fbin(op, a, b)
    if a.w == 0:
        if op == 'and': return And(a, b)
        if op == 'or': return Or(a, b)
        if op in ('xor', 'add', 'sub'): return Not(Eq(a, b))
        if op == 'mul': return And(a, b)
        raise Unsupported("i1 " + op)
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if op == 'mul': return mul(a, b)
    if op == 'and': return band(a, b)
    if op == 'or': return bor(a, b)
    if op == 'xor': return bxor(a, b)
    if op in ('shl', 'lshr', 'ashr'):
        if s is not None: s.require(st, ult(b, const(b.w, b.w)), "shift-amount", ins)
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b)
    if s is not None and op in ('udiv', 'urem', 'sdiv', 'srem'):
        s.require(st, Not(Eq(b, const(0, b.w))), "div-by-zero", ins)
        if op[0] == 's': s.require(st, Not(And(Eq(b, const(-1, b.w)), Eq(a, const(1 << (a.w-1), a.w)))), "signed-overflow", ins)
    return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](a, b)
def nsw_ok(op, a, b):
    w = a.w
    if op == 'add':
        r = add(sext(a, w+1), sext(b, w+1)); 
    elif op == 'sub': r = sub(sext(a, w+1), sext(b, w+1))
    elif op == 'mul':
        r = mul(sext(a, 2*w), sext(b, 2*w)); lo = extract(r, w-1, 0)
        return Eq(sext(lo, 2*w), r)
    elif op == 'shl': return TRUE
    h = 1 << (w-1)
    # quick range test
    if ub(a) < h and ub(b) < h:
        if op == 'add' and ub(a) + ub(b) < h: return TRUE
        if op == 'sub': return TRUE
    return Eq(extract(r, w, w), extract(r, w-1, w-1))
def h_bin(s, st, f, ins):
    a = s.val(st, ins[5]); b = s.val(st, ins[6]); op = ins[0]
    if isinstance(a, tuple): return tuple(binop(op, x, y) for x, y in zip(a, b))
    if ins[7] & 1 and s.o['check_nsw'] and a.w and not s.suppress:
        s.require(st, nsw_ok(op, a, b), "signed-overflow", ins, assume=False)
    return binop(op, a, b, s, st, ins)
def cast1(s, op, v, dty):
    w = tyw(dty)
    if op == 'zext': return zext(v, w)
    if op == 'sext': return sext(v, w)
    if op == 'trunc':
        if w == 0: return Eq(extract(v, 0, 0), const(1, 1))
        return trunc(v, w)
    if op in ('ptrtoint', 'inttoptr'): return trunc(v, w) if w < v.w else zext(v, w)
    if op in ('fptrunc', 'fpext'):
        if v.op == 'fpc':
            c = ffrom(fval(v), w)
            if c is not None: return c
        return mk('fcvt', (v,), w)
    if op in ('sitofp', 'uitofp'):
        if v.w == 0: v = zext(v, 8)
        if v.op == 'c':
            x = sgn(v.args[0], v.w) if op == 'sitofp' else v.args[0]
            if abs(x) < (1 << (24 if w == 'f32' else 53)): return ffrom(float(x), w)
        return mk(op, (v,), w)
    if op in ('fptosi', 'fptoui'):
        if v.op == 'fpc':
            x = fval(v)
            if x == x and abs(x) < 2**63: return const(int(x), w)
        return mk('fptosi', (v, 'z'), w) if op == 'fptosi' else mk('fptoui', (v,), w)
    raise Unsupported("cast " + op)
def h_cast(s, st, f, ins):
    v = s.val(st, ins[6]); op = ins[0]
    if op == 'bitcast':
        if ins[5] == ins[2]: return v
        return s.unflat(s.flat_bits(v), ins[2])
    if isinstance(v, tuple): return tuple(cast1(s, op, x, ins[2][2]) for x in v)
    if op in ('fptosi', 'fptoui') and not s.suppress:
        s.require(st, fp_in_range(v, tyw(ins[2]), op == 'fptosi'), "float-to-int-range", ins, assume=False)
    return cast1(s, op, v, ins[2])
def fp_in_range(v, w, signed):
    lo = -(2.0**(w-1)) if signed else 0.0; hi = 2.0**(w-1) if signed else 2.0**w
    lo1 = ffrom(lo - 1.0, v.w); loe = ffrom(lo, v.w)
    # trunc(v) in [lo, hi):   v > lo-1 (when representable) or v >= lo
    c1 = fcmp1('ogt', v, lo1) if lo - 1.0 != lo and fval(lo1) != fval(loe) else fcmp1('oge', v, loe)
    return And(c1, fcmp1('olt', v, ffrom(hi, v.w)))
def h_select(s, st, f, ins):
    c = s.val(st, ins[5]); a = s.val(st, ins[6]); b = s.val(st, ins[7])
    if isinstance(c, tuple): return tuple(s.mval(k, x, y) if x is not y else x for k, x, y in zip(c, a, b))
    if c is TRUE: return a
    if c is FALSE: return b
    return s.mval(c, a, b)
def h_fneg(s, st, f, ins):
    v = s.val(st, ins[5])
    g = lambda x: fpconst(x.args[0] ^ (1 << (fw(x.w)-1)), x.w) if x.op == 'fpc' else mk('fneg', (x,), x.w)
    return tuple(g(x) for x in v) if isinstance(v, tuple) else g(v)
def h_extractvalue(s, st, f, ins):
    v = s.val(st, ins[5])
    for i in ins[6]: v = v[i]
    return v
def h_insertvalue(s, st, f, ins):
    def go(a, idx, x):
        if not idx: return x
        l = list(a); l[idx[0]] = go(l[idx[0]], idx[1:], x); return tuple(l)
    return go(s.val(st, ins[5]), ins[7], s.val(st, ins[6]))
def h_extractelement(s, st, f, ins):
    v = s.val(st, ins[5]); i = s.val(st, ins[6])
    if is_c(i): return v[cv(i)]
    r = v[0]
    for k in range(1, len(v)): r = s.mval(Eq(i, const(k, i.w)), v[k], r)
    return r
def h_insertelement(s, st, f, ins):
    v = list(s.val(st, ins[5])); x = s.val(st, ins[6]); i = s.val(st, ins[7])
    if is_c(i): v[cv(i)] = x
    else:
        for k in range(len(v)): v[k] = s.mval(Eq(i, const(k, i.w)), x, v[k])
    return tuple(v)
def h_shuffle(s, st, f, ins):
    a = s.val(st, ins[5]); b = s.val(st, ins[6]); n = len(a)
    ety = ins[2][2]
    return tuple(s.undef(ety) if k < 0 else (a[k] if k < n else b[k-n]) for k in ins[7])
def h_freeze(s, st, f, ins): return s.val(st, ins[5])
def h_fence(s, st, f, ins): return None
def h_rmw(s, st, f, ins):
    op = ins[5]; p = s.val(st, ins[6]); v = s.val(st, ins[7]); n = ins[8]
    old = s.load(st, p, n, ins)
    if old is None: return s.undef(8 * n) if False else const(0, 8 * n)
    old = bits_of(old)
    new = {'add': add, 'sub': sub, 'or': bor, 'and': band, 'xor': bxor, 'xchg': lambda a, b: b, 'umax': lambda a, b: Ite(ult(a, b), b, a)}[op](old, v)
    s.store(st, p, n, new, ins); return old
def h_cmpxchg(s, st, f, ins):
    p = s.val(st, ins[5]); c = s.val(st, ins[6]); v = s.val(st, ins[7]); n = ins[8]
    old = bits_of(s.load(st, p, n, ins)); e = Eq(old, c)
    s.store(st, p, n, Ite(e, v, old), ins); return (old, e)

DISPATCH = {'alloca': h_alloca, 'load': h_load, 'store': h_store, 'getelementptr': h_gep, 'icmp': h_icmp, 'fcmp': h_fcmp, 'select': h_select,
  'fneg': h_fneg, 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue, 'extractelement': h_extractelement, 'insertelement': h_insertelement,
  'shufflevector': h_shuffle, 'freeze': h_freeze, 'fence': h_fence, 'atomicrmw': h_rmw, 'cmpxchg': h_cmpxchg}
for _o in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'): DISPATCH[_o] = h_bin
for _o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast'): DISPATCH[_o] = h_cast
