"""Models of verification intrinsics (vc_*), libc, llvm.* and x86 intrinsics."""
from terms import *
from memory import *
import terms

TABLE = {}
PREFIX = []
def T_(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
def P_(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d
def U(msg):
    import vcgen
    return vcgen.Unsupported(msg)

def cstr(s, st, p):
    if p is None: return "?"
    m = s.metas.get((cv(p) if is_c(p) else lin_const(p)) >> OBJ_SHIFT)
    off = cv(p) - m.base
    out = b""
    while True:
        b = bits_of(s.load1(st, m.id, const(off, 64), 1))
        if not is_c(b) or cv(b) == 0: break
        out += bytes([cv(b)]); off += 1
    return out.decode()
def b_of(c):
    """int/bool argument to Bool term"""
    return c if c.w == 0 else Not(Eq(c, const(0, c.w)))

def nd_key(s, st, args):
    lab = cstr(s, st, args[0]) if args else "nd"
    k = st.cnt.get(lab, 0); st.cnt[lab] = k + 1
    return f"{lab}#{k}"
def mk_nd(w):
    def f(s, st, ins, name, args):
        v = var("nd:" + nd_key(s, st, args), w)
        return v
    return f
for n, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("f32", 'f32'), ("f64", 'f64')): TABLE["vc_nd_" + n] = mk_nd(w)
@T_("vc_nd_bool")
def _ndb(s, st, ins, name, args):
    return Eq(var("nd:" + nd_key(s, st, args), 8), const(1, 8))
@T_("vc_assume")
def _assume(s, st, ins, name, args): st.pc = And(st.pc, b_of(args[0]))
@T_("vc_assert")
def _assert(s, st, ins, name, args): s.require(st, b_of(args[0]), "assert", ins, label=cstr(s, st, args[1]))
@T_("vc_inv")
def _inv(s, st, ins, name, args):
    c = b_of(args[0])
    if s.mode and s.mode.startswith('check'): s.require(st, c, "invariant-" + s.mode[6:], s.inv_ins, label=f"{s.inv_label}:{ins[3]}")
    else: st.pc = And(st.pc, c)
@T_("vc_cover")
def _cover(s, st, ins, name, args):
    if not s.suppress: s.covers.setdefault(cstr(s, st, args[0]), []).append(st.pc)
def heap_new(s, st, name, size, kind, ro=False, arr=None):
    m = s.new_obj(name, size, kind, ro)
    st.mem[m.id] = Obj({}, arr)
    return m
@T_("vc_alloc", "vc_alloc_ro")
def _valloc(s, st, ins, name, args):
    lab = nd_key(s, st, args[1:])
    m = heap_new(s, st, lab, args[0], 'ext', name.endswith("_ro"))
    # object sizes are below 2^38 (address space layout of the memory model); inputs larger than that are excluded
    if not is_c(args[0]): st.pc = And(st.pc, ult(args[0], const(1 << 38, 64)))
    return const(m.base, 64)
@T_("vc_heap")      # a pre-existing heap allocation: may be freed by the code
def _vheap(s, st, ins, name, args):
    lab = nd_key(s, st, args[1:])
    m = heap_new(s, st, lab, args[0], 'heap')
    if not is_c(args[0]): st.pc = And(st.pc, ult(args[0], const(1 << 38, 64)))
    return const(m.base, 64)
@T_("vc_havoc")
def _vhavoc(s, st, ins, name, args):
    p, n = args[0], args[1]
    for g, oid, off in s.resolve(st, p, n, "havoc", ins, write=True):
        o = s.get_obj(st, oid); m = s.metas[oid]
        if is_c(n) and cv(n) <= 64 and is_c(off):
            for a, k in s.chunks(cv(off), cv(off) + cv(n)):
                s.store1(st, oid, const(a, 64), k, s.fresh("hav", 8 * k), g)
        else:
            o = s.flush_if(st, oid, off, n)
            e = o.arr.esz if o.arr is not None else 1
            z = e.bit_length() - 1
            if tz(off) < z or tz(n) < z: e = 1; z = 0
            if o.arr is None: o = s.arr_of(st, oid, o, e)
            H = s.base_arr("hav_" + m.name, e)
            s.log(st, oid, 'arr')
            A = mkarr('copy', e, view(o.arr, e), extract(off, 63, z), extract(n, 63, z), H, extract(off, 63, z))
            if g is not TRUE: A = mkarr('ite', e, g, A, view(o.arr, e))
            o = s.get_obj(st, oid).clone(); o.arr = A; st.mem[oid] = o
@T_("vc_snapshot")
def _snap(s, st, ins, name, args):
    p = args[0]
    c = [(g, o) for g, o in s.candidates(st, p) if o in s.metas and s.get_obj(st, o) is not None and s.metas[o].kind != 'func']
    if not c: return p
    r = None
    for g, oid in c:
        o = s.get_obj(st, oid)
        if o.arr is None: o = s.arr_of(st, oid, o, 1)
        m0 = s.metas[oid]
        m = s.new_obj("snap_" + m0.name, m0.size, 'ext', True)
        st.mem[m.id] = Obj(dict(o.cells), o.arr)
        q = add(const(m.base, 64), sub(p, const(m0.base, 64)))
        r = q if r is None else Ite(g, q, r)
    return r
@T_("vc_live")   # number of live heap objects
def _live(s, st, ins, name, args):
    t = const(0, 64)
    for oid, o in st.mem.items():
        if s.metas[oid].kind == 'heap': t = add(t, zext(o.alive, 64))
    return t
@T_("vc_is_live")
def _islive(s, st, ins, name, args):
    r = FALSE
    for g, oid in s.candidates(st, args[0]):
        o = s.get_obj(st, oid) if oid in s.metas else None
        if o is not None: r = Or(r, And(g, o.alive))
    return r
@T_("vc_objsize")
def _objsize(s, st, ins, name, args):
    r = None
    for g, oid in s.candidates(st, args[0]):
        z = s.metas[oid].size if oid in s.metas else const(0, 64)
        r = z if r is None else Ite(g, z, r)
    return r
@T_("vc_native")
def _native(s, st, ins, name, args): return FALSE
@T_("vc_offset")  # byte offset of the pointer inside its object
def _off(s, st, ins, name, args):
    r = None
    for g, oid in s.candidates(st, args[0]):
        z = sub(args[0], const(s.metas[oid].base, 64)) if oid in s.metas else const(0, 64)
        r = z if r is None else Ite(g, z, r)
    return r
@T_("vc_same_object")
def _same(s, st, ins, name, args):
    return Eq(extract(args[0], 63, OBJ_SHIFT), extract(args[1], 63, OBJ_SHIFT))
@T_("vc_use_inv")
def _useinv(s, st, ins, name, args): pass
@T_("vc_concretize")
def _conc(s, st, ins, name, args):
    """fork over all values of a small-range value (complete: the last state proves nothing else is possible)"""
    v = args[0]
    if is_c(v): return v
    out = []; cur = st.pc
    for _ in range(300):
        m = s.model_eval(cur, v)
        if m is None:
            if s.feasible(cur): raise U("concretize: solver")
            break
        c = const(m, v.w); t = st.fork(); t.pc = And(st.pc, Eq(v, c))
        f = t.frames[-1]; f.regs[ins[1]] = c; f.ip += 1
        t.frames[-1].iters = dict(f.iters); t.frames[-1].iters[('cz', f.fn.name, ins[3])] = m
        out.append(t); cur = And(cur, Not(Eq(v, c)))
    else: raise U("concretize: too many values")
    return ('FORK', out)
@T_("vc_unfold")
def _unfold(s, st, ins, name, args): raise U("vc_unfold")
def _opq(s, st, name, args):
    fn = s.mod.fns[name]
    import vcgen
    return uf(name, [bits_of(a) for a in args], vcgen.tyw(fn.ret))
@P_("uf_")
def _uf(s, st, ins, name, args):
    """opaque recursive spec function; one-step definition is added by vc_unfold_* (macro calling ufdef_)"""
    return _opq(s, st, name, args)
@T_("vc_unfold1", "vc_unfold2", "vc_unfold3", "vc_unfold4")
def _unf(s, st, ins, name, args):
    m = (cv(args[0])) >> OBJ_SHIFT
    fname = s.fobj_rev[m]; fn = s.mod.fns[fname]
    a = []
    import vcgen
    for x, (nm, ty, bv) in zip(args[1:], fn.args):
        w = vcgen.tyw(ty)
        a.append(trunc(x, w) if isinstance(w, int) and x.w > w > 0 else x)
    st.frames[-1].ip += 1
    d = len(st.frames)
    s.suppress += 1; mode = s.mode; s.mode = None
    try: x, v = s.eval_fn(st, fn, a, None)
    finally: s.suppress -= 1; s.mode = mode
    if x is None: return ('FORK', [])
    t = _opq(s, x, fname, a)
    if isinstance(v.w, int): x.pc = And(x.pc, Eq(t, v))
    s.unfolded.add(fname)
    return ('FORK', [x])

# ---- libc ---------------------------------------------------------------------------------------------------
@T_("memcpy", "memmove")
def _memcpy(s, st, ins, name, args):
    s.memcpy(st, args[0], args[1], args[2], ins, move=(name == "memmove")); return args[0]
@P_("llvm.memcpy", "llvm.memmove")
def _lmemcpy(s, st, ins, name, args): s.memcpy(st, args[0], args[1], zext(args[2], 64), ins, move='move' in name)
@T_("memset")
def _memset(s, st, ins, name, args): s.memset(st, args[0], trunc(args[1], 8), args[2], ins); return args[0]
@P_("llvm.memset")
def _lmemset(s, st, ins, name, args): s.memset(st, args[0], args[1], zext(args[2], 64), ins)
@T_("memcmp", "bcmp")
def _memcmp(s, st, ins, name, args):
    n = args[2]
    if not is_c(n):
        if ub(n) > 64 or 1:
            # bounded by a provable constant?
            b = None
            for k in (0, 8, 16, 32, 64):
                if s.proves(st.pc, ule(n, const(k, 64))): b = k; break
            if b is None: raise U("memcmp with symbolic size")
        r = const(0, 32)
        nz = Not(Eq(n, const(0, 64)))
        if s.proves(st.pc, Not(nz)): return r
        ra = s.resolve_opt(st, args[0], n, "memcmp", ins, nz); rb = s.resolve_opt(st, args[1], n, "memcmp", ins, nz)
        def byte(rs, i):
            v = None
            for g, oid, off in reversed(rs):
                x = bits_of(s.load1(st, oid, add(off, const(i, 64)), 1)); v = x if v is None else Ite(g, x, v)
            return v
        for i in reversed(range(b)):
            x, y = byte(ra, i), byte(rb, i)
            r = Ite(ult(const(i, 64), n), Ite(Eq(x, y), r, Ite(ult(x, y), const(-1, 32), const(1, 32))), r)
        return r
    N = cv(n); r = const(0, 32)
    if N == 0: return r
    if N > 512: raise U("memcmp size")
    s.resolve(st, args[0], n, "memcmp", ins); s.resolve(st, args[1], n, "memcmp", ins)
    s.suppress += 1
    try:
        for i in reversed(range(N)):
            x = bits_of(s.load(st, add(args[0], const(i, 64)), 1, ins)); y = bits_of(s.load(st, add(args[1], const(i, 64)), 1, ins))
            r = Ite(Eq(x, y), r, Ite(ult(x, y), const(-1, 32), const(1, 32)))
    finally: s.suppress -= 1
    return r
def do_malloc(s, st, ins, name, args, zero=False):
    n = args[0]
    if zero and len(args) > 1: n = mul(args[0], args[1])
    k = st.cnt.get("malloc", 0); st.cnt["malloc"] = k + 1
    out = []
    big = const(1 << 38, 64)
    def ok(t):
        m = heap_new(s, t, f"malloc{k}", n, 'heap', arr=mkarr('const', 1, const(0, 8)) if zero else None)
        # sizes >= 2^38 always fail
        t.pc = And(t.pc, ult(n, big))
        return const(m.base, 64)
    if s.o['malloc_may_fail']:
        fv = Eq(var(f"nd:malloc#{k}", 8), const(1, 8))
        t = st.fork(); t.pc = And(t.pc, Or(fv, Not(ult(n, big)))); t.frames[-1].ip += 1
        if 'vc_oom_flag' in s.mod.globals and t.pc is not FALSE:
            a = s.global_addr(t, 'vc_oom_flag'); s.suppress += 1
            try: s.store(t, a, 1, const(1, 8), ins)
            finally: s.suppress -= 1
        if ins[1] >= 0: t.frames[-1].regs[ins[1]] = const(0, 64)
        u = st; u.pc = And(u.pc, Not(fv)); p = ok(u); u.frames[-1].ip += 1
        if ins[1] >= 0: u.frames[-1].regs[ins[1]] = p
        for i, y in enumerate((t, u)): y.frames[-1].iters = dict(y.frames[-1].iters); y.frames[-1].iters[('m', k)] = i
        return ('FORK', [x for x in (t, u) if x.pc is not FALSE])
    return ok(st)
@T_("malloc", "_Znwm", "_Znam", "aligned_alloc_")
def _malloc(s, st, ins, name, args): return do_malloc(s, st, ins, name, args)
@T_("calloc")
def _calloc(s, st, ins, name, args): return do_malloc(s, st, ins, name, args, True)
@T_("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm")
def _free(s, st, ins, name, args):
    p = args[0]
    if is_c(p) and cv(p) == 0: return
    for g, oid in s.candidates(st, p):
        m = s.metas.get(oid); o = s.get_obj(st, oid) if m else None
        if o is None:
            s.require(st, Implies(g, Eq(p, const(0, 64))), "free:invalid-pointer", ins); continue
        off = sub(p, const(m.base, 64))
        okc = And(Eq(off, const(0, 64)), o.alive) if m.kind == 'heap' else FALSE
        s.require(st, Implies(g, okc), "free:invalid-or-double", ins)
        s.log(st, oid, 'free')
        o = o.clone(); o.alive = And(o.alive, Not(g)); st.mem[oid] = o
@T_("strlen")
def _strlen(s, st, ins, name, args): 
    p = args[0]
    if is_c(p):
        try: return const(len(cstr(s, st, p).encode()), 64)
        except Exception: pass
    raise U("strlen")
@T_("abort", "_ZSt9terminatev", "__assert_fail", "bl_runtime_assertion_failure", "bl_runtime_failure")
def _abort(s, st, ins, name, args):
    s.require(st, FALSE, "abort-reached", ins)
    st.pc = FALSE

# ---- llvm ---------------------------------------------------------------------------------------------------
@P_("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.prefetch", "llvm.va_", "llvm.stackrestore", "llvm.x86.sse2.pause", "llvm.x86.avx.vzero")
def _nop(s, st, ins, name, args): return None
@P_("llvm.stacksave")
def _ss(s, st, ins, name, args): return const(0, 64)
@T_("llvm.assume")
def _lassume(s, st, ins, name, args): s.require(st, b_of(args[0]), "BL_ASSUME", ins)
@P_("llvm.expect", "llvm.launder", "llvm.strip")
def _expect(s, st, ins, name, args): return args[0]
@P_("llvm.is.constant")
def _isconst(s, st, ins, name, args): return FALSE
@T_("llvm.trap", "llvm.debugtrap", "llvm.ubsantrap")
def _trap(s, st, ins, name, args):
    s.require(st, FALSE, "trap", ins); st.pc = FALSE
def el(f):
    def h(s, st, ins, name, args):
        if isinstance(args[0], tuple): return tuple(f(s, st, ins, *xs) for xs in zip(*[a if isinstance(a, tuple) else (a,) * len(args[0]) for a in args]))
        return f(s, st, ins, *args)
    return h
P_("llvm.ctlz")(el(lambda s, st, ins, a, z: ctlz(a)))
P_("llvm.cttz")(el(lambda s, st, ins, a, z: cttz(a)))
P_("llvm.ctpop")(el(lambda s, st, ins, a: ctpop(a)))
P_("llvm.bswap")(el(lambda s, st, ins, a: bswap(a)))
def bitrev(a):
    r = extract(a, 0, 0)
    for i in range(1, a.w): r = concat(r, extract(a, i, i))
    return r
P_("llvm.bitreverse")(el(lambda s, st, ins, a: bitrev(a)))
P_("llvm.umin")(el(lambda s, st, ins, a, b: Ite(ult(a, b), a, b)))
P_("llvm.umax")(el(lambda s, st, ins, a, b: Ite(ult(a, b), b, a)))
P_("llvm.smin")(el(lambda s, st, ins, a, b: Ite(slt(a, b), a, b)))
P_("llvm.smax")(el(lambda s, st, ins, a, b: Ite(slt(a, b), b, a)))
def _abs(s, st, ins, a, z):
    if z is TRUE: s.require(st, Not(Eq(a, const(1 << (a.w-1), a.w))), "signed-overflow", ins)
    return Ite(slt(a, const(0, a.w)), neg(a), a)
P_("llvm.abs")(el(_abs))
def _ov(name, a, b):
    w = a.w; k = name.split('.')[1]
    if k == 'uadd':
        r = add(a, b); return r, ult(r, a) if ub(a) + ub(b) > M(w) else FALSE
    if k == 'usub': return sub(a, b), ult(a, b)
    if k == 'umul':
        r = mul(a, b)
        if ub(a) * ub(b) <= M(w): return r, FALSE
        x = mul(zext(a, 2*w), zext(b, 2*w)); return r, Not(Eq(extract(x, 2*w-1, w), const(0, w)))
    if k in ('sadd', 'ssub'):
        f = add if k == 'sadd' else sub
        r = f(a, b); x = f(sext(a, w+1), sext(b, w+1)); return r, Not(Eq(sext(r, w+1), x))
    if k == 'smul':
        r = mul(a, b); x = mul(sext(a, 2*w), sext(b, 2*w)); return r, Not(Eq(sext(r, 2*w), x))
@P_("llvm.uadd.with", "llvm.usub.with", "llvm.umul.with", "llvm.sadd.with", "llvm.ssub.with", "llvm.smul.with")
def _with(s, st, ins, name, args): return _ov(name, args[0], args[1])
def usub_sat(a, b): return Ite(ult(a, b), const(0, a.w), sub(a, b))
def uadd_sat(a, b):
    if ub(a) + ub(b) <= M(a.w): return add(a, b)
    r = add(a, b); return Ite(ult(r, a), const(M(a.w), a.w), r)
def sadd_sat(a, b, f=add):
    w = a.w; x = f(sext(a, w+1), sext(b, w+1)); return sat_s(x, w)
def sat_s(x, w):
    lo = const(-(1 << (w-1)), x.w); hi = const((1 << (w-1)) - 1, x.w)
    return trunc(Ite(slt(x, lo), lo, Ite(slt(hi, x), hi, x)), w)
def sat_us(x, w):  # signed x -> unsigned saturation
    lo = const(0, x.w); hi = const((1 << w) - 1, x.w)
    return trunc(Ite(slt(x, lo), lo, Ite(slt(hi, x), hi, x)), w)
P_("llvm.usub.sat")(el(lambda s, st, ins, a, b: usub_sat(a, b)))
P_("llvm.uadd.sat")(el(lambda s, st, ins, a, b: uadd_sat(a, b)))
P_("llvm.sadd.sat")(el(lambda s, st, ins, a, b: sadd_sat(a, b)))
P_("llvm.ssub.sat")(el(lambda s, st, ins, a, b: sadd_sat(a, b, sub)))
def _fsh(left):
    def f(s, st, ins, a, b, c):
        w = a.w; c = urem(c, const(w, w))
        if is_c(c):
            k = cv(c)
            if k == 0: return a if left else b
            if not left: k = w - k
            return concat(extract(a, w-1-k, 0), extract(b, w-1, w-k))
        x = concat(a, b); c2 = zext(c, 2*w)
        return extract(shl(x, c2), 2*w-1, w) if left else extract(lshr(x, c2), w-1, 0)
    return f
P_("llvm.fshl")(el(_fsh(True))); P_("llvm.fshr")(el(_fsh(False)))
def _fabs(a): return fpconst(a.args[0] & ~(1 << (fw(a.w)-1)), a.w) if a.op == 'fpc' else mk('fabs', (a,), a.w)
for n in ("llvm.fabs",): P_(n)(el(lambda s, st, ins, a: _fabs(a)))
TABLE["fabs"] = TABLE["fabsf"] = lambda s, st, ins, n, a: _fabs(a[0])
import math as _m
def _rnd(kind):
    def f(a):
        if a.op == 'fpc':
            x = terms.fval(a)
            if x == x and abs(x) < 2**60:
                r = {'floor': _m.floor, 'ceil': _m.ceil, 'trunc': _m.trunc, 'rint': round}.get(kind)
                if r:
                    v = float(r(x))
                    if v != 0: return ffrom(v, a.w)
        return mk('frnd', (kind, a), a.w)
    return f
for k, ns in (('floor', ('floor',)), ('ceil', ('ceil',)), ('trunc', ('trunc',)), ('rint', ('rint', 'nearbyint', 'roundeven')), ('round', ('round',))):
    for n in ns:
        g = _rnd(k)
        P_("llvm." + n + ".")(el(lambda s, st, ins, a, g=g: g(a)))
        TABLE[n] = TABLE[n + "f"] = lambda s, st, ins, nm, a, g=g: g(a[0])
P_("llvm.sqrt.")(el(lambda s, st, ins, a: mk('fsqrt', (a,), a.w)))
TABLE["sqrt"] = TABLE["sqrtf"] = lambda s, st, ins, n, a: mk('fsqrt', (a[0],), a[0].w)
P_("llvm.minnum")(el(lambda s, st, ins, a, b: mk('fmin', (a, b), a.w)))
P_("llvm.maxnum")(el(lambda s, st, ins, a, b: mk('fmax', (a, b), a.w)))
@P_("llvm.fmuladd")
def _fma(s, st, ins, name, args):
    import vcgen
    f = lambda a, b, c: vcgen.fbin('fadd', vcgen.fbin('fmul', a, b), c)
    return tuple(f(*x) for x in zip(*args)) if isinstance(args[0], tuple) else f(*args)
def _copysign(s, st, ins, a, b):
    w = fw(a.w); return fp_from_bits(concat(extract(fp_bits(b), w-1, w-1), extract(fp_bits(a), w-2, 0)), a.w)
P_("llvm.copysign")(el(_copysign))
@P_("llvm.is.fpclass")
def _fpclass(s, st, ins, name, args):
    a, m = args[0], cv(args[1])
    b = fp_bits(a); w = b.w; mb = 23 if w == 32 else 52
    ex = extract(b, w-2, mb); man = extract(b, mb-1, 0); sg = Eq(extract(b, w-1, w-1), const(1, 1))
    emax = Eq(ex, const(M(ex.w), ex.w)); e0 = Eq(ex, const(0, ex.w)); m0 = Eq(man, const(0, man.w)); q = Eq(extract(man, mb-1, mb-1), const(1, 1))
    cl = [And(emax, Not(m0), Not(q)), And(emax, q), And(sg, emax, m0), And(sg, Not(emax), Not(e0)), And(sg, e0, Not(m0)), And(sg, e0, m0),
          And(Not(sg), e0, m0), And(Not(sg), e0, Not(m0)), And(Not(sg), Not(emax), Not(e0)), And(Not(sg), emax, m0)]
    return Or(*[c for i, c in enumerate(cl) if m >> i & 1])
for nm in ("sin", "cos", "tan", "atan2", "pow", "exp", "log", "log2", "acos", "asin", "atan", "fmod", "hypot", "sinf", "cosf", "tanf", "atan2f", "powf", "cbrt", "cbrtf", "exp2"):
    TABLE[nm] = lambda s, st, ins, n, a: fp_from_bits(uf("math_" + n, [bits_of(x) for x in a], fw(a[0].w)), a[0].w)
for nm in ("sin", "cos", "pow", "exp", "log"):
    P_("llvm." + nm + ".")(el(lambda s, st, ins, *a, nm=nm: fp_from_bits(uf("math_" + nm, [bits_of(x) for x in a], fw(a[0].w)), a[0].w)))
@P_("llvm.vector.reduce.")
def _red(s, st, ins, name, args):
    k = name.split('.')[3]
    f = {'add': add, 'and': band, 'or': bor, 'xor': bxor, 'mul': mul, 'umin': lambda a, b: Ite(ult(a, b), a, b), 'umax': lambda a, b: Ite(ult(a, b), b, a)}.get(k)
    if f is None: raise U(name)
    v = args[-1]
    if v[0].w == 0: f = {'and': And, 'or': Or, 'xor': lambda a, b: Not(Eq(a, b))}[k]
    r = v[0]
    for x in v[1:]: r = f(r, x)
    return r

# ---- x86 ----------------------------------------------------------------------------------------------------
def X(*names):
    def d(f):
        for n in names: TABLE["llvm.x86." + n] = lambda s, st, ins, nm, args, f=f: f(s, *args)
        return f
    return d
def lanes(n, v, k):   # split tuple into chunks of k
    return [v[i:i+k] for i in range(0, len(v), k)]
@X("sse2.packuswb.128", "avx2.packuswb")
def _packus(s, a, b):
    out = ()
    for x, y in zip(lanes(0, a, 8), lanes(0, b, 8)): out += tuple(sat_us(e, 8) for e in x + y)
    return out
@X("sse2.packsswb.128", "avx2.packsswb")
def _packsswb(s, a, b):
    out = ()
    for x, y in zip(lanes(0, a, 8), lanes(0, b, 8)): out += tuple(sat_s(e, 8) for e in x + y)
    return out
@X("sse2.packssdw.128", "avx2.packssdw")
def _packssdw(s, a, b):
    out = ()
    for x, y in zip(lanes(0, a, 4), lanes(0, b, 4)): out += tuple(sat_s(e, 16) for e in x + y)
    return out
@X("sse41.packusdw", "avx2.packusdw")
def _packusdw(s, a, b):
    out = ()
    for x, y in zip(lanes(0, a, 4), lanes(0, b, 4)): out += tuple(sat_us(e, 16) for e in x + y)
    return out
@X("ssse3.pshuf.b.128", "avx2.pshuf.b")
def _pshufb(s, a, m):
    out = ()
    for x, y in zip(lanes(0, a, 16), lanes(0, m, 16)):
        for e in y:
            if is_c(e): out += (const(0, 8) if cv(e) & 0x80 else x[cv(e) & 15],)
            else:
                r = x[0]
                for k in range(1, 16): r = Ite(Eq(extract(e, 3, 0), const(k, 4)), x[k], r)
                out += (Ite(Eq(extract(e, 7, 7), const(1, 1)), const(0, 8), r),)
    return out
@X("sse2.pmulhu.w", "avx2.pmulhu.w")
def _pmulhu(s, a, b): return tuple(extract(mul(zext(x, 32), zext(y, 32)), 31, 16) for x, y in zip(a, b))
@X("sse2.pmulh.w", "avx2.pmulh.w")
def _pmulh(s, a, b): return tuple(extract(mul(sext(x, 32), sext(y, 32)), 31, 16) for x, y in zip(a, b))
@X("sse2.pmadd.wd", "avx2.pmadd.wd")
def _pmadd(s, a, b):
    p = [mul(sext(x, 32), sext(y, 32)) for x, y in zip(a, b)]
    return tuple(add(p[i], p[i+1]) for i in range(0, len(p), 2))
@X("ssse3.pmadd.ub.sw.128", "avx2.pmadd.ub.sw")
def _pmaddub(s, a, b):
    p = [mul(zext(x, 32), sext(y, 32)) for x, y in zip(a, b)]
    return tuple(sat_s(add(p[i], p[i+1]), 16) for i in range(0, len(p), 2))
@X("sse2.psad.bw", "avx2.psad.bw")
def _psad(s, a, b):
    out = ()
    for x, y in zip(lanes(0, a, 8), lanes(0, b, 8)):
        t = const(0, 64)
        for p, q in zip(x, y): t = add(t, zext(Ite(ult(p, q), sub(q, p), sub(p, q)), 64))
        out += (t,)
    return out
@X("sse2.pavg.b", "avx2.pavg.b", "sse2.pavg.w", "avx2.pavg.w")
def _pavg(s, a, b):
    w = a[0].w
    return tuple(extract(add(add(zext(x, w+1), zext(y, w+1)), const(1, w+1)), w, 1) for x, y in zip(a, b))
@X("sse2.pmovmskb.128", "avx2.pmovmskb")
def _movmsk(s, a):
    r = extract(a[0], 7, 7)
    for x in a[1:]: r = concat(extract(x, 7, 7), r)
    return zext(r, 32) if r.w < 32 else r
@X("sse.movmsk.ps", "sse2.movmsk.pd", "avx.movmsk.ps.256", "avx.movmsk.pd.256")
def _movmskps(s, a):
    r = None
    for x in a:
        b = bits_of(x); t = extract(b, b.w-1, b.w-1); r = t if r is None else concat(t, r)
    return zext(r, 32)
@X("sse41.pblendvb", "avx2.pblendvb")
def _blendvb(s, a, b, m): return tuple(Ite(Eq(extract(k, 7, 7), const(1, 1)), y, x) for x, y, k in zip(a, b, m))
@X("ssse3.phadd.w.128")
def _phaddw(s, a, b): return tuple(add(a[i], a[i+1]) for i in range(0, 8, 2)) + tuple(add(b[i], b[i+1]) for i in range(0, 8, 2))
@X("ssse3.phadd.d.128")
def _phaddd(s, a, b): return tuple(add(a[i], a[i+1]) for i in range(0, 4, 2)) + tuple(add(b[i], b[i+1]) for i in range(0, 4, 2))
def shv(f):   # shift by a vector low 64 bit count
    def h(s, a, c):
        import vcgen
        if isinstance(c, tuple):
            c = s.flat_bits(c); c = extract(c, 63, 0)
        else: c = zext(c, 64)
        w = a[0].w
        big = ult(const(w - 1, 64), c)
        k = trunc(c, w) if w < 64 else c
        return tuple(Ite(big, f(x, None), f(x, k)) for x in a)
    return h
fs = lambda x, k: const(0, x.w) if k is None else shl(x, k)
fl = lambda x, k: const(0, x.w) if k is None else lshr(x, k)
fa = lambda x, k: ashr(x, const(x.w-1, x.w)) if k is None else ashr(x, k)
for p in ("sse2.", "avx2."):
    for t in "wdq":
        X(p + "psll." + t, p + "pslli." + t)(shv(fs)); X(p + "psrl." + t, p + "psrli." + t)(shv(fl)); X(p + "psra." + t, p + "psrai." + t)(shv(fa))
@X("pclmulqdq")
def _clmul(s, a, b, imm):
    i = cv(imm); x = a[i & 1]; y = b[(i >> 4) & 1]
    if is_c(x): x, y = y, x
    x2 = zext(x, 128); r = const(0, 128)
    for k in range(64):
        bit = extract(y, k, k)
        if is_c(bit):
            if cv(bit): r = bxor(r, shl(x2, const(k, 128)))
        else: r = bxor(r, Ite(Eq(bit, const(1, 1)), shl(x2, const(k, 128)), const(0, 128)))
    return (extract(r, 63, 0), extract(r, 127, 64))
@X("sse42.crc32.32.8")
def _crc8(s, a, b): raise U("crc32")
def _pdep(s, a, m): raise U("pdep")
