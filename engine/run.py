#!/opt/veriftools/pyvenv/bin/python3
"""Driver: run.py PROPERTY quick|thorough [--only harness] [-v].   Decides one property; see DESIGN.md."""
import sys, os, re, json, time, subprocess, multiprocessing as mp, shutil, signal, traceback, hashlib, random
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
CXX = "clang++"
BASEFLAGS = ["-std=c++17", "-I" + REPO, "-I" + os.path.join(HERE, "include"), "-DBL_BUILD_NO_JIT", "-DBL_STATIC", "-DNDEBUG", "-DBL_BUILD_NO_STDCXX",
             "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-Wno-everything"]
IRFLAGS = ["-g", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-fno-strict-aliasing", "-fno-builtin-memcmp", "-emit-llvm", "-c"]

def irdump_path():
    p = os.path.join(BUILD, "irdump"); src = os.path.join(HERE, "irdump.cpp")
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src): return p
    os.makedirs(BUILD, exist_ok=True)
    cfg = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    lib = subprocess.run(["llvm-config-18", "--libdir"], capture_output=True, text=True).stdout.strip()
    tmp = f"{p}.{os.getpid()}"
    r = subprocess.run([CXX, "-O1", src, "-o", tmp] + cfg + ["-L" + lib, "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode: raise Exception("cannot build irdump: " + r.stderr[-2000:])
    os.replace(tmp, p)
    return p

def directives(path):
    d = {"inv": [], "contract": [], "harness": {}, "cflags": [], "sources": [], "assume": [], "opt": {}, "prove": []}
    for l in open(path):
        m = re.match(r"\s*//@\s*(\w+)\s+(.*?)\s*$", l)
        if not m: continue
        k, v = m.groups()
        if k == "inv":
            a = v.rsplit(None, 2); d["inv"].append((a[0], int(a[1]), a[2]))
        elif k == "contract":
            a = v.rsplit(None, 1); d["contract"].append((a[0], a[1]))
        elif k == "harness":
            a = v.split(); d["harness"][a[0]] = dict(x.split("=", 1) if "=" in x else (x, "1") for x in a[1:])
        elif k in ("cflags", "sources"): d[k] += v.split()
        elif k == "assume": d["assume"].append(v)
        elif k == "opt": d["opt"].update(x.split("=", 1) for x in v.split())
    return d

def hopt(d, h):
    """options of a harness; `//@ harness GLOB k=v` lines apply in order"""
    import fnmatch
    r = {}
    for pat, o in d["harness"].items():
        if pat == h or ("*" in pat and fnmatch.fnmatchcase(h, pat)): r.update(o)
    return r

def compile_ir(src, tag, extra):
    bc = os.path.join(BUILD, tag + ".bc"); js = os.path.join(BUILD, tag + ".json")
    r = subprocess.run([CXX] + BASEFLAGS + IRFLAGS + extra + [src, "-o", bc], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    r = subprocess.run([irdump_path(), bc, js], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return js, ""

# ---- proof worker -------------------------------------------------------------------------------------------
def conv(v):
    if v in ("True", "False"): return v == "True"
    try: return int(v)
    except ValueError:
        try: return float(v)
        except ValueError: return v

def run_harness(js, d, h, opts, slots, tier):
    import vcgen, solve, terms
    terms.LANES[0] = d["opt"].get("lanes") == "1"
    t0 = time.time()
    R = dict(harness=h, error=None, obl=[], trivial=0, covers={}, incomplete=[], loops=[], contracts=[], fns=[], uf=[], seconds=0, gen_s=0, bounded=False)
    try:
        mod = _mod(js)
        o = {k: conv(v) for k, v in d["opt"].items()}
        o.update({k: conv(v) for k, v in hopt(d, h).items()})
        o.update(opts)
        E = vcgen.Engine(mod, o)
        E.invs = [(rx, n, f) for rx, n, f in d["inv"]]
        for rx, ct in d["contract"]:
            hit = [k for k, f in mod.fns.items() if re.search(rx, f.dem) and not k.startswith(("h_", "ct_", "spec_", "inv_"))]
            for k in hit:
                if not o.get("contracts", 1): continue
                E.contracts[k] = ct
        try:
            E.run(h)
        except (vcgen.Unsupported, vcgen.Budget) as e:
            R["error"] = f"{type(e).__name__}: {e}"
            if os.environ.get("VC_TB"): traceback.print_exc()
        R["gen_s"] = round(time.time() - t0, 2)
        R["trivial"] = E.trivial; R["incomplete"] = E.incomplete
        R["loops"] = sorted({(mod.fns[k[0]].dem.split("(")[0], k[1], v) for k, v in E.used_loops.items()})
        R["contracts"] = sorted({(mod.fns[k].dem.split("(")[0], E.contracts[k]) for k in E.used_contracts})
        R["uf"] = sorted(E.unfolded)
        R["fns"] = sorted({mod.fns[k].dem for k in E.fns_seen if not re.match(r"(h_|ct_|inv_|spec_|uf_|vc_)", k)})
        R["assumed"] = E.assumed
        budget = float(o.get("solve", 60))
        obs = E.obl
        # drop exact duplicates
        seen = set(); u = []
        for b in obs:
            k = (b.pc.id, b.cond.id)
            if k in seen: b.status = 'proved'; b.backend = 'duplicate'; continue
            seen.add(k); u.append(b)
        for b in u:
            if b.pc is vcgen.FALSE or vcgen.And(b.pc, vcgen.Not(b.cond)) is vcgen.FALSE: b.status = 'proved'; b.backend = 'simplifier'
        todo = [b for b in u if b.status is None]
        R["obl"] = solve_all(todo, budget, slots, o)
        td = {id(b) for b in todo}
        for b in obs:
            if id(b) not in td: R["obl"].append(dict(kind=b.kind, where=b.where, label=b.label, status=b.status, backend=b.backend, ms=0))
        # covers: at least one reachable state per label
        for lab, pcs in E.covers.items():
            ok = False
            for pc in pcs:
                r, _ = solve.z3_check(list(vcgen.conj(pc)), 20000)
                if r != 'unsat': ok = True; break
            R["covers"][lab] = ok
    except Exception as e:
        R["error"] = "internal: " + "".join(traceback.format_exception(e))[-1500:]
    R["seconds"] = round(time.time() - t0, 2)
    return R

def ob_dict(b): return dict(kind=b.kind, where=b.where, label=b.label, status=b.status, backend=b.backend, ms=b.ms, model=b.model)
def solve_chunk(obs, budget, deadline):
    import solve
    out = []
    B = 12
    for i in range(0, len(obs), B):
        g = obs[i:i+B]
        if len(g) > 1:
            try:
                if solve.batch(g): continue
            except Exception: pass
        nf = 0
        for b in g:
            if b.status is None:
                if time.time() > deadline: b.status = 'unknown'; b.backend = 'deadline'; continue
                try: solve.discharge(b, budget)
                except Exception as e: b.status = 'unknown'; b.backend = 'exception ' + str(e)[:200]
    return [ob_dict(b) for b in obs]

def solve_all(todo, budget, slots, o):
    if not todo: return []
    deadline = time.time() + float(o.get("solve_total", 500))
    n = len(todo)
    k = min(8, (n + 23) // 24) if not o.get("split") else min(8, n)
    if k <= 1: return solve_chunk(todo, budget, deadline)
    # contiguous chunks solved by forked children, each taking a slot when available
    chunks = [todo[i::k] for i in range(k)] if o.get("split") else [todo[i * n // k:(i + 1) * n // k] for i in range(k)]
    procs = []
    for c in chunks[1:]:
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); code = 0
            try:
                with slots: res = solve_chunk(c, budget, deadline)
                with os.fdopen(w, "w") as f: json.dump(res, f)
            except BaseException: code = 1
            os._exit(code)
        os.close(w); procs.append((pid, r, c))
    res = solve_chunk(chunks[0], budget, deadline)
    slots.release()      # let the children use our slot
    for pid, r, c in procs:
        with os.fdopen(r) as f: txt = f.read()
        os.waitpid(pid, 0)
        try: res += json.loads(txt)
        except Exception: res += [dict(kind=b.kind, where=b.where, label=b.label, status='unknown', backend='worker died', ms=0, model=None) for b in c]
    slots.acquire()
    return res

_mods = {}
def _mod(js):
    import vcgen
    if js not in _mods: _mods[js] = vcgen.Module(js)
    return _mods[js]

def worker_main(task, slots, path):
    js, d, h, opts, tier = task
    with slots:
        R = run_harness(js, d, h, opts, slots, tier)
    json.dump(R, open(path + ".tmp", "w")); os.replace(path + ".tmp", path)
    os._exit(0)

def run_tasks(tasks, deadline, njobs=8):
    """tasks: list of (key, task); each in its own process -> {key: result}"""
    slots = mp.get_context("fork").Semaphore(njobs)
    res = {}; live = {}; pend = list(tasks)
    tmpd = os.path.join(BUILD, f"run.{os.getpid()}.{time.time_ns()}"); os.makedirs(tmpd)
    while pend or live:
        while pend and len(live) < 12:
            key, task = pend.pop(0)
            path = os.path.join(tmpd, f"{len(res) + len(live)}_{time.time_ns()}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0); worker_main(task, slots, path)
                except BaseException: traceback.print_exc()
                finally: os._exit(1)
            live[pid] = (key, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            if time.time() > deadline:
                for p in list(live):
                    try: os.killpg(p, signal.SIGKILL)
                    except OSError: pass
                    key = live[p][0]; res[key] = dict(harness=key, error="deadline", obl=[], trivial=0, covers={}, incomplete=[], loops=[], contracts=[], fns=[], uf=[], seconds=0, gen_s=0)
                    try: os.waitpid(p, 0)
                    except OSError: pass
                for key, _ in pend: res[key] = dict(harness=key, error="deadline", obl=[], trivial=0, covers={}, incomplete=[], loops=[], contracts=[], fns=[], uf=[], seconds=0, gen_s=0)
                live = {}; pend = []
            continue
        if pid not in live: continue
        key, path, _ = live.pop(pid)
        try: res[key] = json.load(open(path))
        except Exception: res[key] = dict(harness=key, error="worker died", obl=[], trivial=0, covers={}, incomplete=[], loops=[], contracts=[], fns=[], uf=[], seconds=0, gen_s=0)
    shutil.rmtree(tmpd, ignore_errors=True)
    return res

# ---- native side --------------------------------------------------------------------------------------------
class Native:
    def __init__(s, src, d, tag):
        s.src = src; s.d = d; s.tag = tag; s.exe = None; s.err = None
    def build(s):
        if s.exe or s.err: return s.exe
        out = os.path.join(BUILD, s.tag + ".native")
        san = ["-fsanitize=address,shift,integer-divide-by-zero,unreachable,float-cast-overflow" + ("" if s.d["opt"].get("check_nsw") == "0" else ",signed-integer-overflow"), "-fno-sanitize-recover=all"]
        common = [CXX] + BASEFLAGS + ["-DVC_NATIVE", "-g", "-O1", "-fno-strict-aliasing"] + san
        jobs = [(s.src, s.d["cflags"])] + [(os.path.join(REPO, x), s.d["cflags"]) for x in s.d["sources"]] + [(os.path.join(HERE, "native_rt.cpp"), [])]
        objs = []; ps = []
        for i, (f, fl) in enumerate(jobs):
            o = os.path.join(BUILD, f"{s.tag}.{i}.o"); objs.append(o)
            ps.append(subprocess.Popen(common + fl + ["-c", f, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        errs = [p.communicate()[1] for p in ps]
        if any(p.returncode for p in ps): s.err = "native compile: " + "".join(errs)[-1500:]; return None
        # everything left undefined becomes a stub that reports itself and discards the run (hidden symbols cannot stay unresolved)
        dfn = set(); und = set()
        for l in subprocess.run(["nm", "--no-sort"] + objs, capture_output=True, text=True).stdout.splitlines():
            p = l.split()
            if len(p) == 2 and p[0] == "U": und.add(p[1])
            elif len(p) == 3: dfn.add(p[2])
        st = os.path.join(BUILD, f"{s.tag}.stubs.s"); und = sorted(x for x in und - dfn if re.match(r"(_ZN?K?\d+(bl|BL)|bl_|_ZTV)", x))
        with open(st, "w") as f: f.write(".text\n" + "".join(f".weak {x}\n.hidden {x}\n{x}:\n" for x in und) + "  andq $-16, %rsp\n  call vc_nosym\n  ud2\n.section .note.GNU-stack,\"\",@progbits\n")
        objs.append(st)
        r = subprocess.run(common + objs + ["-o", out, "-rdynamic", "-ldl", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc"], capture_output=True, text=True)
        if r.returncode: s.err = "native link: " + r.stderr[-1500:]; return None
        s.exe = out; return out
    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")
    def real_failure(s, rc, err):
        if "pc points to the zero page" in err or "VC-NOSYM" in err: return False     # call to a function we did not link
        if "VC-FAIL" in err: return True
        return rc not in (0, 2, 3) and ("ERROR: AddressSanitizer" in err or "runtime error" in err)
    def replay(s, h, path):
        if not s.build(): return None, s.err
        try: r = subprocess.run([s.exe, h, "replay", path], capture_output=True, text=True, timeout=30, env=s.ENV, errors="replace")
        except subprocess.TimeoutExpired: return False, "timeout"
        return s.real_failure(r.returncode, r.stderr), r.stderr[-4000:]
    def search(s, h, secs, seed, out, mf):
        if not s.build(): return None, s.err
        try: r = subprocess.run([s.exe, h, "random", str(seed), str(secs), out, str(int(mf))], capture_output=True, text=True, timeout=secs + 40, env=s.ENV, errors="replace")
        except subprocess.TimeoutExpired: return False, "timeout"
        return s.real_failure(r.returncode, r.stderr), r.stderr[-4000:]

ABSTRACT_KINDS = ("invariant-",)
def main():
    ap = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = ap[0]; tier = ap[1] if len(ap) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = [a.split("=", 1)[1] for a in sys.argv if a.startswith("--only=")]
    verbose = "-v" in sys.argv or "-vv" in sys.argv; nofb = "--no-fallback" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time(); total = 820 if tier == "quick" else 3 * 3600
    pdir = os.path.join(ROOT, "props", prop)
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(ROOT, "replay", prop); os.makedirs(rdir, exist_ok=True)
    known = [l.strip() for l in open(os.path.join(ROOT, "known-findings.txt"))] if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else []
    known = [l for l in known if l.startswith(f"property={prop} ")]
    srcs = sorted(f for f in os.listdir(pdir) if f.endswith(".cpp"))
    irdump_path()
    units = []; errors = []
    def comp(f):
        src = os.path.join(pdir, f); tag = f"{prop}_{f[:-4]}"; d = directives(src)
        js, e = compile_ir(src, tag, d["cflags"])
        return (f, src, tag, d, js, e)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: comps = list(ex.map(comp, srcs))
    tasks = []; info = {}
    for f, src, tag, d, js, e in comps:
        if js is None:
            errors.append(f"{f}: does not compile against the current tree: {e}")
            continue
        nat = Native(src, d, tag)
        mod = _mod(js)
        for h in mod.fns:
            if not h.startswith("h_") or mod.fns[h].decl: continue
            if only and not any(re.search(o, h) for o in only): continue
            ho = hopt(d, h)
            if tier == "quick" and ho.get("quick") == "0": continue
            key = f"{f}:{h}"; info[key] = (js, d, h, nat, ho)
            tasks.append((key, (js, d, h, {}, tier)))
    tasks.sort(key=lambda t: -float(info[t[0]][4].get("cost", 1)))
    res = run_tasks(tasks, t0 + total * 0.62)
    obligations = discharged = 0; backends = {}; solver_ms = 0; degraded = []; violations = []; samples = []
    fns = set(); loops = set(); contracts = set(); bounded = []; assumed = set(); vac = []
    fails = []
    for key in sorted(res):
        R = res[key]; js, d, h, nat, ho = info[key]
        for a in d["assume"]: assumed.add(a)
        bad = [o for o in R["obl"] if o["status"] != "proved"]
        nob = len(R["obl"]) + R["trivial"]
        is_b = ho.get("bounded")
        if not is_b:
            obligations += nob; discharged += nob - len(bad)
        for o in R["obl"]:
            if o["status"] == "proved": backends[o["backend"]] = backends.get(o["backend"], 0) + 1; solver_ms += o["ms"] or 0
        if R["trivial"]: backends["simplifier"] = backends.get("simplifier", 0) + R["trivial"]
        for x in R["loops"]: loops.add(tuple(x))
        for x in R["contracts"]: contracts.add(tuple(x))
        if is_b: bounded.append(f"{key}: {is_b}")
        else: fns.update(R["fns"])
        uncov = [c for c, ok in R["covers"].items() if not ok]
        if verbose:
            print(f"{key:60s} {'OK' if not bad and not R['error'] and not R['incomplete'] and not uncov else 'FAIL'} obl={nob} bad={len(bad)} gen={R['gen_s']}s tot={R['seconds']}s {R['error'] or ''} {R['incomplete'] or ''} uncovered={uncov}")
            for o in bad[:8]: print("     ", o["status"], o["kind"], o["where"], o["label"], o["backend"])
            slow = sorted((o for o in R["obl"]), key=lambda o: -(o["ms"] or 0))[:8 if "-vv" in sys.argv else 1]
            for q in slow:
                if (q["ms"] or 0) > (300 if "-vv" in sys.argv else 5000): print("      slowest", q["ms"], q["backend"], q["kind"], q["label"], q["where"])
            if "-vv" in sys.argv: print("      total solver ms", sum(q["ms"] or 0 for q in R["obl"]), "over 300ms:", len([q for q in R["obl"] if (q["ms"] or 0) > 300]), "todo", len([q for q in R["obl"] if q["ms"]]))
        if nob == 0 and not R["error"]: R["error"] = "no obligations generated"
        if uncov and not bad: vac.append(f"{key}: unreachable cover {uncov}")
        if bad or R["error"] or R["incomplete"] or uncov: fails.append((key, R, bad))
        if len(samples) < 6 and R["obl"]:
            o = R["obl"][0]; samples.append(f"{key}: {o['kind']} {o['where']} {o['label'] or ''} -> {o['status']} ({o['backend']})")
    if fails and not nofb:
        violations, degraded = fallback(prop, fails, info, t0, total, tier, seed, rdir, known, verbose)
    elif fails: degraded = [f[0] for f in fails]
    if tier == "thorough" and not only:
        thorough_native(prop, info, res, seed, rdir, violations, t0, total, verbose)
    # evidence
    wall = round(time.time() - t0, 1)
    trusted = ["clang 18 front end (C++ -> LLVM IR at -O0)", "engine/irdump.cpp, engine/*.py (VC generator, memory model)", "z3 5.3.2 / cvc5 1.1.2 / kissat answers",
               "the machine-code compiler preserves the IR semantics", "memory model: distinct objects do not alias, objects smaller than 2^38 bytes, allocation results are 16-byte aligned"] + sorted(assumed)
    cov = dict(obligations=obligations, discharged=discharged, checker_cmd=f"python3 engine/run.py {prop} {tier}", trusted_base=trusted,
               harnesses=len(res), functions_under_contract=sorted(f.split("(")[0] for f in fns), functions_count=len(fns), loop_invariants=[f"{a} loop {b}: {c}" for a, b, c in sorted(loops)],
               callee_contracts_used=[f"{a} by {b}" for a, b in sorted(contracts)], backends=backends, solver_seconds=round(solver_ms / 1000, 1),
               bounded_stand_ins=bounded, degraded=degraded, compile_errors=errors, vacuity_warnings=vac, samples=samples)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=sorted(assumed), wall_s=wall, violations=len([v for v in violations if not v[2]]))
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for e in errors: print("NOTE", e[:600])
    for dgr in degraded: print("NOTE undecided (bounded check only, not counted as proved):", str(dgr)[:400])
    rc = 0
    for msg, path, kf in violations:
        if kf: print(f"KNOWN-FINDING: property={prop} {kf}")
        else:
            rc = 1; print(msg)
    print(f"{prop} {tier}: harnesses={len(res)} obligations={obligations} discharged={discharged} functions={len(fns)} loops={len(loops)} degraded={len(degraded)} wall={wall}s rc={rc}")
    sys.stdout.flush()
    sys.exit(rc)

def known_match(known, key, o):
    for l in known:
        m = re.search(r"match=(\S+)", l)
        if m and re.search(m.group(1), f"{key}|{o.get('kind')}|{o.get('where')}|{o.get('label')}"): return l.split(" ", 1)[1]
    return None

def fallback(prop, fails, info, t0, total, tier, seed, rdir, known, verbose):
    """Every harness here has an undischarged obligation or could not be analysed.  Look for a concrete failing input."""
    violations = []; degraded = []
    fails = fails[:40]
    # 1. replay solver models, 2. bounded symbolic run, 3. native random search
    btasks = []
    for key, R, bad in fails:
        js, d, h, nat, ho = info[key]
        if R["loops"] or R["contracts"] or R["error"] or R["uf"]:
            o = dict(use_inv=False, contracts=0, unroll=int(ho.get("bunroll", d["opt"].get("bunroll", 6))), bounded_run=1, time_limit=100, solve=15, solve_total=80)
            btasks.append((key, (js, d, h, o, tier)))
    left = t0 + total - time.time()
    def try_models(key, obs):
        js, d, h, nat, ho = info[key]
        for i, o in enumerate(obs[:12]):
            if not o.get("model"): continue
            p = os.path.join(rdir, f"{h}.{i}.replay")
            write_replay(p, prop, key, o, o["model"])
            ok, out = nat.replay(h, p)
            if ok:
                with open(p, "a") as f: f.write("# native replay FAILED as predicted:\n" + "".join("#   " + l + "\n" for l in out.splitlines()[:40]))
                return p, o
        return None, None
    def write_replay(p, prop, key, o, lines):
        with open(p, "w") as f:
            f.write(f"# property {prop}  harness {key}\n# failed obligation: {o['kind']} at {o['where']}: {o['label']}  [{o['status']} by {o['backend']}]\n")
            f.write(f"# replay: python3 engine/replay.py {prop} <this file>\n")
            for l in lines or []: f.write(l + "\n")
    found = set(); undecided = []
    for key, R, bad in fails:
        if time.time() - t0 > total - 60: break
        p, o = try_models(key, sorted(bad, key=lambda o: (o["kind"] != "assert", not o.get("model"))))
        if p:
            found.add(key); violations.append((f"VIOLATION property={prop} replay={p}", p, known_match(known, key, o)))
    # bounded symbolic
    bt = [t for t in btasks if t[0] not in found]
    bres = {}
    if bt and time.time() - t0 < total - 150: bres = run_tasks(bt, min(t0 + total - 110, time.time() + 190))
    for key, R, bad in fails:
        if key in found or key not in bres: continue
        bb = [o for o in bres[key]["obl"] if o["status"] == "failed" and o["kind"] != "unwind"]
        p, o = try_models(key, bb)
        if p:
            found.add(key); violations.append((f"VIOLATION property={prop} replay={p}", p, known_match(known, key, o)))
    # native random search
    rest = [(k, R, b) for k, R, b in fails if k not in found]
    if rest:
        left = max(10, t0 + total - 25 - time.time())
        per = max(4, min(30 if tier == "quick" else 120, left * 7 / max(1, len(rest)) * 0.5))
        def srch(x):
            key = x[0]; js, d, h, nat, ho = info[key]
            out = os.path.join(rdir, f"{h}.random.replay")
            if os.path.exists(out): os.remove(out)
            mf = conv(ho.get("malloc_may_fail", d["opt"].get("malloc_may_fail", "1")))
            return nat.search(h, per, seed * 1000003 + 17, out, mf), out
        for x in rest: info[x[0]][3].build()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(7) as ex: rs = list(ex.map(srch, rest))
        for (key, R, bad), ((ok, out), path) in zip(rest, rs):
            if verbose: print("   native search", key, ok, out.strip()[-200:])
            if ok:
                found.add(key)
                txt = open(path).read() if os.path.exists(path) else ""
                o = bad[0] if bad else dict(kind="native", where="", label="", status="failed", backend="native")
                write_replay(path, prop, key, o, txt.splitlines())
                with open(path, "a") as f: f.write("".join("#   " + l + "\n" for l in out.splitlines()[:40]))
                violations.append((f"VIOLATION property={prop} replay={path}", path, known_match(known, key, dict(o, label=str(o.get("label")) + out[-300:]))))
    # no input found
    for key, R, bad in fails:
        if key in found: continue
        js, d, h, nat, ho = info[key]
        definite = [o for o in bad if o["status"] == "failed"]
        if R["incomplete"] or (R["error"] and not definite): definite = [o for o in definite if o["kind"] != "unwind"]
        b = bres.get(key)
        bfail = [o for o in b["obl"] if o["status"] == "failed" and o["kind"] != "unwind"] if b else []
        if definite or bfail:
            o = (definite or bfail)[0]
            p = os.path.join(rdir, f"{h}.obligation.txt")
            write_replay(p, prop, key, o, ["# no failing input found; verifier output follows"] + (o.get("model") or []))
            with open(p, "a") as f:
                for q in (definite + bfail)[:40]: f.write(f"# {q['status']} {q['kind']} {q['where']} {q['label']} [{q['backend']}]\n")
            violations.append((f"VIOLATION property={prop} replay={p} no-failing-input-found", p, known_match(known, key, o)))
        else:
            degraded.append(dict(harness=key, error=(R["error"] or "")[:300], incomplete=R["incomplete"][:3], unknown=len([o for o in bad if o["status"] == "unknown"]),
                                 uncovered=[c for c, ok in R["covers"].items() if not ok], bounded_run=("clean" if b and not bfail and not b["error"] else (b or {}).get("error")), native_search="clean"))
    return violations, degraded

def thorough_native(prop, info, res, seed, rdir, violations, t0, total, verbose):
    """supplementary: randomised native run of every contract (not counted as proof)"""
    from concurrent.futures import ThreadPoolExecutor
    def srch(key):
        js, d, h, nat, ho = info[key]
        out = os.path.join(rdir, f"{h}.random.replay")
        if os.path.exists(out): os.remove(out)
        mf = conv(ho.get("malloc_may_fail", d["opt"].get("malloc_may_fail", "1")))
        return key, nat.search(h, 20, seed * 7919 + 3, out, mf), out
    for n in {id(i[3]): i[3] for i in info.values()}.values(): n.build()
    with ThreadPoolExecutor(7) as ex:
        for key, (ok, out), path in ex.map(srch, sorted(info)):
            if verbose or ok is None: print("   native", key, ok, out.strip()[-160:])
            if ok and not any(v[1] and info[key][2] + "." in os.path.basename(v[1]) for v in violations):
                violations.append((f"VIOLATION property={prop} replay={path}", path, None))
if __name__ == "__main__": main()
