#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--contract NAME] [--keep]

Decides one property: compiles contracts/<PROPERTY>_*.cpp (which include /repo's current sources)
to LLVM IR, generates and discharges every proof obligation, and on a failed obligation replays
the counterexample against the natively compiled real code."""
import argparse, glob, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

BASE = ["-std=c++20", "-fno-pie", "-DNDEBUG", "-include", VERIF + "/include/vp_prelude.hpp", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
        "-gline-tables-only", "-w", "-DRAPIDJSON_HAS_STDSTRING=1", "-DTINYSPLINE_DOUBLE_PRECISION", "-DBOOST_MATH_DISABLE_FLOAT128=1",
        "-DBOOST_ASIO_DISABLE_CONCEPTS=1", "-DFMT_HEADER_ONLY=1", "-fno-threadsafe-statics", "-ferror-limit=3"]


def includes():
    return ["-I" + VERIF + "/include", "-I" + VERIF + "/shims", "-I" + REPO + "/src", "-I" + REPO, "-I" + REPO + "/3rdparty/timertt",
            "-I/usr/include/concurrentqueue/moodycamel"]


def meta(path):
    src = open(path).read()
    m = {"flags": [], "noinline": [], "opts": {}, "functions": [], "contracts": {}, "assume": []}
    for l in src.split("\n"):
        x = re.match(r"\s*//\s*VP-(\w+):\s*(.*)", l)
        if x:
            k, v = x.group(1), x.group(2).strip()
            if k == "FLAGS":
                m["flags"] += v.split()
            elif k == "NOINLINE":
                m["noinline"] += v.split()
            elif k == "OPT":
                for o in v.split():
                    a, b = o.split("=")
                    m["opts"][a] = float(b) if "." in b else int(b)
            elif k == "FN":
                m["functions"].append(v)
            elif k == "ASSUME":
                m["assume"].append(v)
    for x in re.finditer(r"VP_CONTRACT\((\w+)\)", src):
        n = x.group(1)
        if n != "name":
            m["contracts"][n] = {"bounded": bool(re.search(r"VP_BOUNDED\(" + n + r"\b", src))}
    return m


def compile_ir(path, m, out):
    opt = m["opts"].get("O", 1)
    cmd = ["clang++-18", f"-O{opt}", *BASE, *m["flags"], *includes(), "-S", "-emit-llvm", path, "-o", out]
    if m["noinline"]:
        # keep the callees that a contract stub replaces as calls
        raw = out + ".raw.ll"
        c1 = ["clang++-18", f"-O{opt}", "-Xclang", "-disable-llvm-passes", *BASE, *m["flags"], *includes(), "-S", "-emit-llvm", path, "-o", raw]
        r = subprocess.run(c1, capture_output=True, text=True)
        if r.returncode:
            return r
        names = set()
        for l in open(raw):
            if l.startswith("define "):
                x = re.search(r'@"?([\w.$]+)"?\(', l)
                if x and any(p in x.group(1) for p in m["noinline"]):
                    names.add(x.group(1))
        fa = []
        for n in sorted(names):
            fa += [f"-force-remove-attribute={n}:alwaysinline", f"-force-attribute={n}:noinline"]
        r = subprocess.run(["opt-18", "-passes=forceattrs", *fa, "-S", raw, "-o", raw + "2"], capture_output=True, text=True)
        if r.returncode:
            return r
        r = subprocess.run(["opt-18", f"-passes=default<O{opt}>", "--vectorize-loops=false", "--vectorize-slp=false", "-S", raw + "2", "-o", out],
                           capture_output=True, text=True)
        os.unlink(raw)
        if os.path.exists(raw + "2"):
            os.unlink(raw + "2")
        return r
    return subprocess.run(cmd, capture_output=True, text=True)


def run_mode(mod, name, opts, deadline):
    """explore one contract; returns (engine, error text)"""
    import engine
    cut = {}
    for attempt in range(24):
        eng = engine.Engine(mod, opts)
        eng.contract = name
        eng.cutloops = dict(cut)
        eng.deadline = deadline
        eng.loop_unsup = None
        try:
            run_one(eng, mod, name)
            return eng, ""
        except engine.NeedCut as e:
            cut[e.key] = True
        except engine.ContractError as e:
            return eng, str(e)
        except engine.Unsupported as e:
            if opts.get("trace"):
                traceback.print_exc()
            return eng, "unsupported: " + str(e) + (" / " + eng.loop_unsup if eng.loop_unsup else "")
        except RecursionError:
            return eng, "expression too deep"
    return eng, "too many loops to cut"


def obl(o):
    return {"kind": o.kind, "label": o.label, "loc": o.loc, "status": o.status, "backend": o.backend, "time": round(o.time, 3), "model": o.model}


def verdict(mod, name, eng, err, out):
    """status of a finished exploration"""
    out["error"] = err
    out["obligations"] = [obl(o) for o in eng.obligations if not (o.kind == "invariant" and o.status == "failed")]
    out["stats"] = eng.stats
    out["labels"] = sorted(eng.labels_hit)
    want, wantc = expected(mod, name, eng)
    out["missing"] = sorted((set(want) - eng.labels_hit) | (set(wantc) - set(eng.covers_hit)))
    out["externals"] = eng.externals
    out["assumed"] = sorted(eng.assumed)
    out["invariants"] = eng.invariants
    out["called"] = sorted(eng.called)
    out["ends"] = eng.ends
    out["bounded"] = eng.bounded
    out["loops_cut"] = [f"{k[0]}:bb{k[1]}" for k in eng.cutloops]
    bad = [o for o in eng.obligations if o.status == "failed"]
    badinv = [o for o in bad if o.kind == "invariant"]
    if badinv and len(badinv) == len(bad):
        err = err or "a selected loop invariant is not inductive"
        bad = []
    for o in eng.obligations:
        if o.status == "pending" or o in badinv or o.status == "skipped" and not bad:
            err = err or "obligations left undecided"
    und = [o for o in eng.obligations if o.status == "undecided"]
    out["error"] = err
    if bad:
        return "failed"
    if err:
        return "error"
    if und:
        return "undecided"
    if eng.ends == 0 or out["missing"]:
        out["error"] = "never reached: " + (", ".join(out["missing"]) or "the end of the contract")
        out["obligations"].append({"kind": "reachability", "label": out["error"], "loc": "", "status": "failed", "backend": "exploration", "time": 0, "model": None})
        return "failed"
    return "proved"


def run_contract(job):
    ll, name, opts, budget = job
    t0 = time.time()
    out = {"contract": name, "status": "error", "error": "", "obligations": [], "labels": [], "missing": [], "modes": []}
    try:
        import z3
        z3.set_param("smt.random_seed", 1)
        import llvmir
        mod = llvmir.Module(ll)
        eng, err = run_mode(mod, name, opts, t0 + budget)
        out["status"] = verdict(mod, name, eng, err, out)
        out["modes"].append([out["status"], round(time.time() - t0, 1)])
        if out["status"] not in ("proved",) and eng.cutloops:
            first = dict(out)
            if "auto" not in opts and time.time() - t0 < budget * 0.6:
                # a richer set of invariant candidates
                e2, err2 = run_mode(mod, name, dict(opts, auto=1), t0 + budget)
                out["status"] = verdict(mod, name, e2, err2, out)
                out["modes"].append([out["status"], round(time.time() - t0, 1)])
        if out["status"] == "proved" or not out["loops_cut"] and out["status"] == "failed":
            out["definitive"] = True
        else:
            # the failing obligations may only show that the invariants are too weak: look for a genuine
            # counterexample with the loops unrolled
            o3 = {}
            e3, err3 = run_mode(mod, name, dict(opts, bounded_unroll=3), time.time() + min(150, max(40, budget - (time.time() - t0))))
            st3 = verdict(mod, name, e3, err3, o3)
            out["modes"].append(["unrolled:" + st3, round(time.time() - t0, 1)])
            out["definitive"] = False
            if [o for o in o3["obligations"] if o["status"] == "failed" and o["kind"] != "reachability"]:
                out["definitive"] = True
                out["status"] = "failed"
                out["obligations"] = o3["obligations"]
            out["unrolled"] = st3 if not err3 else st3 + ": " + err3
    except Exception as e:
        out["error"] = "internal: " + traceback.format_exc()[-1500:]
    out["wall"] = round(time.time() - t0, 2)
    return out


def expected(mod, name, eng):
    """labels of the vp_assert/vp_cover calls present in the contract's own function bodies"""
    import llvmir
    want, wantc = set(), set()
    fn = mod.functions.get("contract_" + name)
    todo, seen = [fn], set()
    while todo:
        f = todo.pop()
        if f in seen or f is None or f.decl:
            continue
        seen.add(f)
        mod.load(f)
        for b in f.blocks:
            for i in b.insts:
                if i.op in ("call", "invoke"):
                    c = i.x["callee"]
                    if c[0] == "c" and c[1].kind == "fn":
                        n = c[1].v.name
                        if n in ("vp_assert", "vp_cover"):
                            a = i.ops[1 if n == "vp_assert" else 0]
                            if a[0] == "c" and a[1].kind == "global":
                                init = mod.global_init(a[1].v)
                                if init is not None and init.kind == "agg":
                                    s = bytes(e.v for e in init.v).split(b"\0")[0].decode("latin1")
                                    (want if n == "vp_assert" else wantc).add(s)
    return want, wantc


def run_one(eng, mod, name):
    import engine
    st = engine.State()
    fn = mod.functions.get("contract_" + name)
    if fn is None:
        raise engine.ContractError("no such contract: " + name)
    # static constructors first
    gc = mod.globals.get("llvm.global_ctors")
    if gc is not None and not eng.opts.get("ctors", 1):
        eng.assumed.add("static constructors of the translation unit are not run: the contract's functions do not use dynamically initialised globals")
    elif gc is not None:
        init = mod.global_init(gc)
        if init is not None and init.kind == "agg":
            for e in init.v:
                f = e.v[1].v
                if not isinstance(f, engine.llvmir.Function):
                    continue
                eng.quiet += 1
                st.cfg["unroll"] = 100000
                ends = []

                def stop(s, ev):
                    if ev == "end":
                        ends.append(s)
                        return True
                    return False
                eng.push_call(st, f, [], "top")
                eng.explore(st, stop)
                eng.quiet -= 1
                if len(ends) != 1:
                    raise engine.ContractError("static constructor did not run to one state")
                st = ends[0]
            st.cfg.pop("unroll", None)
    eng.called = {}

    def stop(s, ev):
        if ev == "end":
            if eng.ends < 3:
                r, _ = eng.check(s.pc, [], 10000)
                import z3
                if r != z3.unsat:
                    eng.ends += 1
            return True
        return False
    eng.push_call(st, fn, [], "top")
    eng.explore(st, stop)
    eng.discharge_all()


# ------------------------------------------------------------------------------------------ native replay
def build_native(path, m, name, tmp):
    exe = os.path.join(tmp, "nat_" + name)
    base = [b for b in BASE if not b.startswith("-fno-threadsafe") and b != "-fno-pie"]
    san = ["-fsanitize=address"] if m["opts"].get("asan", 1) else []
    obj = exe + ".o"
    cmd = ["clang++-18", "-O1", "-g1", *san, *base, *[f for f in m["flags"] if "trap" not in f], *includes(), "-c", path, "-o", obj]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    if r.returncode:
        return None, r.stderr[-1500:]
    link = ["clang++-18", "-O1", "-g1", *san, "-std=c++20", "-w", *includes(), "-DVP_ENTRY=contract_" + name, os.path.join(HERE, "vp_native.cpp"), obj, "-o", exe,
            "-lpthread", "-ldl", "-Wl,--no-demangle"]
    r = subprocess.run(link, capture_output=True, text=True, timeout=300)
    if r.returncode:
        # what the contract never calls but the sources mention: reaching a stub ends the run without a verdict
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
        if not und:
            return None, r.stderr[-1500:]
        with open(exe + "_stub.s", "w") as f:
            f.write(".data\n.p2align 4\nvp_no_vtable:\n.rept 64\n.quad vp_undefined\n.endr\n")
            for u in und:
                if re.match(r"_ZT[VIST]", u):
                    first = "vp_no_vtable" if u.startswith("_ZTI") else "vp_undefined"
                    f.write(f'.data\n.p2align 4\n.globl "{u}"\n"{u}":\n.quad {first}\n.rept 63\n.quad vp_undefined\n.endr\n')
                else:
                    f.write(f'.text\n.globl "{u}"\n"{u}":\njmp vp_undefined@PLT\n')
        r = subprocess.run(link + [exe + "_stub.s"], capture_output=True, text=True, timeout=300)
    return (exe if r.returncode == 0 else None), r.stderr[-1500:]


def write_inputs(f, model):
    with open(f, "w") as o:
        for i in model or []:
            v = i["v"] if i["t"] == "buf" else [i["v"]]
            o.write(f"{i['n']} {i['t']} {i.get('w', 0)} {len(v)} " + " ".join(str(x) for x in v) + "\n")


def read_inputs(f):
    st, out = "", []
    if not os.path.exists(f):
        return st, out
    for k, l in enumerate(open(f)):
        l = l.strip()
        if k == 0:
            st = l
            continue
        p = l.split(" ")
        if len(p) >= 4:
            v = [int(x) for x in p[4:]]
            out.append({"n": p[0], "t": p[1], "w": int(p[2]), "v": v if p[1] == "buf" else (v[0] if v else 0)})
    return st, out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99")


def native_replay(exe, model, tmp):
    f, o = os.path.join(tmp, "in.txt"), os.path.join(tmp, "out.txt")
    write_inputs(f, model)
    if os.path.exists(o):
        os.unlink(o)
    try:
        r = subprocess.run([exe, "replay", f, o], capture_output=True, text=True, timeout=20, env=ENV, cwd=tmp)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within 20 s", model
    if r.returncode in (0, 77) or "symbol lookup error" in r.stderr:
        return False, r.stdout.strip(), None
    st, used = read_inputs(o)
    why = (r.stdout.strip().split("\n")[-1] if r.stdout.strip() else "") + " " + "\n".join(
        [l for l in r.stderr.split("\n") if "ERROR" in l or "SUMMARY" in l][:2])
    return True, why.strip() or f"exit {r.returncode}", used or model


def native_search(exe, model, tmp, secs, seed):
    f, o = os.path.join(tmp, "sin.txt"), os.path.join(tmp, "sout.txt")
    write_inputs(f, model)
    if os.path.exists(o):
        os.unlink(o)
    try:
        r = subprocess.run([exe, "search", f, o, str(secs), str(seed)], capture_output=True, text=True, timeout=secs + 30, env=ENV, cwd=tmp)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode == 0:
        return None
    st, used = read_inputs(o)
    # confirm in a fresh process
    ok, why, used2 = native_replay(exe, used, tmp)
    if ok:
        return why, used2
    return None


def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--contract")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when a contract is not proved")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    total = 800 if tier == "quick" else 3600
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    files = sorted(glob.glob(os.path.join(VERIF, "contracts", prop + "_*.cpp")))
    if not files:
        print("no contract files for", prop)
        return 2
    metas = {f: meta(f) for f in files}
    lls, cerr = {}, {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        futs = {}
        for f in files:
            out = os.path.join(tmp, os.path.basename(f) + ".ll")
            futs[f] = (ex.submit(compile_ir, f, metas[f], out), out)
        for f, (fu, out) in futs.items():
            r = fu.result()
            if r.returncode:
                cerr[f] = r.stderr
            else:
                lls[f] = out
    t_compile = time.time() - t0
    for f, e in cerr.items():
        print(f"ERROR: {os.path.basename(f)} does not compile against /repo:\n" + e[:1500])
    jobs = []
    for f in files:
        if f not in lls:
            continue
        m = metas[f]
        for c in m["contracts"]:
            if a.contract and not re.search(a.contract, c):
                continue
            o = dict(m["opts"])
            o["trace"] = a.trace
            if tier == "thorough":
                o["slow_s"] = max(o.get("slow_s", 60), 300)
            jobs.append((f, (lls[f], c, o, m["opts"].get("budget", 420 if tier == "quick" else 2400))))
    results = []
    if a.jobs == 1:
        for f, j in jobs:
            results.append((f, run_contract(j)))
    else:
        with mp.get_context("fork").Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=4) as pool:
            rs = [(f, pool.apply_async(run_contract, (j,)), j) for f, j in jobs]
            for f, r, j in rs:
                left = max(5, t0 + total - 120 - time.time())
                try:
                    results.append((f, r.get(timeout=left)))
                except mp.TimeoutError:
                    results.append((f, {"contract": j[1], "status": "error", "error": "time budget exhausted", "obligations": [], "labels": [],
                                        "missing": []}))
            pool.terminate()
    # ---- triage
    known = known_findings(prop)
    violations, weak, errors, knownhits = [], [], [], []
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    evals = 0
    open_ = []
    for f, r in results:
        c = r["contract"]
        if a.v or r["status"] != "proved":
            nd = sum(o["status"] == "discharged" for o in r["obligations"])
            print(f"[{r['status']}] {prop}/{c}: {nd}/{len(r['obligations'])} obligations, {r.get('wall', 0)} s {r['error']}" +
                  (f" {r['modes']}" if len(r.get("modes", [])) > 1 else ""), flush=True)
        if r["status"] == "proved":
            continue
        failed = [o for o in r["obligations"] if o["status"] == "failed"]
        kf = [o for o in failed if any(k["contract"] == c and k["label"] == o["label"] for k in known)]
        rest = [o for o in failed if o not in kf]
        for o in kf:
            knownhits.append((c, o["label"]))
        if kf and not rest and r.get("definitive") and not [o for o in r["obligations"] if o["status"] == "undecided"]:
            continue
        open_.append((f, r, c, failed, rest))

    def hunt(job):
        """a concrete failing execution of the compiled code for an undischarged contract"""
        k, (f, r, c, failed, rest) = job
        d = os.path.join(tmp, "hunt%d" % k)
        os.makedirs(d, exist_ok=True)
        skip = [x["label"] for x in known if x["contract"] == c]
        exe, err = build_native(f, metas[f], c, d)
        if exe is None:
            return None, "native build failed: " + err[-600:], 0
        n = 0
        for o in rest:
            bad, why, used = native_replay(exe, o["model"], d)
            n += 1
            if bad and not any(x in why for x in skip):
                return (o, why, used, "counterexample of the verifier, replayed on the compiled code"), "", n
        for j, o in enumerate((rest or [None])[:3]):
            x = native_search(exe, o["model"] if o else None, d, 15 if rest else 40, seed + j)
            if x and not any(y in x[0] for y in skip):
                return ((o or {"kind": "search", "label": x[0], "loc": "", "model": None, "status": r["status"]}), x[0], x[1],
                        "directed search on the compiled code, started from the verifier's counterexample"), "", n
        return None, "", n
    with ThreadPoolExecutor(6) as ex:
        hunts = list(ex.map(hunt, enumerate(open_)))
    for (f, r, c, failed, rest), (found, herr, n) in zip(open_, hunts):
        evals += n
        if herr:
            print("  " + herr)
        if not found and not rest:
            why = r["error"] or "undecided: " + ", ".join(sorted({o["kind"] + ":" + o["label"] for o in r["obligations"] if o["status"] == "undecided"}))[:300]
            (errors if herr else weak).append((c, r["status"], why + (f" (loops unrolled 3 times: {r['unrolled']})" if r.get("unrolled") else "")))
            continue
        rp = os.path.join(rdir, f"{prop}-{c}.json")
        ob = found[0] if found else rest[0]
        json.dump({"property": prop, "contract": c, "file": os.path.relpath(f, VERIF), "obligation": {k: ob.get(k) for k in ("kind", "label", "loc", "status")},
                   "all_failed": [{k: o[k] for k in ("kind", "label", "loc")} for o in failed], "inputs": found[2] if found else ob.get("model"),
                   "native": found[1] if found else "not reproduced natively", "how": found[3] if found else "verifier counterexample only",
                   "verifier_output": r["error"],
                   "replay": f"python3-vt vcgen/replay.py replays/{prop}-{c}.json"}, open(rp, "w"), indent=1)
        violations.append((c, ob, rp, found))
    for f in cerr:
        errors.append((os.path.basename(f), "compile", "contract file does not compile against the current tree"))

    # ---- evidence
    obs = [o for _, r in results for o in r["obligations"]]
    by = {}
    for o in obs:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    kinds = {}
    for o in obs:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    ext = {}
    for _, r in results:
        for k, v in r.get("externals", {}).items():
            ext[k] = ext.get(k, 0) + v
    assumed = sorted({x for _, r in results for x in r.get("assumed", [])})
    bounded = [r["contract"] for f, r in results if r.get("bounded") or metas[f]["contracts"][r["contract"]]["bounded"]]
    st = {}
    for _, r in results:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    trusted = ["clang 18 (C++ -> LLVM IR; the IR is executed as compiled at -O1, contraction off)", "vcgen/engine.py, models.py, loops.py (IR semantics, memory model, invariant cut)",
               "z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12", "libstdc++ headers are executed, not assumed; the C/C++ runtime below is modelled: " + ", ".join(sorted(k for k in ext if not k.startswith("vp_")))]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": len(obs), "discharged": sum(o["status"] == "discharged" for o in obs),
              "checker_cmd": f"python3-vt vcgen/check.py {prop}",
              "trusted_base": trusted,
              "functions_under_contract": sorted({x for m in metas.values() for x in m["functions"]}),
              "contracts": [{"name": r["contract"], "status": r["status"], "obligations": len(r["obligations"]),
                             "discharged": sum(o["status"] == "discharged" for o in r["obligations"]), "paths": r.get("stats", {}).get("paths"),
                             "wall_s": r.get("wall"), "attempts": r.get("modes", []), "loops_cut": r.get("loops_cut", []), "error": r["error"][:300], "ensures": r.get("labels", [])} for _, r in results],
              "obligations_by_kind": kinds, "discharged_by": by, "bounded_contracts": bounded,
              "paths": st.get("paths", 0), "ir_instructions_executed": st.get("inst", 0), "solver_queries": st.get("queries", 0),
              "solver_s": round(st.get("solver_s", 0), 2), "loops_cut_with_invariants": st.get("cuts", 0), "invariant_conjuncts": st.get("inv", 0),
              "invariants": [i for _, r in results for i in r.get("invariants", [])][:12],
              "samples": [f"{r['contract']}: {l}" for _, r in results for l in r.get("labels", [])[:2]][:20],
              "compile_s": round(t_compile, 2), "native_replays": evals,
              "not_proved_this_run": [f"{c}: {w}" for c, _, w in weak],
          },
          "assumptions": sorted({x for m in metas.values() for x in m["assume"]}) + assumed,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.contract:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if a.keep:
        print("kept", tmp)
    else:
        shutil.rmtree(tmp, ignore_errors=True)
    seen = set()
    for k in known:
        if (k["contract"], k["label"]) in knownhits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for c, ob, rp, found in violations:
        print(f"  {c}: {ob['kind']} obligation failed: {ob['label']} ({ob['loc']})" + (f"; {found[1]}" if found else ""))
        if found:
            print("  inputs: " + " ".join(f"{i['n']}={i['v'] if i['t'] != 'buf' else i['v'][:16]}" for i in (found[2] or []))[:400])
        print(f"VIOLATION property={prop} replay={os.path.relpath(rp, VERIF)}" + ("" if found else " no-failing-input-found"))
    for c, s, e in errors:
        print(f"ERROR: {prop}/{c}: {s}: {e}")
    for c, s_, e in weak:
        print(f"NOTE: {prop}/{c} not proved on this tree ({s_}: {e}); the unrolled exploration and the search on the compiled code found no violation")
    if violations:
        return 1
    if errors or weak and a.strict:
        return 2
    n = len(obs)
    if not results:
        print(f"ERROR: no contract for {prop}")
        return 2
    print(("OK" if not weak else "HELD-ON-EXPLORED") + f" property={prop}: {ev['coverage']['discharged']}/{n} obligations discharged in {len(results)} contracts, {ev['wall_s']} s" +
          (f" ({len(bounded)} bounded)" if bounded else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
