"""Unbounded loops: cut at the header, inductive invariant by Houdini over generic candidates
and the contract file's templates, frame by a fix-point over the written locations."""
import itertools, time
import z3
from z3 import BitVecVal, BitVecRef, BoolRef, BoolVal, And, Or, Not, If, ULE, UGE, ULT, is_fp, is_true, is_false, simplify, ZeroExt, SignExt
import engine as E
from engine import Ptr, isint, bv, tobool, simp, Unsupported, PathEnd, ContractError


def eval_template(eng, st, fn, args, value=False):
    eng.get_fn(fn)
    T = st.clone()
    T.frames = []
    T.writes = None
    n0 = len(T.pc)
    f = E.Frame(fn)
    for i, a in enumerate(args):
        f.regs[i] = a
    f.retinst = "top"
    T.frames.append(f)
    eng.enter(T, f, fn.blocks[0], None)
    res = []

    def stop(s, ev):
        if ev == "end":
            r = s.result
            if value:
                res.append((s.pc[n0:], bv(r, 64)))
            else:
                res.append((s.pc[n0:], tobool(r) if not isinstance(r, BitVecRef) else r != 0))
            return True
        return False
    eng.quiet += 1
    try:
        eng.explore(T, stop)
    finally:
        eng.quiet -= 1
    if value:
        v = None
        for d, r in res:
            v = r if v is None else If(And(d), r, v)
        return simplify(v)
    out = []
    for d, r in res:
        out.append(z3.Implies(And(d), r) if d else r)
    return simplify(And(out)) if out else BoolVal(True)


class Var:
    """a loop-carried scalar"""

    def __init__(self, name, kind, width, get, src=None):
        self.name, self.kind, self.width, self.get, self.src = name, kind, width, get, src


def fresh_like(eng, name, v, ty=None):
    if isinstance(v, Ptr):
        if v.obj is None:
            return eng.fresh(name, 64)
        return Ptr(v.obj, eng.fresh(name, 64))
    if isinstance(v, list):
        return [fresh_like(eng, name, x, ty.elt if ty is not None and ty.elt else None) for x in v]
    if is_fp(v):
        k = {E.F32: "float", E.F64: "double", E.F80: "x86_fp80"}[v.sort()]
        return eng.fresh_fp(name, k)
    if isinstance(v, BoolRef):
        return eng.fresh_bool(name)
    if ty is not None:
        return eng.fresh_ty(name, ty)
    if isinstance(v, BitVecRef):
        return eng.fresh(name, v.size())
    raise Unsupported("havoc " + repr(v))


def cut_loop(eng, st0, fr, blk, body, key, work, outer_stop):
    d = len(st0.frames)
    phis = [p for p in blk.phis]
    eng.stats["cuts"] += 1
    mods = {}
    outer_writes = st0.writes
    fid = fr.regs

    def havoc():
        S = st0.clone()
        S.writes = []
        S.newobjs = frozenset()
        f = S.frames[-1]
        for p in phis:
            f.regs[p.id] = fresh_like(eng, f"phi{p.id}", fr.regs[p.id], p.ty)
        for oid, m in mods.items():
            o = S.wobj(oid)
            if m["all"]:
                w = m["w"]
                eng.nfresh += 1
                arr = z3.Array(f"hv_{o.name}!{eng.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8 * w))
                o.base = ("arr", arr, w)
                o.layers = [("cells", {})]
            else:
                if o.layers[-1][0] != "cells":
                    o.layers.append(("cells", {}))
                for off, (n, v) in m["cells"].items():
                    c = o.layers[-1][1]
                    eng.carve(S, o, c, off, n)
                    if isint(v) or isinstance(v, (BitVecRef, BoolRef)) or v is None:
                        c[off] = (n, eng.fresh(f"hv_{o.name}_{off}", 8 * n))
                    else:
                        c[off] = (n, fresh_like(eng, f"hv_{o.name}_{off}", v))
        return S

    def add_writes(W):
        changed = False
        for oid, off, n, val in W:
            if isinstance(val, str) and val == "free":
                raise Unsupported("free of an outer object inside a loop")
            if oid not in st0.objs:
                continue
            m = mods.setdefault(oid, {"all": False, "cells": {}, "w": None})
            if m["all"]:
                continue
            if off is None:
                m["all"] = True
                if m["w"] is None or True:
                    base = st0.objs[oid].base
                    w = base[2] if base[0] == "arr" else (n if n in (1, 2, 4, 8) else 1)
                    # keep the width used by any earlier writes
                    m["w"] = w
                changed = True
                continue
            c = m["cells"].get(off)
            if c is not None and c[0] >= n:
                if isinstance(val, Ptr) and isinstance(c[1], Ptr) and val.obj != c[1].obj:
                    raise Unsupported("pointer cell changes object in a loop")
                continue
            # merge overlapping cells
            lo, hi, sample = off, off + n, val
            for k in list(m["cells"]):
                cn = m["cells"][k][0]
                if k < hi and k + cn > lo:
                    lo2, hi2 = min(lo, k), max(hi, k + cn)
                    if (lo2, hi2) != (lo, hi) or k != lo or cn != hi - lo:
                        sample = None
                    lo, hi = lo2, hi2
                    del m["cells"][k]
            if sample is not None and isinstance(sample, Ptr):
                r, v0 = ("hit", None)
                o0 = st0.objs[oid]
                v0 = eng.read(st0.clone(), oid, lo, hi - lo)
                if isinstance(v0, Ptr) and v0.obj != sample.obj:
                    raise Unsupported("pointer cell changes object in a loop")
            m["cells"][lo] = (hi - lo, sample)
            changed = True
        return changed

    def run_body(S, cands):
        """explore one iteration; returns (back-edge states, exit states)"""
        backs, exits = [], []

        def stop(s, ev):
            n = len(s.frames)
            if n < d:
                exits.append(s)
                return True
            if n == d:
                f = s.frames[-1]
                if ev == "header" and f.block is blk and f.prev in body:
                    backs.append(s)
                    return True
                if f.block not in body:
                    if ev == "header":
                        f.tag = "header"
                    exits.append(s)
                    return True
            return False
        f = S.frames[-1]
        f.visits = {}
        f.tag = None
        W = S.writes
        # body of the header itself: start executing after the phis
        work2 = [S]
        while work2:
            s = work2.pop()
            try:
                eng.run(s, work2, stop)
            except PathEnd:
                eng.stats["paths"] += 1
            except Unsupported as u:
                if not eng.quiet:
                    raise
                eng.loop_unsup = str(u)
        return backs, exits, W

    # ---- frame of the loop
    eng.quiet += 1
    ft = eng.feas_timeout
    eng.feas_timeout = min(ft, 100)
    try:
        for it in range(20):
            S = havoc()
            backs, exits, W = run_body(S, [])
            for b in backs:
                bf = b.frames[-1]
                for p in phis:
                    v0, v1 = fr.regs[p.id], bf.regs[p.id]
                    if isinstance(v0, Ptr) and (not isinstance(v1, Ptr) or v1.obj != v0.obj):
                        raise Unsupported(f"loop-carried pointer changes object at {eng.loc(st0)}")
            if not add_writes(W):
                break
        else:
            raise Unsupported("loop frame does not stabilise")
    finally:
        eng.quiet -= 1
        eng.feas_timeout = ft

    # ---- loop variables
    vars_ = []
    for p in phis:
        v = fr.regs[p.id]
        if isinstance(v, Ptr):
            if v.obj is not None:
                vars_.append(Var(f"phi{p.id}.off", "i", 64, (lambda s, i=p.id: bv(s.frames[d - 1].regs[i].off, 64))))
        elif is_fp(v):
            vars_.append(Var(f"phi{p.id}", "d", 0, (lambda s, i=p.id: s.frames[d - 1].regs[i])))
        elif isinstance(v, list):
            pass
        else:
            w = p.ty.width
            if w == 1:
                vars_.append(Var(f"phi{p.id}", "b", 1, (lambda s, i=p.id: tobool(s.frames[d - 1].regs[i]))))
            else:
                vars_.append(Var(f"phi{p.id}", "i", w, (lambda s, i=p.id, w=w: bv(s.frames[d - 1].regs[i], w))))
    for oid, m in mods.items():
        if m["all"]:
            continue
        for off, (n, v) in m["cells"].items():
            if n > 8:
                continue
            nm = f"{st0.objs[oid].name}[{off}]"
            if isinstance(v, Ptr):
                def get(s, oid=oid, off=off, n=n):
                    x = eng.read(s, oid, off, n)
                    return bv(x.off, 64) if isinstance(x, Ptr) else bv(eng.as_bv(x, n, s), 64)
                vars_.append(Var(nm, "i", 64, get))
            elif v is not None and is_fp(v):
                so = v.sort()

                def get(s, oid=oid, off=off, n=n, so=so):
                    x = eng.read(s, oid, off, n)
                    return x if is_fp(x) else z3.fpBVToFP(bv(eng.as_bv(x, n, s), 8 * n), so)
                vars_.append(Var(nm, "d", 0, get))
            else:
                def get(s, oid=oid, off=off, n=n):
                    return bv(eng.as_bv(eng.read(s, oid, off, n), n, s), 8 * n)
                vars_.append(Var(nm, "i", 8 * n, get))

    # ---- loop-invariant terms that the body compares with
    pool = {}

    def addpool(w, t):
        e = bv(t, w) if not isinstance(t, BoolRef) else None
        if e is not None:
            e = simplify(e)
            pool.setdefault(w, {})[e.get_id()] = e

    def pool_operand(o, w):
        if o[0] == "c":
            if o[1].kind == "int" and w > 1:
                addpool(w, o[1].v)
        elif o[0] == "i":
            v = fr.regs.get(o[1])
            if v is None or any(p.id == o[1] for p in phis):
                return
            # defined outside of the loop
            if isinstance(v, Ptr):
                if v.obj is not None:
                    addpool(64, v.off)
            elif not isinstance(v, list) and not is_fp(v) and not isinstance(v, BoolRef) and w > 1:
                addpool(w, v)
    defined_in = set()
    for b in body:
        for p in b.phis:
            defined_in.add(p.id)
        for i in b.insts:
            defined_in.add(i.id)
    for b in body:
        for i in b.insts:
            if i.op == "icmp":
                w = eng.operand_ty(fr, i.ops[0]).width or 64
                for o in i.ops:
                    if o[0] == "i" and o[1] in defined_in:
                        continue
                    pool_operand(o, w)
    for i in st0.inputs:
        if i["t"] in ("i64", "i32") and len(st0.inputs) <= 12:
            addpool(i["w"], i["e"])
        if i["t"] == "buf" and not isint(i["n"]):
            addpool(64, i["n"])
            addpool(64, simp(i["n"] * i["w"]))
    entry = {v.name: v.get(st0) for v in vars_}
    ivars = [v for v in vars_ if v.kind == "i"]

    # per-iteration step of each variable, to relate variables linearly
    H = havoc()
    hv = {v.name: v.get(H) for v in vars_}
    steps = {}
    eng.quiet += 1
    eng.feas_timeout = min(ft, 100)
    try:
        S1 = H.clone()
        S1.writes = []
        bks, _, _ = run_body(S1, [])
        for v in ivars:
            st_ = set()
            for b in bks:
                dlt = simp(v.get(b) - hv[v.name])
                st_.add(E.sgn(dlt, v.width) if isint(dlt) else None)
            if len(st_) == 1 and None not in st_:
                steps[v.name] = st_.pop()
    finally:
        eng.quiet -= 1
        eng.feas_timeout = ft

    cands = []  # (description, fn(state)->Bool)

    def cand(desc, f):
        cands.append((desc, f))

    auto = eng.opts.get("auto", 0 if st0.templates else 1)
    for v in vars_:
        if v.kind == "b":
            cand(f"{v.name}", lambda s, v=v: v.get(s))
            cand(f"!{v.name}", lambda s, v=v: Not(v.get(s)))
            continue
        e0 = entry[v.name]
        if v.kind == "d":
            cand(f"{v.name}==entry", lambda s, v=v, e0=e0: v.get(s) == e0)
            continue
        w = v.width
        cand(f"{v.name}==entry", lambda s, v=v, e0=e0: v.get(s) == e0)
        if auto == 0:
            if w == 8:
                cand(f"{v.name}<=1", lambda s, v=v: ULE(v.get(s), 1))
            continue
        cand(f"{v.name}>=s entry", lambda s, v=v, e0=e0: v.get(s) >= e0)
        cand(f"{v.name}<=s entry", lambda s, v=v, e0=e0: v.get(s) <= e0)
        cand(f"{v.name}>=u entry", lambda s, v=v, e0=e0: UGE(v.get(s), e0))
        cand(f"{v.name}<=u entry", lambda s, v=v, e0=e0: ULE(v.get(s), e0))
        if w == 8:
            cand(f"{v.name}<=1", lambda s, v=v: ULE(v.get(s), 1))
        c = steps.get(v.name)
        if c and abs(c) > 1:
            cand(f"({v.name}-entry)%{abs(c)}==0", lambda s, v=v, e0=e0, c=abs(c), w=w: z3.URem(v.get(s) - e0, BitVecVal(c, w)) == 0)
            if e0 is not None:
                cand(f"{v.name}%{abs(c)}==0", lambda s, v=v, c=abs(c), w=w: z3.URem(v.get(s), BitVecVal(c, w)) == 0)
        for t in list(pool.get(w, {}).values())[:24]:
            for nm, g in (("<=s", lambda a, b: a <= b), (">=s", lambda a, b: a >= b), ("<=u", lambda a, b: ULE(a, b)),
                          (">=u", lambda a, b: UGE(a, b)), ("!=", lambda a, b: a != b), ("<s", lambda a, b: a < b), (">s", lambda a, b: a > b)):
                cand(f"{v.name} {nm} {t}", lambda s, v=v, t=t, g=g: g(v.get(s), t))
    for a, b in itertools.combinations(ivars, 2) if auto else ():
        if a.width != b.width:
            # related through sign/zero extension
            big, small = (a, b) if a.width > b.width else (b, a)
            k = big.width - small.width
            cand(f"{big.name}==sext {small.name}", lambda s, B=big, m=small, k=k: B.get(s) == SignExt(k, m.get(s)))
            cand(f"{big.name}==zext {small.name}", lambda s, B=big, m=small, k=k: B.get(s) == ZeroExt(k, m.get(s)))
            eb, es = entry[big.name], entry[small.name]
            cand(f"{big.name}-e==sext({small.name}-e)", lambda s, B=big, m=small, k=k, eb=eb, es=es: B.get(s) - eb == SignExt(k, m.get(s) - es))
            cb, cs = steps.get(big.name), steps.get(small.name)
            if cb and cs:
                for X in (ZeroExt, SignExt):
                    cand(f"{big.name}-e ~ {small.name}-e", lambda s, B=big, m=small, k=k, eb=eb, es=es, cb=cb, cs=cs, X=X:
                         (B.get(s) - eb) * cs == X(k, m.get(s) - es) * cb)
            continue
        ea, eb = entry[a.name], entry[b.name]
        cand(f"{a.name}-{b.name}==entry", lambda s, a=a, b=b, ea=ea, eb=eb: a.get(s) - b.get(s) == ea - eb)
        cand(f"{a.name}+{b.name}==entry", lambda s, a=a, b=b, ea=ea, eb=eb: a.get(s) + b.get(s) == ea + eb)
        ca, cb = steps.get(a.name), steps.get(b.name)
        if ca and cb and abs(ca) != abs(cb):
            cand(f"{cb}*({a.name}-e)=={ca}*({b.name}-e)",
                 lambda s, a=a, b=b, ea=ea, eb=eb, ca=ca, cb=cb: (a.get(s) - ea) * cb == (b.get(s) - eb) * ca)
            if ca % cb == 0:
                cand(f"({a.name}-e)=={ca // cb}*({b.name}-e)",
                     lambda s, a=a, b=b, ea=ea, eb=eb, q=ca // cb: a.get(s) - ea == (b.get(s) - eb) * q)
            elif cb % ca == 0:
                cand(f"({b.name}-e)=={cb // ca}*({a.name}-e)",
                     lambda s, a=a, b=b, ea=ea, eb=eb, q=cb // ca: b.get(s) - eb == (a.get(s) - ea) * q)
        for nm, g in (("<=s", lambda x, y: x <= y), (">=s", lambda x, y: x >= y), ("<=u", lambda x, y: ULE(x, y)), (">=u", lambda x, y: UGE(x, y)),
                      ("==", lambda x, y: x == y)):
            cand(f"{a.name} {nm} {b.name}", lambda s, a=a, b=b, g=g: g(a.get(s), b.get(s)))
    # element-wise copies: for an arbitrary index t (a contract input), what the loop did to element t
    big = [(oid, m) for oid, m in mods.items() if m["all"] and m["w"] in (1, 2, 4, 8)]
    if big and eng.opts.get("copies", 1):
        terms = {}
        for i in st0.inputs:
            if i["t"] == "i64":
                e = bv(i["e"], 64)
                terms[e.get_id()] = e
        srcs = set()
        for r in fr.regs.values():
            if isinstance(r, Ptr) and isint(r.obj) and r.obj in st0.objs and not st0.objs[r.obj].freed:
                srcs.add(r.obj)
        pos = [v for v in ivars if v.width == 64]

        def elem(s, oid, t, w):
            x = eng.read(s, oid, simp(t * w), w)
            if isinstance(x, Ptr) or x is None:
                return None
            return bv(eng.as_bv(x, w, s), 8 * w)
        for oid, m in big:
            w = m["w"]
            for t in list(terms.values())[:6]:
                try:
                    e0 = elem(st0, oid, t, w)
                except Unsupported:
                    continue
                if e0 is None:
                    continue
                nm = f"{st0.objs[oid].name}[{t}]"
                for v in pos:
                    scales = {1, w} if w > 1 else {1}
                    for sc in scales:
                        if sc > 1 and steps.get(v.name) not in (1, -1, None):
                            continue
                        P = lambda s, v=v, sc=sc, w=w: v.get(s) if sc == 1 and w == 1 else (v.get(s) * w if sc == w and w > 1 else v.get(s))
                        T = simp(t * w)
                        cand(f"{nm} old beyond {v.name}", lambda s, P=P, T=T, oid=oid, t=t, w=w, e0=e0: z3.Implies(UGE(T, P(s)), elem(s, oid, t, w) == e0))
                        for so in srcs:
                            if so == oid:
                                continue
                            try:
                                es = elem(st0, so, t, w)
                            except Unsupported:
                                continue
                            if es is None:
                                continue
                            cand(f"{nm} copied before {v.name}", lambda s, P=P, T=T, oid=oid, t=t, w=w, es=es:
                                 z3.Implies(ULT(T, P(s)), elem(s, oid, t, w) == es))
    # templates of the contract file
    for kinds, fn in st0.templates:
        if kinds == "measure":
            continue
        pools = []
        for k in kinds:
            if k == "i":
                pools.append([("s", v) for v in ivars if v.width >= 8])
            elif k == "p":
                # a position: the header may see it before or after its increment
                pools.append([(c, v) for v in ivars if v.width >= 8 for c in ("s", 1, -1)])
            elif k == "u":
                pools.append([("u", v) for v in ivars if v.width >= 8])
            elif k == "d":
                pools.append([("d", v) for v in vars_ if v.kind == "d"])
            elif k == "b":
                pools.append([("b", v) for v in vars_ if v.kind == "b"])
            else:
                raise ContractError("template kind " + k)
        n = 0
        for tup in itertools.product(*pools):
            if len({v.name for _, v in tup}) != len(tup):
                continue
            n += 1
            if n > 400:
                break

            def f(s, tup=tup, fn=fn):
                args = []
                for k, v in tup:
                    x = v.get(s)
                    if k in ("s", "u", 1, -1) and v.width < 64:
                        x = SignExt(64 - v.width, x) if k != "u" else ZeroExt(64 - v.width, x)
                    if isinstance(k, int):
                        x = x + BitVecVal(k, 64)
                    if False:
                        x = SignExt(64 - v.width, x) if k == "s" else ZeroExt(64 - v.width, x)
                    if k == "d" and x.sort() == E.F32:
                        x = z3.fpFPToFP(E.rne, x, E.F64)
                    args.append(x)
                return eval_template(eng, s, fn, args)
            cand(f"{fn.name}({','.join(v.name + ('%+d' % k if isinstance(k, int) else '') for k, v in tup)})", f)

    # ---- Houdini
    def filter_valid(pc, items):
        """items: (idx, expr); returns the indices whose expr is valid under pc"""
        live = []
        for i, e in items:
            e = simplify(e)
            if is_true(e):
                live.append((i, None))
            elif is_false(e):
                pass
            else:
                live.append((i, e))
        done = [i for i, e in live if e is None]
        rest = [(i, e) for i, e in live if e is not None]
        def conj(xs):
            """the members of xs valid under pc (greatest subset found)"""
            xs = list(xs)
            while xs:
                r, m = eng.check(pc, [Not(And([e for _, e in xs]))], 2500 if len(xs) > 1 else 1500, True)
                if r == z3.unsat:
                    return xs
                if r == z3.sat and m is not None:
                    keep = [(i, e) for i, e in xs if not is_false(m.eval(e, True))]
                    if len(keep) < len(xs):
                        xs = keep
                        continue
                if len(xs) == 1:
                    return []
                h = len(xs) // 2
                return conj(xs[:h]) + conj(xs[h:])
            return []
        rest = conj(rest)
        return set(done) | {i for i, _ in rest}

    tmp = st0.clone()
    ok = filter_valid(st0.pc, [(i, f(tmp)) for i, (_, f) in enumerate(cands)])
    C = [cands[i] for i in sorted(ok)]
    while True:
        S = havoc()
        hs = S.clone()
        for _, f in C:
            e = simplify(f(hs))
            if not is_true(e):
                S.pc.append(e)
        eng.quiet += 1
        try:
            backs, exits, W = run_body(S, C)
        finally:
            eng.quiet -= 1
        live = set(range(len(C)))
        for b in backs:
            if not live:
                break
            items = [(i, C[i][1](b)) for i in sorted(live)]
            live &= filter_valid(b.pc, items)
        if len(live) == len(C):
            break
        C = [C[i] for i in sorted(live)]

    # ---- final pass: the invariant is assumed, every obligation of the body is generated
    S = havoc()
    hs = S.clone()
    for _, f in C:
        e = simplify(f(hs))
        if not is_true(e):
            S.pc.append(e)
    # drop candidates implied by the others? (kept: they only help)
    hvals = {v.name: v.get(S) for v in vars_}
    S0 = S.clone()
    backs, exits, W = run_body(S, C)
    for w in W:
        oid, off, n, val = w
        if oid not in st0.objs:
            continue
        m = mods.get(oid)
        if m is None or not (m["all"] or off is not None and any(k <= off and off + n <= k + c[0] for k, c in m["cells"].items())):
            raise ContractError("loop frame violated: " + str(w))
    for b in backs:
        bf = b.frames[-1]
        for p in phis:
            v0, v1 = fr.regs[p.id], bf.regs[p.id]
            if isinstance(v0, Ptr) and (not isinstance(v1, Ptr) or v1.obj != v0.obj):
                raise Unsupported(f"loop-carried pointer changes object at {eng.loc(st0)}")
        if not eng.quiet and C:
            conj = And([f(b) for _, f in C])
            t = b.clone()
            ob_ok = eng.oblige_inv(t, conj, f"loop invariant preserved ({len(C)} conjuncts)")
    if not eng.quiet:
        eng.stats["inv"] += len(C)
        eng.invariants.append({"loop": f"{key[0]} {eng.loc(st0)}", "conjuncts": [d_ for d_, _ in C][:60]})
        if st0.cfg.get("terminates"):
            mt = []
            for kinds, fn in st0.templates:
                if kinds == "measure":
                    mt.append((fn.name, eval_template(eng, S0, fn, [], True), [eval_template(eng, b, fn, [], True) for b in backs]))
            check_termination(eng, st0, vars_, hvals, backs, pool, mt)
    for s in exits:
        s.writes = outer_writes
        if outer_writes is not None:
            s.newobjs = st0.newobjs | s.newobjs
        else:
            s.newobjs = frozenset()
        work.append(s)
    if outer_writes is not None:
        outer_writes.extend(w for w in W if w[0] not in st0.newobjs)
    return True


def check_termination(eng, st0, vars_, hv, backs, pool, mt=()):
    ms = []
    for nm, h, nbs in mt:
        if all(eng.check(b.pc, [Not(And(nb < h, h >= 0))], 10000)[0] == z3.unsat for b, nb in zip(backs, nbs)):
            eng.oblige(st0.clone(), BoolVal(True), "terminates", "loop measure decreases: " + nm)
            eng.invariants.append({"loop": eng.loc(st0), "variant": nm})
            return
    iv = [v for v in vars_ if v.kind == "i"]
    for v in iv:
        ms.append((v.name, lambda g, v=v: g(v)))
        ms.append(("-" + v.name, lambda g, v=v: -g(v)))
        for t in pool.get(v.width, {}).values():
            ms.append((f"{t}-{v.name}", lambda g, v=v, t=t: t - g(v)))
            ms.append((f"{v.name}-{t}", lambda g, v=v, t=t: g(v) - t))
    for a, b in itertools.permutations(iv, 2):
        if a.width == b.width:
            ms.append((f"{a.name}-{b.name}", lambda g, a=a, b=b: g(a) - g(b)))
    dead = set()
    for ms_, (nm, m) in [(t, x) for t in (200, 800, 3000, 10000) for x in ms]:
        if nm in dead:
            continue
        h = m(lambda v: hv[v.name])
        good = True
        for b in backs:
            nb = m(lambda v: v.get(b))
            r = eng.check(b.pc, [Not(And(nb < h, h >= 0))], ms_)[0]
            if r != z3.unsat:
                good = False
                if r == z3.sat:
                    dead.add(nm)
                break
        if good:
            eng.oblige(st0.clone(), BoolVal(True), "terminates", "loop measure decreases: " + nm)
            eng.invariants.append({"loop": eng.loc(st0), "variant": nm})
            return
    st = st0.clone()
    eng.undecided_note("terminates", "no decreasing measure found for the loop at " + eng.loc(st0))
