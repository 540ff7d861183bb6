"""Contracts of what the verified code calls but does not define: the vp_* specification
primitives, LLVM intrinsics, the C/C++ runtime and libm.  Everything here is part of the
trusted base and is listed in the evidence when a run uses it (engine.externals)."""
import z3
from z3 import (BitVecVal, BitVecRef, BoolRef, BoolVal, And, Or, Not, If, ULT, ULE, UGT, UGE, LShR, ZeroExt, SignExt, Extract,
                Concat, is_fp, simplify, Select)
import engine as E
from engine import Ptr, NULL, NOADV, isint, bv, tobool, simp, Unsupported, PathEnd, ContractError, THROWERS, sgn, F32, F64, SORT, rne

VP = {}
EXACT = {}
PREFIX = []


def vp(name):
    def d(f):
        VP[name] = f
        return f
    return d


def ext(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pre(*prefixes):
    def d(f):
        for p in prefixes:
            PREFIX.append((p, f))
        return f
    return d


_cache = {}


def lookup(eng, name):
    h = _cache.get(name)
    if h is None:
        h = VP.get(name)
        if h is None:
            h = EXACT.get(name)
            if h is None and name.startswith("llvm."):
                for p, f in PREFIX:
                    if name.startswith(p):
                        h = f
                        break
                if h is None:
                    raise Unsupported("intrinsic " + name)
            if h is None and name in THROWERS:
                ti = THROWERS[name]
                h = lambda eng, st, fr, I, a, ti=ti: throw_std(eng, st, ti)
            if h is not None and not name.startswith("llvm."):
                g = h
                def h(eng, st, fr, I, a, g=g, name=name):
                    eng.externals[name] = eng.externals.get(name, 0) + 1
                    return g(eng, st, fr, I, a)
        if h is None:
            h = False
        _cache[name] = h
    return h or None


def cstr(eng, st, p):
    """concrete C string"""
    out = []
    for i in range(4096):
        b = eng.read(st, p.obj, p.off + i, 1)
        b = eng.as_bv(b, 1, st)
        if not isint(b):
            b = simp(b)
            if not isint(b):
                raise Unsupported("symbolic C string")
        if b == 0:
            break
        out.append(b)
    return bytes(out).decode("latin1")


# ---------------------------------------------------------------- specification primitives
def sym_int(w, t):
    def f(eng, st, fr, I, a):
        n = cstr(eng, st, a[0])
        v = eng.fresh("in_" + n, w)
        st.inputs.append({"name": n, "t": t, "e": v, "w": w})
        return v
    return f


VP["vp_i64"] = sym_int(64, "i64")
VP["vp_i32"] = sym_int(32, "i32")
VP["vp_i16"] = sym_int(16, "i16")
VP["vp_i8"] = sym_int(8, "i8")


@vp("vp_bool")
def _(eng, st, fr, I, a):
    n = cstr(eng, st, a[0])
    v = eng.fresh_bool("in_" + n)
    st.inputs.append({"name": n, "t": "bool", "e": v, "w": 1})
    return v


def sym_fp(kind, t):
    def f(eng, st, fr, I, a):
        n = cstr(eng, st, a[0])
        w = E.FPW[kind]
        b = eng.fresh("in_" + n, w)
        st.inputs.append({"name": n, "t": t, "e": b, "w": w})
        return z3.fpBVToFP(b, SORT[kind])
    return f


VP["vp_f32"] = sym_fp("float", "f32")
VP["vp_f64"] = sym_fp("double", "f64")


@vp("vp_buffer")
def _(eng, st, fr, I, a):
    """symbolic buffer: n elements of w bytes with arbitrary content"""
    nm = cstr(eng, st, a[0])
    n, w = a[1], a[2]
    assert isint(w)
    eng.nfresh += 1
    arr = z3.Array(f"buf_{nm}!{eng.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8 * w))
    n = simp(n)
    if isint(n):
        size = n * w
    else:
        eng.oblige(st, ULE(n, BitVecVal(1 << 32, 64)), "contract", "symbolic buffer size is bounded by 2^32")
        size = simp(n * w)
    oid = eng.new_obj(st, size, "buf", nm, ("arr", arr, w))
    st.inputs.append({"name": nm, "t": "buf", "e": arr, "w": w, "n": n})
    return Ptr(oid, 0)


@vp("vp_alloc")
def _(eng, st, fr, I, a):
    """fresh uninitialised buffer of n bytes"""
    nm = cstr(eng, st, a[0])
    n = simp(a[1])
    oid = eng.new_obj(st, n, "buf", nm, ("undef",))
    return Ptr(oid, 0)


@vp("vp_assume")
def _(eng, st, fr, I, a):
    c = tobool(a[0])
    c = simplify(c)
    if z3.is_true(c):
        return None
    if z3.is_false(c):
        raise PathEnd()
    st.pc.append(c)
    if eng.check(st.pc, [], eng.feas_timeout)[0] == z3.unsat:
        raise PathEnd()
    return None


@vp("vp_assert")
def _(eng, st, fr, I, a):
    label = cstr(eng, st, a[1])
    if not eng.quiet:
        eng.labels_hit.add(label)
    eng.oblige(st, tobool(a[0]), "ensures", label)
    return None


@vp("vp_requires")
def _(eng, st, fr, I, a):
    label = cstr(eng, st, a[1])
    if not eng.quiet:
        eng.labels_hit.add(label)
    eng.oblige(st, tobool(a[0]), "requires", label)
    return None


@vp("vp_abstract")
def _(eng, st, fr, I, a):
    """the abstraction that a contract stub uses fits this call; if not, the proof is undecided, not failed"""
    eng.oblige(st, tobool(a[0]), "abstraction", cstr(eng, st, a[1]))
    return None


def _vp_uf(kind):
    def h(eng, st, fr, I, a):
        """the value of a function whose contract says nothing but that it is a function of its arguments"""
        name = cstr(eng, st, a[0])
        S = {"f32": F32, "f64": F64, "i64": z3.BitVecSort(64)}[kind]
        args = [z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in a[1:4]]
        return z3.Function(f"uf_{name}_{kind}", S, S, S, S)(*args)
    return h


vp("vp_uf_f32")(_vp_uf("f32"))
vp("vp_uf_f64")(_vp_uf("f64"))
vp("vp_uf_i64")(_vp_uf("i64"))


@vp("vp_exact")
def _(eng, st, fr, I, a):
    """1 in the bounded exploration (and natively): stubs then behave byte by byte"""
    return 1 if eng.opts.get("bounded_unroll") else 0


@vp("vp_cover")
def _(eng, st, fr, I, a):
    label = cstr(eng, st, a[0])
    if eng.quiet:
        return None
    if label not in eng.covers_hit:
        r, _ = eng.check(st.pc, [], 10000)
        if r == z3.sat:
            eng.covers_hit[label] = True
    return None


@vp("vp_template")
def _(eng, st, fr, I, a):
    kinds = cstr(eng, st, a[0])
    fn = a[1].obj
    st.templates.append((kinds, fn))
    return None


@vp("vp_templates_clear")
def _(eng, st, fr, I, a):
    st.templates = []
    return None


@vp("vp_config")
def _(eng, st, fr, I, a):
    k = cstr(eng, st, a[0])
    v = a[1]
    st.cfg[k] = v
    return None


@vp("vp_concretize")
def _(eng, st, fr, I, a):
    return eng.concretize(st, a[0], "vp_concretize", 300)


@vp("vp_fork")
def _(eng, st, fr, I, a):
    return 1 if eng.decide(st, a[0]) else 0


@vp("vp_symbolic")
def _(eng, st, fr, I, a):
    """1 under the verifier, 0 in the native replay"""
    return 1


@vp("vp_replace")
def _(eng, st, fr, I, a):
    """calls to a[0] are checked against / replaced by the contract stub a[1]"""
    f, g = a[0].obj, a[1].obj
    st.replaces[f.name] = g
    return None


@vp("vp_replace_name")
def _(eng, st, fr, I, a):
    nm = cstr(eng, st, a[0])
    g = a[1].obj
    n = 0
    for f in eng.mod.functions:
        if nm in f:
            st.replaces[f] = g
            n += 1
    return n


@vp("vp_same_object")
def _(eng, st, fr, I, a):
    return 1 if a[0].obj == a[1].obj else 0


@vp("vp_is_live")
def _(eng, st, fr, I, a):
    p = a[0]
    if not isinstance(p, Ptr) or not isint(p.obj):
        return 0
    return 0 if st.objs[p.obj].freed else 1


@vp("vp_live_heap")
def _(eng, st, fr, I, a):
    """number of heap objects that are live"""
    return sum(1 for o in st.objs.values() if o.kind == "heap" and not o.freed)


# ---------------------------------------------------------------- memory
def malloc_like(zero=False):
    def f(eng, st, fr, I, a):
        n = simp(a[0])
        oid = eng.new_obj(st, n, "heap", f"heap@{eng.loc(st)}", ("zero",) if zero else ("undef",))
        if not isint(n):
            # an allocation that does not fit the address space fails with an exception, which we do not follow
            st.pc.append(ULE(n, BitVecVal(1 << 40, 64)))
            eng.assumed.add("allocations of more than 2^40 bytes are not followed")
        return Ptr(oid, 0)
    return f


for _n in ("malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception", "_ZnwmSt11align_val_t"):
    EXACT[_n] = malloc_like()


@ext("calloc")
def _(eng, st, fr, I, a):
    n = simp(bv(a[0], 64) * bv(a[1], 64))
    return malloc_like(True)(eng, st, fr, I, [n])


@ext("aligned_alloc")
def _(eng, st, fr, I, a):
    return malloc_like()(eng, st, fr, I, [a[1]])


@ext("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "__cxa_free_exception")
def _(eng, st, fr, I, a):
    p = a[0]
    if isinstance(p, BitVecRef):
        p = eng.resolve_ptr(st, p)
    if p.obj is None:
        if isint(p.off) and p.off == 0:
            return None
        eng.oblige(st, BoolVal(False), "memory", "free of an invalid pointer")
        raise PathEnd()
    o = st.objs.get(p.obj)
    if not isint(p.obj) or o.kind not in ("heap", "buf"):
        eng.oblige(st, BoolVal(False), "memory", "free of something that was not allocated")
        raise PathEnd()
    if o.freed:
        eng.oblige(st, BoolVal(False), "memory", "double free")
        raise PathEnd()
    eng.oblige(st, bv(p.off, 64) == 0, "memory", "free of an interior pointer")
    w = st.wobj(p.obj)
    w.freed = True
    eng.note_write(st, p.obj, None, None, "free")
    return None


@pre("llvm.memcpy", "llvm.memmove")
@ext("memcpy", "memmove")
def _(eng, st, fr, I, a):
    d, s = a[0], a[1]
    if isinstance(d, BitVecRef):
        d = eng.resolve_ptr(st, d)
    if isinstance(s, BitVecRef):
        s = eng.resolve_ptr(st, s)
    eng.memcpy(st, d, s, a[2])
    return a[0]


@pre("llvm.memset")
@ext("memset")
def _(eng, st, fr, I, a):
    v = a[1]
    if not isint(v) and v.size() > 8:
        v = Extract(7, 0, v)
    if isint(v):
        v &= 255
    eng.memset(st, a[0], v, a[2])
    return a[0]


@ext("memcmp", "bcmp")
def _(eng, st, fr, I, a):
    p, q, n = a
    n = simp(n) if not isint(n) else n
    if not isint(n):
        ln = eng.concretize(st, n, "memcmp length", 200)
    else:
        ln = n
    if ln == 0:
        return 0
    p = eng.bounds(st, p, ln, "memcmp")
    q = eng.bounds(st, q, ln, "memcmp")
    r = BitVecVal(0, 32)
    allc = True
    for i in reversed(range(ln)):
        x = eng.as_bv(eng.read(st, p.obj, eng.addoff(p.off, i), 1), 1, st)
        y = eng.as_bv(eng.read(st, q.obj, eng.addoff(q.off, i), 1), 1, st)
        if isint(x) and isint(y):
            if x != y:
                r = BitVecVal(1 if x > y else 0xffffffff, 32)
            continue
        x, y = bv(x, 8), bv(y, 8)
        r = If(x == y, r, If(UGT(x, y), BitVecVal(1, 32), BitVecVal(0xffffffff, 32)))
    return simp(r)


@ext("strlen")
def _(eng, st, fr, I, a):
    p = a[0]
    for i in range(4096):
        q = eng.bounds(st, Ptr(p.obj, eng.addoff(p.off, i)), 1, "strlen")
        b = eng.as_bv(eng.read(st, q.obj, q.off, 1), 1, st)
        if isint(b):
            if b == 0:
                return i
            continue
        if eng.decide(st, b == 0):
            return i
    raise Unsupported("strlen")


@ext("memchr")
def _(eng, st, fr, I, a):
    p, c, n = a
    ln = eng.concretize(st, simp(n), "memchr length", 64)
    c = simp(Extract(7, 0, bv(c, 32)))
    for i in range(ln):
        q = eng.bounds(st, Ptr(p.obj, eng.addoff(p.off, i)), 1, "memchr")
        b = eng.as_bv(eng.read(st, q.obj, q.off, 1), 1, st)
        if eng.decide(st, simp(bv(b, 8) == bv(c, 8))):
            return Ptr(p.obj, eng.addoff(p.off, i))
    return NULL


# ---------------------------------------------------------------- intrinsics without effect
def nop(eng, st, fr, I, a):
    return None


PREFIX += [(p, nop) for p in ("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.stackrestore",
                              "llvm.prefetch", "llvm.sideeffect", "llvm.var.annotation", "llvm.donothing", "llvm.pseudoprobe")]
PREFIX += [("llvm.expect", lambda eng, st, fr, I, a: a[0]), ("llvm.launder", lambda eng, st, fr, I, a: a[0]),
           ("llvm.strip", lambda eng, st, fr, I, a: a[0]), ("llvm.is.constant", lambda eng, st, fr, I, a: 0),
           ("llvm.stacksave", lambda eng, st, fr, I, a: NULL), ("llvm.threadlocal.address", lambda eng, st, fr, I, a: a[0]),
           ("llvm.objectsize", lambda eng, st, fr, I, a: (1 << 64) - 1), ("llvm.ptr.annotation", lambda eng, st, fr, I, a: a[0])]


@pre("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap")
@ext("abort", "_ZSt9terminatev", "__clang_call_terminate", "__assert_fail", "exit", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__cxa_pure_virtual")
def _(eng, st, fr, I, a):
    nm = I.x["callee"][1].v.name if I.x["callee"][0] == "c" else "trap"
    eng.oblige(st, BoolVal(False), "ub" if nm.startswith("llvm.") else "abort", nm.replace("llvm.", "") + " is not reached")
    raise PathEnd()


def map1(f):
    def h(eng, st, fr, I, a):
        if isinstance(a[0], list):
            return [f(eng, st, I, [x[k] if isinstance(x, list) else x for x in a], I.ty.elt) for k in range(len(a[0]))]
        return f(eng, st, I, a, I.ty)
    return h


def minmax(pred):
    def f(eng, st, I, a, ty):
        c = eng.icmp(st, pred, a[0], a[1], ty)
        return eng.sel1(st, c, a[0], a[1], ty)
    return map1(f)


PREFIX += [("llvm.smax", minmax("sgt")), ("llvm.smin", minmax("slt")), ("llvm.umax", minmax("ugt")), ("llvm.umin", minmax("ult"))]


def _abs(eng, st, I, a, ty):
    x = a[0]
    w = ty.width
    if isint(x):
        return abs(sgn(x, w)) & ((1 << w) - 1)
    return If(x < 0, -x, x)


PREFIX.append(("llvm.abs.", map1(_abs)))


@ext("abs", "labs", "llabs")
def _(eng, st, fr, I, a):
    return _abs(eng, st, I, a, I.ty)


def withovf(op, signed):
    def h(eng, st, fr, I, a):
        ty = I.ty.elts[0]
        w = ty.width
        r = eng.binop(st, op, a[0], a[1], ty)
        if isint(a[0]) and isint(a[1]):
            x, y = (sgn(a[0], w), sgn(a[1], w)) if signed else (a[0], a[1])
            t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            ov = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if signed else not (0 <= t < (1 << w))
            return [r, int(ov)]
        if isinstance(a[0], Ptr) or isinstance(a[1], Ptr):
            raise Unsupported("overflow on pointer")
        x, y = bv(a[0], w), bv(a[1], w)
        if op == "mul":
            ok = And(z3.BVMulNoOverflow(x, y, signed), z3.BVMulNoUnderflow(x, y)) if signed else z3.BVMulNoOverflow(x, y, False)
            return [r, simp(Not(ok))]
        X = SignExt(1, x) if signed else ZeroExt(1, x)
        Y = SignExt(1, y) if signed else ZeroExt(1, y)
        R = X + Y if op == "add" else X - Y
        rr = bv(r, w)
        return [r, simp(R != (SignExt(1, rr) if signed else ZeroExt(1, rr)))]
    return h


for _o in ("add", "sub", "mul"):
    PREFIX.append((f"llvm.s{_o}.with.overflow", withovf(_o, True)))
    PREFIX.append((f"llvm.u{_o}.with.overflow", withovf(_o, False)))


def satop(op, signed):
    def f(eng, st, I, a, ty):
        w = ty.width
        x, y = bv(a[0], w), bv(a[1], w)
        X = SignExt(2, x) if signed else ZeroExt(2, x)
        Y = SignExt(2, y) if signed else ZeroExt(2, y)
        R = X + Y if op == "add" else X - Y
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        L, H = BitVecVal(lo, w + 2), BitVecVal(hi, w + 2)
        return simp(Extract(w - 1, 0, If(R < L, L, If(R > H, H, R))))
    return map1(f)


for _o in ("add", "sub"):
    PREFIX.append((f"llvm.s{_o}.sat", satop(_o, True)))
    PREFIX.append((f"llvm.u{_o}.sat", satop(_o, False)))


def _ctpop(eng, st, I, a, ty):
    x, w = a[0], ty.width
    if isint(x):
        return bin(x).count("1")
    r = BitVecVal(0, w)
    for i in range(w):
        r = r + ZeroExt(w - 1, Extract(i, i, x))
    return r


def _ctlz(eng, st, I, a, ty):
    x, w = a[0], ty.width
    if isint(x):
        return w - x.bit_length()
    r = BitVecVal(w, w)
    for i in range(w):
        r = If(Extract(i, i, x) == 1, BitVecVal(w - 1 - i, w), r)
    return r


def _cttz(eng, st, I, a, ty):
    x, w = a[0], ty.width
    if isint(x):
        return w if x == 0 else (x & -x).bit_length() - 1
    r = BitVecVal(w, w)
    for i in reversed(range(w)):
        r = If(Extract(i, i, x) == 1, BitVecVal(i, w), r)
    return r


def _bswap(eng, st, I, a, ty):
    x, n = a[0], ty.width // 8
    if isint(x):
        return int.from_bytes(x.to_bytes(n, "little"), "big")
    return simp(Concat(*[Extract(8 * i + 7, 8 * i, x) for i in range(n)]))


def _fsh(left):
    def f(eng, st, I, a, ty):
        w = ty.width
        x, y, s = a
        if isint(s):
            s %= w
            if isint(x) and isint(y):
                c = (x << w) | y
                c = (c << s) >> w if left else c >> s
                return c & ((1 << w) - 1)
            c = Concat(bv(x, w), bv(y, w))
            return simp(Extract(2 * w - 1 - s, w - s, c) if left else Extract(w - 1 + s, s, c))
        c = Concat(bv(x, w), bv(y, w))
        sh = ZeroExt(w, z3.URem(bv(s, w), BitVecVal(w, w)))
        return simp(Extract(2 * w - 1, w, c << sh) if left else Extract(w - 1, 0, LShR(c, sh)))
    return f


PREFIX += [("llvm.ctpop", map1(_ctpop)), ("llvm.ctlz", map1(_ctlz)), ("llvm.cttz", map1(_cttz)), ("llvm.bswap", map1(_bswap)),
           ("llvm.fshl", map1(_fsh(True))), ("llvm.fshr", map1(_fsh(False)))]


def _usub(name, f):
    PREFIX.append((name, map1(f)))


def _cmp3(signed):
    def f(eng, st, I, a, ty):
        raise Unsupported("cmp3")
    return f


# ---------------------------------------------------------------- floating point
def fx(e, *args):
    return simplify(e) if all(z3.is_fp_value(x) for x in args if is_fp(x)) else e


def rti(mode):
    def f(eng, st, I, a, ty):
        v = a[0]
        if not z3.is_fp_value(v) and eng.dy_shape(st, v):
            d = eng.dyadic(st, v)
            if d is not None:
                x, k = d
                if k == 0:
                    return v
                # floor; toward zero only for non-negative values (a negative fraction gives -0)
                if mode.eq(z3.RTN()) or mode.eq(z3.RTZ()) and eng.valid_quick(st, x >= 0):
                    return eng.dy_make(st, x >> k, 0, v.sort())
        return fx(z3.fpRoundToIntegral(mode, v), v)
    return f


def fabs_(eng, st, I, a, ty):
    if not z3.is_fp_value(a[0]) and eng.dy_shape(st, a[0]):
        d = eng.dyadic(st, a[0])
        if d is not None:
            return eng.dy_make(st, If(d[0] < 0, -d[0], d[0]), d[1], a[0].sort())
    return fx(z3.fpAbs(a[0]), a[0])


def sqrt_(eng, st, I, a, ty):
    return fx(z3.fpSqrt(rne, a[0]), a[0])


def copysign_(eng, st, I, a, ty):
    x, y = a
    return fx(If(z3.fpIsNegative(y), z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)), x, y)


def fmin_(eng, st, I, a, ty):
    x, y = a
    return fx(If(z3.fpIsNaN(x), y, If(z3.fpIsNaN(y), x, If(z3.fpLT(y, x), y, x))), x, y)


def fmax_(eng, st, I, a, ty):
    x, y = a
    return fx(If(z3.fpIsNaN(x), y, If(z3.fpIsNaN(y), x, If(z3.fpGT(y, x), y, x))), x, y)


def fma_(eng, st, I, a, ty):
    return fx(z3.fpFMA(rne, *a), *a)


def fmuladd_(eng, st, I, a, ty):
    return fx(z3.fpAdd(rne, z3.fpMul(rne, a[0], a[1]), a[2]), *a)


RNA = z3.RNA()
for names, f in (("floor", rti(z3.RTN())), ("ceil", rti(z3.RTP())), ("trunc", rti(z3.RTZ())), ("rint", rti(rne)), ("nearbyint", rti(rne)),
                 ("round", rti(RNA)), ("roundeven", rti(rne)), ("fabs", fabs_), ("sqrt", sqrt_), ("copysign", copysign_),
                 ("minnum", fmin_), ("maxnum", fmax_), ("fma", fma_), ("fmuladd", fmuladd_)):
    PREFIX.append((f"llvm.{names}.", map1(f)))
    cn = {"minnum": "fmin", "maxnum": "fmax"}.get(names, names)
    for suf in ("", "f", "l"):
        EXACT[cn + suf] = (lambda g: lambda eng, st, fr, I, a: g(eng, st, I, a, I.ty))(f)


def lround_(mode):
    def f(eng, st, fr, I, a):
        v = z3.fpRoundToIntegral(mode, a[0])
        k = {F32: "float", F64: "double"}[a[0].sort()]
        return eng.fptoi(st, "fptosi", v, k, I.ty.width)
    return f


for _n in ("lround", "llround"):
    PREFIX.append((f"llvm.{_n}.", lround_(RNA)))
    for suf in ("", "f"):
        EXACT[_n + suf] = lround_(RNA)
for _n in ("lrint", "llrint"):
    PREFIX.append((f"llvm.{_n}.", lround_(rne)))
    for suf in ("", "f"):
        EXACT[_n + suf] = lround_(rne)


def _fptosat(op):
    def f(eng, st, fr, I, a):
        k = {F32: "float", F64: "double"}[a[0].sort()]
        return eng.fptoi(st, op, a[0], k, I.ty.width, True)
    return f


PREFIX += [("llvm.fptosi.sat", _fptosat("fptosi")), ("llvm.fptoui.sat", _fptosat("fptoui"))]


@pre("llvm.is.fpclass")
def _(eng, st, fr, I, a):
    x, m = a
    c = []
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    if m & 3:
        c.append(z3.fpIsNaN(x))
    if m & 4:
        c.append(And(neg, z3.fpIsInf(x)))
    if m & 8:
        c.append(And(neg, z3.fpIsNormal(x)))
    if m & 16:
        c.append(And(neg, z3.fpIsSubnormal(x)))
    if m & 32:
        c.append(And(neg, z3.fpIsZero(x)))
    if m & 64:
        c.append(And(pos, z3.fpIsZero(x)))
    if m & 128:
        c.append(And(pos, z3.fpIsSubnormal(x)))
    if m & 256:
        c.append(And(pos, z3.fpIsNormal(x)))
    if m & 512:
        c.append(And(pos, z3.fpIsInf(x)))
    return simp(Or(*c))


LIBM = None


def libm(name, args, S):
    """constant arguments: what this machine's libm gives"""
    global LIBM
    import ctypes, struct
    if LIBM is None:
        LIBM = ctypes.CDLL("libm.so.6")
    f32 = S == F32
    try:
        fn = getattr(LIBM, name + ("f" if f32 else ""))
    except AttributeError:
        return None
    ct = ctypes.c_float if f32 else ctypes.c_double
    vals = []
    for x in args:
        if x.sort() != S:
            return None
        if x.isNaN():
            vals.append(float("nan"))
            continue
        b = E.fp_bits(x)
        if b is None:
            return None
        vals.append(struct.unpack("<f" if f32 else "<d", struct.pack("<I" if f32 else "<Q", b.as_long()))[0])
    fn.restype, fn.argtypes = ct, [ct] * len(vals)
    r = fn(*vals)
    return z3.fpNaN(S) if r != r else z3.FPVal(r, S)


def uf(name, nargs):
    """libm function as an uninterpreted function: only f(x)=f(x) is assumed (and NaN in, NaN out is not)"""
    def h(eng, st, fr, I, a):
        def one(args):
            S = args[0].sort()
            if S in (F32, F64) and all(z3.is_fp_value(x) for x in args):
                r = libm(name, args, S)
                if r is not None:
                    return r
            f = z3.Function(name + "_" + str(S.ebits()), *[x.sort() for x in args], S)
            r = f(*args)
            if name == "pow" and S in (F32, F64):
                # ISO C, annex F
                x, y = args
                one, zero = z3.FPVal(1.0, S), z3.FPVal(0.0, S)
                eng.axiom(z3.Implies(z3.fpEQ(x, one), z3.fpEQ(r, one)))
                eng.axiom(z3.Implies(z3.fpIsZero(y), z3.fpEQ(r, one)))
                eng.axiom(z3.Implies(And(z3.fpIsZero(x), z3.fpGT(y, zero)), z3.fpIsZero(r)))
                eng.axiom(z3.Implies(z3.fpEQ(y, one), r == x))
            return r
        if isinstance(a[0], list):
            return [one([x[k] for x in a]) for k in range(len(a[0]))]
        return one(a[:nargs])
    return h


for _n, _k in (("pow", 2), ("exp", 1), ("exp2", 1), ("log", 1), ("log2", 1), ("log10", 1), ("sin", 1), ("cos", 1), ("tan", 1), ("asin", 1),
               ("acos", 1), ("atan", 1), ("atan2", 2), ("sinh", 1), ("cosh", 1), ("tanh", 1), ("cbrt", 1), ("exp10", 1), ("ldexp", 1), ("expm1", 1),
               ("log1p", 1), ("hypot", 2), ("erf", 1)):
    PREFIX.append((f"llvm.{_n}.", uf(_n, _k)))
    for suf in ("", "f"):
        EXACT[_n + suf] = uf(_n, _k)


@ext("fmod", "fmodf", "fmodl")
def _(eng, st, fr, I, a):
    return eng.fmod(st, a[0], a[1], I.ty.kind)


@ext("remainder", "remainderf", "remainderl")
def _(eng, st, fr, I, a):
    return eng.fremainder(st, a[0], a[1], I.ty.kind)


@pre("llvm.vector.reduce.")
def _(eng, st, fr, I, a):
    nm = I.x["callee"][1].v.name.split(".")[3]
    if nm in ("fadd", "fmul"):
        r = a[0]
        for x in a[1]:
            r = eng.fbin(st, nm, r, x, I.ty.kind)
        return r
    v = a[0]
    r = v[0]
    for x in v[1:]:
        if nm in ("add", "mul", "and", "or", "xor"):
            r = eng.binop(st, nm, r, x, I.ty)
        elif nm in ("smax", "smin", "umax", "umin"):
            c = eng.icmp(st, nm[0] + ("gt" if nm.endswith("max") else "lt"), r, x, I.ty)
            r = eng.sel1(st, c, r, x, I.ty)
        else:
            raise Unsupported("reduce " + nm)
    return r


# ---------------------------------------------------------------- C++ runtime
def throw_std(eng, st, ti):
    oid = eng.new_obj(st, 64, "heap", "exception")
    eng.throw(st, Ptr(oid, 0), ti)
    return NOADV


@ext("__cxa_throw")
def _(eng, st, fr, I, a):
    ti = a[1]
    nm = st.objs[ti.obj].name
    eng.throw(st, a[0], nm)
    return NOADV


@ext("__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def _(eng, st, fr, I, a):
    if not st.caught:
        raise Unsupported("rethrow")
    st.exn = st.caught[-1]
    eng.unwind(st)
    return NOADV


@ext("__cxa_begin_catch")
def _(eng, st, fr, I, a):
    st.caught.append(st.exn)
    return a[0]


@ext("__cxa_end_catch")
def _(eng, st, fr, I, a):
    if st.caught:
        st.caught.pop()
    return None


@ext("__cxa_get_exception_ptr")
def _(eng, st, fr, I, a):
    return a[0]


@pre("llvm.eh.typeid.for")
def _(eng, st, fr, I, a):
    return eng.typeid(st.objs[a[0].obj].name)


@ext("__gxx_personality_v0")
def _(eng, st, fr, I, a):
    raise Unsupported("personality")


@ext("__cxa_guard_acquire")
def _(eng, st, fr, I, a):
    b = eng.read(st, a[0].obj, a[0].off, 1)
    b = simp(eng.as_bv(b, 1, st))
    return 1 if isint(b) and b == 0 else 0


@ext("__cxa_guard_release")
def _(eng, st, fr, I, a):
    eng.write(st, a[0].obj, a[0].off, 1, 1)
    return None


@ext("_ZNSt6localeC1Ev", "_ZNSt6localeC2Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeD2Ev", "_ZNSt6localeC1ERKS_", "__cxa_guard_abort", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev",
     "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc",
     "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
     "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
     "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev",
     "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
def _(eng, st, fr, I, a):
    return None


@ext("__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock",
     "pthread_rwlock_unlock", "pthread_once", "sched_yield")
def _(eng, st, fr, I, a):
    return 0


@ext("isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower", "isxdigit", "isupper", "islower", "ispunct", "isprint")
def _(eng, st, fr, I, a):
    nm = I.x["callee"][1].v.name
    eng.assumed.add("C locale for <cctype>")
    c = bv(a[0], 32)

    def rng(lo, hi):
        return And(c >= ord(lo), c <= ord(hi))
    dig, up, lo = rng("0", "9"), rng("A", "Z"), rng("a", "z")
    if nm == "toupper":
        return simp(If(lo, c - 32, c))
    if nm == "tolower":
        return simp(If(up, c + 32, c))
    t = {"isspace": Or(c == 32, And(c >= 9, c <= 13)), "isdigit": dig, "isalpha": Or(up, lo), "isalnum": Or(up, lo, dig),
         "isxdigit": Or(dig, rng("a", "f"), rng("A", "F")), "isupper": up, "islower": lo,
         "isprint": And(c >= 32, c < 127), "ispunct": And(c > 32, c < 127, Not(Or(up, lo, dig)))}[nm]
    return simp(If(t, BitVecVal(1, 32), BitVecVal(0, 32)))


@ext("__errno_location")
def _(eng, st, fr, I, a):
    k = ("errno",)
    if k not in st.guards:
        st.guards[k] = eng.new_obj(st, 4, "global", "errno", ("zero",))
    return Ptr(st.guards[k], 0)
